// P23: names, entries, tokens and rules written and read.
#include "real.h"
using namespace rl;

// the classes and languages, their numbers and names, from the comments of the headers
struct Named { const char *name; int n; };
static const std::vector<Named> IN = { { "STOP", -1 }, { "NUMBER", 0 }, { "WORD", 1 }, { "TYPE", 2 }, { "QUALIF", 3 }, { "ROAD", 6 }, { "STOPWORD", 7 }, { "RR", 8 }, { "DASH", 9 }, { "CITY", 10 }, { "PROV", 11 }, { "NATION", 12 }, { "AMPERS", 13 }, { "BOXH", 14 }, { "ORD", 15 }, { "UNITH", 16 }, { "UNITT", 17 }, { "SINGLE", 18 }, { "BUILDH", 19 }, { "MILE", 20 }, { "DOUBLE", 21 }, { "DIRECT", 22 }, { "MIXED", 23 }, { "BUILDT", 24 }, { "FRACT", 25 }, { "PCT", 26 }, { "PCH", 27 }, { "QUINT", 28 }, { "QUAD", 29 }, { "PUNCT", 30 }, { "SPACE", 31 }, { "PLACEN", 32 }, { "EMDASH", 33 }, { "SLASH", 34 }, { "ATSIGN", 35 }, { "COMMA", 36 }, { "BADTOKEN", 99 } };
static const std::vector<Named> OUT = { { "STOP", -1 }, { "BLDNG", 0 }, { "HOUSE", 1 }, { "PREDIR", 2 }, { "QUALIF", 3 }, { "PRETYP", 4 }, { "STREET", 5 }, { "SUFTYP", 6 }, { "SUFDIR", 7 }, { "RR", 8 }, { "EXTRA", 9 }, { "CITY", 10 }, { "PROV", 11 }, { "NATION", 12 }, { "POSTAL", 13 }, { "BOXH", 14 }, { "BOXT", 15 }, { "UNITH", 16 }, { "UNITT", 17 }, { "IGNORE", 98 }, { "BADTOKEN", 99 } };
static const std::vector<std::pair<str,str> > LANG = { { "ALB", "ALBANIAN" }, { "ARA", "ARABIC" }, { "BAQ", "BASQUE" }, { "BEL", "BELARUSIAN" }, { "BET", "BELARUSIAN_TRANSCRIBED" }, { "BEX", "BELARUSIAN_TRANSLITERATED" }, { "BOS", "BOSNIAN" }, { "BOX", "BOSNIAN_TRANSLITERATED" }, { "BUL", "BULGARIAN" }, { "BUT", "BULGARIAN_TRANSCRIBED" }, { "BUX", "BULGARIAN_TRANSLITERATED" }, { "CAT", "CATALAN" }, { "CHI", "CHINESE_MODERN" }, { "CHT", "CHINESE_TRADITIONAL" }, { "CZE", "CZECH" }, { "CZX", "CZECH_TRANSLITERATED" }, { "DAN", "DANISH" }, { "DUT", "DUTCH" }, { "ENG", "ENGLISH" }, { "EST", "ESTONIAN" }, { "ESX", "ESTONIAN_TRANSLITERATED" }, { "FIN", "FINNISH" }, { "FRE", "FRENCH" }, { "GER", "GERMAN" }, { "GLG", "GALICIAN" }, { "GRE", "GREEK" }, { "GRN", "GUARANI" }, { "GRT", "GREEK_TRANSCRIBED" }, { "GRX", "GREK_TRANSLITERATED" }, { "HEB", "HEBREW" }, { "HUN", "HUNGARIAN" }, { "HUX", "HUNGARIAN_TRANSLITERATED" }, { "IND", "BAHASA_INDONESIA" }, { "ITA", "ITALIAN" }, { "KOR", "KOREAN" }, { "KOX", "KOREAN_TRANSLITERATED" }, { "LAV", "LATVIAN" }, { "LAX", "LATVIAN_TRANSLITERATED" }, { "LIT", "LITHUANIAN" }, { "LIX", "LITHUANIAN_TRANSLITERATED" }, { "MAC", "MACEDONIAN" }, { "MAT", "MACEDONIAN_TRANSCRIBED" }, { "MAY", "MALAYSIAN" }, { "MLT", "MALTESE" }, { "MLX", "MALTESE_TRANSLITERATED" }, { "MNE", "MONTENEGRIN" }, { "MNX", "MONTENEGRIN_TRANSLITERATED" }, { "MOL", "MOLDOVAN" }, { "MOX", "MOLDOVAN_TRANSLITERATED" }, { "NOR", "NORWEGIAN" }, { "POL", "POLISH" }, { "POR", "PORTUGUESE" }, { "POX", "POLISH_TRANSLITERATED" }, { "PYN", "PINYIN" }, { "RMX", "ROMANIAN_TRANSLITERATED" }, { "RST", "RUSSIAN_TRANSCRIBED" }, { "RUM", "ROMANIAN" }, { "RUS", "RUSSIAN" }, { "RUX", "RUSSIAN_TRANSLITERATED" }, { "SCR", "CROATIAN" }, { "SCT", "SERBIAN_TRANSCRIBED" }, { "SCX", "SERBIAN_TRANSLITERATED" }, { "SIX", "SLOVENIAN_TRANSLITERATED" }, { "SLO", "SLOVAK" }, { "SLV", "SLOVENIAN" }, { "SLX", "SLOVAK_TRANSLITERATED" }, { "SPA", "SPANISH" }, { "SRB", "SERBIAN" }, { "SRX", "CROATION_TRANSLITERATED" }, { "SWE", "SWEDISH" }, { "THA", "THAI" }, { "TKT", "TURKISH_TRANSCRIBED" }, { "TUR", "TURKISH" }, { "TUX", "TURKISH_TRANSLITERATED" }, { "UKR", "UKRAINIAN" }, { "UKT", "UKRAINIAN_TRANSCRIBED" }, { "UKX", "UKRAINIAN_TRANSLITERATED" }, { "WEL", "WELSH" } };
static const vs ATT = { "DET_PRE", "DET_SUF", "ATT_PRE", "ATT_SUF" };


// names that are almost one
static vs near( const str &s ) {
    vs r = { s + " ", " " + s, s + "S", s + s, md::lower( s, "en_US" ), s + "\xC2\xA0", "X" + s, s + "\t", s + "0" };
    for ( size_t i = 0; i < s.size(); ++i ) {
        r.push_back( s.substr( 0, i ) + s.substr( i + 1 ) );
        r.push_back( s.substr( 0, i ) + s[i] + s.substr( i ) );
        str t = s; t[i] ^= 0x20; r.push_back( t );
        if ( i ) { t = s; std::swap( t[i], t[i - 1] ); r.push_back( t ); }
    }
    return r;
}
static int inNo( const str &s ) { for ( auto &e : IN ) if ( s == e.name ) return e.n; return 99; }
static int outNo( const str &s ) { for ( auto &e : OUT ) if ( s == e.name ) return e.n; return 99; }
static int langNo( const str &s ) { for ( size_t i = 0; i < LANG.size(); ++i ) if ( s == LANG[i].first or s == LANG[i].second ) return i; return -1; }
static std::set<int> nums( const std::set<InClass::Type> &s ) { std::set<int> r; for ( auto e : s ) r.insert( e ); return r; }
static std::set<int> anums( const std::set<InClass::AttachType> &s ) { std::set<int> r; for ( auto e : s ) r.insert( e ); return r; }
static str nlist( const std::set<int> &s ) { str o; for ( int e : s ) o += std::to_string( e ) + " "; return o; }
template<class V> static str rendered( const V &v ) { std::ostringstream o; o << v; return o.str(); }
static vs fields( const str &s ) { vs r( 1 ); for ( char c : s ) if ( c == '\t' ) r.push_back( "" ); else r.back() += c; return r; }
static str trimmed( const str &s ) { return md::trimBlank( s ); }

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    x.phase( "every class, language and flag, and names that are almost one" );
    for ( auto &e : IN ) x.run( [&]{ return str( "input class " ) + e.name; }, [&]{
        str s = e.name;
        x.require( (int) InClass::asOneType( s ) == e.n, "read as " + std::to_string( InClass::asOneType( s ) ) );
        x.eq( InClass::asString( (InClass::Type) e.n ), s, "written" );
        x.require( (int) InClass::asType( e.n ) == e.n, "number read as " + std::to_string( InClass::asType( e.n ) ) );
        x.require( nums( InClass::asType( s ) ) == std::set<int>{ e.n }, "list read as " + nlist( nums( InClass::asType( s ) ) ) );
        for ( auto &t : near( s ) ) x.require( (int) InClass::asOneType( t ) == inNo( t ), show( t ) + " read as " + InClass::asString( InClass::asOneType( t ) ) );
        x.outcome( "in " + s );
    } );
    for ( auto &e : OUT ) x.run( [&]{ return str( "output class " ) + e.name; }, [&]{
        str s = e.name;
        x.require( (int) OutClass::asType( s ) == e.n, "read as " + std::to_string( OutClass::asType( s ) ) );
        x.eq( OutClass::asString( (OutClass::Type) e.n ), s, "written" );
        x.require( (int) OutClass::asType( e.n ) == e.n, "number read as " + std::to_string( OutClass::asType( e.n ) ) );
        for ( auto &t : near( s ) ) x.require( (int) OutClass::asType( t ) == outNo( t ), show( t ) + " read as " + OutClass::asString( OutClass::asType( t ) ) );
        x.outcome( "out " + s );
    } );
    for ( int lo = -1000; lo < 1000; lo += 100 ) x.run( [&]{ return "class numbers from " + std::to_string( lo ); }, [&]{
        for ( int i = lo; i < lo + 100; ++i ) {
            bool in = false, out = false;
            for ( auto &e : IN ) if ( e.n == i ) in = true;
            for ( auto &e : OUT ) if ( e.n == i ) out = true;
            x.require( (int) InClass::asType( i ) == ( in ? i : 99 ), "input class number " + std::to_string( i ) + " read as " + std::to_string( InClass::asType( i ) ) );
            x.require( (int) OutClass::asType( i ) == ( out ? i : 99 ), "output class number " + std::to_string( i ) + " read as " + std::to_string( OutClass::asType( i ) ) );
        }
        x.outcome( std::to_string( lo ) );
    } );
    for ( size_t i = 0; i < LANG.size(); ++i ) x.run( [&]{ return "language " + LANG[i].first; }, [&]{
        InClass::Lang l = (InClass::Lang) i;
        x.eq( InClass::asString( l ), LANG[i].first, "code" );
        x.eq( InClass::asName( l ), LANG[i].second, "name" );
        x.require( InClass::asLang( LANG[i].first ) == l, "code read as " + InClass::asString( InClass::asLang( LANG[i].first ) ) );
        x.require( InClass::asLang( LANG[i].second ) == l, "name read as " + InClass::asString( InClass::asLang( LANG[i].second ) ) );
        for ( auto &n : { LANG[i].first, LANG[i].second } ) for ( auto &t : near( n ) ) x.require( (int) InClass::asLang( t ) == langNo( t ), show( t ) + " read as " + InClass::asString( InClass::asLang( t ) ) );
        x.outcome( "lang " + LANG[i].first );
    } );
    x.run( [&]{ return str( "no language" ); }, [&]{
        x.eq( InClass::asString( InClass::UNKNOWN ) + InClass::asName( InClass::UNKNOWN ), "UNKNOWNUNKNOWN", "written" );
        for ( auto &s : { "", "UNKNOWN", "ZZZ" } ) x.require( InClass::asLang( s ) == InClass::UNKNOWN, str( s ) + " read as a language" );
        x.outcome( "lang none", false );
    } );

    x.phase( "every set of up to 3 (4) input classes in several spellings" );
    const vs none = { "NONSUCH", "X", "9", "0", "_", "-", "WORDX", "WOR", "word", "99", "\xC3\xA9" };
    auto lists = [&]( const std::vector<int> &v, const std::vector<Named> &N ) {
        vs n; std::set<int> want;
        for ( int i : v ) { n.push_back( N[i].name ); want.insert( N[i].n ); }
        x.run( [&]{ return "classes " + join( n, "," ); }, [&]{
            str f = InClass::asString( InClass::asType( join( n, "," ) ) );
            std::set<InClass::Type> st; for ( int k : want ) st.insert( (InClass::Type) k );
            x.require( InClass::asString( st ) == f, "written as " + InClass::asString( st ) + " and " + f );
            x.require( nums( InClass::asType( f ) ) == want, "the written form " + f + " is read as " + nlist( nums( InClass::asType( f ) ) ) );
            vs r( n.rbegin(), n.rend() );
            for ( auto &s : { join( n, "," ), join( r, "," ), join( n, ", " ), " " + join( r, " , " ) + " ", join( n, ",," ), join( n, "," ) + ",", "," + join( r, "," ), join( n, "," ) + "," + join( n, "," ) } )
                if ( n.size() or s.find( ' ' ) == str::npos )
                x.require( nums( InClass::asType( s ) ) == want, show( s ) + " is read as " + nlist( nums( InClass::asType( s ) ) ) );
            if ( n.size() > 0 ) { std::set<int> b = want; b.insert( 99 ); for ( auto &no : none ) x.require( nums( InClass::asType( no + "," + join( n, "," ) ) ) == b and nums( InClass::asType( join( n, "," ) + "," + no ) ) == b, "the unknown name " + show( no ) + " is lost" ); }
            x.outcome( f, n.size() > 0 );
        } );
    };
    int K = IN.size();
    lists( {}, IN );
    for ( int a = 0; a < K; ++a ) { lists( { a }, IN ); for ( int b = a + 1; b < K; ++b ) { lists( { a, b }, IN ); for ( int c = b + 1; c < K; ++c ) { lists( { a, b, c }, IN ); for ( int d = c + 1; d < K and ( T or d < c + 3 ); ++d ) lists( { a, b, c, d }, IN ); } } }
    { std::vector<int> all; for ( int a = 0; a < K; ++a ) all.push_back( a ); lists( all, IN ); for ( int a = 0; a < K; ++a ) { auto s = all; s.erase( s.begin() + a ); lists( s, IN ); } }

    x.phase( "every sequence of up to 4 attachment flags, known or not" );
    vs fl = ATT; fl.push_back( "DETACHED" ); fl.push_back( "NONE" ); fl.push_back( "" );
    mc::sequences( fl.size(), 0, T ? 5 : 4, [&]( const std::vector<int> &v ) {
        vs n; std::set<int> w;
        for ( int i : v ) { n.push_back( fl[i] ); if ( i < 4 ) w.insert( i ); }
        x.run( [&]{ return "flags " + show( join( n, "," ) ); }, [&]{
            for ( auto &s : { join( n, "," ), join( n, " , " ) } ) x.require( n.size() and s.find( " , " ) == 0 ? true : anums( InClass::asAttachType( s ) ) == w, show( s ) + " is read as " + nlist( anums( InClass::asAttachType( s ) ) ) );
            auto st = InClass::asAttachType( join( n, "," ) );
            str f = InClass::asString( st ), g;
            for ( int i = 0; i < 4; ++i ) if ( w.count( i ) ) g += ( g.size() ? "," : "" ) + ATT[i];
            x.eq( f, g, "written" );
            x.require( InClass::asAttachType( f ) == st, "the written form " + f + " is read as " + nlist( anums( InClass::asAttachType( f ) ) ) );
            LexEntry e( "A", "B", "WORD", join( n, "," ) );
            bool dp = w.count( 0 ), ds = w.count( 1 ), ap = w.count( 2 ), as = w.count( 3 );
            x.require( e.isPrefix() == ( dp or ap ) and e.isSuffix() == ( ds or as ) and e.isAttached() == ( ap or as ) and e.isDetached() == ( w.empty() or dp or ds ) and e.isPrefixAttached() == ap and e.isSuffixAttached() == as, "an entry with these flags answers " + std::to_string( e.isPrefix() ) + std::to_string( e.isSuffix() ) + std::to_string( e.isAttached() ) + std::to_string( e.isDetached() ) + std::to_string( e.isPrefixAttached() ) + std::to_string( e.isSuffixAttached() ) );
            x.outcome( "flags " + f + std::to_string( n.size() ), n.size() > 0 );
        } );
    } );

    x.phase( "every lexicon entry over small sets of words, classes and flags" );
    vs words = { "A", "LEXENTRY", "ST JOHN", "A,B", "\xC3\x89", " A", "A ", "1/2", "TOKEN:", "->", "#", "LEXENTRY:" }, six = { "WORD", "TYPE", "STOP", "NUMBER", "COMMA", "BADTOKEN" };
    std::vector<vs> sets( 1 );
    for ( size_t a = 0; a < six.size(); ++a ) { sets.push_back( { six[a] } ); for ( size_t b = a + 1; b < six.size(); ++b ) sets.push_back( { six[a], six[b] } ); }
    sets.push_back( six );
    for ( auto &w : words ) for ( auto &s : words ) for ( auto &c : sets ) for ( int m = 0; m < 16; ++m ) {
        if ( not T and w != words[0] and s != words[0] and w != s and m % 5 ) continue;
        vs at; for ( int b = 0; b < 4; ++b ) if ( m >> b & 1 ) at.push_back( ATT[b] );
        x.run( [&]{ return "entry " + show( w ) + " " + show( s ) + " " + join( c, "," ) + " " + join( at, "," ); }, [&]{
            LexEntry e( w, s, join( c, "," ), join( at, "," ) );
            std::set<int> wc, wa;
            for ( auto &k : c ) wc.insert( inNo( k ) );
            for ( int b = 0; b < 4; ++b ) if ( m >> b & 1 ) wa.insert( b );
            auto is = [&]( const LexEntry &r, const str &how ) {
                x.require( r.word() == w and r.stdword() == s and nums( r.type() ) == wc and anums( r.attached() ) == wa, how + " gives " + show( rendered( r ) ) );
                x.require( r == e and not ( r != e ), how + " is not equal to it" );
                for ( auto &k : IN ) x.require( r.isInClass( (InClass::Type) k.n ) == ( wc.count( k.n ) > 0 ), how + " answers wrongly for " + k.name );
            };
            is( e, "made of its fields" );
            str t = rendered( e );
            vs f = fields( t );
            x.require( f.size() == 5 and f[0] == "LEXENTRY:" and f[1] == w and f[2] == s and nums( InClass::asType( f[3] ) ) == wc and anums( InClass::asAttachType( f[4] ) ) == wa, "written as " + show( t ) );
            is( LexEntry( t ), "read back" );
            is( LexEntry( "LexEntry:" + t.substr( 9 ) ), "read with the other keyword" );
            if ( w != "LEXENTRY:" ) is( LexEntry( t.substr( 10 ) ), "read without the keyword" );
            is( LexEntry( t + "\tmore" ), "read with one more field" );
            LexEntry g; g.word( w ); g.stdword( s ); g.attached( InClass::asAttachType( join( at, "," ) ) );
            for ( auto &k : c ) g.type( InClass::asOneType( k ) );
            is( g, "set field by field" );
            // a change of any field makes it another
            LexEntry o( e ); o.word( w + "X" ); x.require( o != e and not ( o == e ) and rendered( o ) != t, "another word makes no difference" );
            o = e; o.stdword( s + "X" ); x.require( o != e and rendered( o ) != t, "another standard form makes no difference" );
            o = e; o.type( InClass::ROAD ); x.require( o != e and rendered( o ) != t, "another class makes no difference" );
            o = e; auto a2 = e.attached(); if ( not a2.erase( InClass::ATT_PRE ) ) a2.insert( InClass::ATT_PRE ); o.attached( a2 ); x.require( o != e and rendered( o ) != t, "another flag makes no difference" );
            o = e; o.set( "Q", "R", InClass::QUAD ); x.require( o.word() == "Q" and o.stdword() == "R" and nums( o.type() ) == std::set<int>{ 29 }, "set gives " + rendered( o ) );
            x.outcome( t );
        } );
    }

    x.phase( "lists of every number of classes, long words and long rules" );
    for ( int n = 1; n <= 160; n += n < 45 ? 1 : 23 ) for ( int st = 0; st < 3; ++st ) {
        vs names; std::set<int> wc;
        for ( int i = 0; i < n and i < (int) IN.size(); ++i ) { auto &k = IN[ st == 0 ? i : st == 1 ? IN.size() - 1 - i : ( i * 7 + 3 ) % IN.size() ]; names.push_back( k.name ); wc.insert( k.n ); }
        str w( n, 'W' ), s; for ( int i = 0; i < n; ++i ) s += i % 4 ? "\xC3\x89" : "X";
        x.run( [&]{ return "entry and token with " + join( names, "," ) + " and words of " + std::to_string( n ) + " letters"; }, [&]{
            x.require( nums( InClass::asType( join( names, "," ) ) ) == wc, "the list is read as " + nlist( nums( InClass::asType( join( names, "," ) ) ) ) );
            LexEntry e( w, s, join( names, "," ), "ATT_SUF,DET_PRE" );
            auto is = [&]( const LexEntry &r, const str &how ) { x.require( r.word() == w and r.stdword() == s and nums( r.type() ) == wc and anums( r.attached() ) == std::set<int>{ 0, 3 }, how + " gives " + show( rendered( r ) ) ); };
            is( e, "made of its fields" );
            is( LexEntry( rendered( e ) ), "read back" );
            is( LexEntry( "LEXENTRY:\t" + w + "\t" + s + "\t" + join( names, ", " ) + "\tATT_SUF , DET_PRE" ), "read with blanks" );
            Token t; t.text( w ); t.stdtext( s ); t.inclass( InClass::asType( join( names, "," ) ) ); t.outclass( OutClass::CITY );
            Token b( rendered( t ) );
            x.require( b.text() == w and b.stdtext() == s and nums( b.inclass() ) == wc and b.outclass() == OutClass::CITY, "the token is read back as " + show( rendered( b ) ) );
            x.outcome( rendered( e ) );
        } );
        x.run( [&]{ return "rule of " + std::to_string( n ) + " tokens"; }, [&]{
            vs i, o; for ( int k = 0; k < n; ++k ) { i.push_back( IN[ ( k * ( st + 1 ) + st ) % IN.size() ].name ); o.push_back( OUT[ ( k * ( st + 2 ) ) % OUT.size() ].name ); }
            str t = join( i, " " ) + " -> " + join( o, " " ) + " -> 0.25";
            Rule q( t ), c( q ), p( rendered( q ) ), both = q + p;
            x.require( q.inSize() == (size_t) n and q.outSize() == (size_t) n and both.inSize() == 2 * (size_t) n and both.outSize() == 2 * (size_t) n, "read as " + rendered( q ) + ", twice as " + rendered( both ) );
            std::vector<InClass::Type> v;
            for ( int k = 0; k < n; ++k ) {
                v.push_back( InClass::asOneType( i[k] ) );
                for ( auto *r : { &q, &c, &p } ) x.require( (int) r->in( k ) == inNo( i[k] ) and (int) r->out( k ) == outNo( o[k] ), "read as " + rendered( *r ) );
                x.require( both.in( n + k ) == q.in( k ) and both.out( n + k ) == q.out( k ) and both.in( k ) == q.in( k ), "twice: " + rendered( both ) );
            }
            x.require( q.match( v ), "does not match its classes" );
            for ( int k = 0; k < n; ++k ) { auto z = v; z[k] = v[k] == InClass::WORD ? InClass::TYPE : InClass::WORD; x.require( not q.match( z ), "matches although class " + std::to_string( k ) + " differs" ); }
            auto z = v; z.pop_back(); x.require( not q.match( z ), "matches a shorter list" );
            z = v; z.push_back( InClass::WORD ); x.require( q.match( z ), "does not match at the begin of a longer list" );
            x.outcome( t );
        } );
    }

    x.phase( "every token over small sets of texts and classes" );
    vs texts = { "A", "ST JOHN", "\xC3\x89", "->", " " };
    for ( auto &w : texts ) for ( auto &s : texts ) for ( auto &c : sets ) for ( auto &u : OUT ) for ( int m : { 0, 1, 6, 15 } ) {
        if ( not T and c.size() > 1 and u.n > 3 and m ) continue;
        x.run( [&]{ return "token " + show( w ) + " " + show( s ) + " " + join( c, "," ) + " " + u.name + " flags " + std::to_string( m ); }, [&]{
            vs at; std::set<int> wa, wc;
            for ( int b = 0; b < 4; ++b ) if ( m >> b & 1 ) { at.push_back( ATT[b] ); wa.insert( b ); }
            for ( auto &k : c ) wc.insert( inNo( k ) );
            Token t; t.text( w ); t.stdtext( s ); t.outclass( (OutClass::Type) u.n );
            for ( auto &k : c ) t.inclass( InClass::asOneType( k ) );
            for ( int b : wa ) t.attached( (InClass::AttachType) b );
            auto is = [&]( const Token &r, const str &how ) { x.require( r.text() == w and r.stdtext() == s and nums( r.inclass() ) == wc and (int) r.outclass() == u.n and anums( r.attached() ) == wa and r.inSize() == wc.size() and r.isInClassEmpty() == wc.empty(), how + " gives " + show( rendered( r ) ) ); };
            is( t, "set field by field" );
            str f = rendered( t );
            is( Token( f ), "read back" );
            if ( w != "TOKEN:" ) is( Token( f.substr( 7 ) ), "read without the keyword" );
            is( Token( w + "\t" + s + "\t" + join( c, "," ) + "\t" + u.name + "\t" + join( at, "," ) ), "read from its fields" );
            for ( auto &k : IN ) x.require( t.isInClass( (InClass::Type) k.n ) == ( wc.count( k.n ) > 0 ), str( "answers wrongly for " ) + k.name );
            for ( auto &k : sets ) { bool any = false; std::set<InClass::Type> q; for ( auto &z : k ) { q.insert( InClass::asOneType( z ) ); if ( wc.count( inNo( z ) ) ) any = true; } x.require( t.isInClass( q ) == any, "answers wrongly for " + join( k, "," ) ); }
            t.inclass( InClass::asType( "ROAD" ) ); x.require( nums( t.inclass() ) == std::set<int>{ 6 }, "replacing the classes keeps old ones" );
            x.outcome( f );
        } );
    }

    x.phase( "every rule of up to 2 (3) tokens over small sets, and every class in a rule" );
    vs scores = { "0.05", "0.5", "0.95", "1", "0.125", "0.000001", "123456", "0.333333", "1e-05", "2.5" };
    struct R { vs in, out; str score; };
    auto rule = [&]( const R &r ) {
        x.run( [&]{ return "rule " + join( r.in, " " ) + " -> " + join( r.out, " " ) + " -> " + r.score; }, [&]{
            bool bad = r.in.size() != r.out.size() or not ( atof( r.score.c_str() ) > 0 );
            str t = join( r.in, " " ) + ( r.in.empty() ? "-> " : " -> " ) + join( r.out, " " ) + ( r.out.empty() ? "-> " : " -> " ) + r.score;
            bool threw = false;
            try { Rule q( t ); } catch ( std::runtime_error &e ) { threw = str( e.what() ).size() > 0; }
            x.require( threw == bad, threw ? "rejected" : "accepted" );
            if ( not bad ) for ( auto &spelt : { t, t + "  ", " \t" + t, str( "\t" ) + t + "\t" } ) {
                Rule q( spelt );
                auto is = [&]( const Rule &q, const str &how ) {
                    bool ok = q.inSize() == r.in.size() and q.outSize() == r.out.size() and q.score() == (float) atof( r.score.c_str() ) and q.isValid() and not q.isEmpty();
                    for ( size_t i = 0; ok and i < r.in.size(); ++i ) ok = (int) q.in( i ) == inNo( r.in[i] ) and (int) q.out( i ) == outNo( r.out[i] ) and q.in()[i] == q.in( i ) and q.out()[i] == q.out( i ) and q.begin()[i] == q.in( i );
                    ok = ok and q.in( r.in.size() ) == InClass::BADTOKEN and q.out( r.in.size() + 1 ) == OutClass::BADTOKEN and q.end() - q.begin() == (long) r.in.size();
                    x.require( ok, how + " gives " + show( rendered( q ) ) );
                };
                is( q, "reading " + show( spelt ) );
                is( Rule( rendered( q ) ), "reading back " + show( rendered( q ) ) );
                x.eq( rendered( Rule( rendered( q ) ) ), rendered( q ), "written again" );
                Rule c( q ); is( c, "a copy" );
                c.clear(); x.require( c.isEmpty() and c.inSize() == 0 and c.outSize() == 0 and c.score() == 0, "cleared: " + rendered( c ) );
                is( q, "after clearing the copy" );
            }
            x.outcome( t, not bad );
        } );
    };
    for ( auto &i : IN ) for ( auto &o : OUT ) rule( R{ { i.name }, { o.name }, "0.5" } );
    vs ic = { "WORD", "NUMBER", "STOP" }, oc = { "STREET", "STOP" };
    std::vector<vs> il, ol;
    mc::sequences( 3, 0, T ? 3 : 2, [&]( const std::vector<int> &v ) { vs s; for ( int i : v ) s.push_back( ic[i] ); il.push_back( s ); } );
    mc::sequences( 2, 0, T ? 3 : 2, [&]( const std::vector<int> &v ) { vs s; for ( int i : v ) s.push_back( oc[i] ); ol.push_back( s ); } );
    for ( auto &a : il ) for ( auto &b : ol ) for ( auto &s : scores ) rule( R{ a, b, s } );
    for ( auto &s : { "0", "-1", "-0.5", "0.0", "", "x" } ) rule( R{ { "WORD" }, { "STREET" }, s } );

    x.phase( "every pair of rules of up to 2 (3) tokens put together and matched" );
    std::vector<R> rs;
    for ( auto &a : il ) for ( auto &s : { "0.5", "0.75", "0.25" } ) { vs o; for ( size_t i = 0; i < a.size(); ++i ) o.push_back( oc[( i + a.size() ) % 2] ); rs.push_back( R{ a, o, s } ); }
    auto text = []( const R &r ) { return join( r.in, " " ) + " -> " + join( r.out, " " ) + " -> " + r.score; };
    std::vector<vs> pats;
    mc::sequences( 3, 0, T ? 5 : 4, [&]( const std::vector<int> &v ) { vs s; for ( int i : v ) s.push_back( ic[i] ); pats.push_back( s ); } );
    for ( auto &a : rs ) for ( auto &b : rs ) x.run( [&]{ return "rules " + text( a ) + " and " + text( b ); }, [&]{
        Rule p( text( a ) ), q( text( b ) );
        R w = a;
        w.in.insert( w.in.end(), b.in.begin(), b.in.end() ); w.out.insert( w.out.end(), b.out.begin(), b.out.end() );
        for ( int way = 0; way < 2; ++way ) {
            Rule c = way ? p + q : p.concat( q );
            bool ok = c.inSize() == w.in.size() and c.outSize() == w.out.size() and c.score() == (float) ( ( atof( a.score.c_str() ) + atof( b.score.c_str() ) ) / 2 );
            for ( size_t i = 0; ok and i < w.in.size(); ++i ) ok = (int) c.in( i ) == inNo( w.in[i] ) and (int) c.out( i ) == outNo( w.out[i] );
            x.require( ok, "together give " + rendered( c ) );
            for ( auto &t : pats ) {
                std::vector<InClass::Type> v; for ( auto &k : t ) v.push_back( InClass::asOneType( k ) );
                bool m = t.size() >= w.in.size() and std::equal( w.in.begin(), w.in.end(), t.begin() ), m1 = t.size() >= a.in.size() and std::equal( a.in.begin(), a.in.end(), t.begin() );
                x.require( c.match( v ) == m, "together " + str( m ? "do not match " : "match " ) + join( t, " " ) );
                x.require( p.match( v ) == m1, "the first " + str( m1 ? "does not match " : "matches " ) + join( t, " " ) );
            }
        }
        x.eq( rendered( p ) + rendered( q ), rendered( Rule( text( a ) ) ) + rendered( Rule( text( b ) ) ), "the rules afterwards" );
        x.outcome( text( a ) + text( b ) );
    } );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P23";
    o.rule = "one evaluation per name, list, entry, token, rule and pair of rules, each written and read in several spellings; distinct outcomes are distinct written forms";
    o.assumptions = { "scores with up to six significant digits; the mark of a token found in the lexicon is not part of its written form" };
    return mc::main( argc, argv, o, explore );
}
