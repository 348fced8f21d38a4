// P07: loading lexicon texts, compared with a line parser.
#include "real.h"
using namespace rl;

struct Want { bool ok; str lang, why; md::Lex lex; };

static const char *const KNOWN[] = { "CITY", "TYPE", "WORD", "NUMBER", "DIRECT", "PROV", "STOPWORD" };

static Want model( const str &text ) {
    Want w; w.ok = false;
    vs lines;
    str t;
    for ( char c : text ) { if ( c == '\n' ) { lines.push_back( t ); t.clear(); } else t += c; }
    if ( t.size() ) lines.push_back( t );
    for ( auto &l : lines ) if ( l.size() and l[l.size()-1] == '\r' ) l.erase( l.size() - 1 );
    if ( lines.size() and lines[0].compare( 0, 3, "\xEF\xBB\xBF" ) == 0 ) lines[0] = lines[0].substr( 3 );
    auto fields = []( const str &s ) { vs r( 1 ); for ( char c : s ) { if ( c == '\t' ) r.push_back( "" ); else r.back() += c; } return r; };
    auto isEntry = []( const str &s ) { return s.compare( 0, 9, "LEXENTRY:" ) == 0 or s.compare( 0, 9, "LexEntry:" ) == 0; };
    auto list = []( const str &s ) { std::set<str> r; for ( auto e : md::parseCsv( s ) ) { size_t a = e.find_first_not_of( ' ' ); if ( a == str::npos ) continue; r.insert( e.substr( a, e.find_last_not_of( ' ' ) - a + 1 ) ); } return r; };
    size_t i = 0;
    for ( ; i < lines.size() and lines[i].compare( 0, 8, "LEXICON:" ); ++i ) if ( isEntry( lines[i] ) ) { w.why = "entry before the header"; return w; }
    if ( i == lines.size() ) { w.why = "no header"; return w; }
    vs h = fields( lines[i] );
    w.lang = h.size() > 2 and ( h[2] == "ENG" or h[2] == "FRE" or h[2] == "TUR" or h[2] == "GER" ) ? h[2] : "UNKNOWN";
    w.lex.locale = h.size() > 3 ? h[3] : "";
    for ( ++i; i < lines.size(); ++i ) {
        str l;
        for ( char c : lines[i] ) if ( c != ' ' or l.empty() or l[l.size()-1] != ' ' ) l += c;
        if ( l.empty() ) continue;
        if ( not isEntry( l ) ) { w.why = "no entry"; return w; }
        vs f = fields( l );
        f.resize( 5 );
        md::Entry e;
        auto up = [&]( const str &s ) { return w.lex.locale.size() ? md::upper( s, w.lex.locale ) : md::dec( md::nfd( s ) ) == md::dec( s ) and s.find( '\xCC' ) == str::npos ? s : [&]{ icu::UnicodeString u = icu::UnicodeString::fromUTF8( s ); UErrorCode ec = U_ZERO_ERROR; str o; icu::Normalizer2::getNFCInstance( ec )->normalize( u, ec ).toUTF8String( o ); return o; }(); };
        e.word = up( f[1] );
        e.std = up( f[2] );
        e.type = list( up( f[3] ) );
        for ( auto &a : list( up( f[4] ) ) ) if ( a == "ATT_PRE" or a == "ATT_SUF" or a == "DET_PRE" or a == "DET_SUF" ) e.att.insert( a );
        for ( auto &c : e.type ) { bool k = false; for ( auto n : KNOWN ) if ( c == n ) k = true; if ( not k ) { w.why = "unknown class"; return w; } }
        w.lex.insert( e );
    }
    w.ok = true;
    return w;
}

static str show1( const md::Entry &e ) { return e.word + "|" + e.std + "|" + md::csv( e.type ) + "|" + md::csv( e.att ) + "\n"; }
// words in byte order, the entries of a word in the order of the text
static str dump( const md::Lex &l ) {
    std::map<str,str> m;
    for ( auto &e : l.list ) m[e.word] += show1( e );
    str o;
    for ( auto &e : m ) o += e.second;
    return o;
}
static str dump( const Lexicon &L, str &header ) {
    std::ostringstream o; o << L;
    std::istringstream in( o.str() );
    str l, r;
    std::getline( in, header );
    while ( std::getline( in, l ) ) {
        vs f( 1 );
        for ( char c : l ) { if ( c == '\t' ) f.push_back( "" ); else f.back() += c; }
        mc::Fail bad;
        if ( f.size() != 5 or f[0] != "LEXENTRY:" ) { bad.msg = "the lexicon wrote the line " + show( l ); throw bad; }
        md::Entry e; e.word = f[1]; e.std = f[2];
        for ( auto &c : md::parseCsv( f[3] ) ) e.type.insert( c );
        for ( auto &c : md::parseCsv( f[4] ) ) e.att.insert( c );
        r += show1( e );
    }
    return r;
}

static void one( mc::Ex &x, const str &text ) {
    x.run( [&]{ return "lexicon text " + show( text ); }, [&]{
        Want w = model( text );
        for ( int way = 0; way < 2; ++way ) {
            str err;
            std::unique_ptr<Lexicon> L;
            std::istringstream in( text );
            std::vector<char> z( text.begin(), text.end() ); z.push_back( 0 );
            try { L.reset( way ? new Lexicon( z.data() ) : new Lexicon( "test", in ) ); }
            catch ( std::exception &e ) { err = e.what(); }
            if ( not w.ok ) {
                if ( L ) { str h; str d = dump( *L, h ); x.require( false, "the text must be rejected (" + w.why + ") but was loaded as " + show( d ) ); }
                x.require( err.size() > 0, "rejected without a message" );
                x.outcome( "rejected: " + w.why, true );
                continue;
            }
            x.require( L.get() != 0, "a good text was rejected: " + err );
            str h, h2;
            str got = dump( *L, h ), want = dump( w.lex );
            x.eq( got, want, "the entries loaded" );
            x.eq( L->langAsString(), w.lang, "language" );
            x.eq( L->locale(), w.lex.locale, "locale" );
            std::set<str> words;
            for ( auto &e : w.lex.list ) words.insert( e.word );
            for ( auto &q : words ) {
                str g, n;
                for ( auto &e : L->find( q ) ) g += show1( entry( e ) );
                for ( auto &e : w.lex.find( q ) ) n += show1( e );
                x.eq( g, n, "entries of " + show( q ) );
            }
            x.require( L->find( "NO SUCH" ).empty(), "an absent word has entries" );
            std::ostringstream o; o << *L;
            std::istringstream again( o.str() );
            Lexicon M( "test", again );
            str got2 = dump( M, h2 );
            x.eq( got2, got, "the entries written and loaded again" );
            x.require( M.lang() == L->lang() and M.locale() == L->locale(), "language or locale changed when written and loaded again" );
            if ( not way ) x.eq( h2, h, "the header written and loaded again" );
            x.outcome( w.lang + w.lex.locale + got, true );
        }
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    const vs pool = {
        "LEXICON:\tx\tENG\ten_US\t4", "LEXENTRY:\tMAIN\tMAIN\tWORD\t", "LEXENTRY:\tMain\tmain\tWORD\t", "LEXENTRY:\tMAIN\tMN\tWORD,TYPE\tATT_SUF,DET_SUF",
        "LexEntry:\tcafe\xCC\x81   i\xCC\x87  x\tI i\tTYPE, CITY\tDET_PRE", "LEXENTRY:\tNIX\tNIX\tNOCLASS\t", "LEXENTRY:\tA B\tA  B\tCITY",
        "", "# comment", "LEXICON:\tx\tTUR\ttr_TR\t4", "LEXICON:\tx\tFRE\t\t4", " LEXENTRY:\tX\tX\tWORD\t", "LEXENTRY:\t\xC3\x89t\xC3\xA9\tE\xCC\x81t\xC3\xA9\tWORD \tDETACH", "LEXICON:"
    };
    auto text = [&]( const std::vector<int> &v, const vs &p, int e ) {
        str s = e & 1 ? "\xEF\xBB\xBF" : "";
        for ( size_t i = 0; i < v.size(); ++i ) s += p[v[i]] + ( i + 1 < v.size() or ( e & 2 ) ? ( e & 4 ? "\r\n" : "\n" ) : "" );
        return s;
    };
    x.phase( "every text of up to 3 (4) lines over 14 line shapes in every encoding" );
    mc::sequences( pool.size(), 0, 3, [&]( const std::vector<int> &v ) {
        for ( int e = 0; e < 8; ++e ) if ( T or v.size() < 3 or e == 2 or e == 5 ) one( x, text( v, pool, e ) );
    } );
    x.phase( "every text of 4 (5) lines that begins with a header" );
    mc::sequences( pool.size(), 3, T ? 4 : 3, [&]( const std::vector<int> &v ) {
        for ( int h : { 0, 9, 10 } ) {
            std::vector<int> q( 1, h ); q.insert( q.end(), v.begin(), v.end() );
            if ( T or h == 9 or ( v[0] + v[1] + v[2] ) % 3 == 0 ) one( x, text( q, pool, ( v[0] + 2 * v[1] + 3 * v[2] ) % 8 ) );
        }
    } );
    x.phase( "every sequence of 4 (6) entries over 5 that share words" );
    const vs ent = { "LEXENTRY:\tST\tSTREET\tTYPE\t", "LEXENTRY:\tST\tSAINT\tTYPE\t", "LEXENTRY:\tST\tSTREET\tTYPE,WORD\t", "LEXENTRY:\tST\tSTREET\tTYPE\tDET_SUF", "LEXENTRY:\tSTA\tSTREET\tTYPE\t" };
    mc::sequences( ent.size(), 3, T ? 6 : 4, [&]( const std::vector<int> &v ) { one( x, "LEXICON:\tx\tENG\ten_US\t4\n" + text( v, ent, 2 ) ); } );
    x.phase( "an odd line at every place of a good text in every encoding" );
    const vs good = { "LEXICON:\tx\tGER\tde_DE\t5", "LEXENTRY:\tSTRA\xC3\x9F" "E\tSTR\tTYPE\tATT_SUF", "LEXENTRY:\tstra\xC3\x9F" "e\tSTR\tTYPE\tATT_SUF", "LEXENTRY:\tAM\tAM\tTYPE\t", "LEXENTRY:\t\xC3\xBC" "ber\tU\xCC\x88" "BER\tDIRECT,WORD\tDET_PRE,ATT_PRE", "LEXENTRY:\t#\t#\tTYPE\t" };
    vs odd = pool;
    for ( str l : { "#", " ", "\t", "L", "LEXENTRY:\t", "LEXENTRY:\tX", "LEXENTRY:\tX\tX", "LEXENTRY:\tX\tX\t", "lexentry:\tX\tX\tWORD\t", "LEXENTRY:\tX\tX\tWORD,NOCLASS\t", "LEXENTRY:\tX\tX\tTYPE,WORD,ZZZ,CITY\t", "x LEXICON:\tx\tTUR\ttr_TR\t4", " LEXICON:\tx\tTUR\ttr_TR\t4", "\tLEXICON:", "x LEXENTRY:\tX\tX\tWORD\t", "LEXICON\tx\tFRE\t\t1", "Lexicon:\tx\tFRE\t\t1" } ) odd.push_back( l );
    for ( size_t i = 0; i <= good.size(); ++i ) for ( size_t k = 0; k <= odd.size(); ++k ) for ( int e = 0; e < 8; ++e ) {
        vs l = good; if ( k < odd.size() ) l.insert( l.begin() + i, odd[k] );
        std::vector<int> v; for ( size_t j = 0; j < l.size(); ++j ) v.push_back( j );
        one( x, text( v, l, e ) );
    }
    for ( size_t i = 0; i < good.size(); ++i ) for ( int e = 0; e < 8; ++e ) {
        vs l = good; l.erase( l.begin() + i );
        std::vector<int> v; for ( size_t j = 0; j < l.size(); ++j ) v.push_back( j );
        one( x, text( v, l, e ) );
    }
    x.phase( "headers with every number of fields, language and locale, known or not" );
    for ( str l : { "ENG", "FRE", "eng", "XXX", "" } ) for ( str loc : { "en_US", "tr_TR", "xx_XX", "en", "" } ) for ( int n = 0; n < 6; ++n ) {
        str h = "LEXICON:";
        const vs f = { "x", l, loc, "7", "y" };
        for ( int i = 0; i < n; ++i ) h += "\t" + f[i];
        one( x, h + "\nLEXENTRY:\tAvenida i\tav i\tType\tatt_suf\nLEXENTRY:\tcalle i\tC\tTYPE\t\n" );
        one( x, h + "\nLEXENTRY:\tAvenida i\tav i\tTYPE\tATT_SUF\nLEXENTRY:\tcalle i\tC\tTYPE\t\n" );
    }
    x.phase( "words over every pair of 16 characters in 9 locales" );
    const vs ch = { "a", "I", "i", "\xC4\xB1", "\xC4\xB0", "\xC3\x9F", "e\xCC\x81", "\xC3\xA9", "\xCF\x83", "\xCF\x82", "\xD0\xB6", "\xE4\xB8\xAD", "\xEF\xAC\x81", "\xF0\x90\x90\xA8", "\xCC\x87", "7", "-", "." };
    for ( str loc : { "en_US", "tr_TR", "tr", "az_Latn_AZ", "de_DE", "lt_LT", "lt", "el_GR", "" } ) for ( auto &a : ch ) for ( auto &b : ch ) for ( int sp = 0; sp < 3; ++sp ) {
        if ( ( a[0] == '\xCC' ) and sp ) continue;
        str w = a + str( sp, ' ' ) + b;
        one( x, "LEXICON:\tx\tENG\t" + loc + "\t2\nLEXENTRY:\t" + w + "\tx" + b + a + "\tWORD\t\nLEXENTRY:\t" + b + "\t" + w + "\tWORD\t\n" );
    }
    x.phase( "runs of up to 12 blanks in every field" );
    for ( int n = 0; n <= 12; ++n ) for ( int m = 0; m <= 12; ++m ) {
        str a( n, ' ' ), b( m, ' ' );
        one( x, "LEXICON:\tx\tENG\ten_US\t2\nLEXENTRY:\tA" + a + "B" + b + "C\tD" + b + "E\tWORD," + a + "TYPE\tATT_PRE," + b + "DET_SUF\n" );
        one( x, "LEXICON:\tx\tENG\ten_US\t2\nLEXENTRY:\t" + a + "AB" + b + "\t" + b + "D" + a + "\t" + a + "WORD" + b + "\t" + b + "ATT_PRE" + a + "\n" );
    }
    x.phase( "texts of every number of entries" );
    for ( int n = 0; n <= ( T ? 300 : 100 ); n += n < 40 ? 1 : 13 ) {
        str s = "LEXICON:\tx\tENG\ten_US\t" + std::to_string( n ) + "\n";
        for ( int i = 0; i < n; ++i ) s += "LEXENTRY:\tw" + std::to_string( i * 7 % n ) + str( i % 5, 'z' ) + "\ts" + std::to_string( i ) + "\tTYPE\t" + ( i % 3 ? "ATT_PRE" : "" ) + "\n";
        one( x, s );
    }
    for ( int n : { 150, 400, 1100, 3000 } ) {
        str s = "LEXICON:\tx\tENG\ten_US\t" + std::to_string( n ) + "\n", u;
        for ( int i = 0; i < n; ++i ) { str l = "LEXENTRY:\tw" + std::to_string( i * 7 % n ) + "\ts" + std::to_string( i ) + "\tTYPE\t\n"; s += l; u += l; if ( i % 3 == 0 ) u += i % 2 ? "\n" : "\r\n"; }
        one( x, s );
        one( x, str( n, '\n' ) + "# x\n" + s );
        one( x, s + "LEXENTRY:\tw\tw\tNOCLASS\t\n" );
        one( x, s + "junk\n" );
        one( x, "LEXICON:\tx\tENG\ten_US\t5\n" + u );
    }
    x.phase( "every length of a field and every number of entries of a word" );
    for ( int n = 1; n <= 600; n += n < ( T ? 300 : 45 ) ? 1 : 37 ) {
        str w( n, 'a' ), u, p, sp;
        for ( int i = 0; i < n; ++i ) { u += i % 3 ? "\xC3\xA9" : "i"; p += i % 5 ? "b" : " "; sp += i % 2 ? "c " : "c"; }
        const str H = "LEXICON:\tx\tENG\ten_US\t1\n", H2 = "LEXICON:\t" + w + "\tTUR\ttr_TR\t1\n";
        one( x, H + "LEXENTRY:\t" + w + "\t" + u + "\tTYPE\tATT_SUF\nLEXENTRY:\t" + u + "\t" + w + "\tWORD\tDET_PRE\n" );
        one( x, H2 + "LEXENTRY:\t" + u + "\tx" + p + "x\tTYPE,CITY\tATT_SUF\nLEXENTRY:\tx" + sp + "x\t" + sp + "x\tWORD\tDET_PRE,ATT_PRE\n" );
        one( x, H + "LEXENTRY:\tA\tB\tCITY," + str( n, ' ' ) + "TYPE,WORD,NUMBER,DIRECT,PROV,STOPWORD\tATT_PRE,ATT_SUF" + str( n, ' ' ) + ",DET_PRE,DET_SUF\n" );
        str t = "LEXICON:\tx\tENG\t\t1\n", r = H;
        for ( int i = 0; i < n; ++i ) { str l = "LEXENTRY:\tST\ts" + std::to_string( i ) + "\t" + ( i % 2 ? "TYPE" : "WORD" ) + "\t\n"; t += l; r += l; if ( i % 3 == 0 ) t += l; }
        if ( n < 100 ) { one( x, t ); one( x, r ); }
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P07";
    o.rule = "one evaluation per lexicon text, loaded from a stream and from memory, compared with a line parser (accepted or rejected, entries in order, language, locale), written out and loaded again; distinct outcomes are distinct contents and reasons of rejection";
    o.assumptions = { "normalising and upper-casing are those of ICU", "no line of blanks only after the header" };
    return mc::main( argc, argv, o, explore );
}
