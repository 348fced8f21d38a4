// P15: standardised records from both address interfaces.
#include "grams.h"
#include "flow.h"
using namespace rl;

static md::MRule rule( const vs &in, const vs &out, double s ) { md::MRule r; r.in = in; r.out = out; r.score = s; return r; }
static md::Section sec( const str &n, const std::vector<md::MRule> &r ) { md::Section s; s.name = n; s.meta = false; s.rules = r; return s; }

struct Adr { str text, locale, filter; };

static void group( mc::Ex &x, const md::Gram &g, const md::Lex &lex, const std::vector<Adr> &adr, const str &space ) {
    x.run( [&]{ return md::gramText( g ) + md::lexText( lex.list, lex.locale ) + std::to_string( adr.size() ) + " addresses: " + space; }, [&]{
        str G = md::gramText( g ), L = md::lexText( lex.list, lex.locale ), msg, all;
        void *gp = ca::grammar( G, msg ), *lp = ca::lexicon( L, msg );
        x.require( gp and lp, "texts could not be loaded: " + msg );
        size_t k = 0; bool any = false;
        for ( auto &a : adr ) {
            auto want = fl::records( g, lex, a.text, a.locale, a.filter );
            str what = "record of " + show( a.text ) + " in " + a.locale + " without " + a.filter;
            ca::Std p = ca::standardize( a.text, gp, lp, a.locale, a.filter );
            if ( not fl::among( p, want ) ) { x.eq( ca::text( p ), fl::showRecs( want ), what + " (pointer interface)" ); x.require( false, what ); }
            if ( k++ % 3 == 0 or adr.size() < 40 ) {
                ca::Std t = ca::standardize( a.text, G, L, a.locale, a.filter );
                x.eq( ca::text( t ), ca::text( p ), what + " (text interface)" );
                if ( not fl::among( t, want ) ) { x.eq( ca::text( t ), fl::showRecs( want ), what + " (text interface)" ); x.require( false, what ); }
            }
            all += ca::text( p ) + "/";
            if ( p.rec ) any = true;
        }
        freeGrammarPtr( gp );
        freeLexiconPtr( lp );
        x.outcome( all, any );
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    const str F = "PUNCT,SPACE";
    vs outs;
    for ( int i = -1; i <= 17; ++i ) outs.push_back( OutClass::asString( OutClass::asType( i ) ) );
    outs.push_back( "IGNORE" ); outs.push_back( "BADTOKEN" );
    md::Lex plain; plain.locale = "en_US";
    plain.insert( { "ST", "STREET", { "TYPE" }, {} } );
    plain.insert( { "N", "NORTH", { "DIRECT" }, {} } );

    x.phase( "every triple of output classes" );
    for ( auto &a : outs ) for ( auto &b : outs ) {
        for ( auto &c : outs ) {
            if ( not T and a != b and b != c and a != c and ( a.size() + 3 * b.size() + 5 * c.size() ) % 4 ) continue;
            md::Gram g;
            g.secs.push_back( sec( "ADDRESS", { rule( { "NUMBER", "WORD", "TYPE" }, { a, b, c }, 0.5 ), rule( { "NUMBER", "WORD" }, { b, a }, 0.5 ), rule( { "NUMBER" }, { c }, 0.5 ) } ) );
            group( x, g, plain, { { "12 main st", "en_US", F }, { "12 main", "en_US", F }, { "12", "en_US", F }, { "main", "en_US", F } }, "of one to three tokens" );
        }
    }

    x.phase( "up to 3 (4) words that repeat or hold each other, in every pair of output classes" );
    {
        md::Lex same; same.locale = "en_US";
        same.insert( { "BA", "A", { "WORD" }, {} } );
        same.insert( { "AA", "A A", { "WORD" }, {} } );
        std::vector<Adr> adr;
        mc::sequences( 3, 1, T ? 4 : 3, [&]( const std::vector<int> &v ) { str a; for ( int i : v ) a += str( i == 0 ? "a" : i == 1 ? "ba" : "aa" ) + " "; adr.push_back( { a, "en_US", F } ); } );
        for ( auto &a : outs ) for ( auto &b : outs ) {
            md::Gram g;
            g.secs.push_back( sec( "ADDRESS", { rule( { "WORD" }, { a }, 0.5 ), rule( { "WORD", "WORD" }, { a, b }, 0.5 ), rule( { "WORD", "WORD", "WORD" }, { a, b, a }, 0.5 ), rule( { "WORD", "WORD", "WORD", "WORD" }, { b, a, a, b }, 0.5 ) } ) );
            group( x, g, same, adr, "words that repeat, as " + a + " and " + b );
        }
    }

    x.phase( "up to 3 (5) phrases, of which only one choice to split matches, with scores from 1e-30 to 1e30" );
    {
        md::Lex ph; ph.locale = "en_US";
        const vs name = { "new york", "park ave", "old mill road", "rio", "san jose" };
        ph.insert( { "NEW YORK", "NYC", { "CITY" }, {} } );
        ph.insert( { "PARK AVE", "PARK AVENUE", { "ROAD" }, {} } );
        ph.insert( { "OLD MILL ROAD", "OLD MILL RD", { "ROAD", "CITY" }, {} } );
        ph.insert( { "SAN JOSE", "SJ", { "CITY" }, {} } );
        ph.insert( { "RIO", "R", { "CITY" }, {} } );
        ph.insert( { "MILL", "ML", { "TYPE" }, {} } );
        const vs whole = { "CITY", "ROAD", "ROAD", "CITY", "CITY" };
        const std::vector<vs> split = { { "WORD", "WORD" }, { "WORD", "WORD" }, { "WORD", "TYPE", "WORD" }, { "CITY" }, { "WORD", "WORD" } };
        for ( int n = 1; n <= ( T ? 5 : 3 ); ++n ) mc::sequences( name.size(), n, n, [&]( const std::vector<int> &v ) {
            if ( not T and n == 3 and v[0] > v[2] ) return;
            str a; for ( int i : v ) a += name[i] + " ";
            for ( int c = 0; c < 1 << n; ++c ) {
                if ( T and n == 5 and ( c + v[0] + v[4] ) % 4 ) continue;
                vs in, out;
                for ( int i = 0; i < n; ++i ) { vs w = c >> i & 1 ? split[v[i]] : vs( 1, whole[v[i]] ); in.insert( in.end(), w.begin(), w.end() ); }
                for ( size_t i = 0; i < in.size(); ++i ) out.push_back( i % 3 == 0 ? "STREET" : i % 3 == 1 ? "CITY" : "EXTRA" );
                static const double sc[] = { 1e-30, 1e-6, 0.001, 0.01, 0.05, 0.0999, 0.1, 0.5, 1, 100, 1e30 };
                md::Gram g;
                g.secs.push_back( sec( "ADDRESS", { rule( in, out, sc[ ( c + v[0] * 2 + n ) % 11 ] ) } ) );
                group( x, g, ph, { { a, "en_US", F } }, a );
            }
        } );
    }

    x.phase( "every lexicon of up to 3 (4) of 8 entries of a word, matched by every class" );
    std::vector<md::Entry> pool = { { "ST", "STREET", { "TYPE" }, {} }, { "ST", "SAINT", { "WORD" }, {} }, { "ST", "STATE", { "WORD", "TYPE" }, {} }, { "ST", "SANKT", { "DIRECT", "WORD" }, { "ATT_SUF" } },
        { "ST", "ST", { "TYPE" }, { "DET_PRE" } }, { "STST", "X", { "TYPE" }, {} }, { "ST MAIN", "THE MAIN ONE", { "CITY", "WORD" }, {} }, { "ST", "", { "WORD", "CITY" }, {} } };
    std::vector<md::Gram> gs;
    for ( str c : { "TYPE", "WORD", "DIRECT", "DOUBLE", "CITY" } ) for ( int two = 0; two < 2; ++two ) {
        md::Gram g;
        std::vector<md::MRule> r = { rule( { c }, { "STREET" }, 1 ) };
        if ( two ) { r.push_back( rule( { "WORD", c }, { "CITY", "STREET" }, 0.5 ) ); r.push_back( rule( { c, "WORD" }, { "STREET", "PROV" }, 0.75 ) ); r.push_back( rule( { "TYPE" }, { "SUFTYP" }, 0.125 ) ); }
        g.secs.push_back( sec( "ADDRESS", r ) );
        gs.push_back( g );
    }
    mc::sequences( pool.size(), 0, T ? 4 : 3, [&]( const std::vector<int> &v ) {
        md::Lex m; m.locale = "en_US";
        for ( int i : v ) m.insert( pool[i] );
        if ( not T and v.size() == 3 and ( v[0] + v[1] + v[2] ) % 2 ) return;
        for ( size_t k = 0; k < gs.size(); ++k ) {
            if ( not T and v.size() == 3 and k % 3 != size_t( v[0] % 3 ) ) continue;
            group( x, gs[k], m, { { "st", "en_US", F }, { "st st", "en_US", F }, { "St, Main", "en_US", F }, { "st main", "en_US", F }, { "xst", "en_US", F }, { "main ST", "en_US", F } }, "with the word ST" );
        }
    } );

    x.phase( "every address of up to 4 (5) words over realistic grammars" );
    std::vector<md::Gram> real;
    {
        md::Gram g;
        g.secs.push_back( gr::meta( "ADDRESS", { { "MICRO", "MACRO" }, { "MICRO" }, { "MACRO" } } ) );
        g.secs.push_back( gr::meta( "MICRO", { { "HN", "STREET" }, { "STREET" }, { "HN", "STREET", "UNIT" } } ) );
        g.secs.push_back( gr::meta( "MACRO", { { "CITY" }, { "CITY", "ZIP" } } ) );
        g.secs.push_back( sec( "HN", { rule( { "NUMBER" }, { "HOUSE" }, 0.5 ), rule( { "NUMBER", "FRACT" }, { "HOUSE", "HOUSE" }, 0.75 ) } ) );
        g.secs.push_back( sec( "STREET", { rule( { "WORD" }, { "STREET" }, 0.25 ), rule( { "WORD", "TYPE" }, { "STREET", "SUFTYP" }, 1 ), rule( { "WORD", "WORD", "TYPE" }, { "STREET", "STREET", "SUFTYP" }, 0.875 ), rule( { "DIRECT", "WORD", "TYPE" }, { "PREDIR", "STREET", "SUFTYP" }, 1.125 ) } ) );
        g.secs.push_back( sec( "UNIT", { rule( { "UNITH", "NUMBER" }, { "UNITH", "UNITT" }, 0.625 ) } ) );
        g.secs.push_back( sec( "CITY", { rule( { "CITY" }, { "CITY" }, 0.5 ), rule( { "CITY", "PROV" }, { "CITY", "PROV" }, 0.75 ), rule( { "WORD" }, { "CITY" }, 0.125 ) } ) );
        g.secs.push_back( sec( "ZIP", { rule( { "QUINT" }, { "POSTAL" }, 0.5 ), rule( { "PCH", "PCT" }, { "POSTAL", "POSTAL" }, 0.5 ) } ) );
        real.push_back( g );
    }
    {
        md::Gram g;
        g.secs.push_back( gr::meta( "ADDRESS", { { "ANY" }, { "ANY", "ADDRESS" } } ) );
        g.secs.push_back( sec( "ANY", { rule( { "WORD" }, { "STREET" }, 0.5 ), rule( { "NUMBER" }, { "HOUSE" }, 0.625 ), rule( { "TYPE" }, { "SUFTYP" }, 0.75 ), rule( { "CITY" }, { "CITY" }, 0.875 ), rule( { "SPACE" }, { "IGNORE" }, 1 ), rule( { "PUNCT" }, { "EXTRA" }, 1.125 ), rule( { "DASH" }, { "STOP" }, 1 ) } ) );
        real.push_back( g );
    }
    md::Lex lex; lex.locale = "en_US";
    lex.insert( { "ST", "STREET", { "TYPE" }, {} } );
    lex.insert( { "ST", "SAINT", { "WORD" }, {} } );
    lex.insert( { "N", "NORTH", { "DIRECT" }, {} } );
    lex.insert( { "NEW YORK", "NYC", { "CITY" }, {} } );
    lex.insert( { "NY", "NEW YORK", { "PROV" }, {} } );
    lex.insert( { "#", "# ", { "UNITH" }, {} } );
    lex.insert( { "PARK AVE", "PARK AVENUE", { "CITY", "WORD" }, { "DET_SUF" } } );
    lex.insert( { "AVE", "AVENUE", { "TYPE" }, { "DET_SUF" } } );
    lex.insert( { "STRASSE", "STR", { "TYPE" }, { "ATT_SUF" } } );
    vs words = { "12", "main", "st", "N", "new york", "ny", "12345", "# ", "park ave", "K1A", "caf\xC3\xA9", "talstra\xC3\x9F" "e", "-", "12b" };
    std::vector<Adr> batch;
    auto flush = [&]( const str &s ) { if ( batch.empty() ) return; for ( size_t k = 0; k < real.size(); ++k ) group( x, real[k], lex, batch, s + ", beginning with " + show( batch[0].text ) ); batch.clear(); };
    mc::sequences( words.size(), 0, T ? 4 : 3, [&]( const std::vector<int> &v ) {
        str a;
        for ( size_t i = 0; i < v.size(); ++i ) a += ( i ? v[i] % 4 == 0 ? ", " : " " : "" ) + words[v[i]];
        batch.push_back( { a, v.size() % 2 ? "en_US" : "de_DE", F } );
        if ( batch.size() == 60 ) flush( "sequences of words" );
    } );
    flush( "sequences of words" );
    x.phase( "every filter text with addresses with blanks and punctuation" );
    for ( str f : { "", "PUNCT", "SPACE", "PUNCT,SPACE", " PUNCT , SPACE ", "PUNCT,SPACE,DASH", "WORD", "SPACE,CITY", "TYPE,PUNCT,SPACE", "DASH" } ) for ( str l : { "en_US", "tr_TR", "de", "" } ) {
        vs ws = { "12", "main", "st", "new york", "," };
        mc::sequences( ws.size(), 1, T ? 4 : 3, [&]( const std::vector<int> &v ) { str a; for ( int i : v ) a += ws[i] + " "; batch.push_back( { a, l, f } ); } );
        for ( auto &b : batch ) { str t; for ( char c : b.filter ) if ( c != ' ' ) t += c; b.filter = t; }
        flush( "filter " + f + " locale " + l );
    }

    x.phase( "long words, many words in a field, many entries of a word" );
    for ( int n = 1; n <= 500; n += n < ( T ? 130 : 40 ) ? 1 : 60 ) {
        str w( n, 'k' ), u, many, d( n, '3' );
        for ( int i = 0; i < n; ++i ) { u += "\xC3\xA9"; many += ( i ? " " : "" ) + str( i % 3 ? "st" : "main" ); }
        md::Lex m; m.locale = "en_US";
        m.insert( { "ST", str( n, 'S' ), { "TYPE" }, {} } );
        m.insert( { "MAIN", "M" + str( n / 2, (char) 39 ) + " N", { "WORD" }, {} } );
        m.insert( { str( n, 'K' ), "KK", { "WORD" }, {} } );
        for ( int k = 0; k < 2; ++k ) {
            md::Gram h;
            h.secs.push_back( gr::meta( "ADDRESS", { { "ANY" }, { "ANY", "ADDRESS" } } ) );
            h.secs.push_back( sec( "ANY", k ? std::vector<md::MRule>{ rule( { "WORD" }, { "STREET" }, 0.5 ), rule( { "TYPE" }, { "EXTRA" }, 0.5 ), rule( { "SINGLE" }, { "STREET" }, 0.5 ), rule( { "MIXED" }, { "UNITT" }, 0.5 ), rule( { "DOUBLE" }, { "CITY" }, 0.5 ), rule( { "NUMBER" }, { "BOXT" }, 0.5 ) }
                                              : std::vector<md::MRule>{ rule( { "WORD" }, { "CITY" }, 0.5 ), rule( { "TYPE" }, { "CITY" }, 0.5 ), rule( { "NUMBER" }, { "HOUSE" }, 0.5 ), rule( { "SINGLE" }, { "CITY" }, 0.5 ), rule( { "MIXED" }, { "CITY" }, 0.5 ) } ) );
            std::vector<Adr> a = { { w, "en_US", F }, { u, "fr_FR", F }, { w + " st", "en_US", F }, { "main " + u + " " + w, "en_US", F }, { d, "en_US", F }, { d + " " + w + " main", "en_US", F }, { "st " + d, "en_US", F }, { w + str( n, ' ' ) + "st", "en_US", F }, { str( n, ' ' ) + w + str( n, ',' ), "en_US", F } };
            if ( n < 36 ) a.push_back( { many, "en_US", F } );
            group( x, h, m, a, "words of " + std::to_string( n ) + " letters" );
        }
    }
    for ( int n = 1; n <= ( T ? 36 : 14 ); ++n ) for ( int at = 0; at < n; ++at ) {
        // entry number at is the only one with the class that the grammar wants
        md::Lex m; m.locale = "en_US";
        for ( int i = 0; i < n; ++i ) m.insert( { "ST", "S" + std::to_string( i ), i == at ? std::set<str>{ "CITY", "TYPE" } : std::set<str>{ "TYPE" }, {} } );
        md::Gram g;
        g.secs.push_back( sec( "ADDRESS", { rule( { "CITY" }, { "STREET" }, 0.5 ), rule( { "CITY", "TYPE" }, { "CITY", "SUFTYP" }, 0.5 ) } ) );
        group( x, g, m, { { "st", "en_US", F }, { "st st", "en_US", F } }, "of " + std::to_string( n ) + " entries of ST" );
    }

    x.phase( "bad grammars and lexicons" );
    const vs badG = { "", "x", "[ADDRESS]\n", "[R]\nWORD -> CITY -> 1\n", "[ADDRESS]\nWORD -> -> 1\n", "[ADDRESS]\n@X\n", "[ADDRESS]\nWORD -> CITY -> 1\n[ADDRESS]\nWORD -> CITY -> 1\n", "[ADDRESS]\n@R1 x\n[R1]\nWORD -> CITY -> 1\n", "[ADDRESS]\nWORD -> CITY -> 0\n" };
    const vs badL = { "", "x", "LEXENTRY:\tA\tA\tWORD\t\n", "LEXICON:\tx\tENG\ten_US\t0\nA\n", "LEXICON:\tx\tENG\ten_US\t0\nLEXENTRY:\tA\tA\tNIX\t\n", "22 serialization::archive 12 0 0", "22 serialization::archive 19 0 2 4 test" };
    const str okG = "[ADDRESS]\nWORD -> CITY -> 1\n", okL = md::lexText( plain.list );
    auto bad = [&]( const str &G, const str &L ) {
        for ( str a : { "main", "", "12" } )
            x.run( [&]{ return "grammar " + show( G ) + " lexicon " + show( L ) + " address " + show( a ); }, [&]{
                ca::Std s = ca::standardize( a, G, L );
                x.require( not s.rec and s.err and s.msg.size(), "bad input gave " + ca::text( s ) );
                ca::Mat m = ca::match( a, G, L );
                x.require( not m.rec and m.err and m.msg.size(), "bad input gave the listing " + ca::text( m ) );
                if ( L != okL ) { ca::Par p = ca::parse( a, L ); x.require( not p.rec and p.err and p.msg.size(), "a bad lexicon gave the rows " + ca::text( p ) ); }
                str m1, m2;
                void *gp = ca::grammar( G, m1 ), *lp = ca::lexicon( L, m2 );
                x.require( ( gp != 0 ) == ( G == okG ) and ( lp != 0 ) == ( L == okL ), "loading by pointer accepts other input than the text interface" );
                x.require( ( gp != 0 ) == m1.empty() and ( lp != 0 ) == m2.empty(), "an error message does not agree with the pointer" );
                x.require( ( gp ? m2 : m1 ) == "E:" + s.msg, "the pointer interface says " + ( gp ? m2 : m1 ) + ", the text interface " + s.msg );
                freeGrammarPtr( gp ); freeLexiconPtr( lp );
                x.outcome( s.msg, true );
            } );
    };
    for ( auto &g : badG ) bad( g, okL );
    for ( auto &l : badL ) bad( okG, l );
    for ( auto &g : badG ) for ( auto &l : badL ) bad( g, l );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P15";
    o.rule = "one evaluation per grammar and lexicon, standardising every address of its space through the pointer and the text interface, compared field by field with a record model; when derivations tie for the best score the record of any of them is accepted; distinct outcomes are distinct vectors of records";
    return mc::main( argc, argv, o, explore );
}
