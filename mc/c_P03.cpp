// P03: the match listing, from the search and from the address interface.
#include "grams.h"
#include "capi.h"
using namespace rl;
using namespace gr;

typedef std::vector<vs> Ph;

static str pattern( const vs &p, const md::Deriv &d ) {
    str m;
    for ( auto &c : p ) m += c + " ";
    m += "->";
    for ( auto *r : d ) for ( auto &o : r->out ) m += " " + o;
    return m;
}
static str row( const str &m, double s, double n ) { char b[64]; snprintf( b, sizeof b, "; %.9g; %.0f", s, n ); return m + b; }

static vs want( const Gram &g, const std::vector<Ph> &phrases ) {
    vs r;
    for ( auto &ph : phrases ) for ( auto &p : md::patterns( ph ) ) for ( auto &d : md::derivations( g, "ADDRESS", p, ph.size() ) ) {
        double s = 0;
        for ( auto *u : d ) s += (float) u->score;
        r.push_back( row( pattern( p, d ), s / d.size(), d.size() ) );
    }
    std::sort( r.begin(), r.end() );
    if ( r.empty() ) r.push_back( row( "Failed to match to grammar!", -1, -1 ) );
    return r;
}
static str pshow( const std::vector<Ph> &l ) { str o; for ( auto &p : l ) { o += "["; for ( auto &c : p ) o += " {" + join( c, "," ) + "}"; o += " ] "; } return o; }

static void compare( mc::Ex &x, vs got, const vs &w, const str &what ) {
    std::sort( got.begin(), got.end() );
    if ( got != w ) { x.eq( join( got, "\n             " ), join( w, "\n             " ), what ); x.require( false, what ); }
}

static void grammar( mc::Ex &x, const Gram &g, const std::vector<std::vector<Ph> > &lists ) {
    x.run( [&]{ return md::gramText( g ) + std::to_string( lists.size() ) + " lists of phrases"; }, [&]{
        std::istringstream in( md::gramText( g ) );
        Grammar G( in );
        Search S( G );
        str all; bool any = false;
        for ( auto &l : lists ) {
            std::vector<std::vector<Token> > ph;
            for ( auto &p : l ) { ph.emplace_back(); for ( auto &c : p ) ph.back().push_back( token( "w", md::classes( c.begin(), c.end() ) ) ); }
            vs got;
            for ( auto &m : S.searchAndReclassAll( ph ) ) got.push_back( row( m.matched, m.score, m.nrules ) );
            vs w = want( g, l );
            compare( x, got, w, "rows for the phrases " + pshow( l ) );
            if ( got.size() > 1 or got[0][0] != 'F' ) any = true;
            all += join( got, "," ) + "/";
        }
        x.outcome( all, any );
    } );
}

// the same through text: a lexicon of one and two word phrases
static void address( mc::Ex &x, const Gram &g, const md::Lex &lex, const vs &words, int top ) {
    x.run( [&]{ return md::gramText( g ) + md::lexText( lex.list ) + "every address of up to " + std::to_string( top ) + " of: " + join( words, " | " ); }, [&]{
        str G = md::gramText( g ), L = md::lexText( lex.list ), all;
        bool any = false;
        mc::sequences( words.size(), 0, top, [&]( const std::vector<int> &v ) {
            str a;
            for ( size_t i = 0; i < v.size(); ++i ) a += ( i ? " " : "" ) + words[ v[i] ];
            auto tk = md::tokens( lex, a, { "PUNCT", "SPACE" } );
            std::vector<Ph> l( 1 );
            auto put = [&]( const std::vector<md::Tok> &t, Ph &p ) {
                for ( auto &k : t ) {        // classes in the order of the enumeration
                    vs c;
                    for ( auto &e : types( k.cls ) ) c.push_back( InClass::asString( e ) );
                    p.push_back( c );
                }
            };
            put( tk, l[0] );
            for ( auto &alt : md::alternates( lex, tk ) ) { l.emplace_back(); put( alt, l.back() ); }
            ca::Mat m = ca::match( a, G, L );
            str what = "match listing of " + show( a );
            x.require( m.rec and not m.err, what + ": " + ca::text( m ) );
            vs got;
            for ( size_t i = 0; i < m.rows.size(); ++i ) {
                got.push_back( row( m.rows[i].toks, m.rows[i].score, m.rows[i].nrules ) );
                if ( i ) x.require( m.rows[i-1].score >= m.rows[i].score, what + ": rows are not sorted by falling score: " + ca::text( m ) );
            }
            compare( x, got, want( g, l ), what );
            if ( got.size() > 1 ) any = true;
            all += ca::text( m ) + "/";
        } );
        x.outcome( all, any );
    } );
}

static void explore( mc::Ex &x ) {
    std::vector<std::vector<Ph> > lists, lad;
    std::vector<vs> one = { { A }, { B }, { A, B } };
    mc::sequences( 3, 0, 3, [&]( const std::vector<int> &v ) { Ph q; for ( int i : v ) q.push_back( one[i] ); lists.push_back( { q } ); } );
    std::vector<Ph> pool = { {}, { { A } }, { { A, B } }, { { A }, { B } }, { { A, B }, { A } } };
    mc::sequences( pool.size(), 2, 2, [&]( const std::vector<int> &v ) { lists.push_back( { pool[v[0]], pool[v[1]] } ); } );
    lists.push_back( { pool[1], pool[4], pool[2] } );
    lists.push_back( {} );
    x.phase( "every small grammar, every phrase of up to 3 tokens and lists of phrases" );
    int n = 0;
    structures( x.thorough ? 2 : 0, [&]( const Gram &g ) { if ( x.thorough or n++ % 2 ) grammar( x, g, lists ); } );
    flat( 1, [&]( const Gram &g ) { grammar( x, g, lists ); } );
    x.phase( "ladders" );
    for ( int k = 0; k <= 6; ++k ) { Ph q( k, { A } ); lad.push_back( { q } ); if ( k and k < 5 ) { q[k-1] = { A, B, C }; lad.push_back( { q, q } ); } }
    ladders( x.thorough ? 2 : 0, [&]( const Gram &g ) { grammar( x, g, lad ); } );

    x.phase( "long recursion, chains, lines, rules, lists and many derivations" );
    tall( x.thorough, [&]( const Gram &g, const std::vector<Ph> &p ) {
        std::vector<std::vector<Ph> > l;
        for ( auto &q : p ) l.push_back( { q } );
        l.push_back( p );
        grammar( x, g, l );
    } );
    x.phase( "long lists of candidate phrases" );
    for ( int k : { 5, 9, 17, 34, 70, 140 } ) {
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { { "R1" }, { "R1", "R2" } } ) );
        g.secs.push_back( rules( "R1", { { A }, { B } } ) );
        g.secs.push_back( rules( "R2", { { C }, { A } } ) );
        mark( g );
        std::vector<Ph> l, m( k, { { C } } );
        for ( int i = 0; i < k; ++i ) l.push_back( i % 3 == 0 ? Ph{ { A } } : i % 3 == 1 ? Ph{ { B }, { A, C } } : Ph{ { C } } );
        m[k-1] = { { B } };
        grammar( x, g, { l, m } );
    }
    x.phase( "through the address interface" );
    md::Lex lex;
    lex.locale = "en_US";
    lex.insert( { "NEW YORK", "NEW YORK", { "CITY" }, { "DETACH" } } );
    lex.insert( { "NEW", "NEW", { "WORD" }, { "DETACH" } } );
    lex.insert( { "OLD MAIN ST", "OLD MAIN ST", { "WORD", "TYPE" }, { "DETACH" } } );
    lex.insert( { "ST", "STREET", { "TYPE" }, { "DETACH" } } );
    lex.insert( { "ST", "SAINT", { "WORD" }, { "DETACH" } } );
    vs words = { "new york", "st", "7", "OLD MAIN ST", ",", "foo" };
    const str W = "WORD", T = "TYPE", N = "NUMBER", Y = "CITY";
    std::vector<std::vector<vs> > r1 = { { { W } }, { { W }, { T } }, { { W, T }, { W }, {} }, { { N }, { Y } } };
    std::vector<std::vector<vs> > r2 = { { { Y } }, { { T }, { N } }, { { W, W }, {}, { Y } } };
    std::vector<std::vector<vs> > roots = { { { "R1" } }, { { "R1", "R2" } }, { { "R1" }, { "R2" } }, { { "R1", "ADDRESS" }, { "R2" } }, { { "R2", "R1", "R2" }, { "R2" } } };
    for ( auto &r : roots ) for ( auto &a : r1 ) for ( auto &b : r2 ) for ( int sc = 0; sc < ( x.thorough ? 3 : 2 ); ++sc ) {
        Gram g;
        g.secs.push_back( meta( "ADDRESS", r ) );
        g.secs.push_back( rules( "R1", a ) );
        g.secs.push_back( rules( "R2", b ) );
        mark( g );
        if ( sc ) for ( auto &s : g.secs ) for ( auto &u : s.rules ) u.score = sc == 1 ? 0.5 : 1.25 - u.score / 2;
        address( x, g, lex, words, x.thorough ? 3 : 2 );
    }
    // scores that are next to each other, very large and very small
    for ( double base : { 0.5, 1.0, 1e-30, 1e-6, 1e4, 1e30 } ) for ( int step : { 1, 8, 512, 100000 } ) for ( int dir = 0; dir < 3; ++dir ) {
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { { "R1" }, { "R1", "R2" }, { "R2" }, { "R2", "R1" } } ) );
        g.secs.push_back( rules( "R1", std::vector<vs>( 3, { W } ) ) );
        g.secs.push_back( rules( "R2", std::vector<vs>( 2, { W } ) ) );
        mark( g );
        int k = 0;
        for ( auto &s : g.secs ) for ( auto &u : s.rules ) { int j = dir == 0 ? k : dir == 1 ? 5 - k : k * 3 % 5; u.score = (float) ( base * ( 1 + j * step / 1048576.0 ) ); ++k; }
        address( x, g, lex, { "foo", "new" }, 2 );
    }
    // more than sixteen equal and different rows at once
    for ( int k = 1; k <= ( x.thorough ? 300 : 150 ); k += k < 24 ? 1 : 42 ) {
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { { "R1" }, { "R1", "R1" } } ) );
        g.secs.push_back( rules( "R1", std::vector<vs>( k, { W } ) ) );
        mark( g );
        if ( k < 30 ) address( x, g, lex, { "foo", "new" }, 2 );
        else { g.secs[0].refs.resize( 1 ); address( x, g, lex, { "foo", "new" }, 1 ); }
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P03";
    o.rule = "one evaluation per grammar (and lexicon); the rows for every phrase list or address of its space are compared with one row per derivation found by an independent enumerator; distinct outcomes are distinct listings over all phrases";
    o.assumptions = { "row scores are compared to nine digits" };
    return mc::main( argc, argv, o, explore );
}
