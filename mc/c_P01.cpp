// P01: Search::search against an independent enumeration of derivations.
#include "grams.h"
using namespace rl;
using namespace gr;

static vs sorted( vs v ) { std::sort( v.begin(), v.end() ); return v; }

static vs real( Search &s, const str *start, const std::vector<Token> &phrase ) {
    SearchPaths p = start ? s.search( *start, phrase ) : s.search( phrase );
    vs r;
    for ( auto &e : p ) {
        str o;
        for ( auto &u : e.rules ) { std::ostringstream t; t << u; o += "(" + t.str() + ")"; }
        if ( e.remaining.size() ) o += " WITH A REST";
        r.push_back( o );
    }
    return r;
}
static vs model( const Gram &g, const str &start, const std::vector<vs> &cls ) {
    vs r;
    for ( auto &p : md::patterns( cls ) ) for ( auto &d : md::derivations( g, start, p, cls.size() ) ) {
        str o;
        for ( auto *u : d ) { std::ostringstream t; t << md::ruleText( *u ); o += "(" + t.str() + ")"; }
        r.push_back( o );
    }
    return r;
}
static str pshow( const std::vector<vs> &p ) { str o; for ( auto &c : p ) o += " {" + join( c, "," ) + "}"; return "phrase [" + o + " ]"; }

static std::vector<Token> phrase( const std::vector<vs> &p ) {
    std::vector<Token> t;
    for ( size_t i = 0; i < p.size(); ++i ) t.push_back( token( "t" + std::to_string( i ), md::classes( p[i].begin(), p[i].end() ) ) );
    return t;
}

static void grammar( mc::Ex &x, const Gram &g, const std::vector<std::vector<vs> > &phrases, const vs &starts ) {
    x.run( [&]{ return md::gramText( g ) + "searched for " + std::to_string( phrases.size() ) + " phrases"; }, [&]{
        std::istringstream in( md::gramText( g ) );
        Grammar G( in );
        Search S( G );
        str all;
        long found = 0;
        // ascending, then a few again in descending order on the same object
        for ( size_t k = 0; k < phrases.size() + 5; ++k ) {
            size_t i = k < phrases.size() ? k : phrases.size() > 5 ? ( phrases.size() - 1 - ( k - phrases.size() ) * ( phrases.size() / 5 ) ) : 0;
            auto t = phrase( phrases[i] );
            vs got = sorted( real( S, 0, t ) ), want = sorted( model( g, "ADDRESS", phrases[i] ) );
            if ( got != want ) x.eq( join( got, "\n             " ), join( want, "\n             " ), "derivations of " + pshow( phrases[i] ) ), x.require( false, "multiset of derivations differs" );
            for ( auto &s : starts ) {
                if ( k % 3 ) continue;
                vs got2 = sorted( real( S, &s, t ) ), want2 = sorted( model( g, s, phrases[i] ) );
                if ( got2 != want2 ) x.eq( join( got2, "\n             " ), join( want2, "\n             " ), "derivations from [" + s + "] of " + pshow( phrases[i] ) ), x.require( false, "multiset of derivations differs" );
            }
            found += got.size();
            if ( got.size() ) all += std::to_string( i ) + ":" + join( got, "," );
        }
        str none = "NOSUCH";
        bool threw = false;
        try { real( S, &none, phrase( phrases.back() ) ); } catch ( std::exception & ) { threw = true; }
        x.require( threw, "searching from a section that does not exist gave a result" );
        x.outcome( std::to_string( found ) + " derivations " + all, found > 0 );
    } );
}

static void explore( mc::Ex &x ) {
    std::vector<std::vector<vs> > p3, p2;
    std::vector<vs> one = { { A }, { B }, { A, B } };
    mc::sequences( 3, 0, 3, [&]( const std::vector<int> &v ) { std::vector<vs> q; for ( int i : v ) q.push_back( one[i] ); p3.push_back( q ); if ( q.size() < 3 ) p2.push_back( q ); } );
    x.phase( "every small grammar, every phrase of up to 3 tokens" );
    int size = x.thorough ? 2 : 0;
    structures( size, [&]( const Gram &g ) { grammar( x, g, p3, { "M", "R1", "ADDRESS" } ); } );
    x.phase( "rules in the root" );
    flat( 1, [&]( const Gram &g ) { grammar( x, g, p3, {} ); } );
    x.phase( "ladders" );
    std::vector<std::vector<vs> > lad;
    for ( int n = 0; n <= ( x.thorough ? 12 : 9 ); ++n ) { std::vector<vs> q( n, { A } ); lad.push_back( q ); if ( n > 1 ) { q[n/2] = { B }; lad.push_back( q ); } if ( n and n < 5 ) { q[n-1] = { A, B }; lad.push_back( q ); } }
    ladders( size, [&]( const Gram &g ) {
        std::vector<std::vector<vs> > use;
        bool wild = g.find( "M" ) and g.find( "R" ) and g.find( "ADDRESS" )->refs.size() == 1 and g.find( "ADDRESS" )->refs[0].size() == 1;
        for ( auto &p : lad ) if ( not wild or p.size() <= 6 ) use.push_back( p );
        grammar( x, g, use, {} );
    } );
    x.phase( "long recursion, chains, lines, rules, lists and many derivations" );
    tall( x.thorough, [&]( const Gram &g, const std::vector<std::vector<vs> > &p ) {
        vs st;      // the last sections of each kind, and some on the way
        for ( size_t i = 1; i < g.secs.size(); ++i ) if ( i + 3 > g.secs.size() or i % ( g.secs.size() / 4 + 1 ) == 1 ) st.push_back( g.secs[i].name );
        for ( bool m : { true, false } ) for ( size_t i = g.secs.size(); i-- > 1; ) if ( g.secs[i].meta == m ) { if ( std::find( st.begin(), st.end(), g.secs[i].name ) == st.end() ) st.push_back( g.secs[i].name ); break; }
        grammar( x, g, p, st );
    } );
    x.phase( "a rule of up to 6 classes, beside every other class at every place" );
    vs names;
    for ( int i = 0; i <= 36; ++i ) { str n = InClass::asString( InClass::asType( i ) ); if ( n != "BADTOKEN" ) names.push_back( n ); }
    for ( auto &n : names ) {
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { { "R" }, { "R", "Q" } } ) );
        std::vector<vs> in;
        for ( int l = 1; l <= 6; ++l ) in.push_back( vs( l, n ) );
        g.secs.push_back( rules( "R", in ) );
        g.secs.push_back( rules( "Q", { { n } } ) );
        mark( g );
        std::vector<std::vector<vs> > ps;
        for ( auto &o : names ) for ( size_t l = 1; l <= 7; ++l ) for ( size_t at = 0; at < l; ++at ) {
            if ( o != n or at == 0 ) { ps.push_back( std::vector<vs>( l, { n } ) ); ps.back()[at] = { o }; }
            if ( o != n and ( l == 3 or l == 5 ) ) { ps.push_back( std::vector<vs>( l, { n } ) ); ps.back()[at] = { o, n }; }
        }
        grammar( x, g, ps, {} );
    }
    x.phase( "every class and output class" );
    std::vector<std::vector<vs> > each;
    Gram g;
    g.secs.push_back( meta( "ADDRESS", { { "R" }, { "R", "R" } } ) );
    std::vector<vs> ins;
    for ( int i = 0; i <= 36; ++i ) { str n = InClass::asString( InClass::asType( i ) ); if ( n == "BADTOKEN" ) continue; ins.push_back( { n } ); each.push_back( { { n } } ); for ( auto &e : ins ) each.push_back( { { n }, e } ); }
    g.secs.push_back( rules( "R", ins ) );
    mark( g );
    for ( size_t i = 0; i < each.size(); i += 37 ) grammar( x, g, std::vector<std::vector<vs> >( each.begin() + i, each.begin() + std::min( i + 37, each.size() ) ), {} );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P01";
    o.rule = "one evaluation per grammar, searched for every phrase of its phrase space and compared with the derivations an independent enumerator finds (as multisets of rule sequences); distinct outcomes are distinct sets of derivations over all phrases";
    o.assumptions = { "the grammars have at most four sections in the product space and at most sixteen on the ladders" };
    return mc::main( argc, argv, o, explore );
}
