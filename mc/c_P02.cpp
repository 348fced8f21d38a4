// P02: the best match against exact arithmetic over all derivations.
#include "grams.h"
using namespace rl;
using namespace gr;

typedef std::vector<vs> Ph;                 // classes of each token
struct Best { bool any; long num, den; str matched; vs in, out; size_t nrules, phrase; };

// scores are multiples of 1/8192: compare the means exactly
static Best best( const Gram &g, const std::vector<Ph> &phrases ) {
    Best b; b.any = false; b.num = 0; b.den = 1;
    for ( size_t i = 0; i < phrases.size(); ++i )
        for ( auto &p : md::patterns( phrases[i] ) ) for ( auto &d : md::derivations( g, "ADDRESS", p, phrases[i].size() ) ) {
            long sum = 0;
            for ( auto *r : d ) sum += (long) ( r->score * 8192 + 0.5 );
            long den = 8192 * (long) d.size();
            if ( b.any and sum * b.den <= b.num * den ) continue;
            b.any = true; b.num = sum; b.den = den; b.nrules = d.size(); b.phrase = i;
            b.in = p; b.out.clear();
            for ( auto *r : d ) b.out.insert( b.out.end(), r->out.begin(), r->out.end() );
        }
    return b;
}
static str pshow( const Ph &p ) { str o; for ( auto &c : p ) o += " {" + join( c, "," ) + "}"; return "[" + o + " ]"; }
static std::vector<Token> phrase( const Ph &p, int k ) {
    std::vector<Token> t;
    for ( size_t i = 0; i < p.size(); ++i ) t.push_back( token( "w" + std::to_string( k ) + "." + std::to_string( i ), md::classes( p[i].begin(), p[i].end() ) ) );
    return t;
}

static str check( mc::Ex &x, Search &S, const Gram &g, const std::vector<Ph> &phrases, bool single ) {
    std::vector<std::vector<Token> > ph;
    str what;
    for ( size_t i = 0; i < phrases.size(); ++i ) { ph.push_back( phrase( phrases[i], i ) ); what += ( i ? " or " : "" ) + pshow( phrases[i] ); }
    what = "best match of " + what;
    float score = 99, nrules = 99;
    str matched = "-";
    std::vector<Token> got = single ? S.searchAndReclassBest( ph[0], score, matched, nrules ) : S.searchAndReclassBest( ph, score, matched, nrules );
    Best b = best( g, phrases );
    if ( not b.any ) {
        x.require( score < 0, what + ": score " + num( score ) + " although nothing matches" );
        x.require( got.empty(), what + ": tokens returned although nothing matches" );
        x.require( matched == "-" or matched.empty(), what + ": pattern " + show( matched ) + " although nothing matches" );
        return "-";
    }
    double mean = (double) b.num / b.den;
    x.require( std::fabs( score - mean ) < 1e-6 * mean, what + ": score " + num( score ) + ", expected " + num( mean ) );
    x.eq( (double) nrules, (double) b.nrules, what + ": number of rules" );
    x.eq( got.size(), b.in.size(), what + ": number of tokens" );
    str m;
    for ( auto &c : b.in ) m += c + " ";
    m += "->";
    for ( auto &c : b.out ) m += " " + c;
    for ( size_t i = 0; i < got.size(); ++i ) {
        x.eq( got[i].text(), ph[b.phrase][i].text(), what + ": text of token " + std::to_string( i ) );
        x.eq( got[i].inclassAsString(), b.in[i], what + ": class of token " + std::to_string( i ) );
        x.eq( got[i].outclassAsString(), b.out[i], what + ": output class of token " + std::to_string( i ) );
    }
    x.eq( matched, m, what + ": reported pattern" );
    return m + num( mean );
}

static void grammar( mc::Ex &x, const Gram &g, const std::vector<std::vector<Ph> > &lists ) {
    x.run( [&]{ return md::gramText( g ) + std::to_string( lists.size() ) + " lists of phrases"; }, [&]{
        std::istringstream in( md::gramText( g ) );
        Grammar G( in );
        Search S( G );
        str all; bool any = false;
        for ( auto &l : lists ) {
            str r = check( x, S, g, l, false );
            if ( l.size() == 1 ) check( x, S, g, l, true );
            if ( r != "-" ) any = true;
            all += r + "/";
        }
        x.outcome( all, any );
    } );
}

static void explore( mc::Ex &x ) {
    std::vector<std::vector<Ph> > singles, small, pairs;
    std::vector<vs> one = { { A }, { B }, { A, B } };
    std::vector<Ph> p2;
    mc::sequences( 3, 0, 3, [&]( const std::vector<int> &v ) {
        Ph q; for ( int i : v ) q.push_back( one[i] );
        singles.push_back( { q } );
        if ( q.size() < 3 ) { p2.push_back( q ); small.push_back( { q } ); }
        if ( v == std::vector<int>{ 2, 2, 2 } or v == std::vector<int>{ 2, 0, 2 } ) small.push_back( { q } );
    } );
    std::vector<Ph> pool = { {}, { { A } }, { { A, B } }, { { A }, { B } }, { { A, B }, { A } }, { { B } } };
    mc::sequences( pool.size(), 0, 3, [&]( const std::vector<int> &v ) { std::vector<Ph> l; for ( int i : v ) l.push_back( pool[i] ); pairs.push_back( l ); } );

    x.phase( "every small grammar with its own scores, every phrase of up to 3 tokens" );
    int n = 0;
    structures( x.thorough ? 2 : 0, [&]( const Gram &g ) { if ( x.thorough or n++ % 2 == 0 ) grammar( x, g, singles ); } );

    x.phase( "every assignment of three scores to small grammars" );
    double sc[] = { 0.25, 0.5, 1 };
    auto scored = [&]( Gram g, int values, const std::vector<std::vector<Ph> > &l ) {
        size_t k = 0;
        for ( auto &s : g.secs ) k += s.rules.size();
        mc::sequences( values, k, k, [&]( const std::vector<int> &v ) {
            size_t i = 0;
            for ( auto &s : g.secs ) for ( auto &r : s.rules ) r.score = sc[ v[i++] ];
            grammar( x, g, l );
        } );
    };
    std::vector<vs> roots = seqs( { "R1", "R2", "M" }, 1, 2 );
    std::vector<std::vector<vs> > rls = { { { A }, { B } }, { { A }, { A, B }, {} }, { { A }, { A } }, { { A, A }, { A } } };
    for ( auto &r : roots ) for ( auto &q : roots ) for ( size_t a = 0; a < rls.size(); ++a ) for ( size_t b = 0; b < 2; ++b ) {
        if ( r >= q and not x.thorough and b ) continue;
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { r, q } ) );
        g.secs.push_back( meta( "M", { { "R1", "R2" }, { "R1" } } ) );
        g.secs.push_back( rules( "R1", rls[a] ) );
        g.secs.push_back( rules( "R2", b ? std::vector<vs>{ {}, { A } } : std::vector<vs>{ { B } } ) );
        mark( g );
        scored( g, x.thorough ? 3 : rls[a].size() + b > 3 ? 2 : 3, small );
    }
    flat( 1, [&]( const Gram &g ) { scored( g, 3, singles ); } );

    x.phase( "scores next to nothing, scores next to each other, scores far apart" );
    const double near[3][3] = { { 1 / 8192., 2 / 8192., 3 / 8192. }, { 1, 1 + 1 / 8192., 1 + 2 / 8192. }, { 1 / 8192., 1, 100 } };
    for ( int k = 0; k < 3; ++k ) {
        for ( int i = 0; i < 3; ++i ) sc[i] = near[k][i];
        int m = 0;
        flat( 1, [&]( const Gram &g ) { if ( x.thorough or m++ % 2 == k % 2 ) scored( g, 3, small ); } );
        for ( auto &r : roots ) {
            Gram g;
            g.secs.push_back( meta( "ADDRESS", { r, { "R1" } } ) );
            g.secs.push_back( meta( "M", { { "R1", "R2" }, { "R1" } } ) );
            g.secs.push_back( rules( "R1", rls[0] ) );
            g.secs.push_back( rules( "R2", { { B }, { A, B } } ) );
            mark( g );
            scored( g, 3, pairs.size() > 60 ? std::vector<std::vector<Ph> >( pairs.begin(), pairs.begin() + 60 ) : pairs );
        }
    }
    for ( int i = 0; i < 3; ++i ) sc[i] = i == 0 ? 0.25 : i == 1 ? 0.5 : 1;

    x.phase( "every list of up to 3 candidate phrases" );
    for ( size_t a = 0; a < rls.size(); ++a ) for ( size_t k = 0; k < roots.size(); ++k ) for ( int s = 0; s < 27; ++s ) {
        if ( s % 3 and not x.thorough ) continue;
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { roots[k], { "R2" } } ) );
        g.secs.push_back( meta( "M", { { "R2", "R1" }, { "R1" } } ) );
        g.secs.push_back( rules( "R1", rls[a] ) );
        g.secs.push_back( rules( "R2", { { B }, { A, B } } ) );
        mark( g );
        g.secs[2].rules[0].score = sc[ s % 3 ];
        g.secs[2].rules[1].score = sc[ s / 3 % 3 ];
        g.secs[3].rules[0].score = sc[ s / 9 ];
        grammar( x, g, pairs );
    }
    x.phase( "ladders" );
    std::vector<std::vector<Ph> > lad;
    for ( int k = 0; k <= 6; ++k ) { Ph q( k, { A } ); lad.push_back( { q } ); if ( k and k < 5 ) { q[k-1] = { A, B, C }; lad.push_back( { q } ); } }
    ladders( x.thorough ? 2 : 0, [&]( const Gram &g ) { grammar( x, g, lad ); } );
    x.phase( "long recursion, chains, lines, rules, lists and many derivations" );
    tall( x.thorough, [&]( const Gram &g, const std::vector<Ph> &p ) {
        std::vector<std::vector<Ph> > l;
        for ( auto &q : p ) l.push_back( { q } );
        grammar( x, g, l );
    } );
    x.phase( "long lists of candidate phrases, the best at every place" );
    for ( int n : { 5, 9, 17, 34, 70 } ) for ( int at = 0; at < n; ++at ) {
        if ( n > 20 and not x.thorough and at % 5 and at < n - 2 ) continue;
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { { "R1" }, { "R1", "R2" } } ) );
        g.secs.push_back( rules( "R1", { { A }, { B } } ) );
        g.secs.push_back( rules( "R2", { { C }, { A } } ) );
        mark( g );
        g.secs[1].rules[1].score = 4;
        std::vector<Ph> l( n, { { A } } ), m( n, { { A }, { C } } ), e( n, { { C } } );
        l[at] = { { B } }; m[at] = { { A, B }, { A } }; e[at] = { { A } };
        grammar( x, g, { l, m, e } );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P02";
    o.rule = "one evaluation per grammar with scores; for every phrase and list of phrases of its space the returned tokens, score, rule count and pattern are compared with the first of the highest-scoring derivations found by an independent enumerator in exact arithmetic; distinct outcomes are distinct vectors of best matches";
    o.assumptions = { "scores are multiples of 1/8192, so that means are compared exactly" };
    return mc::main( argc, argv, o, explore );
}
