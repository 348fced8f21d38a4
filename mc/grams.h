// The space of small grammars used by P01, P02 and P03.
#ifndef GRAMS_H
#define GRAMS_H

#include "real.h"

namespace gr {

using md::Gram;
using md::Section;
using md::MRule;
using md::str;
using md::vs;

const char *const OUTS[] = { "HOUSE", "STREET", "SUFTYP", "CITY", "PROV", "BLDNG", "PREDIR", "QUALIF", "PRETYP", "SUFDIR", "RR", "EXTRA", "NATION", "POSTAL", "BOXH", "BOXT", "UNITH", "UNITT", "IGNORE", "STOP" };
const double SCORES[] = { 0.5, 0.25, 0.75, 1, 1.25, 0.125, 2, 0.375, 1.5, 0.625 };

// give the rules of a grammar distinct output classes and scores
inline void mark( Gram &g ) {
    int k = 0, r = 0;
    for ( auto &s : g.secs ) for ( auto &u : s.rules ) {
        u.out.clear();
        for ( size_t i = 0; i < u.in.size(); ++i ) u.out.push_back( OUTS[ k++ % 20 ] );
        u.score = SCORES[ r++ % 10 ];
    }
}
inline Section meta( const str &n, const std::vector<vs> &refs ) { Section s; s.name = n; s.meta = true; s.refs = refs; return s; }
inline Section rules( const str &n, const std::vector<vs> &ins ) {
    Section s; s.name = n; s.meta = false;
    for ( auto &i : ins ) { MRule r; r.in = i; r.score = 1; s.rules.push_back( r ); }
    return s;
}
// every sequence over the names of length lo..hi
inline std::vector<vs> seqs( const vs &names, int lo, int hi ) {
    std::vector<vs> r;
    mc::sequences( names.size(), lo, hi, [&]( const std::vector<int> &v ) { vs q; for ( int i : v ) q.push_back( names[i] ); r.push_back( q ); } );
    return r;
}
inline std::vector<std::vector<vs> > upTo( const std::vector<vs> &pool, int n ) {   // lists of 1..n distinct members, ordered
    std::vector<std::vector<vs> > r;
    mc::sequences( pool.size(), 1, n, [&]( const std::vector<int> &v ) {
        std::set<int> s( v.begin(), v.end() );
        if ( s.size() != v.size() ) return;
        std::vector<vs> q; for ( int i : v ) q.push_back( pool[i] ); r.push_back( q );
    } );
    return r;
}

const str A = "NUMBER", B = "WORD", C = "TYPE";

// ADDRESS refers to M, R1 and R2; M to all of them; R1 and R2 hold rules.
// size 0..2 chooses how many of the combinations
template<class F> void structures( int size, F f ) {
    std::vector<vs> roots = seqs( { "M", "R1", "R2" }, 1, 3 );
    std::vector<vs> mpool = seqs( { "R1", "R2", "M", "ADDRESS" }, 1, 2 );
    std::vector<std::vector<vs> > ms;
    for ( auto &m : mpool ) ms.push_back( { m } );
    for ( size_t i = 0; i < mpool.size(); ++i ) for ( size_t j = 0; j < mpool.size(); ++j ) {
        if ( size == 0 and ( i + 2 * j ) % 13 ) continue;
        if ( size == 1 and ( i + j ) % 3 ) continue;
        ms.push_back( { mpool[i], mpool[j] } );
    }
    std::vector<std::vector<vs> > r1 = { { { A } }, { { A }, {} }, { { A, B }, { A } }, { {}, { A, A } } };
    std::vector<std::vector<vs> > r2 = { { { B } }, { {} }, { { B }, { A } } };
    if ( size == 2 ) { r1.push_back( { {} } ); r1.push_back( { { B, A }, { B }, { A } } ); r2.push_back( { { B }, { B, B }, {} } ); r2.push_back( { { A, B } } ); }
    for ( auto &r : roots ) for ( auto &m : ms ) for ( auto &a : r1 ) for ( auto &b : r2 ) {
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { r } ) );
        g.secs.push_back( meta( "M", m ) );
        g.secs.push_back( rules( "R1", a ) );
        g.secs.push_back( rules( "R2", b ) );
        mark( g );
        f( g );
    }
    // two alternatives in the root
    std::vector<vs> two = seqs( { "M", "R1", "R2" }, 1, 2 );
    for ( auto &p : two ) for ( auto &q : two ) for ( size_t k = 0; k < ms.size(); k += size == 2 ? 1 : size == 1 ? 3 : 7 ) for ( size_t b = 0; b < ( size ? r1.size() : 2 ); ++b ) {
        Gram g;
        g.secs.push_back( rules( "R2", r2[ ( k + b ) % r2.size() ] ) );
        g.secs.push_back( meta( "M", ms[k] ) );
        g.secs.push_back( meta( "ADDRESS", { p, q } ) );
        g.secs.push_back( rules( "R1", r1[b] ) );
        mark( g );
        f( g );
    }
}

// ADDRESS holds rules itself, beside an unreferenced section
template<class F> void flat( int size, F f ) {
    for ( auto &l : upTo( { {}, { A }, { B }, { A, A }, { A, B }, { B, A }, { A, B, A } }, size ? 3 : 2 ) ) for ( int extra = 0; extra < 2; ++extra ) {
        Gram g;
        g.secs.push_back( rules( "ADDRESS", l ) );
        if ( extra ) g.secs.push_back( rules( "R1", { { B }, { A, B } } ) );
        mark( g );
        f( g );
    }
}

// grow one dimension: chains of references, recursion, alternatives,
// lines, rules, sections, lengths
template<class F> void ladders( int size, F f ) {
    int top = size == 2 ? 14 : 9;
    for ( int k = 1; k <= top; ++k ) {
        vs names; for ( int i = 0; i < k; ++i ) names.push_back( "S" + std::to_string( i ) );
        {   // chain
            Gram g; g.secs.push_back( meta( "ADDRESS", { { "S0" } } ) );
            for ( int i = 0; i + 1 < k; ++i ) g.secs.push_back( meta( names[i], { { names[i+1] } } ) );
            g.secs.push_back( rules( names[k-1], { { A }, { A, A }, {} } ) );
            mark( g ); f( g );
        }
        {   // chain with something before it at every step
            Gram g; g.secs.push_back( meta( "ADDRESS", { { "R", "S0" } } ) );
            for ( int i = 0; i + 1 < k; ++i ) g.secs.push_back( meta( names[i], { { "R", names[i+1] } } ) );
            g.secs.push_back( rules( names[k-1], { { A } } ) );
            g.secs.push_back( rules( "R", { { A }, {} } ) );
            mark( g ); f( g );
        }
        {   // a line of k references to rules
            Gram g; vs l( k, "R" ); g.secs.push_back( meta( "ADDRESS", { l } ) );
            g.secs.push_back( rules( "R", { { A }, { A, A } } ) );
            mark( g ); f( g );
        }
        {   // a line of k references to a section of references
            Gram g; vs l( k, "M" ); g.secs.push_back( meta( "ADDRESS", { l } ) );
            g.secs.push_back( meta( "M", { { "R" } } ) );
            g.secs.push_back( rules( "R", { { A } } ) );
            mark( g ); f( g );
        }
        {   // k alternatives
            Gram g; Section a = meta( "ADDRESS", {} );
            for ( int i = 0; i < k; ++i ) a.refs.push_back( { names[i] } );
            g.secs.push_back( a );
            for ( int i = 0; i < k; ++i ) g.secs.push_back( rules( names[i], { { A }, vs( i + 1, A ) } ) );
            mark( g ); f( g );
        }
        {   // k rules, rule of length k
            Gram g; g.secs.push_back( meta( "ADDRESS", { { "R" }, { "R", "R" } } ) );
            std::vector<vs> in; for ( int i = 0; i < k; ++i ) in.push_back( vs( i + 1, A ) );
            g.secs.push_back( rules( "R", in ) );
            mark( g ); f( g );
        }
        {   // the same rule k times
            Gram g; g.secs.push_back( meta( "ADDRESS", { { "R" } } ) );
            g.secs.push_back( rules( "R", std::vector<vs>( k, { A } ) ) );
            mark( g ); f( g );
        }
    }
    for ( int kind = 0; kind < 6; ++kind ) {
        Gram g;
        g.secs.push_back( meta( "ADDRESS", { { "M" } } ) );
        std::vector<vs> m;
        if ( kind == 0 ) m = { { "R", "M" }, { "R" } };
        if ( kind == 1 ) m = { { "M", "R" }, { "R" } };
        if ( kind == 2 ) m = { { "R" }, { "R", "M" } };
        if ( kind == 3 ) m = { { "R" }, { "M", "M" } };
        if ( kind == 4 ) m = { { "M" }, { "R", "ADDRESS" }, { "R" } };
        if ( kind == 5 ) m = { { "R", "N" }, { "R" } };
        g.secs.push_back( meta( "M", m ) );
        if ( kind == 5 ) g.secs.push_back( meta( "N", { { "M", "R" }, { "M" } } ) );
        g.secs.push_back( rules( "R", { { A } } ) );
        mark( g ); f( g );
    }
}

// much larger in one dimension, with few derivations: f( grammar, phrases )
template<class F> void tall( int size, F f ) {
    typedef std::vector<std::vector<vs> > Phs;
    std::vector<int> lens = { 10, 13, 17, 22, 35, 45, 70 };
    if ( size ) { lens.push_back( 130 ); }
    auto near = []( int n ) {               // n tokens, one more, one less, one wrong
        Phs r;
        for ( int d = -1; d <= 1; ++d ) r.push_back( std::vector<vs>( n + d, { A } ) );
        for ( int at : { 0, n / 2, n - 1 } ) { r.push_back( std::vector<vs>( n, { A } ) ); r.back()[at] = { B }; }
        r.push_back( std::vector<vs>( n, { A } ) ); r.back()[n-1] = { A, B };
        return r;
    };
    for ( int n : lens ) {
        {   // one section refers to itself
            for ( int kind = 0; kind < 3; ++kind ) {
                Gram g; g.secs.push_back( meta( "ADDRESS", { { "M" } } ) );
                g.secs.push_back( meta( "M", kind == 0 ? std::vector<vs>{ { "R", "M" }, { "R" } } : kind == 1 ? std::vector<vs>{ { "L" }, { "R", "R", "M" } } : std::vector<vs>{ { "R", "M", "L" }, { "L" } } ) );
                g.secs.push_back( rules( "R", { { A } } ) );
                g.secs.push_back( rules( "L", { { B }, { A } } ) );
                mark( g ); f( g, near( n ) );
            }
        }
        {   // a chain of n sections
            Gram g; g.secs.push_back( meta( "ADDRESS", { { "S0" } } ) );
            for ( int i = 0; i + 1 < n; ++i ) g.secs.push_back( meta( "S" + std::to_string( i ), { { "R", "S" + std::to_string( i + 1 ) } } ) );
            g.secs.push_back( rules( "S" + std::to_string( n - 1 ), { { A }, { B } } ) );
            g.secs.push_back( rules( "R", { { A } } ) );
            mark( g ); f( g, near( n ) );
        }
        {   // a line of n references to different sections
            Gram g; vs l; for ( int i = 0; i < n; ++i ) l.push_back( "S" + std::to_string( i ) );
            g.secs.push_back( meta( "ADDRESS", { l } ) );
            for ( int i = 0; i < n; ++i ) g.secs.push_back( rules( l[i], i % 5 ? std::vector<vs>{ { A } } : std::vector<vs>{ { A }, { B } } ) );
            mark( g ); f( g, near( n ) );
        }
        {   // a rule of length n among shorter and longer ones, a list of n sections, n lines
            Gram g; g.secs.push_back( meta( "ADDRESS", { { "R" } } ) );
            std::vector<vs> in; for ( int i = 1; i <= n + 1; ++i ) in.push_back( vs( i, A ) );
            in.push_back( vs( n, A ) ); in.back()[n-1] = B;
            in.push_back( vs( n, A ) ); in.back()[0] = B;
            g.secs.push_back( rules( "R", in ) );
            mark( g ); f( g, near( n ) );
            Gram h; Section a = meta( "ADDRESS", {} );
            for ( size_t i = 0; i < in.size(); ++i ) a.refs.push_back( { "S" + std::to_string( i ) } );
            h.secs.push_back( a );
            for ( size_t i = 0; i < in.size(); ++i ) h.secs.push_back( rules( a.refs[i][0], { in[i] } ) );
            mark( h ); f( h, near( n ) );
        }
    }
    for ( int n : { 12, 40, 150, 400 } ) if ( n < 400 or size ) {
        // n derivations of the same phrase, from rules, from lines, from both
        Gram g; g.secs.push_back( meta( "ADDRESS", { { "R" } } ) );
        g.secs.push_back( rules( "R", std::vector<vs>( n, { A } ) ) );
        mark( g ); f( g, Phs{ { { A } }, { { A, B } }, { { B } } } );
        Gram h; h.secs.push_back( meta( "ADDRESS", std::vector<vs>( n, { "R" } ) ) );
        h.secs.push_back( rules( "R", { { B }, { A } } ) );
        mark( h ); f( h, Phs{ { { A } }, { { A, B } }, { { B } } } );
    }
    for ( int n = 2; n <= ( size ? 11 : 9 ); ++n ) {
        // 2^n derivations, from choices in the grammar and from choices of classes
        Gram g; g.secs.push_back( meta( "ADDRESS", { vs( n, "R" ) } ) );
        g.secs.push_back( rules( "R", { { A }, { A } } ) );
        mark( g ); f( g, Phs{ std::vector<vs>( n, { A } ) } );
        Gram h; h.secs.push_back( meta( "ADDRESS", { vs( n, "R" ) } ) );
        h.secs.push_back( rules( "R", { { A }, { B } } ) );
        mark( h ); f( h, Phs{ std::vector<vs>( n, { A, B } ) } );
    }
}

inline str rule( const MRule &r ) { return md::ruleText( r ); }

}

#endif
