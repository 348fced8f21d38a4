// P19: walking, cutting and encoding UTF-8 text.
#include "real.h"
#include "utf8iterator.h"
using namespace rl;

static str hex( UChar32 c ) { char b[16]; snprintf( b, sizeof b, "U+%04X", (unsigned) c ); return b; }
static str hexAll( const md::cps &v ) { str o; for ( auto c : v ) o += hex( c ) + " "; return o; }

// forwards, backwards and every cut of a text of known code points
static str walk( const md::cps &v ) {
    str t;
    std::vector<size_t> at;
    for ( auto c : v ) { at.push_back( t.size() ); t += md::enc( c ); }
    at.push_back( t.size() );
    const str s = t;                // constant iterators
    Utf8Iterator b( s.begin() ), e( s.end() );
    std::vector<Utf8Iterator> pos;
    Utf8Iterator i( b );
    for ( size_t k = 0; k <= v.size(); ++k ) {
        if ( ( i == e ) != ( k == v.size() ) ) return "reaches the end after " + std::to_string( k ) + " steps";
        if ( ( i != e ) == ( i == e ) ) return "== and != agree";
        if ( not ( i == s.begin() + at[k] ) or i != s.begin() + at[k] ) return "is not at byte " + std::to_string( at[k] ) + " after " + std::to_string( k ) + " steps";
        pos.push_back( i );
        if ( k == v.size() ) break;
        char32_t c = *i;
        if ( c != (char32_t) v[k] ) return "step " + std::to_string( k ) + " reads " + hex( c );
        if ( *i != c ) return "reading twice gives two values";
        if ( CodePointToUtf8( c ) != s.substr( at[k], at[k + 1] - at[k] ) ) return hex( c ) + " is encoded as " + mc::show( CodePointToUtf8( c ) );
        ++i;
        // the value read before must not stay
        if ( k + 1 < v.size() and *i != (char32_t) v[k + 1] ) return "after reading " + hex( c ) + " the next is " + hex( *i );
    }
    for ( size_t k = v.size(); k-- > 0; ) {
        --i;
        if ( not ( i == pos[k] ) ) return "backwards step to " + std::to_string( k ) + " is elsewhere";
        if ( *i != (char32_t) v[k] ) return "backwards step " + std::to_string( k ) + " reads " + hex( *i );
    }
    for ( size_t a = 0; a <= v.size(); ++a ) for ( size_t z = a; z <= v.size(); ++z ) {
        str c = pos[a].substr( pos[z] );
        if ( c != s.substr( at[a], at[z] - at[a] ) ) return "cut " + std::to_string( a ) + ".." + std::to_string( z ) + " is " + mc::show( c );
    }
    return "";
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    const UChar32 nb[] = { 'A', 0xE9, 0x20AC, 0x1F600 };

    x.phase( "every Unicode scalar value alone and between neighbours of every encoded length" );
    for ( UChar32 lo = 0; lo < 0x110000; lo += 64 ) {
        if ( lo >= 0xD800 and lo < 0xE000 ) continue;
        x.run( [&]{ return hex( lo ) + " to " + hex( lo + 63 ); }, [&]{
            for ( UChar32 c = lo; c < lo + 64; ++c ) {
                str m = walk( { c } );
                x.require( m.empty(), "text " + hex( c ) + " " + m );
                for ( int a = 0; a < 4; ++a ) for ( int b = 0; b < 4; ++b ) if ( T or a == b or c % 64 == 0 or c % 64 == 63 ) {
                    m = walk( { nb[a], c, nb[b] } );
                    x.require( m.empty(), "text " + hexAll( { nb[a], c, nb[b] } ) + m );
                }
            }
            x.outcome( hex( lo ) );
        } );
    }
    x.phase( "values that are no code point" );
    for ( unsigned lo = 0x110000; lo < 0x130000; lo += 4096 ) x.run( [&]{ return "encoding " + hex( lo ) + " to " + hex( lo + 4095 ); }, [&]{
        for ( unsigned c = lo; c < lo + 4096; ++c ) {
            bool threw = false;
            try { CodePointToUtf8( c ); } catch ( std::runtime_error & ) { threw = true; }
            x.require( threw, hex( c ) + " was encoded" );
        }
        for ( int b = 0; b < 32; ++b ) for ( int d = -1; d < 2; ++d ) {
            unsigned c = ( 1u << b ) + d; bool threw = false;
            try { CodePointToUtf8( c ); } catch ( std::runtime_error & ) { threw = true; }
            x.require( threw == ( c > 0x10FFFF ), hex( c ) + ( threw ? " was rejected" : " was encoded" ) );
        }
        x.outcome( hex( lo ) );
    } );
    x.phase( "every text of up to 5 (6) code points from both ends of every encoded length" );
    md::cps edge = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF };
    for ( UChar32 c : { 0x41, 0xD7FF, 0xE000, 0xC0 } ) if ( T ) edge.push_back( c );
    mc::sequences( edge.size(), 0, T ? 6 : 5, [&]( const std::vector<int> &v ) {
        md::cps t; for ( int i : v ) t.push_back( edge[i] );
        x.run( [&]{ return "text " + hexAll( t ); }, [&]{
            str m = walk( t );
            x.require( m.empty(), m );
            x.outcome( hexAll( t ), t.size() > 0 );
        } );
    } );
    x.phase( "every walk of up to 8 (10) steps" );
    // ++i, i++, --i, i--, read, copy, assign from the start
    const md::cps W = { 'A', 0xE9, 0x20AC, 0x1F600, 'B' };
    str s; std::vector<size_t> at;
    for ( auto c : W ) { at.push_back( s.size() ); s += md::enc( c ); }
    at.push_back( s.size() );
    const str cs = s;
    const char *nm[] = { "++i", "i++", "--i", "i--", "*i", "j=i;*j;i=j" };
    for ( int L = 0; L <= ( T ? 10 : 8 ); ++L ) {
        std::vector<int> v( L, 0 );
        std::function<void(int,int)> rec = [&]( int n, int p ) {
            if ( n == L ) {
                x.run( [&]{ str o = "steps"; for ( int i : v ) o += str( " " ) + nm[i]; return o; }, [&]{
                    Utf8Iterator i( cs.begin() ), e( cs.end() );
                    size_t p = 0;
                    for ( int k : v ) {
                        Utf8Iterator r( cs.begin() );
                        size_t was = p;
                        if ( k == 0 ) { ++p; ++i; } else if ( k == 1 ) { ++p; r = i++; } else if ( k == 2 ) { --p; --i; } else if ( k == 3 ) { --p; r = i--; }
                        else if ( k == 4 ) { x.require( *i == (char32_t) W[p], "reads " + hex( *i ) + " at " + std::to_string( p ) ); }
                        else { Utf8Iterator j( i ); if ( p < W.size() ) x.require( *j == (char32_t) W[p], "a copy reads " + hex( *j ) ); i = j; }
                        if ( k == 1 or k == 3 ) x.require( r == cs.begin() + at[was], "the old position was not returned" );
                        x.require( i == cs.begin() + at[p] and ( i == e ) == ( p == W.size() ), "is not at position " + std::to_string( p ) );
                        x.transition();
                    }
                    if ( p < W.size() ) x.require( *i == (char32_t) W[p], "ends reading " + hex( *i ) );
                    x.state( std::to_string( p ) );
                    str o; for ( int k : v ) o += nm[k]; x.outcome( o );
                } );
                return;
            }
            for ( int k = 0; k < 6; ++k ) {
                int q = p + ( k < 2 ? 1 : k < 4 ? -1 : 0 );
                if ( q < 0 or q > (int) W.size() or ( k == 4 and p == (int) W.size() ) ) continue;
                if ( not T and L > 6 and ( k == 1 or k == 3 or k == 5 ) and n % 2 ) continue;     // long walks: post-steps at even places
                v[n] = k; rec( n + 1, q );
            }
        };
        rec( 0, 0 );
    }
    x.phase( "every text of up to 4 (5) octets, malformed or not, walked forwards" );
    std::vector<int> oct = { 'A', 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF4, 0xF8, 0xFF, 0xC0 };
    mc::sequences( oct.size(), 0, T ? 5 : 4, [&]( const std::vector<int> &v ) {
        str t( 16, 'x' );           // long enough for storage of its own
        for ( int i : v ) t += (char) oct[i];
        x.run( [&]{ return "text " + mc::show( t.substr( 16 ) ) + " at the end"; }, [&]{
            const str s( t.data(), t.size() );
            str got; size_t n = 0;
            Utf8Iterator e( s.end() );
            for ( Utf8Iterator i( s.begin() ); i != e; ++n ) {
                x.require( n <= t.size(), "the walk does not end" );
                *i;
                Utf8Iterator j( i );
                ++i;
                Utf8Iterator b( s.begin() );
                // past the end the difference to the start would exceed the size
                got += j.substr( i );
                x.require( got.size() <= t.size(), "the walk went past the end" );
            }
            x.eq( got, t, "pieces of the walk" );
            x.outcome( t, v.size() > 0 );
        } );
    } );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P19";
    o.rule = "one evaluation per block of 64 code points, per text and per walk, each comparing every position, value, cut and encoding with ICU's; distinct outcomes are distinct texts, blocks and walks";
    return mc::main( argc, argv, o, explore );
}
