// P05: Token::enumerate against the plain product of the class sets.
#include "real.h"
using namespace rl;

typedef std::vector<InClass::Type> pat;

static std::vector<pat> product( const std::vector<std::set<InClass::Type> > &v ) {
    std::vector<pat> r( 1 );
    for ( auto &s : v ) {
        std::vector<pat> n;
        for ( auto &p : r ) for ( auto &c : s ) { pat q = p; q.push_back( c ); n.push_back( q ); }
        r.swap( n );
    }
    return r;
}
static str ps( const std::vector<pat> &v ) {
    std::ostringstream o;
    o << v.size() << " patterns";
    size_t k = 0;
    for ( auto &p : v ) { if ( ++k > 30 ) break; o << " |"; for ( auto &c : p ) o << " " << InClass::asString( c ); }
    return o.str();
}

static void one( mc::Ex &x, const std::vector<std::set<InClass::Type> > &v ) {
    x.run( [&]{ str o = "tokens with classes"; for ( auto &s : v ) o += " {" + InClass::asString( s ) + "}"; return o; },
    [&]{
        std::vector<Token> t;
        for ( size_t i = 0; i < v.size(); ++i ) { Token k; k.text( "T" + std::to_string( i ) ); k.inclass( v[i] ); t.push_back( k ); }
        auto got = Token::enumerate( t );
        auto want = product( v );
        if ( got != want ) x.eq( ps( got ), ps( want ) + " (in order)", "class patterns of the phrase" ), x.require( false, "patterns differ" );
        auto again = Token::enumerate( t );
        x.require( again == want, "a second enumeration differs from the first" );
        x.outcome( ps( got ), v.size() > 0 and got.size() > 1 );
    } );
}

static void explore( mc::Ex &x ) {
    std::vector<InClass::Type> all;
    for ( int i = 0; i <= 36; ++i ) if ( InClass::asString( InClass::asType( i ) ) != "BADTOKEN" ) all.push_back( InClass::asType( i ) );
    auto pick = [&]( std::initializer_list<size_t> l ) { std::vector<InClass::Type> r; for ( auto i : l ) r.push_back( all[i] ); return r; };
    typedef std::vector<std::set<InClass::Type> > S;

    x.phase( "every subset of 4 classes for up to 3 (4) tokens" );
    auto four = pick( { 0, 5, 17, all.size() - 1 } );
    mc::sequences( 16, 0, x.thorough ? 4 : 3, [&]( const std::vector<int> &s ) {
        S v;
        for ( int m : s ) { std::set<InClass::Type> q; for ( int b = 0; b < 4; ++b ) if ( m >> b & 1 ) q.insert( four[b] ); v.push_back( q ); }
        one( x, v );
    } );
    x.phase( "0 to 3 classes for each of 4 to 6 (7) tokens" );
    mc::sequences( 4, 4, x.thorough ? 7 : 6, [&]( const std::vector<int> &s ) {
        S v;
        for ( size_t i = 0; i < s.size(); ++i ) { std::set<InClass::Type> q; for ( int b = 0; b < s[i]; ++b ) q.insert( all[ ( i * 5 + b * 7 ) % all.size() ] ); v.push_back( q ); }
        one( x, v );
    } );
    x.phase( "two tokens with any numbers of classes" );
    for ( size_t a = 0; a <= all.size(); ++a ) for ( size_t b = 0; b <= all.size(); ++b ) {
        if ( not x.thorough and a * b > 400 and a != all.size() and b != all.size() ) continue;
        S v( 2 );
        for ( size_t i = 0; i < a; ++i ) v[0].insert( all[i] );
        for ( size_t i = 0; i < b; ++i ) v[1].insert( all[ all.size() - 1 - i ] );
        one( x, v );
    }
    x.phase( "every pair of classes beside every class" );
    for ( size_t a = 0; a < all.size(); ++a ) for ( size_t b = 0; b < a; ++b ) for ( size_t c = 0; c < all.size(); c += x.thorough ? 1 : 3 ) {
        S v( 2 );
        v[0].insert( all[a] ); v[0].insert( all[b] );
        v[1].insert( all[c] );
        one( x, v );
        std::swap( v[0], v[1] );
        one( x, v );
    }
    x.phase( "phrases of tokens with equally many classes, up to 100000 (2000000) patterns" );
    for ( size_t c = 2; c <= all.size(); ++c ) {
        double total = c;
        for ( size_t n = 1; total <= ( x.thorough ? 2e6 : 1e5 ); ++n, total *= c ) {
            S v( n );
            for ( size_t i = 0; i < n; ++i ) for ( size_t b = 0; b < c; ++b ) v[i].insert( all[ ( i + b ) % all.size() ] );
            one( x, v );
        }
    }
    x.phase( "phrases of tokens with 1, 2, 3, 5 and 7 classes in every order, beside 6 tokens with 3" );
    {
        std::vector<size_t> p = { 1, 2, 3, 5, 7 };
        do for ( int extra = 0; extra <= ( x.thorough ? 8 : 5 ); ++extra ) {
            std::vector<size_t> q( p ); q.insert( q.begin() + extra % 6, extra, 3 );
            S v( q.size() );
            for ( size_t i = 0; i < q.size(); ++i ) for ( size_t b = 0; b < q[i]; ++b ) v[i].insert( all[ ( 3 * i + 2 * b ) % all.size() ] );
            one( x, v );
        } while ( std::next_permutation( p.begin(), p.end() ) );
    }
    x.phase( "around 65536 and 131072 patterns" );
    for ( auto cs : std::vector<std::vector<size_t> >{ { 2, 16 }, { 2, 17 }, { 3, 11 }, { 4, 8 }, { 5, 7 }, { 16, 4 }, { 6, 6 }, { 7, 6 }, { 9, 5 }, { 17, 4 } } ) {
        S v( cs[1] );
        for ( size_t i = 0; i < cs[1]; ++i ) for ( size_t b = 0; b < cs[0]; ++b ) v[i].insert( all[ ( i + b ) % all.size() ] );
        one( x, v );
        v.push_back( { all[3] } ); v.insert( v.begin() + 2, { all[5], all[9] } );
        one( x, v );
    }
    x.phase( "ladder of tokens with two, one or three classes" );
    for ( size_t n = 1; n <= ( x.thorough ? 17u : 13u ); ++n ) for ( int k = 0; k < 4; ++k ) {
        S v( n );
        for ( size_t i = 0; i < n; ++i ) {
            v[i].insert( all[i % all.size()] );
            if ( k == 0 or ( k == 1 and i % 2 ) or ( k == 2 and i == n - 1 ) or ( k == 3 and i == 0 ) ) v[i].insert( all[( i + 9 ) % all.size()] );
        }
        one( x, v );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P05";
    o.rule = "one evaluation per phrase given by its class sets, compared pattern by pattern with the ordered product of the sets; distinct outcomes are distinct enumerations with more than one pattern";
    return mc::main( argc, argv, o, explore );
}
