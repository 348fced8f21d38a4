// P29: an allocation of the database fails.
#include "pg.h"
#include "real.h"
#include <new>
using namespace rl;

// the library's allocations while a function runs
static long newAsked, newFails;
static bool refused() { return pgm_inside() and not pg::live().own and ++newAsked == newFails; }
static void *give( size_t n ) { return refused() ? 0 : malloc( n ? n : 1 ); }
extern "C" {
void *__real_calloc( size_t, size_t ); char *__real_strdup( const char * );
void *__wrap_calloc( size_t n, size_t m ) { return refused() ? 0 : __real_calloc( n, m ); }
char *__wrap_strdup( const char *t ) { return refused() ? 0 : __real_strdup( t ); }
}
void *operator new( size_t n ) { void *p = give( n ); if ( not p ) throw std::bad_alloc(); return p; }
void *operator new[]( size_t n ) { void *p = give( n ); if ( not p ) throw std::bad_alloc(); return p; }
void *operator new( size_t n, const std::nothrow_t & ) noexcept { return give( n ); }
void *operator new[]( size_t n, const std::nothrow_t & ) noexcept { return give( n ); }
void operator delete( void *p ) noexcept { free( p ); }
void operator delete[]( void *p ) noexcept { free( p ); }
void operator delete( void *p, size_t ) noexcept { free( p ); }
void operator delete[]( void *p, size_t ) noexcept { free( p ); }

static std::map<str,pg::Fn> SQL;
static vs LT, GT;
static const vs ADR = { "a b", "b 1", "a" };

static void texts() {
    for ( int i = 0; i < 3; ++i ) LT.push_back( "LEXICON:\tl\tENG\ten_US\nLEXENTRY:\tA\tSTD" + std::to_string( i ) + "\tWORD\tDETACH\nLEXENTRY:\tB\tBEE\tTYPE\tDETACH\n" );
    LT.push_back( "LEXICON:\tl\tENG\ten_US\nnothing of the kind\n" );
    GT = { "[ADDRESS]\nWORD -> STREET -> 0.5\nWORD TYPE -> STREET SUFTYP -> 0.5\nTYPE NUMBER -> PRETYP HOUSE -> 0.25\n", "[ADDRESS]\nWORD -> CITY -> 0.5\nWORD TYPE -> CITY STREET -> 0.75\n", "[ADDRESS]\nWORD -> CITY\n" };
}

static size_t bytes() { pgm_trim(); return __sanitizer_get_current_allocated_bytes(); }

// what is called: a function, a lexicon, a grammar, an address
struct Use { const char *fn; int l, g, a; };
static bool operator<( const Use &a, const Use &b ) { return std::make_tuple( str( a.fn ), a.l, a.g, a.a ) < std::make_tuple( str( b.fn ), b.l, b.g, b.a ); }
static pg::Args args( const Use &u ) {
    return { { "address", ADR[u.a] }, { "grammar", GT[u.g] }, { "lexicon", LT[u.l] }, { "locale", "en_US" }, { "filter", "PUNCT,SPACE" } };
}
static str uname( const Use &u ) { return str( u.fn + 3 ) + "(" + show( ADR[u.a] ) + ",L" + std::to_string( u.l ) + ",G" + std::to_string( u.g ) + ")"; }

// a call to its last row; fail: which allocation of which of its rows fails.
// asked: how many allocations each row asked for; lib: of the library
static str call( pg::Site &s, const Use &u, size_t row = 0, long fail = 0, std::vector<long> *asked = 0, bool lib = false ) {
    str o;
    for ( size_t r = 1; ; ++r ) {
        pgm_fail( r == row and not lib ? fail : 0 );
        newAsked = 0; newFails = r == row and lib ? fail : 0;
        auto res = s.call( args( u ), r & 1 );
        pgm_fail( 0 ); newFails = 0;
        if ( asked ) asked->push_back( lib ? newAsked : pgm_asked() );
        if ( res.kind == PGM_ERROR ) return res.msg == "out of memory" ? "out of memory" : "error";
        if ( res.kind == PGM_DONE ) return o + "end";
        o += pg::text( res );
        if ( not s.f->set ) return o;
    }
}
// the usual result, and what it asks for in a fresh query
static const str &usual( const Use &u ) {
    static std::map<Use,str> m;
    auto i = m.find( u );
    if ( i != m.end() ) return i->second;
    str o;
    { pg::Query q; pg::Site s( q, SQL.at( u.fn ) ); o = call( s, u ); }
    return m[u] = o;
}

// calls before at two sites of a statement (the second where s is 1)
struct Before { int s; Use u; };
typedef std::vector<Before> History;
static str hname( const History &h ) { str o; for ( auto &b : h ) o += str( b.s ? "second " : "" ) + uname( b.u ) + "; "; return o; }

struct World {
    mc::Ex &x; pg::Query q; pg::Site *s[3];
    str log;
    World( mc::Ex &x ) : x( x ) { s[0] = s[1] = s[2] = 0; }
    ~World() { for ( auto p : s ) delete p; }
    pg::Site &site( int i, const char *fn ) { if ( not s[i] ) s[i] = new pg::Site( q, SQL.at( fn ) ); return *s[i]; }
    void sound( const str &when ) {
        x.require( str( pgm_fault() ).empty() and pg::live().fault.empty(), when + ": " + pgm_fault() + pg::live().fault );
    }
    void usually( int i, const Use &u, const str &when ) {
        str got = call( site( i, u.fn ), u );
        x.transition( 1 );
        x.require( got == usual( u ), when + uname( u ) + " gives " + got + " and usually " + usual( u ) );
        sound( when + uname( u ) );
    }
};

// how many rows and allocations the call has after these
static std::vector<long> points( mc::Ex &x, const History &h, const Use &u, bool lib ) {
    std::vector<long> n;
    World w( x );
    for ( auto &b : h ) call( w.site( b.s, b.u.fn ), b.u );
    call( w.site( u.fn == str( "as_standardize" ) ? 0 : 2, u.fn ), u, 0, 0, &n, lib );
    w.q.end( 0 );
    return n;
}

static void faults( mc::Ex &x, const History &h, const Use &u, bool twice, bool lib = false ) {
    if ( lib ) usual( u );      // what is made once in a process
    auto n = points( x, h, u, lib );
    int site = u.fn == str( "as_standardize" ) ? 0 : 2;
    for ( size_t row = 1; row <= n.size(); ++row ) for ( long f = 1; f <= n[row-1]; ++f )
        for ( int after = 0; after < ( twice and not SQL.at( u.fn ).set ? 4 : 3 ); ++after ) if ( not lib or x.thorough or after == f % 3 )
            x.run( [&]{ return hname( h ) + "then " + ( lib ? "the library's " : "" ) + "allocation " + std::to_string( f ) + " of row " + std::to_string( row ) + " of " + uname( u ) + " fails; then " + ( after == 0 ? "the end" : after == 1 ? "more calls" : after == 2 ? "the same call" : "the same allocation fails again" ); }, [&]{
                // tables that live as long as the process are made by the
                // first time, and what the failure leaves is seen at any
                // of four times
                static bool warm = false;
                for ( auto &b : h ) usual( b.u );
                usual( u );
                for ( int l = 0; l < 3; ++l ) for ( int g = 0; g < 2; ++g ) usual( Use{ "as_standardize", l, g, 0 } );
                if ( not warm and ( f & 1 ) ) { World w( x ); for ( int i = 0; i < 6; ++i ) w.usually( 0, Use{ "as_standardize", i % 3, i % 2, 0 }, "" ); w.q.end( 0 ); }
                warm = true;
                for ( int how = 0; how < 3; ++how ) if ( x.thorough or how == (int) ( row + f + after ) % 3 ) {
                  str got; got.reserve( 4000 );
                  // what the library fails to allocate leaves nothing behind
                  for ( int k = 0; k < 4; ++k ) {
                    long ctx = pgm_contexts(), entries = pgm_hash_entries();
                    size_t before = lib ? bytes() : 0;
                    {
                        World w( x );
                        for ( auto &b : h ) w.usually( b.s, b.u, "before: " );
                        for ( int k = 0; k < ( after == 3 ? 2 : 1 ); ++k ) {
                            got.clear(); got += call( w.site( site, u.fn ), u, row, f, 0, lib );
                            x.require( got == "out of memory" or got == usual( u ) or ( lib and ( got == "error" or got == "()" or got == "end" ) ), "the call gives " + got + " and usually " + usual( u ) );
                            w.sound( "the call" );
                            x.transition( 1 );
                        }
                        if ( after ) {
                            if ( after > 1 and not SQL.at( u.fn ).set ) w.usually( site, u, "afterwards: " );
                            for ( auto &b : h ) w.usually( b.s, b.u, "afterwards: " );
                            if ( after == 1 ) for ( int i = 0; i < 6; ++i ) w.usually( 0, Use{ "as_standardize", i % 3, i % 2, i % 3 }, "afterwards: " );
                        }
                        w.q.end( how );
                        w.sound( "the end" );
                        x.require( pg::live().lex.empty() and pg::live().gram.empty(), "after the end " + std::to_string( pg::live().lex.size() ) + " lexicons and " + std::to_string( pg::live().gram.size() ) + " grammars are not released" );
                        x.require( pgm_contexts() <= ctx + 6 and pgm_hash_entries() == entries, "after the end entries of a table are left over" );
                    }
                    x.require( pgm_contexts() == ctx, "memory contexts are left over" );
                    {
                    World w( x );
                    if ( not SQL.at( u.fn ).set ) w.usually( site, u, "in the next query: " );
                    for ( auto &b : h ) w.usually( b.s, b.u, "in the next query: " );
                    for ( int i = 0; i < ( x.thorough ? 6 : 2 ); ++i ) w.usually( 0, Use{ "as_standardize", i % 3, i % 2, 0 }, "in the next query: " );
                    w.q.end( how );
                    w.sound( "the end of the next query" );
                    x.require( pg::live().lex.empty() and pg::live().gram.empty(), "after the end of the next query standardizers are not released" );
                    x.require( pgm_hash_entries() == entries, "after the end of the next query entries of a table are left over" );
                    }
                    if ( not lib ) break;
                    long left = (long) bytes() - (long) before;
                    if ( left <= 0 ) break;
                    x.require( k < 3, std::to_string( left ) + " bytes are left behind" );
                  }
                  x.outcome( hname( h ) + uname( u ) + std::to_string( row ) + "/" + std::to_string( f ) + got, got == "out of memory" );
                }
                x.trace( 1 );
            } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    SQL = pg::declared( str( REPO ) + "/src/address_standardizer2--2.0.sql.in" );
    texts();
    auto S = []( int l, int g, int a ) { return Use{ "as_standardize", l, g, a }; };
    const Use pairs[] = { S( 0, 0, 0 ), S( 0, 1, 0 ), S( 1, 0, 0 ), S( 1, 1, 0 ), S( 2, 0, 0 ), S( 2, 1, 0 ) };

    x.phase( "every allocation of a call of each function" );
    for ( const char *fn : { "as_standardize", "as_parse", "as_match", "as_compile_lexicon" } )
        for ( int l : { 0, 3 } ) for ( int g : { 0, 2 } ) for ( int a = 0; a < (int) ADR.size(); ++a ) {
            if ( ( l == 3 or g == 2 ) and a and not T ) continue;
            faults( x, {}, Use{ fn, l, g, a }, true );
        }
    x.phase( "every allocation of a call that finds 1 to 4 pairs cached, or more" );
    for ( int n = 1; n <= 6; ++n ) for ( int p = 0; p < 6; ++p ) {
        History h;
        for ( int i = 0; i < n; ++i ) h.push_back( { 0, pairs[i] } );
        if ( p <= n or T ) faults( x, h, pairs[p], T or p == n or p == 0 );
        if ( p == 0 ) faults( x, h, S( 3, 0, 0 ), false );
    }
    x.phase( "the same with a second call in the same statement" );
    for ( int n = 0; n <= 5; ++n ) for ( int m = 1; m <= ( T ? 5 : 2 ); ++m ) for ( int p : { 0, n % 6, 5 } ) {
        History h;
        for ( int i = 0; i < std::max( n, m ); ++i ) { if ( i < n ) h.push_back( { 0, pairs[i] } ); if ( i < m ) h.push_back( { 1, pairs[ ( i + n ) % 6 ] } ); }
        faults( x, h, pairs[p], T );
    }
    x.phase( "every allocation of the library in a call" );
    for ( const char *fn : { "as_standardize", "as_parse", "as_match", "as_compile_lexicon" } )
        for ( int l : { 0, 3 } ) for ( int g : { 0, 2 } ) for ( int a = 0; a < ( T ? 3 : 1 ); ++a ) {
            if ( not T and l and g ) continue;
            faults( x, {}, Use{ fn, l, g, a }, false, true );
        }
    for ( int n = 1; n <= ( T ? 5 : 4 ); n += 3 ) {
        History h;
        for ( int i = 0; i < n; ++i ) h.push_back( { 0, pairs[i] } );
        for ( int p : { 0, n } ) if ( T or n > 1 or p == 0 ) faults( x, h, pairs[p], false, true );
    }
    if ( T ) {
        x.phase( "every history of up to 5 calls of 3 pairs" );
        mc::sequences( 3, 1, 5, [&]( const std::vector<int> &v ) {
            History h;
            for ( size_t i = 0; i + 1 < v.size(); ++i ) h.push_back( { 0, pairs[v[i]] } );
            faults( x, h, pairs[v.back()], true );
        } );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P29";
    o.level = "fault_enumeration";
    o.rule = "one evaluation per history of calls and failing allocation of the server or of the library, run with one [thorough: each] of three ways in which a query ends: the call must give an error or the usual result, the calls after it in the same query and in the next one the usual results, and after the end no standardizer may be left, and none may be released twice or used after its release; where the library's allocation failed nothing it allocated may be left";
    o.assumptions = { "the stand-in for the database server (memory contexts with callbacks, hash tables, error recovery, the call protocol) behaves as the server does where the extension uses it", "one allocation fails at a time (or the same one of two calls); where one of the library fails, an empty result counts as an error" };
    return mc::main( argc, argv, o, explore );
}
