// P26: whatever bytes arrive, a call ends in a result or in an error, and the
// texts in a result are UTF-8.
#include <new>
#include "real.h"
#include "capi.h"
using namespace rl;

// a request beyond any sensible size fails, as it would on a loaded machine
void *operator new( size_t n ) {
    if ( n > ( 256u << 20 ) ) throw std::bad_alloc();
    void *p = malloc( n ? n : 1 );
    if ( not p ) throw std::bad_alloc();
    return p;
}
void *operator new[]( size_t n ) { return operator new( n ); }
void operator delete( void *p ) noexcept { free( p ); }
void operator delete[]( void *p ) noexcept { free( p ); }
void operator delete( void *p, size_t ) noexcept { free( p ); }
void operator delete[]( void *p, size_t ) noexcept { free( p ); }

// length of the well-formed sequence at i, or minus that of the malformed part
static int part( const str &s, size_t i ) {
    unsigned char c = s[i];
    if ( c < 0x80 ) return 1;
    int n = c >= 0xC2 and c <= 0xDF ? 2 : c >= 0xE0 and c <= 0xEF ? 3 : c >= 0xF0 and c <= 0xF4 ? 4 : 0;
    if ( n == 0 ) return -1;
    for ( int k = 1; k < n; ++k ) {
        unsigned char lo = 0x80, hi = 0xBF, d = i + k < s.size() ? s[i + k] : 0;
        if ( k == 1 ) { if ( c == 0xE0 ) lo = 0xA0; if ( c == 0xED ) hi = 0x9F; if ( c == 0xF0 ) lo = 0x90; if ( c == 0xF4 ) hi = 0x8F; }
        if ( d < lo or d > hi ) return -k;
    }
    return n;
}
static bool valid( const str &s ) {
    for ( size_t i = 0; i < s.size(); ) { int n = part( s, i ); if ( n < 0 ) return false; i += n; }
    return true;
}
static str repaired( const str &s ) {
    str o;
    for ( size_t i = 0; i < s.size(); ) {
        int n = part( s, i );
        if ( n > 0 ) o += s.substr( i, n ); else { o += "\xEF\xBF\xBD"; n = -n; }
        i += n;
    }
    return o;
}

static const str LEX =
    "LEXICON:\tTEST\tENG\ten_US\t\n"
    "LEXENTRY:\tST\tSTREET\tTYPE,WORD\tDET_SUF,ATT_SUF\n"
    "LEXENTRY:\tMAIN\tMAIN\tWORD\t\n"
    "LEXENTRY:\tRUE D\xC3\x89\tRUE\tTYPE\tDET_PRE\n";
static const str GRM =
    "# rules\n"
    "[ADDRESS]\n"
    "@str\n"
    "@str @tail\n"
    "\n"
    "[str]\n"
    "NUMBER WORD TYPE -> HOUSE STREET SUFTYP -> 0.9\n"
    "NUMBER WORD -> HOUSE STREET -> 0.5\n"
    "WORD -> STREET -> 0.3\n"
    "\n"
    "[tail]\n"
    "WORD -> CITY -> 0.4\n";

static void shape( mc::Ex &x, const ca::Std &s, const str &what ) {
    x.require( not ( s.rec and s.err ), what + " returns a record and an error" );
    for ( auto &f : s.f ) x.require( valid( f.second ), what + ": " + f.first + " is not UTF-8: " + show( f.second ) );
}
static void shape( mc::Ex &x, const ca::Par &p, const str &what ) {
    x.require( not ( p.rec and p.err ), what + " returns rows and an error" );
    for ( auto &r : p.rows ) x.require( valid( r.word ) and valid( r.cls ) and valid( r.att ), what + ": a row is not UTF-8: " + show( r.word ) );
}
static void shape( mc::Ex &x, const ca::Mat &p, const str &what ) {
    x.require( not ( p.rec and p.err ), what + " returns rows and an error" );
    for ( auto &r : p.rows ) x.require( valid( r.toks ), what + ": a row is not UTF-8: " + show( r.toks ) );
}

static void shape( mc::Ex &x, const ca::Std &s, const str &what, bool ) { x.require( not ( s.rec and s.err ), what + " returns a record and an error" ); }

struct Handles {
    void *l, *g;
    Handles() { str m; l = ca::lexicon( LEX, m ); if ( l ) g = ca::grammar( GRM, m ); if ( not l or not g ) throw std::runtime_error( "the base texts do not load: " + m ); }
};

// an address alone and inside another one
static str address( mc::Ex &x, Handles &h, const str &a, bool match ) {
    str good = repaired( a ), n = show( a );
    ca::Par p = ca::parse( a, h.l ), pg = ca::parse( good, h.l );
    shape( x, p, "parsing " + n );
    x.eq( ca::text( p ), ca::text( pg ), "rows of " + n + " (expected those of " + show( good ) + ")" );
    ca::Std s = ca::standardize( a, h.g, h.l ), sg = ca::standardize( good, h.g, h.l );
    shape( x, s, "standardising " + n );
    x.eq( ca::text( s ), ca::text( sg ), "record of " + n + " (expected that of " + show( good ) + ")" );
    if ( match ) {
        ca::Mat m = ca::match( a, GRM, LEX ), mg = ca::match( good, GRM, LEX );
        shape( x, m, "matching " + n );
        x.eq( ca::text( m ), ca::text( mg ), "matches of " + n );
    }
    return ca::text( p ) + ca::text( s );
}

static const str USE = "12 main st rue d\xC3\xA9 7b";
static str usesLexicon( mc::Ex &x, void *l, void *g, const str &what ) {
    ca::Par p = ca::parse( USE, l );
    x.require( not ( p.rec and p.err ), what + ": parsing returns rows and an error" );
    ca::Std s = ca::standardize( "12 main st", g, l );
    x.require( not ( s.rec and s.err ), what + ": standardising returns a record and an error" );
    return ca::text( p ) + ca::text( s );
}
// load a lexicon text twice and use it
static str lexicon( mc::Ex &x, Handles &h, const str &t, const str &what ) {
    str first;
    for ( int k = 0; k < 2; ++k ) {
        str m, r;
        void *l = ca::lexicon( t, m );
        x.require( ( l != 0 ) == m.empty(), what + ( l ? ": a handle and the error " + m : ": neither a handle nor an error" ) );
        r = l ? usesLexicon( x, l, h.g, what ) : m;
        if ( l ) freeLexiconPtr( l );
        if ( k ) x.eq( r, first, what + ": the second load" );
        first = r;
    }
    return first;
}
static str grammar( mc::Ex &x, Handles &h, const str &t, const str &what ) {
    str first;
    for ( int k = 0; k < 2; ++k ) {
        str m, r;
        void *g = ca::grammar( t, m );
        x.require( ( g != 0 ) == m.empty(), what + ( g ? ": a handle and the error " + m : ": neither a handle nor an error" ) );
        if ( g ) {
            for ( auto a : { "12 main st", "main 12 st x", "" } ) { ca::Std s = ca::standardize( a, g, h.l ); shape( x, s, what ); r += ca::text( s ); }
            freeGrammarPtr( g );
        }
        else r = m;
        if ( k ) x.eq( r, first, what + ": the second load" );
        first = r;
    }
    return first;
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    Handles h;
    auto hex = []( int c ) { char b[8]; snprintf( b, sizeof b, "%02x", c ); return str( b ); };

    x.phase( "addresses of one and two bytes, all of them, alone and inside an address" );
    for ( int a = 0; a < 256; ++a ) for ( int lo = 0; lo < 256; lo += 16 ) x.run( [&]{ return "addresses of the bytes " + ( a ? hex( a ) : str() ) + " " + hex( lo ) + " to " + hex( lo + 15 ); }, [&]{
        str out;
        for ( int b = std::max( lo, 1 ); b < lo + 16; ++b ) {
            str t; if ( a ) t += (char) a; t += (char) b;
            bool bytes = a >= 0x80 or b >= 0x80;
            if ( T or a == 0 or ( bytes and ( a + b ) % 2 ) or ( a + b ) % 16 == 0 ) out += address( x, h, t, b == lo + 5 and a % 16 == 9 );
            if ( T or a == 0 or ( bytes and ( a + b ) % 2 == 0 ) or ( a + b ) % 16 == 8 ) out += address( x, h, "12 M" + t + "N ST", false );
            {
                if ( T ) out += address( x, h, "12" + t + " MAIN" + t, true );
            }
        }
        x.outcome( out );
    } );

    x.phase( "addresses of three and more bytes over representative ones" );
    auto reps = [&]( const std::vector<int> &v, int lo, int hi ) {
        mc::sequences( v.size(), lo, hi, [&]( const std::vector<int> &q ) {
            str t; for ( int i : q ) t += (char) v[i];
            x.run( [&]{ return "address " + show( t ); }, [&]{ x.outcome( address( x, h, t, false ) + address( x, h, "7 " + t + "ST", false ), not valid( t ) ); } );
        } );
    };
    reps( { 'A', ' ', '1', 0x80, 0x8F, 0x90, 0xA0, 0xBF, 0xC3, 0xE0, 0xE2, 0xED, 0xF0, 0xF4 }, 3, 3 );
    if ( T ) reps( { 1, 'A', 's', ' ', '1', '-', '\n', '\'', 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFE, 0xFF }, 3, 3 );
    if ( T ) reps( { 'A', ' ', 0x80, 0x90, 0xBF, 0xC3, 0xE0, 0xED, 0xF0, 0xF4 }, 4, 4 );
    else reps( { 'A', 0x80, 0x90, 0xE2, 0xF0, 0xF4 }, 4, 4 );

    x.phase( "locales and filters of any bytes" );
    for ( int a = 0; a < 256; ++a ) x.run( [&]{ return "locales and filters starting with the byte " + hex( a ); }, [&]{
        str out;
        for ( int b = 0; b < 256; b += T ? 1 : a < 128 ? 37 : 23 ) for ( int form = 0; form < 4; ++form ) {
            str t; if ( a ) t += (char) a; if ( b ) t += (char) b;
            if ( form == 1 ) t = "de_" + t; if ( form == 2 ) t = t + "_DE"; if ( form == 3 ) t = "tr" + t;
            ca::Std s = ca::standardize( "12 main st \xC4\xB1i", h.g, h.l, t );
            shape( x, s, "locale " + show( t ) );
            if ( form == 1 ) t = "PUNCT," + t; if ( form == 2 ) t = t + ",SPACE"; if ( form == 3 ) t = "PU" + t + "NCT";
            ca::Par p = ca::parse( "12, main st", h.l, "en_US", t );
            shape( x, p, "filter " + show( t ) );
            out += ca::text( s ) + ca::text( p );
        }
        x.outcome( out );
    } );

    // every byte in and over every place of a text
    const std::vector<int> BYTES = { 1, '\t', '\n', '\r', ' ', '!', '"', '#', '$', '(', ')', '*', '+', ',', '-', '.', '0', '9', ':', '<', '>', '?', '@', 'A', 'Z', '[', '\\', ']', '^', '_', 'a', '{', '|', '}', 0x7F, 0x80, 0xBF, 0xC3, 0xE2, 0xED, 0xEF, 0xF0, 0xFE, 0xFF };
    std::vector<int> all;
    for ( int b = 1; b < 256; ++b ) all.push_back( b );
    auto edits = [&]( const str &base, const str &name, const std::vector<int> &bytes, int step, std::function<str( const str &, const str & )> use ) {
        for ( size_t at = 0; at <= base.size(); at += step ) for ( size_t k = 0; k < bytes.size(); k += 8 ) x.run(
            [&]{ return name + " with the bytes " + hex( bytes[k] ) + " to " + hex( bytes[std::min( bytes.size(), k + 8 ) - 1] ) + " at byte " + std::to_string( at ) + " of\n" + base; }, [&]{
            str out;
            for ( size_t j = k; j < k + 8 and j < bytes.size(); ++j ) {
                str c( 1, (char) bytes[j] );
                str w = name + " with the byte " + hex( bytes[j] );
                if ( at < base.size() ) { str t = base; t[at] = c[0]; out += use( t, w + " over byte " + std::to_string( at ) ); }
                out += use( base.substr( 0, at ) + c + base.substr( at ), w + " before byte " + std::to_string( at ) );
            }
            if ( k == 0 ) {
                out += use( base.substr( 0, at ), name + " cut at byte " + std::to_string( at ) );
                if ( at < base.size() ) {
                    out += use( base.substr( 0, at ) + base.substr( at + 1 ), name + " without byte " + std::to_string( at ) );
                    out += use( base.substr( at ), name + " from byte " + std::to_string( at ) );
                }
            }
            x.outcome( out );
        } );
    };
    x.phase( "lexicon texts with any byte at any place" );
    edits( LEX, "lexicon", T ? all : BYTES, 1, [&]( const str &t, const str &w ) { return lexicon( x, h, t, w ); } );
    x.phase( "grammar texts with any byte at any place" );
    edits( GRM, "grammar", T ? all : BYTES, 1, [&]( const str &t, const str &w ) { return grammar( x, h, t, w ); } );
    x.phase( "compiled lexicons with a byte changed, inserted or left out" );
    str m, clex = ca::compile( LEX, m );
    if ( clex.empty() ) throw std::runtime_error( "the base lexicon does not compile: " + m );
    const std::vector<int> FEW = { 1, '\n', ' ', '-', '0', '1', '5', '9', 'A', '(', '|', 0x80, 0xFF };
    edits( clex, "compiled lexicon", T ? BYTES : FEW, T ? 1 : 1, [&]( const str &t, const str &w ) { return lexicon( x, h, t, w ); } );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P26";
    o.rule = "one evaluation per address text or block of 16 addresses, per block of locales and filters, and per block of 8 bytes at one place of a text; distinct outcomes are distinct results";
    return mc::main( argc, argv, o, explore );
}
