// P20: MD5 and the fingerprints of lexicons and grammars.
#include "grams.h"
#include "capi.h"
#include "md5.h"
#include <cmath>
using namespace rl;

// RFC 1321, written from its text: constants from the sine table, one pass over the padded message
namespace ref {
struct Md5 {
    uint32_t h[4]; unsigned char blk[64]; uint64_t n;
    Md5() : n( 0 ) { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; }
    static uint32_t K( int i ) { static uint32_t k[64]; if ( not k[0] ) for ( int j = 0; j < 64; ++j ) k[j] = (uint32_t) (int64_t) std::floor( std::fabs( std::sin( (double) ( j + 1 ) ) ) * 4294967296.0 ); return k[i]; }
    void block( const unsigned char *p ) {
        static const int S[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
        uint32_t w[16];
        for ( int i = 0; i < 16; ++i ) w[i] = p[4*i] | p[4*i+1] << 8 | p[4*i+2] << 16 | (uint32_t) p[4*i+3] << 24;
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
        for ( int i = 0; i < 64; ++i ) {
            uint32_t f; int g;
            if ( i < 16 ) { f = ( b & c ) | ( ~b & d ); g = i; }
            else if ( i < 32 ) { f = ( d & b ) | ( ~d & c ); g = ( 5 * i + 1 ) % 16; }
            else if ( i < 48 ) { f = b ^ c ^ d; g = ( 3 * i + 5 ) % 16; }
            else { f = c ^ ( b | ~d ); g = ( 7 * i ) % 16; }
            uint32_t t = d; d = c; c = b;
            uint32_t x = a + f + K( i ) + w[g]; int s = S[i / 16][i % 4];
            b = b + ( x << s | x >> ( 32 - s ) ); a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    void byte( unsigned char c ) { blk[ n % 64 ] = c; if ( ++n % 64 == 0 ) block( blk ); }
    str hex() {
        uint64_t bits = n * 8;
        byte( 0x80 );
        while ( n % 64 != 56 ) byte( 0 );
        for ( int i = 0; i < 8; ++i ) byte( bits >> ( 8 * i ) );
        str o; char b[3];
        for ( int i = 0; i < 16; ++i ) { snprintf( b, 3, "%02x", h[i / 4] >> ( 8 * ( i % 4 ) ) & 0xff ); o += b; }
        return o;
    }
};
static str md5( const str &s ) { Md5 m; for ( char c : s ) m.byte( c ); return m.hex(); }
}

static str fed( const str &s, const std::vector<size_t> &cuts, bool uns ) {
    MD5 m;
    size_t at = 0;
    for ( size_t i = 0; i <= cuts.size(); ++i ) {
        size_t to = i < cuts.size() ? cuts[i] : s.size();
        // pieces in storage of their own
        std::vector<char> p( s.begin() + at, s.begin() + to ); p.push_back( 'Z' );
        if ( uns ) m.update( (const unsigned char *) &p[0], to - at ); else m.update( &p[0], to - at );
        at = to;
    }
    m.finalize();
    return m.hexdigest();
}

static str content( size_t n, int kind ) {
    str s( n, 0 );
    for ( size_t i = 0; i < n; ++i ) s[i] = kind == 0 ? 'a' : kind == 1 ? (char) ( i * 7 + n ) : kind == 2 ? (char) 0xFF : (char) ( i % 3 ? 0 : 0x80 );
    return s;
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    x.phase( "every length up to 1100 (4200) with 4 contents" );
    for ( size_t n = 0; n <= ( T ? 4200 : 1100 ); ++n ) for ( int k = 0; k < 4; ++k ) x.run( [&]{ return std::to_string( n ) + " bytes of content " + std::to_string( k ); }, [&]{
        str s = content( n, k ), w = ref::md5( s );
        x.eq( md5( s ), w, "md5()" );
        x.eq( MD5( s ).hexdigest(), w, "MD5(text)" );
        std::ostringstream o; o << MD5( s );
        x.eq( o.str(), w, "MD5 written" );
        MD5 m; x.eq( m.hexdigest(), "", "digest before it is final" );
        m.update( s.data(), s.size() );
        x.eq( m.finalize().hexdigest(), w, "digest" );
        x.eq( m.finalize().hexdigest(), w, "digest made final twice" );
        if ( s.find( '\0' ) == str::npos ) { ca::Z z( s ); x.eq( ca::own( getMd5( z ) ), w, "getMd5" ); }
        x.outcome( w );
    } );
    x.phase( "every bit of every text of up to 130 (200) bytes" );
    for ( size_t n = 1; n <= ( T ? 200 : 130 ); ++n ) x.run( [&]{ return "single bits of " + std::to_string( n ) + " bytes"; }, [&]{
        str s = content( n, 1 );
        std::set<str> seen; seen.insert( md5( s ) );
        for ( size_t b = 0; b < 8 * n; ++b ) {
            str t = s; t[b / 8] ^= 1 << b % 8;
            str g = md5( t );
            x.eq( g, ref::md5( t ), "md5 with bit " + std::to_string( b ) + " flipped" );
            x.require( seen.insert( g ).second, "bit " + std::to_string( b ) + " has no effect of its own" );
        }
        x.outcome( *seen.begin() );
    } );
    x.phase( "every cut in two of every length up to 260 (400)" );
    for ( size_t n = 0; n <= ( T ? 400 : 260 ); ++n ) x.run( [&]{ return std::to_string( n ) + " bytes in two pieces"; }, [&]{
        str s = content( n, 1 ), w = ref::md5( s );
        for ( size_t a = 0; a <= n; ++a ) x.eq( fed( s, { a }, a % 2 ), w, "md5 fed in pieces of " + std::to_string( a ) + " and " + std::to_string( n - a ) );
        x.outcome( w );
    } );
    x.phase( "every cut in three of the lengths next to whole blocks, and in pieces of one size" );
    for ( size_t n = 0; n <= ( T ? 262 : 198 ); ++n ) if ( n < 20 or n % 64 < 3 or n % 64 > 53 ) x.run( [&]{ return std::to_string( n ) + " bytes in three pieces"; }, [&]{
        str s = content( n, 1 ), w = ref::md5( s );
        for ( size_t a = 0; a <= n; ++a ) for ( size_t b = a; b <= n; ++b ) x.eq( fed( s, { a, b }, b % 2 ), w, "md5 fed in pieces cut at " + std::to_string( a ) + " and " + std::to_string( b ) );
        for ( size_t p = 1; p <= n; ++p ) { std::vector<size_t> c; for ( size_t i = p; i < n; i += p ) c.push_back( i ); x.eq( fed( s, c, p % 2 ), w, "md5 fed in pieces of " + std::to_string( p ) ); }
        x.outcome( w );
    } );
    x.phase( "lengths past the low word of the bit counter" );
    for ( int k = 0; k < ( T ? 3 : 1 ); ++k ) x.run( [&]{ return "2^30 bytes and more, way " + std::to_string( k ); }, [&]{
        // 2^29 bytes are 2^32 bits
        size_t piece = k == 0 ? ( 1 << 28 ) + 5 : k == 1 ? ( 1 << 26 ) + 1 : 1 << 29, times = k == 0 ? 5 : k == 2 ? 3 : 17;
        str s = content( piece, 1 );
        MD5 m; ref::Md5 r;
        for ( size_t i = 0; i < times; ++i ) { m.update( s.data(), s.size() ); for ( char c : s ) r.byte( c ); }
        x.eq( m.finalize().hexdigest(), r.hex(), "md5" );
        x.outcome( "big" + std::to_string( k ) );
    } );
    x.phase( "fingerprints of loaded lexicons and grammars" );
    // lines in every order and combination; texts with the same letters have the same fingerprint and no others
    vs ll = { "LEXENTRY:\tA\tA\tWORD\t", "LEXENTRY:\tB\tA\tWORD\t", "LEXENTRY:\tA\tA\tTYPE\tATT_SUF", "# note", "", "LEXENTRY:\t\xC3\xA9\t\xC3\x89\tCITY\t" };
    vs lh = { "LEXICON:\tx\tENG\ten_US\t1", "\xEF\xBB\xBFLEXICON:\tx\tENG\ten_US\t1", "LEXICON:\tx\tFRE\ten_US\t1", "LEXICON:\ty\tENG\ten_US\t1" };
    for ( auto &h : lh ) mc::sequences( ll.size(), 0, T ? 4 : 3, [&]( const std::vector<int> &v ) {
        bool bad = false; for ( int i : v ) if ( i == 3 ) bad = true;
        for ( int eol = 0; eol < 3; ++eol ) x.run( [&]{ str o = "lexicon " + show( h ); for ( int i : v ) o += " " + show( ll[i] ); return o + ( eol == 0 ? ", LF" : eol == 1 ? ", CR LF" : ", no end of line at the end" ); }, [&]{
            str t = h, cat = h, e = eol == 1 ? "\r\n" : "\n", msg;
            for ( int i : v ) { t += e + ll[i]; cat += ll[i]; }
            if ( eol != 2 ) t += e;
            void *p = ca::lexicon( t, msg );
            x.require( ( p == 0 ) == bad, "loaded: " + msg );
            if ( p ) {
                str f = ca::own( getLexiconMd5( p ) );
                freeLexiconPtr( p );
                x.eq( f, ref::md5( cat ), "fingerprint of the lexicon" );
                str c = ca::compile( t, msg );
                p = ca::lexicon( c, msg );
                x.require( p != 0, "the compiled lexicon does not load: " + msg );
                str fc = ca::own( getLexiconMd5( p ) );
                freeLexiconPtr( p );
                x.eq( fc, f, "fingerprint of the compiled lexicon" );
            }
            { ca::Z z( t ); x.eq( ca::own( getMd5( z ) ), ref::md5( t ), "getMd5 of the text" ); }
            x.outcome( cat );
        } );
    } );
    vs gl = { "WORD -> STREET -> 0.5", "NUMBER -> HOUSE -> 0.5", "# note", "", "WORD -> STREET -> 0.25", " TYPE -> SUFTYP -> 0.5 " };
    vs gh = { "[ADDRESS]\n@A\n[A]\nWORD -> CITY -> 0.5", "\xEF\xBB\xBF[ADDRESS]\n@A\n[A]\nWORD -> CITY -> 0.5", "[ADDRESS]\n@A @A\n[A]\nWORD -> CITY -> 0.5" };
    for ( auto &h : gh ) mc::sequences( gl.size(), 0, T ? 4 : 3, [&]( const std::vector<int> &v ) {
        for ( int eol = 0; eol < 2; ++eol ) x.run( [&]{ str o = "grammar " + show( h ); for ( int i : v ) o += " " + show( gl[i] ); return o + ( eol ? ", no end of line at the end" : "" ); }, [&]{
            str t = h, cat, msg;
            for ( int i : v ) t += "\n" + gl[i];
            for ( char c : t ) if ( c != '\n' ) cat += c;
            if ( not eol ) t += "\n";
            void *p = ca::grammar( t, msg );
            x.require( p != 0, "did not load: " + msg );
            str f = ca::own( getGrammarMd5( p ) );
            freeGrammarPtr( p );
            x.eq( f, ref::md5( cat ), "fingerprint of the grammar" );
            x.outcome( cat );
        } );
    } );
    // a change anywhere in a long text shows
    for ( size_t lines : T ? std::vector<size_t>{ 30, 100, 300, 1000, 3000, 10000 } : std::vector<size_t>{ 30, 100, 300, 1000, 3000 } ) for ( int at = 0; at < 12; ++at ) x.run( [&]{ return std::to_string( lines ) + " lines, the one at " + std::to_string( at ) + "/11 changed"; }, [&]{
        str t = lh[0] + "\n", cat = lh[0], g = gh[0], gcat, msg;
        for ( char c : g ) if ( c != '\n' ) gcat += c;
        g += '\n';
        size_t odd = at * ( lines - 1 ) / 11;
        for ( size_t i = 0; i < lines; ++i ) {
            str w = "W" + std::to_string( i ), l = "LEXENTRY:\t" + w + "\t" + w + "\tWORD\t" + ( i == odd ? "ATT_SUF" : "" );
            t += l + "\n"; cat += l;
            l = i == odd ? "NUMBER -> STREET -> 0.25" : "WORD -> STREET -> 0.25";
            g += l + "\n"; gcat += l;
        }
        void *p = ca::lexicon( t, msg );
        x.require( p != 0, "did not load: " + msg );
        str f = ca::own( getLexiconMd5( p ) );
        freeLexiconPtr( p );
        x.eq( f, ref::md5( cat ), "fingerprint of the lexicon" );
        p = ca::grammar( g, msg );
        x.require( p != 0, "did not load: " + msg );
        f = ca::own( getGrammarMd5( p ) );
        freeGrammarPtr( p );
        x.eq( f, ref::md5( gcat ), "fingerprint of the grammar" );
        x.outcome( f );
    } );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P20";
    o.rule = "one evaluation per text (length, content, cuts), each digest compared with an independent MD5; distinct outcomes are distinct digests and loaded contents";
    return mc::main( argc, argv, o, explore );
}
