// P17: every allocation failure of every call of the address interface.
// Three allocators can fail: operator new (class 0), the C library's as the
// address interface calls it (class 1) and ICU's (class 2).  A failing call
// must report an error or give the usual result, release all it allocated
// and leave the handles usable.
#include "flow.h"
#include <new>
#include <sys/wait.h>
#include <unicode/uclean.h>
using namespace rl;

// ------------------------------------------------------ the allocators
extern "C" {
void *__real_malloc( size_t ); void *__real_calloc( size_t, size_t ); void *__real_realloc( void *, size_t );
char *__real_strdup( const char * ); char *__real_strndup( const char *, size_t ); void __real_free( void * );
}
static long live[3], failAt = -1, counts[3];
static int failClass = 0;
static bool armed = false, forever = false;
static bool fails( int cls ) {
    if ( not armed ) return false;
    long k = counts[cls]++;
    return cls == failClass and failAt >= 0 and ( k == failAt or ( forever and k > failAt ) );
}
static void *alloc( size_t n ) {
    if ( fails( 0 ) ) return 0;
    void *p = __real_malloc( n ? n : 1 );
    if ( p ) ++live[0];
    return p;
}
static void release( void *p ) { if ( p ) { --live[0]; __real_free( p ); } }
void *operator new( size_t n ) { void *p = alloc( n ); if ( not p ) throw std::bad_alloc(); return p; }
void *operator new[]( size_t n ) { void *p = alloc( n ); if ( not p ) throw std::bad_alloc(); return p; }
void *operator new( size_t n, const std::nothrow_t & ) noexcept { return alloc( n ); }
void *operator new[]( size_t n, const std::nothrow_t & ) noexcept { return alloc( n ); }
void operator delete( void *p ) noexcept { release( p ); }
void operator delete[]( void *p ) noexcept { release( p ); }
void operator delete( void *p, size_t ) noexcept { release( p ); }
void operator delete[]( void *p, size_t ) noexcept { release( p ); }
static void *cblock( void *p ) { if ( p ) ++live[1]; return p; }
extern "C" {
void *__wrap_malloc( size_t n ) { return fails( 1 ) ? 0 : cblock( __real_malloc( n ) ); }
void *__wrap_calloc( size_t n, size_t m ) { return fails( 1 ) ? 0 : cblock( __real_calloc( n, m ) ); }
void *__wrap_realloc( void *p, size_t n ) { if ( fails( 1 ) ) return 0; void *q = __real_realloc( p, n ); if ( q and not p ) ++live[1]; return q; }
char *__wrap_strdup( const char *t ) { return fails( 1 ) ? 0 : (char *) cblock( __real_strdup( t ) ); }
char *__wrap_strndup( const char *t, size_t n ) { return fails( 1 ) ? 0 : (char *) cblock( __real_strndup( t, n ) ); }
void __wrap_free( void *p ) { if ( p ) --live[1]; __real_free( p ); }
}
static void *icuAlloc( const void *, size_t n ) { if ( fails( 2 ) ) return 0; void *p = __real_malloc( n ); if ( p ) ++live[2]; return p; }
static void *icuRealloc( const void *, void *p, size_t n ) { if ( fails( 2 ) ) return 0; void *q = __real_realloc( p, n ); if ( q and not p ) ++live[2]; return q; }
static void icuFree( const void *, void *p ) { if ( p ) --live[2]; __real_free( p ); }

// ----------------------------------------------------------- the calls
static str GT, LT, CT, GBAD, LBAD;
struct Call { const char *name; int kind; str addr; const char *filter; bool warm; };
// kinds: 0 grammar handle, 1 lexicon handle, 2 compiled lexicon handle, 3 standardize by handles,
// 4 parse by handle, 5 standardize by text, 6 match by text, 7 parse by text, 8 compile, 9 fingerprints,
// 10 bad grammar, 11 bad lexicon, 12 standardize by text and compiled lexicon, 13 accents removed from a text
struct Res { bool err, none; str text; long cleak, ileak; Res() : err( false ), none( false ), cleak( 0 ), ileak( 0 ) {} };       // error; nothing returned; else the result

struct Raw {        // results as the C interface returns them: nothing of ours is allocated while armed
    STDADDR *s; TOKENS *t; MTOKEN *m; void *h; char *c, *e; int n;
};

static Res run( const Call &c, void *G, void *L, int cls, long fail, bool all, long *n, long &leaked ) {
    ca::Z za( c.addr ), zg( c.kind == 10 ? GBAD : GT ), zl( c.kind == 11 ? LBAD : c.kind == 2 or c.kind == 12 ? CT : LT ), zo( "en_US" ), zf( c.filter );
    Raw r; memset( &r, 0, sizeof r );
    str zu( c.addr ), bare; bare.reserve( 200 );
    char thrown[100] = "";
    long before = live[0], cbefore = live[1], ibefore = live[2];
    counts[0] = counts[1] = counts[2] = 0; failClass = cls; failAt = fail; forever = all; armed = true;
    try {
        switch ( c.kind ) {
            case 0: case 10: r.h = getGrammarPtr( zg, &r.e ); break;
            case 1: case 2: case 11: r.h = getLexiconPtr( zl, &r.e ); break;
            case 3: r.s = std_standardize_ptrs( za, G, L, zo, zf, &r.e ); break;
            case 4: r.t = std_parse_address_ptrs( za, L, zo, zf, &r.n, &r.e ); break;
            case 5: case 12: r.s = std_standardize( za, zg, zl, zo, zf, &r.e ); break;
            case 6: r.m = std_match_address( za, zg, zl, zo, zf, &r.n, &r.e ); break;
            case 7: r.t = std_parse_address( za, zl, zo, zf, &r.n, &r.e ); break;
            case 8: r.c = serialize_lexicon( zl, &r.e ); break;
            case 9: r.c = getMd5( zl ); break;
            case 13:    // a member of the library: it reports by an exception
                try { bare.assign( Utils::unaccentUTF8( zu ).c_str() ); }
                catch ( std::exception &e ) { strncpy( thrown, e.what(), 99 ); if ( not thrown[0] ) strcpy( thrown, "?" ); }
                break;
        }
    }
    catch ( ... ) { armed = false; throw; }
    armed = false; failAt = -1;
    if ( c.kind == 13 ) { if ( thrown[0] ) r.e = __wrap_strdup( thrown ); else r.c = __wrap_strdup( bare.c_str() ); }
    for ( int i = 0; i < 3; ++i ) n[i] = counts[i];
    long mid = live[0];
    Res o; o.err = r.e != 0; o.none = not ( r.s or r.t or r.m or r.h or r.c );
    leaked = 0;
    if ( r.h ) {
        // the content, then release: the handle's own blocks are expected
        std::ostringstream d;
        if ( c.kind == 0 or c.kind == 10 ) d << *(Grammar *) r.h << ((Grammar *) r.h)->getMd5(); else { Lexicon &l = *(Lexicon *) r.h; d << l << l.regex() << l.regexPrefixAtt() << l.regexSuffixAtt() << l.getMd5(); }
        o.text = d.str() + ( r.e ? str( " AND ERROR " ) + r.e : "" );
        free( r.e );
        { std::ostringstream().swap( d ); }
        if ( c.kind == 0 or c.kind == 10 ) freeGrammarPtr( r.h ); else freeLexiconPtr( r.h );
        o.cleak = live[1] - cbefore; o.ileak = live[2] - ibefore;
        return o;
    }
    leaked = mid - before;
    if ( o.err ) o.text = str( "error: " ) + r.e;
    else if ( r.s ) { o.text = ca::text( ca::take( r.s, 0 ) ); }
    else if ( r.t ) { o.text = ca::text( ca::take( r.t, r.n, 0 ) ); }
    else if ( r.m ) { o.text = join( fl::matchRows( ca::take( r.m, r.n, 0 ) ), "\n" ); }
    else if ( r.c ) { o.text = r.c; free( r.c ); }
    else o.text = "nothing";
    if ( o.err ) {
        if ( r.s ) ca::freeStd( r.s ); if ( r.t ) ca::freeTok( r.t, r.n ); if ( r.m ) ca::freeMat( r.m, r.n );
        free( r.e );
    }
    o.cleak = live[1] - cbefore; o.ileak = live[2] - ibefore;
    return o;
}

struct Handles {
    void *G, *L;
    Handles( bool warm ) { str m; G = ca::grammar( GT, m ); L = ca::lexicon( LT, m ); if ( warm ) ca::parse( "12 main", L ); }
    ~Handles() { freeGrammarPtr( G ); freeLexiconPtr( L ); }
};

// one failing call; "" if all is well; last: also what the call gives afterwards
static str attempt( const Call &c, const str &usual, bool usualErr, std::unique_ptr<Handles> &h, int cls, long k, bool all, bool cold, bool last, long *n, str &seen ) {
    bool hs = c.kind == 3 or c.kind == 4;
    if ( hs and not c.warm ) h.reset();     // a lexicon not used before
    if ( hs and not h ) h.reset( new Handles( c.warm ) );
    void *G = h ? h->G : 0, *L = h ? h->L : 0;
    long leaked, d1[3], d2;
    Res r;
    try { r = run( c, G, L, cls, k, all, n, leaked ); }
    catch ( ... ) { return "an exception left the interface"; }
    static const char *by[] = { "", "C ", "ICU " };
    str at = by[cls] + str( "allocation " ) + std::to_string( k ) + ( all ? " and all later ones" : "" ) + " failing: ";
    if ( r.err and not r.none ) return at + "an error and a result: " + r.text;
    if ( c.kind == 9 and r.none ) r.err = true;
    // the message of an error may be what could not be allocated
    if ( cls == 1 and usualErr and r.none and not r.err ) { r.err = true; r.text = "error: without memory"; }
    if ( not r.err and r.text != usual ) return at + "result " + r.text.substr( 0, 1500 ) + "\n  usually " + usual.substr( 0, 1500 );
    if ( r.err and r.text.size() < 8 and c.kind != 9 ) return at + "an error without a message";
    seen += r.err ? "e" : "=";
    // the caches a loaded lexicon fills are its own, and so are those a process fills once
    if ( r.cleak != 0 ) return at + std::to_string( r.cleak ) + " blocks of the C library left behind";
    // ICU leaves some behind itself when its own allocations fail
    if ( not cold and cls != 2 and r.ileak > 0 ) return at + std::to_string( r.ileak ) + " blocks of ICU left behind";
    if ( ( r.err or c.kind == 13 ) and not cold and not hs and leaked != 0 ) return at + std::to_string( leaked ) + " blocks left behind";
    if ( not last ) return "";
    // the same call afterwards
    Res s = run( c, G, L, 0, -1, false, d1, d2 );
    if ( s.err != usualErr or s.text != usual ) return at + "the same call afterwards gives " + s.text.substr( 0, 1500 ) + "\n  usually " + usual.substr( 0, 1500 );
    if ( hs ) {
        // with both handles used and released, nothing may be left
        std::ostringstream o; o << *(Lexicon *) L << ((Lexicon *) L)->regex();
        void *F; str m; F = ca::lexicon( LT, m );
        std::ostringstream p; p << *(Lexicon *) F << ((Lexicon *) F)->regex();
        freeLexiconPtr( F );
        if ( o.str() != p.str() ) return at + "the loaded lexicon was changed";
        h.reset();
    }
    return "";
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    GT = "[ADDRESS]\n@A\n@A @ADDRESS\n[A]\nWORD -> STREET -> 0.5\nNUMBER TYPE -> HOUSE SUFTYP -> 0.625\nCITY -> CITY -> 0.875\n# end\n";
    LT = "LEXICON:\tx\tENG\ten_US\t3\nLEXENTRY:\tST\tSTREET\tTYPE\tATT_SUF,DET_SUF\nLEXENTRY:\tNEW YORK CITY\tNEW YORK CITY THE LONG WAY\tCITY,WORD\t\nLEXENTRY:\tSTOPWORD OF SOME LENGTH\tS\tWORD,STOPWORD,NUMBER\tDET_PRE\n";
    GBAD = GT + "[ADDRESS]\n@A\n"; LBAD = LT + "LEXENTRY:\tA\tA\tNO SUCH CLASS\t\n";
    const str LONG = "a word of more than sixteen bytes";
    std::vector<Call> calls = {
        { "getGrammarPtr", 0, "", "", false }, { "getLexiconPtr", 1, "", "", false }, { "getLexiconPtr of a compiled lexicon", 2, "", "", false },
        { "std_standardize_ptrs, match", 3, "12 st new york city main", "PUNCT,SPACE", false }, { "std_standardize_ptrs, match, used lexicon", 3, "12 st new york city", "PUNCT,SPACE,STOPWORD", true },
        { "std_standardize_ptrs, no match", 3, "12", "PUNCT,SPACE", true }, { "std_parse_address_ptrs", 4, "talst 5a, new york city", "SPACE", false },
        { "std_standardize", 5, "12 st main", "PUNCT,SPACE", false }, { "std_match_address", 6, "12 st new york city", "PUNCT,SPACE", false }, { "std_parse_address", 7, "12 main, st", "PUNCT", false },
        { "serialize_lexicon", 8, "", "", false }, { "getMd5", 9, "", "", false }, { "getGrammarPtr of a bad grammar", 10, "", "", false }, { "getLexiconPtr of a bad lexicon", 11, "", "", false },
        { "std_standardize with a compiled lexicon", 12, "main st 7", "PUNCT,SPACE", false },
        { "unaccentUTF8", 13, "a \xC3\xA9" "e\xCC\x81" " \xC7\xBA \xE1\xBB\x87 and a text of more than the small size of ICU strings", "", false }
    };
    // count the allocations of every call in a child, so that the process stays as it started
    struct Info { long n[3], coldN[3]; bool err; int len; };
    Info *info = (Info *) mmap( 0, 1 << 20, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 );
    char *texts = (char *) mmap( 0, 1 << 20, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 );
    auto child = [&]( std::function<void()> f ) -> int { fflush( 0 ); pid_t p = fork(); if ( p == 0 ) { alarm( 120 ); f(); _exit( 0 ); } int st = 0; waitpid( p, &st, 0 ); return st; };
    child( [&]{ str m; CT = ca::compile( LT, m ); memcpy( texts, CT.c_str(), CT.size() + 1 ); } );
    CT = texts;
    for ( size_t i = 0; i < calls.size(); ++i ) {
        int st = child( [&]{
            std::unique_ptr<Handles> h( new Handles( calls[i].warm ) );
            long l;
            Res r = run( calls[i], h->G, h->L, 0, -1, false, info[i].n, l );
            info[i].err = r.err; info[i].len = r.text.size();
            memcpy( texts + ( i + 1 ) * 32768, r.text.c_str(), std::min<size_t>( r.text.size() + 1, 32767 ) );
        } );
        child( [&]{ long l; if ( calls[i].kind != 3 and calls[i].kind != 4 ) run( calls[i], 0, 0, 0, -1, false, info[i].coldN, l ); } );
        if ( st ) { fprintf( stderr, "call %s died without a failure\n", calls[i].name ); abort(); }
    }
    auto usual = [&]( size_t i ) { return str( texts + ( i + 1 ) * 32768 ); };

    static const char *by[] = { "", " of the C library", " of ICU" };
    x.phase( "every allocation of every call in a process that has done nothing before" );
    char *msg = (char *) mmap( 0, 1 << 16, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 );
    // what ICU sets up once in a process stays unusable if that fails
    for ( int cls = 0; cls < 2; ++cls ) for ( size_t i = 0; i < calls.size(); ++i ) for ( int all = 0; all < ( cls == 1 ? 1 : 2 ); ++all ) {
        long top = info[i].coldN[cls], step = T ? 1 : 1 + top / 200;
        if ( calls[i].kind == 3 or calls[i].kind == 4 ) continue;
        for ( long k0 = 0; k0 < top; k0 += step ) x.run( [&]{ return str( calls[i].name ) + " with " + show( calls[i].addr ) + " as the first call of a process, allocation " + std::to_string( k0 ) + by[cls] + ( all ? " and all later ones fail" : " fails" ); }, [&]{
            msg[0] = 0;
            int st = child( [&]{ long n[3]; str s; std::unique_ptr<Handles> h; str m = attempt( calls[i], usual( i ), info[i].err, h, cls, k0, all, true, true, n, s ); str o = m.size() ? "!" + m : s; strncpy( msg, o.c_str(), 60000 ); } );
            x.require( st == 0, "the process died (status " + std::to_string( st ) + ")" );
            x.require( msg[0] != '!', msg + 1 );
            x.outcome( str( calls[i].name ) + by[cls] + std::to_string( k0 ) + msg );
        } );
    }
    x.phase( "every allocation of every call in a warm process" );
    // the same call until the number of allocations no longer changes
    for ( int cls = 0; cls < 3; ++cls ) for ( size_t i = 0; i < calls.size(); ++i ) for ( int all = 0; all < ( cls == 1 ? 1 : 2 ); ++all ) {
        if ( cls == 2 and calls[i].kind == 13 ) continue;       // ICU's transliterators do not survive that
        long top = std::max( info[i].coldN[cls], info[i].n[cls] );
        const long W = cls ? 64 : 24;
        for ( long k0 = 0; k0 < top + 8; k0 += W ) x.run( [&]{ return str( calls[i].name ) + " with " + show( calls[i].addr ) + ", allocations " + std::to_string( k0 ) + " to " + std::to_string( k0 + W - 1 ) + by[cls] + " failing " + ( all ? "with all later ones" : "one at a time" ); }, [&]{
            long n[3]; str seen;
            std::unique_ptr<Handles> h;
            for ( int w = 0; w < 2; ++w ) { str s; str m = attempt( calls[i], usual( i ), info[i].err, h, 0, -1, false, true, true, n, s ); x.require( m.empty(), "without a failure: " + m ); }
            // thorough: every failure against a state of its own
            for ( long k = k0; k < k0 + W and k < top + 8; ++k ) {
                str m = attempt( calls[i], usual( i ), info[i].err, h, cls, k, all, false, T or k == k0 + W - 1 or k == top + 7, n, seen );
                x.require( m.empty(), m );
            }
            x.outcome( str( calls[i].name ) + by[cls] + std::to_string( k0 ) + seen, seen.find( 'e' ) != str::npos or info[i].err );
        } );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P17";
    o.level = "fault_enumeration";
    o.rule = "one evaluation per call and failing allocation (cold process) or per 24 successive failing allocations (warm process), each once failing alone and once with all later ones; distinct outcomes tell call, place and which failures led to an error";
    o.assumptions = { "what ICU allocates once in a process and the message of an error itself can be allocated", "the C library and the regular expression library do what they say when their own allocations fail" };
    UErrorCode e = U_ZERO_ERROR;
    u_setMemoryFunctions( 0, icuAlloc, icuRealloc, icuFree, &e );
    if ( U_FAILURE( e ) ) { std::cout << "ERROR: ICU does not take the allocator\n"; return 2; }
    return mc::main( argc, argv, o, explore );
}
