// P30: two threads, each with its own objects.
#include "capi.h"
#include "lexicon.h"
#include "grammar.h"
#include "tokenizer.h"
#include "search.h"
#include "trieutf8.h"
#include "utils.h"
#include "md5.h"
#include "places.h"
#include <boost/regex/icu.hpp>
#include <unicode/translit.h>
#include <unicode/normalizer2.h>
#include <unicode/uniset.h>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>

using ca::str;
static int races;
extern "C" void __tsan_on_report( void * ) { ++races; }

// what a thread does: who it is (0 or 1) chooses the data
struct Texts { str lex, gram, addr, odd; };
static const Texts &data( int who ) {
    static const Texts t[2] = {
        { "LEXICON:\tone\tENG\ten_US\nLEXENTRY:\tST\tSTREET\tTYPE\tDETACH\nLEXENTRY:\tST\tSAINT\tWORD\tDETACH\nLEXENTRY:\tMAIN ST\tMAIN STREET\tWORD\tDETACH\nLEXENTRY:\tSTRASSE\tSTRASSE\tTYPE\tATT_SUF,DET_SUF\n",
          "[ADDRESS]\n@A @B\n@A\n[A]\nNUMBER WORD -> HOUSE STREET -> 0.5\nNUMBER WORD TYPE -> HOUSE STREET SUFTYP -> 0.9\n[B]\nWORD -> CITY -> 0.25\n", "12 main st, oak", u8"\u00e9t\u00e9 stra\u00dfe" },
        { "LEXICON:\ttwo\tDEU\tde_DE\nLEXENTRY:\tWEG\tWAY\tTYPE\tDETACH\nLEXENTRY:\tOLD\tOLDEN\tWORD,QUALIF\tDETACH\nLEXENTRY:\tL\u00c4NG\tLANG\tQUALIF\tATT_PRE,DET_PRE\nLEXENTRY:\tB\tBEE\tWORD\t\n",
          "[ADDRESS]\n@X\n@X @Y\n[X]\nWORD TYPE NUMBER -> STREET SUFTYP HOUSE -> 0.75\nQUALIF TYPE NUMBER -> QUALIF SUFTYP HOUSE -> 0.125\n[Y]\nMIXED -> UNITT -> 0.625\n", u8"old weg 7 b2", u8"\u00c4rger \u00f1and\u00fa" } };
    return t[who];
}
struct Op { const char *name; str (*f)( int ); };
static str sStandardize( int w ) { auto &t = data( w ); return ca::text( ca::standardize( t.addr, t.gram, t.lex ) ); }
static str sParse( int w ) { auto &t = data( w ); return ca::text( ca::parse( t.addr, t.lex, w ? "tr_TR" : "en_US", w ? "" : "PUNCT,SPACE" ) ); }
static str sMatch( int w ) { auto &t = data( w ); return ca::text( ca::match( t.addr, t.gram, t.lex ) ); }
static str sHandles( int w ) {
    auto &t = data( w );
    str m, n, o;
    void *g = ca::grammar( t.gram, m ), *l = ca::lexicon( t.lex, n );
    if ( g and l ) o = ca::text( ca::standardize( t.addr, g, l ) ) + ca::text( ca::parse( t.odd, l ) ) + ca::own( getLexiconMd5( l ) ) + ca::own( getGrammarMd5( g ) );
    freeGrammarPtr( g ); freeLexiconPtr( l );
    return m + n + o;
}
static str sCompiled( int w ) {
    auto &t = data( w );
    str m, c = ca::compile( t.lex, m );
    return m + c + ca::text( ca::parse( t.addr, c ) );
}
static str sBad( int w ) {
    auto &t = data( w );
    str m, n;
    void *g = ca::grammar( w ? "[ADDRESS]\nWORD -> CITY\n" : "[ADDRESS]\n@NONE\n@NIX\n", m ), *l = ca::lexicon( t.lex + ( w ? "LEXENTRY:\tA\tB\tNOCLASS\tDETACH\n" : "what\n" ), n );
    if ( g ) freeGrammarPtr( g );
    if ( l ) freeLexiconPtr( l );
    return m + n + ca::text( ca::standardize( t.addr, w ? "" : t.gram, w ? t.lex : "" ) );
}
static str sUtf8( int w ) {
    auto &t = data( w );
    UErrorCode e = U_ZERO_ERROR;
    return Utils::unaccentUTF8( t.odd ) + Utils::upperCaseUTF8( t.odd, w ? "de" : "tr" ) + Utils::normalizeUTF8( t.odd, e ) + MD5( t.lex ).hexdigest();
}
static str sTrie( int w ) {
    TrieUtf8 t;
    for ( str x : { "ab", "abc", "b+" } ) t.addWord( w ? x + u8"\u00e9" : x );
    WordSet s;
    t.getWords( s );
    str o = t.getRegexp() + std::to_string( t.size() ) + std::to_string( t.isWord( "ab" ) );
    for ( auto &x : s ) o += x + " ";
    return o;
}
static str sLexicon( int w ) {
    auto &t = data( w );
    std::istringstream in( t.lex );
    Lexicon l( "x", in );
    LexEntry a( w ? "WEG" : "ST", w ? "WAY" : "SAINT", w ? "TYPE" : "WORD", "DETACH" ), b( w ? "GASSE" : "ALLEY", "X", "TYPE", w ? "ATT_SUF,DET_SUF" : "" );
    l.remove( a ); l.insert( b );
    Lexicon c( l );
    l.insert( a );
    std::ostringstream o;
    o << c << c.regex() << l.regexSuffixAtt();
    return o.str();
}
static str sTokens( int w ) {
    auto &t = data( w );
    std::istringstream in( t.lex ), gs( t.gram );
    Lexicon l( "x", in );
    Tokenizer k( l );
    k.filter( InClass::asType( w ? "SPACE" : "PUNCT,SPACE" ) );
    auto v = k.getTokens( Utils::upperCaseUTF8( t.addr, "en_US" ) );
    Grammar g( gs ), h( g );
    Search s( h );
    float score = -1;
    str matched; float rules = 0;
    auto best = s.searchAndReclassBest( v, score, matched, rules );
    std::ostringstream o;
    for ( auto &x : v ) o << x;
    for ( auto &x : best ) o << x;
    o << score << matched << rules << h;
    return o.str();
}
static const Op OPS[] = { { "standardize", sStandardize }, { "parse", sParse }, { "match", sMatch }, { "load and use", sHandles }, { "compile and use", sCompiled }, { "errors", sBad }, { "texts", sUtf8 }, { "trie", sTrie }, { "edit a lexicon", sLexicon }, { "tokens and search", sTokens } };
static const int N = sizeof OPS / sizeof *OPS;

struct Job { int id, op; str out; };
static void *thread( void *p ) {
    Job *j = (Job *) p;
    sched_begin( j->id );
    try { j->out = OPS[j->op].f( j->id ); }
    catch ( std::exception &e ) { j->out = str( "exception " ) + e.what(); }
    catch ( ... ) { j->out = "exception"; }
    sched_end( j->id );
    return 0;
}
// both, giving way at these places
static void both( Job j[2], long at0, long at1, int what ) {
    sched_reset( at0, at1, what );
    pthread_t t[2];
    for ( int i = 0; i < 2; ++i ) if ( pthread_create( &t[i], 0, thread, &j[i] ) ) throw std::runtime_error( "no thread" );
    for ( int i = 0; i < 2; ++i ) pthread_join( t[i], 0 );
}
static const str &alone( int op, int who ) {
    static str memo[N][2];
    if ( memo[op][who].empty() ) memo[op][who] = OPS[op].f( who ) + "\n";
    return memo[op][who];
}
static str wrong( int a, int b, Job j[2] ) {
    if ( races ) return "two threads use the same memory, at least one of them to change it, and nothing orders them";
    for ( int i = 0; i < 2; ++i ) if ( j[i].out + "\n" != alone( i ? b : a, i ) ) return str( OPS[ i ? b : a ].name ) + " gives " + mc::show( j[i].out ) + " and alone " + mc::show( alone( i ? b : a, i ) );
    return "";
}

// ICU makes some objects once in a process; it orders their making and their
// use in ways the race detector does not see, so they are made beforehand
static void warmIcu() {
    UErrorCode e = U_ZERO_ERROR;
    icu::UnicodeString t = icu::UnicodeString::fromUTF8( data( 0 ).odd + data( 1 ).odd + data( 0 ).addr );
    for ( const icu::Normalizer2 *n : { icu::Normalizer2::getNFCInstance( e ), icu::Normalizer2::getNFDInstance( e ), icu::Normalizer2::getNFKCInstance( e ), icu::Normalizer2::getNFKDInstance( e ), icu::Normalizer2::getNFKCCasefoldInstance( e ) } ) n->normalize( t, e ).length();
    for ( const char *l : { "en_US", "de_DE", "de", "tr", "tr_TR", "" } ) { icu::UnicodeString u( t ); u.toUpper( icu::Locale( l ) ); u.toLower( icu::Locale( l ) ); u.foldCase(); }
    icu::UnicodeString u( t );
    u.toUpper(); u.toLower(); u.toTitle( 0 );
    for ( const char *id : { "NFD; [:M:] Remove; NFC", "Latin-ASCII", "Upper" } ) {
        std::unique_ptr<icu::Transliterator> c( icu::Transliterator::createInstance( id, UTRANS_FORWARD, e ) );
        if ( c ) c->transliterate( u );
    }
    boost::u32regex r = boost::make_u32regex( "^([[:alpha:]\\p{L}]+|\\d+)\\s*$", boost::regex::icase );
    boost::u32regex_search( str( "abc" ), r );
    UErrorCode f = U_ZERO_ERROR;
    icu::UnicodeSet set( icu::UnicodeString( "[[:L:][:M:][:N:][:P:]]" ), f );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    warmIcu();
    x.phase( "in a new process: one thread gives way where it starts a function for the first time" );
    for ( int a = 0; a < N; ++a ) for ( int b = 0; b < N; ++b )
        x.run( [&]{ return str( OPS[a].name ) + " and " + OPS[b].name + " in a new process"; }, [&]{
            long n = 0;
            for ( long k = 0; ; ++k ) {
                int fd[2];
                if ( pipe( fd ) ) throw std::runtime_error( "no pipe" );
                pid_t p = fork();
                if ( p == 0 ) {
                    close( fd[0] );
                    races = 0;
                    Job j[2] = { { 0, a, "" }, { 1, b, "" } };
                    both( j, k, 0, -1 );
                    str m = wrong( a, b, j );
                    m = ( k == 0 or sched_gave( 0 ) ? "+" : "-" ) + m;
                    if ( write( fd[1], m.data(), m.size() ) < 0 ) _exit( 1 );
                    _exit( 0 );
                }
                close( fd[1] );
                if ( p < 0 ) throw std::runtime_error( "no process" );
                str m; char buf[4096]; ssize_t r;
                while ( ( r = read( fd[0], buf, sizeof buf ) ) > 0 ) m.append( buf, r );
                close( fd[0] );
                int st = 0;
                waitpid( p, &st, 0 );
                str when = "the first gives way at its " + std::to_string( k ) + ". first call of a function: ";
                x.require( WIFEXITED( st ) and WEXITSTATUS( st ) == 0 and m.size(), when + "the process ends early, status " + std::to_string( st ) );
                x.require( m.size() == 1, when + m.substr( 1 ) );
                ++n;
                if ( m[0] == '-' ) break;
            }
            x.transition( n ); x.trace( n );
            x.outcome( str( "new " ) + OPS[a].name + OPS[b].name );
        } );

    x.phase( "one thread gives way at every place, the other then runs to its end" );
    const int PARTS = 8;
    for ( int a = 0; a < N; ++a ) for ( int b = 0; b < N; ++b ) for ( int part = 0; part < PARTS; ++part )
        x.run( [&]{ return str( OPS[a].name ) + " and " + OPS[b].name + ", place " + std::to_string( part ) + " of each " + std::to_string( PARTS ); }, [&]{
            alone( a, 0 ); alone( b, 1 );
            races = 0;
            long n = 0;
            for ( long k = part + 1; ; k += PARTS ) {
                Job j[2] = { { 0, a, "" }, { 1, b, "" } };
                both( j, k, 0, T ? 0 : 1 );
                ++n;
                str m = wrong( a, b, j );
                x.require( m.empty(), "the first gives way at place " + std::to_string( k ) + ": " + m );
                if ( not sched_gave( 0 ) ) break;
            }
            x.transition( n ); x.trace( n );
            if ( getenv( "P30N" ) ) fprintf( stderr, "%s %ld\n", OPS[a].name, n * PARTS );
            x.outcome( std::to_string( part ) + OPS[a].name + OPS[b].name );
        } );

    x.phase( "both give way, the first and then the other" );
    // the places of both: where a function is first started, or in small
    // calls the first start and end of each call in the code
    const int small[] = { 6, 7 };
    for ( int a = 0; a < N; ++a ) for ( int b = 0; b < N; ++b ) {
        bool s = std::count( small, small + 2, a ) and std::count( small, small + 2, b );
        if ( not T and not s ) continue;
        for ( int part = 0; part < PARTS; ++part )
            x.run( [&]{ return str( OPS[a].name ) + " and " + OPS[b].name + ", both give way, place " + std::to_string( part ) + " of each " + std::to_string( PARTS ); }, [&]{
                alone( a, 0 ); alone( b, 1 );
                races = 0;
                long n = 0;
                for ( long k = part + 1; ; k += PARTS ) {
                    bool more = true;
                    for ( long m = 1; more; ++m ) {
                        Job j[2] = { { 0, a, "" }, { 1, b, "" } };
                        both( j, k, m, s ? 1 : -1 );
                        ++n;
                        str e = wrong( a, b, j );
                        x.require( e.empty(), "the first gives way at place " + std::to_string( k ) + ", the other at its place " + std::to_string( m ) + ": " + e );
                        more = sched_gave( 0 ) and sched_gave( 1 );
                    }
                    if ( not sched_gave( 0 ) ) break;
                }
                x.transition( 2 * n ); x.trace( n );
                x.outcome( std::to_string( part ) + "2" + OPS[a].name + OPS[b].name );
            } );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P30";
    o.level = "exploration";
    o.caseLimit = 300;
    o.rule = "one evaluation per pair of uses of the library and share of the places where the first gives way (10 uses each by two threads with texts of their own; the second then runs to its end or, in the last phase, to each of its places): each thread's results must be those it has alone, and no two unordered accesses of the threads may touch the same memory, one of them writing; transitions count the times a thread gives way, traces the schedules";
    o.assumptions = { "threads give way only where a function of the library starts or ends or a lock is taken or given up; what is not ordered between two such places is left to the race detector (ThreadSanitizer, happens-before)", "ICU orders its own memory (it is not compiled with the detector, and what it makes once in a process is made beforehand)" };
    return mc::main( argc, argv, o, explore );
}
