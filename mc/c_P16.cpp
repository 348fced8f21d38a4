// P16: the per-query cache of standardizers.
#include "pg.h"
#include "real.h"
#include "md5.h"
#include <array>
using namespace rl;

static const pg::Fn *STD;
static std::map<str,pg::Fn> SQL;

// pairs of texts: some share a lexicon or a grammar; then unloadable ones
static vs LT, GT;
struct Pair { int l, g; };
static std::vector<Pair> PAIRS = { { 0, 0 }, { 0, 1 }, { 1, 0 }, { 1, 1 }, { 2, 0 }, { 2, 1 }, { 3, 0 } };
static const std::vector<Pair> BAD = { { 4, 0 }, { 0, 2 }, { 4, 2 }, { 5, 1 }, { 1, 3 } };
static const vs ADR = { "a", "a b", "b 1", "" };

static void texts() {
    for ( int i = 0; i < 3; ++i ) LT.push_back( "LEXICON:\tl\tENG\ten_US\nLEXENTRY:\tA\tSTD" + std::to_string( i ) + "\tWORD\tDETACH\nLEXENTRY:\tB\tBEE\tTYPE\tDETACH\n" );
    str m;
    LT.push_back( ca::compile( LT[2], m ) );
    LT.push_back( "LEXICON:\tl\tENG\ten_US\nnothing of the kind\n" );
    LT.push_back( "" );
    GT = { "[ADDRESS]\nWORD -> STREET -> 0.5\nWORD TYPE -> STREET SUFTYP -> 0.5\n", "[ADDRESS]\nWORD -> CITY -> 0.5\nWORD TYPE -> CITY STREET -> 0.75\n", "[ADDRESS]\nWORD -> CITY\n", "" };
}
static const Pair &pairOf( int i ) { return i < 100 ? PAIRS[i] : BAD[i - 100]; }
static str pname( int i ) { return ( i < 100 ? "L" : "bad L" ) + std::to_string( pairOf( i ).l ) + ",G" + std::to_string( pairOf( i ).g ); }

// what freshly loaded texts give
static const str &fresh( int p, int a ) {
    static std::map<std::array<int,3>,str> m;
    std::array<int,3> k = { { pairOf( p ).l, pairOf( p ).g, a } };
    auto i = m.find( k );
    if ( i != m.end() ) return i->second;
    auto s = ca::standardize( ADR[a], GT[ pairOf( p ).g ], LT[ pairOf( p ).l ] );
    str o;
    for ( auto &e : s.f ) o += e.first + "=" + show( e.second ) + " ";
    return m[k] = s.err ? "error" : "(" + o + ")";
}

struct Ring {
    int slot[4], next;
    Ring() : next( 0 ) { for ( int i = 0; i < 4; ++i ) slot[i] = -1; }
    bool has( int p ) const { for ( int s : slot ) if ( s == p ) return true; return false; }
    void add( int p ) { slot[next] = p; next = ( next + 1 ) % 4; }
    int size() const { int n = 0; for ( int s : slot ) if ( s >= 0 ) ++n; return n; }
    str canon() const { str o; for ( int s : slot ) o += std::to_string( s ) + ","; return o + "/" + std::to_string( next ); }
};
// two calls of as_standardize in the text of one statement or of two
struct World {
    mc::Ex &x; bool oneQuery;
    pg::Query *q[2]; pg::Site *s[2]; Ring r[2];
    int step; str log;
    std::map<str,long> contexts;
    World( mc::Ex &x, bool one ) : x( x ), oneQuery( one ), step( 0 ) { q[0] = q[1] = 0; s[0] = s[1] = 0; }
    ~World() { finish( 0 ); }
    void open( int i ) {
        int k = oneQuery ? 0 : i;
        if ( not q[k] ) q[k] = new pg::Query;
        if ( not s[i] ) s[i] = new pg::Site( *q[k], *STD );
    }
    void end( int i, int how ) {
        int k = oneQuery ? 0 : i;
        if ( not q[k] ) return;
        q[k]->end( how );
        delete q[k]; q[k] = 0;
        for ( int j = 0; j < 2; ++j ) if ( oneQuery or j == i ) { delete s[j]; s[j] = 0; r[j] = Ring(); }
        account( "after the end of a query" );
    }
    void finish( int how ) { end( 0, how ); end( 1, how ); }
    void account( const str &when ) {
        size_t n = r[0].size() + r[1].size();
        auto &l = pg::live();
        x.require( l.fault.empty(), when + ": " + l.fault );
        x.require( str( pgm_fault() ).empty(), when + ": " + pgm_fault() );
        x.require( l.lex.size() == n and l.gram.size() == n, when + ": " + std::to_string( l.lex.size() ) + " lexicons and " + std::to_string( l.gram.size() ) + " grammars are alive where " + std::to_string( n ) + " pairs are cached" );
    }
    void call( int i, int p, const str &why = "" ) {
        open( i );
        int a = step++ % ADR.size();
        pg::Args arg = { { "address", ADR[a] }, { "grammar", GT[ pairOf( p ).g ] }, { "lexicon", LT[ pairOf( p ).l ] }, { "locale", "en_US" }, { "filter", "PUNCT,SPACE" } };
        long before = pg::live().loads;
        auto res = s[i]->call( arg, step & 1 );
        str when = why + "call " + std::to_string( step ) + " with " + pname( p ) + " of " + show( ADR[a] );
        str got = res.kind == PGM_ERROR ? "error" : pg::text( res );
        x.require( got == fresh( p, a ), when + " gives " + pg::text( res ) + " and with fresh texts " + fresh( p, a ) );
        if ( res.kind == PGM_ERROR ) x.require( res.msg.size() > 0, when + ": an error without a message" );
        else if ( r[i].has( p ) ) x.require( pg::live().loads == before, when + " loads again what was among the four last loaded" );
        else r[i].add( p );
        account( when );
        // an eviction gives back what the pair that went out had
        str k; for ( int j = 0; j < 2; ++j ) k += std::to_string( r[j].size() ) + ( q[j] ? "q" : "" ) + ( s[j] ? "s" : "" );
        long n = contexts.insert( { k, pgm_contexts() } ).first->second;
        x.require( pgm_contexts() <= n, when + ": " + std::to_string( pgm_contexts() ) + " memory contexts are alive, and there were " + std::to_string( n ) + " when this many pairs were first cached" );
        x.transition( 1 );
    }
    // everything cached is still served
    void probe() { for ( int i = 0; i < 2; ++i ) for ( int k = 0; k < 4; ++k ) if ( r[i].slot[k] >= 0 ) call( i, r[i].slot[k], "afterwards: " ); }
    str canon() const { return r[0].canon() + ";" + r[1].canon(); }
};

// op: 0..6 pair, 100.. bad pair, 200+how end; second site: +1000
static str oname( int o ) { int k = o % 1000; return str( o >= 1000 ? "second " : "" ) + ( k >= 200 ? "end" + std::to_string( k - 200 ) : pname( k ) ); }
static str hname( const std::vector<int> &h ) { str o; for ( int i : h ) o += ( o.empty() ? "" : "; " ) + oname( i ); return o; }

static size_t bytes() { pgm_trim(); return __sanitizer_get_current_allocated_bytes(); }

static void history( mc::Ex &x, const std::vector<int> &h, bool one, bool probes, int how ) {
    x.run( [&]{ return str( one ? "in one query: " : "" ) + hname( h ) + ( probes ? "; then everything cached" : "" ) + "; end" + std::to_string( how ); }, [&]{
        static bool warm = false;
        if ( not warm ) {       // tables that live as long as the process
            for ( size_t a = 0; a < ADR.size(); ++a ) for ( int p = 0; p < 7; ++p ) fresh( p, a );
            for ( size_t a = 0; a < ADR.size(); ++a ) for ( int p = 100; p < 100 + (int) BAD.size(); ++p ) fresh( p, a );
            World w( x, false );
            for ( int k = 0; k < 7; ++k ) w.call( 0, k );
            w.finish( 0 );
            warm = true;
        }
        for ( int o : h ) if ( o % 1000 < 200 ) for ( size_t a = 0; a < ADR.size(); ++a ) fresh( o % 1000, a );
        str end;
        end.reserve( 400 );
        // what is made once for the whole process is not made again when the
        // history is repeated
        for ( int k = 0; k < 4; ++k ) {
            long perm = pgm_permanent_chunks(), entries = pgm_hash_entries(), ctx = pgm_contexts();
            size_t b = bytes();
            {
                World w( x, one );
                for ( int o : h ) {
                    int k = o % 1000;
                    if ( k >= 200 ) w.end( o / 1000, k - 200 ); else w.call( o / 1000, k );
                }
                if ( probes ) w.probe();
                end.assign( w.canon().c_str() );
                w.finish( how );
            }
            size_t e = bytes();
            bool same = pgm_contexts() == ctx and pgm_hash_entries() == entries and pgm_permanent_chunks() == perm;
            if ( e == b and same ) break;
            if ( k < 3 ) continue;
            x.require( e == b, std::to_string( (long) e - (long) b ) + " bytes are still allocated after the end" );
            x.require( false, "memory contexts, table entries or permanent chunks are left over" );
        }
        x.state( end );
        x.trace( 1 );
        x.outcome( end + std::to_string( how ) );
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    SQL = pg::declared( str( REPO ) + "/src/address_standardizer2--2.0.sql.in" );
    STD = &SQL["as_standardize"];
    texts();
    int N = T ? 6 : 5;

    x.phase( "every reachable state of one cache, every call and every end" );
    std::map<str,std::vector<int> > seen;
    std::vector<std::vector<int> > todo( 1 );
    seen[ Ring().canon() ] = {};
    for ( size_t i = 0; i < todo.size(); ++i ) {
        std::vector<int> h = todo[i];
        Ring r; for ( int p : h ) r.add( p );
        for ( int how = 0; how < 3; ++how ) if ( T or how == (int) i % 3 ) history( x, h, false, false, how );
        for ( int p = 0; p < N + (int) BAD.size(); ++p ) {
            int o = p < N ? p : 100 + p - N;
            if ( not T and o >= 100 and ( i + p ) % 2 ) continue;
            std::vector<int> k = h; k.push_back( o );
            history( x, k, false, true, ( i + p ) % 3 );
            if ( o < 100 and not r.has( o ) ) { Ring n = r; n.add( o ); if ( seen.insert( { n.canon(), k } ).second ) todo.push_back( k ); }
        }
    }

    x.phase( "every history of two calls in one query or two, from empty and from full caches" );
    std::vector<std::vector<int> > starts = { {}, { 0, 1, 2, 3 }, { 0, 1, 1000, 1001, 2, 3 } };
    for ( auto &st : starts ) for ( bool one : { true, false } ) {
        int depth = st.empty() ? ( T ? 5 : 4 ) : ( T ? 4 : 3 );
        std::function<void( std::vector<int> &, int, int )> rec = [&]( std::vector<int> &h, int used, int left ) {
            if ( left == 0 ) { history( x, h, one, T, h.size() % 3 ); return; }
            for ( int site = 0; site < 2; ++site ) {
                // a new pair is the next one not used yet
                for ( int p = 0; p <= used and p < 7; ++p ) { h.push_back( site * 1000 + p ); rec( h, std::max( used, p + 1 ), left - 1 ); h.pop_back(); }
                for ( int b : { 100, 101 } ) if ( T or ( left & 1 ) == ( b & 1 ) ) { h.push_back( site * 1000 + b ); rec( h, used, left - 1 ); h.pop_back(); }
                if ( h.size() and not ( one and site ) ) { h.push_back( site * 1000 + 200 + h.size() % 3 ); rec( h, used, left - 1 ); h.pop_back(); }
            }
        };
        std::vector<int> h = st;
        int used = 0; for ( int o : st ) used = std::max( used, o % 1000 + 1 );
        rec( h, used, depth );
    }

    x.phase( "many different pairs, one after another, in a query each or in one" );
    for ( int kind = 0; kind < 3; ++kind ) for ( int one = 0; one < 2; ++one ) for ( int how = 0; how < 3; ++how )
        x.run( [&]{ return str( "40 pairs with different " ) + ( kind == 0 ? "lexicons" : kind == 1 ? "grammars" : "lexicons and grammars" ) + ( one ? " in one query" : " in a query each" ) + ", end" + std::to_string( how ); }, [&]{
            enum { N = 40 };
            std::vector<pg::Args> arg;
            for ( int i = 0; i < N; ++i ) {
                str n = std::to_string( 100 + i );
                arg.push_back( { { "address", "a st" }, { "grammar", "[ADDRESS]\nWORD TYPE -> STREET SUFTYP -> 0." + ( kind ? n : "5" ) + "\n" }, { "lexicon", "LEXICON:\tl\tENG\ten_US\nLEXENTRY:\tST\tS" + ( kind == 1 ? str( "T" ) : n ) + "\tTYPE\t\n" }, { "locale", "en_US" }, { "filter", "PUNCT,SPACE" } } );
            }
            size_t b[N+1];
            pg::Query *q = 0; pg::Site *s = 0;
            int grew = 0;
            str wrong; wrong.reserve( 2000 );
            b[0] = bytes();
            for ( int i = 0; i < N; ++i ) {
                if ( not q ) { q = new pg::Query; s = new pg::Site( *q, *STD ); }
                {
                    auto r = s->call( arg[i], i & 1 );
                    if ( wrong.empty() and ( r.kind != PGM_ROW or r.v["name"] != "A" or r.v["suftype"] != ( kind == 1 ? str( "ST" ) : "S" + std::to_string( 100 + i ) ) ) ) wrong = "call " + std::to_string( i + 1 ) + " gives " + pg::text( r );
                }
                if ( not one ) { delete s; q->end( how ); delete q; q = 0; }
                b[i+1] = bytes();
                if ( i >= 10 and b[i+1] > b[i] ) ++grew;
            }
            if ( q ) { delete s; q->end( how ); delete q; }
            x.require( wrong.empty(), wrong );
            x.require( pg::live().lex.empty() and pg::live().gram.empty() and pg::live().fault.empty(), "standardizers are left over " + pg::live().fault );
            x.require( str( pgm_fault() ).empty(), pgm_fault() );
            x.require( grew < 20, "after " + std::to_string( grew ) + " of the last 30 calls more memory is in use than before, " + std::to_string( (long) b[N] - (long) b[10] ) + " bytes in all" );
            x.transition( N ); x.trace( 1 );
            x.outcome( std::to_string( kind ) + std::to_string( one ) + std::to_string( how ) );
        } );
    x.phase( "long runs through a number of pairs" );
    for ( int n = 1; n <= 7; ++n ) for ( int stride = 1; stride <= n; ++stride ) for ( int back = 0; back < 3; ++back ) {
        std::vector<int> h;
        for ( int i = 0; i < ( T ? 200 : 40 ); ++i ) { h.push_back( i * stride % n ); if ( back and i % 5 == 4 ) h.push_back( back == 1 ? 100 : 1000 + i % n ); if ( back == 2 and i % 17 == 16 ) h.push_back( 1200 ); }
        history( x, h, back == 1, true, n % 3 );
    }
    x.phase( "texts that are alike: fingerprints that share their begin, end or middle, long texts that differ in one place" );
    auto addText = []( vs &v, const str &t ) { v.push_back( t ); return (int) v.size() - 1; };
    auto addPair = []( int l, int g ) { PAIRS.push_back( { l, g } ); return (int) PAIRS.size() - 1; };
    std::vector<std::pair<str,str> > lexs, grams;
    auto lexText = []( const str &std, const str &rest ) { return "LEXICON:\tl\tENG\ten_US\nLEXENTRY:\tA\t" + std + "\tWORD\tDETACH\n" + rest; };
    auto gramText = []( const str &score, const str &out, const str &rest ) { return "[ADDRESS]\nWORD -> " + out + " -> 0." + score + "\nWORD TYPE -> STREET " + out + " -> 0.5\n" + rest; };
    const str outs[] = { "STREET", "CITY", "PROV", "BLDNG" };
    for ( int kind = 0; kind < 2; ++kind ) for ( int part = 0; part < 3; ++part ) {
        std::vector<std::pair<str,int> > v;
        auto text = [&]( int i ) { return kind ? gramText( std::to_string( 100000 + i ), outs[i % 4], "" ) : lexText( "STD" + std::to_string( i ), "" ); };
        for ( int i = 0; i < 30000; ++i ) {
            str m = md5( text( i ) );
            v.push_back( { part == 0 ? m : part == 1 ? str( m.rbegin(), m.rend() ) : m.substr( 12 ) + m.substr( 0, 12 ), i } );
        }
        std::sort( v.begin(), v.end() );
        size_t best = 0, at = 0;
        for ( size_t i = 0; i + 1 < v.size(); ++i ) {
            size_t n = 0; while ( v[i].first[n] == v[i+1].first[n] ) ++n;
            if ( n > best and v[i].second % 4 != v[i+1].second % 4 ) { best = n; at = i; }
        }
        ( kind ? grams : lexs ).push_back( { text( v[at].second ), text( v[at+1].second ) } );
    }
    for ( int n : { 40, 400, 4000, 40000 } ) {
        str fill, tail = "LEXENTRY:\tB\tBEE\tTYPE\tDETACH\n", gfill;
        for ( int i = 0; (int) fill.size() < n; ++i ) fill += "LEXENTRY:\tF" + std::to_string( i ) + "\tF\tWORD\t\n";
        for ( int i = 0; (int) gfill.size() < n; ++i ) gfill += "WORD NUMBER -> CITY HOUSE -> 0." + std::to_string( 1001 + i ) + "\n";
        lexs.push_back( { lexText( "X", fill + tail ), lexText( "Y", fill + tail ) } );                                     // at the begin
        lexs.push_back( { lexText( "X", fill + "LEXENTRY:\tA\tP\tTYPE\t\n" + fill ), lexText( "X", fill + "LEXENTRY:\tA\tP\tWORD\t\n" + fill ) } );
        lexs.push_back( { lexText( "X", fill + "LEXENTRY:\tB\tBEE\tTYPE\t\n" ), lexText( "X", fill + "LEXENTRY:\tB\tBEF\tTYPE\t\n" ) } );     // at the end
        lexs.push_back( { lexText( "X", fill ), lexText( "X", fill + tail ) } );                                           // one begins with the other
        grams.push_back( { gramText( "5", "CITY", gfill ), gramText( "5", "PROV", gfill ) } );
        grams.push_back( { gramText( "5", "CITY", gfill + "TYPE NUMBER -> SUFTYP HOUSE -> 0.5\n" ), gramText( "5", "CITY", gfill + "TYPE NUMBER -> PRETYP HOUSE -> 0.5\n" ) } );
        grams.push_back( { gramText( "5", "CITY", gfill ), gramText( "5", "CITY", gfill + "TYPE NUMBER -> SUFTYP HOUSE -> 0.5\n" ) } );
    }
    lexs.push_back( { lexText( "X", "" ), lexText( "x\xC3\xA9", "" ) } );
    grams.push_back( { "[ADDRESS]\n@R\n[R]\nWORD -> CITY -> 0.5\n", "[ADDRESS]\n@S\n[S]\nWORD -> PROV -> 0.5\n" } );
    auto alike = [&]( int p, int q ) {
        for ( int st = 0; st < 4; ++st ) {
            std::vector<int> h;
            for ( int r = 0; r < 9; ++r ) { h.push_back( ( r + st ) % 2 ? p : q ); if ( r == 3 ) h.push_back( 0 ); if ( r == 5 and st > 1 ) h.push_back( 1 ); }
            if ( st == 3 ) for ( size_t i = 1; i < h.size(); i += 2 ) h[i] += 1000;
            history( x, h, st % 2, true, st % 3 );
        }
    };
    for ( auto &l : lexs ) { int a = addText( LT, l.first ), b = addText( LT, l.second ); alike( addPair( a, 0 ), addPair( b, 0 ) ); PAIRS.resize( 7 ); }
    for ( auto &g : grams ) { int a = addText( GT, g.first ), b = addText( GT, g.second ); alike( addPair( 0, a ), addPair( 0, b ) ); PAIRS.resize( 7 ); }
    for ( size_t i = 0; i < grams.size(); ++i ) {       // both at once, and crosswise
        int a = addText( LT, lexs[i].first ), b = addText( LT, lexs[i].second ), c = addText( GT, grams[i].first ), d = addText( GT, grams[i].second );
        alike( addPair( a, c ), addPair( b, d ) ); PAIRS.resize( 7 );
        alike( addPair( a, d ), addPair( b, c ) ); PAIRS.resize( 7 );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P16";
    o.level = "model_checking";
    o.rule = "one evaluation per history of calls, ends and reopenings; states are the contents of both caches, transitions the calls made on the real code; after every call the result, the loads and the live standardizers are compared with the model, and at the end every byte must be back";
    o.assumptions = { "the stand-in for the database server (memory contexts with callbacks, hash tables, error recovery, the call protocol) behaves as the server does where the extension uses it", "allocations of the server do not fail", "pairs that the cache has not seen are interchangeable: a history uses the next unused pair" };
    return mc::main( argc, argv, o, explore );
}
