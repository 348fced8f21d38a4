// P18: calls on handles depend on their arguments only; handles give back
// all memory.  Runs under AddressSanitizer.
#include "flow.h"
#include <deque>
#include <malloc.h>
using namespace rl;

extern "C" size_t __sanitizer_get_current_allocated_bytes();

static str GA, GB, LA, LB, CA_, GX, LX, LO;
static vs ADR = { "12 st main st", "new york, main 7b", "talstrasse 5", "", "one 1,5 three 1/2", "main 1,5 tal", "02139 1234 7b 7b", "a1b 2c3 n1 5-4 & @", "new york new tal\t\"x\"", "\xC3\x89 \xE2\x80\x94 o'x e.g. #", "st st 1,5" };

// what a slot holds: 0 nothing, 1.. which text; used: something was asked of it
struct State {
    int l[2], g[2]; bool lu[2], gu[2];
    State() { for ( int i = 0; i < 2; ++i ) { l[i] = g[i] = 0; lu[i] = gu[i] = false; } }
    str canon() const { str o; for ( int i = 0; i < 2; ++i ) o += std::to_string( l[i] ) + ( lu[i] ? "u" : "" ) + "/" + std::to_string( g[i] ) + ( gu[i] ? "u " : " " ); return o; }
};
struct Op { int kind, a, b, c; const char *locale, *filter; };
// kinds: 0 load lexicon b into slot a, 1 free it, 2 load grammar b into a, 3 free it,
// 4 standardize address a with grammar slot b, lexicon slot c, 5 parse a with lexicon slot c,
// 6 standardize by text, 7 match by text, 8 parse by text, 9 compile, 10 fingerprints
static std::vector<Op> OPS;

// from 10 on: texts that are alike
static std::map<int,str> LMORE, GMORE;
static bool badLex( int k ) { return k == 4 or k == 5; }
static bool badGram( int k ) { return k == 3; }
static const str &lexText( int k ) { static str e; if ( k >= 10 ) return LMORE[k]; return k == 1 ? LA : k == 2 ? CA_ : k == 3 ? LB : k == 4 ? LX : k == 5 ? LO : e; }
static const str &gramText( int k ) { static str e; if ( k >= 10 ) return GMORE[k]; return k == 1 ? GA : k == 2 ? GB : k == 3 ? GX : e; }
static str opName( const Op &o ) {
    auto n = []( int k ) { return std::to_string( k ); };
    static const char *lns[] = { "-", "A", "compiled A", "B", "bad", "old" }, *gns[] = { "-", "1", "2", "bad" };
    struct { str operator[]( int k ) const { return k < 10 ? lns[k] : show( lexText( k ).substr( 24 ) ); } } ln;
    struct { str operator[]( int k ) const { return k < 10 ? gns[k] : show( gramText( k ).substr( 10 ) ); } } gn;
    switch ( o.kind ) {
        case 0: return "L" + n( o.a ) + " <- " + ln[o.b];
        case 1: return "free L" + n( o.a );
        case 2: return "G" + n( o.a ) + " <- " + gn[o.b];
        case 3: return "free G" + n( o.a );
        case 4: return "standardize(" + show( ADR[o.a] ) + ", G" + n( o.b ) + ", L" + n( o.c ) + ", " + o.locale + ", " + o.filter + ")";
        case 5: return "parse(" + show( ADR[o.a] ) + ", L" + n( o.c ) + ", " + o.locale + ", " + o.filter + ")";
        case 6: return "standardize(" + show( ADR[o.a] ) + ", text " + gn[o.b] + ", text " + ln[o.c] + ")";
        case 7: return "match(" + show( ADR[o.a] ) + ", text " + gn[o.b] + ", text " + ln[o.c] + ")";
        case 8: return "parse(" + show( ADR[o.a] ) + ", text " + ln[o.c] + ")";
        case 9: return str( "compile " ) + ln[o.b];
        default: return "fingerprints";
    }
}
static bool enabled( const State &s, const Op &o ) {
    switch ( o.kind ) {
        case 1: return s.l[o.a];
        case 3: return s.g[o.a];
        case 4: return s.g[o.b] and s.l[o.c];
        case 5: return s.l[o.c];
        case 10: return s.l[0] and s.g[0];
        default: return true;
    }
}
static void move( State &s, const Op &o ) {
    switch ( o.kind ) {
        case 0: s.l[o.a] = badLex( o.b ) ? 0 : o.b; s.lu[o.a] = false; break;
        case 1: s.l[o.a] = 0; s.lu[o.a] = false; break;
        case 2: s.g[o.a] = badGram( o.b ) ? 0 : o.b; s.gu[o.a] = false; break;
        case 3: s.g[o.a] = 0; s.gu[o.a] = false; break;
        case 4: s.lu[o.c] = s.gu[o.b] = true; break;
        case 5: s.lu[o.c] = true; break;
    }
}

static std::map<str,str> expected;      // arguments -> result with fresh handles

struct Real {
    void *l[2], *g[2];
    State s;
    Real() { l[0] = l[1] = g[0] = g[1] = 0; }
    ~Real() { for ( int i = 0; i < 2; ++i ) { if ( l[i] ) freeLexiconPtr( l[i] ); if ( g[i] ) freeGrammarPtr( g[i] ); } }
    // the result of a call and its arguments
    str step( const Op &o, str &args ) {
        str r, m;
        args = "";
        switch ( o.kind ) {
            case 0: if ( l[o.a] ) freeLexiconPtr( l[o.a] ); l[o.a] = ca::lexicon( lexText( o.b ), m ); r = l[o.a] ? "ok" + m : m; args = "load lexicon " + std::to_string( o.b ); break;
            case 1: freeLexiconPtr( l[o.a] ); l[o.a] = 0; break;
            case 2: if ( g[o.a] ) freeGrammarPtr( g[o.a] ); g[o.a] = ca::grammar( gramText( o.b ), m ); r = g[o.a] ? "ok" + m : m; args = "load grammar " + std::to_string( o.b ); break;
            case 3: freeGrammarPtr( g[o.a] ); g[o.a] = 0; break;
            case 4: r = ca::text( ca::standardize( ADR[o.a], g[o.b], l[o.c], o.locale, o.filter ) ); args = "standardize " + ADR[o.a] + "|" + std::to_string( s.g[o.b] ) + "|" + std::to_string( s.l[o.c] == 2 ? 1 : s.l[o.c] ) + "|" + o.locale + "|" + o.filter; break;
            case 5: r = ca::text( ca::parse( ADR[o.a], l[o.c], o.locale, o.filter ) ); args = "parse " + ADR[o.a] + "|" + std::to_string( s.l[o.c] == 2 ? 1 : s.l[o.c] ) + "|" + o.locale + "|" + o.filter; break;
            case 6: r = ca::text( ca::standardize( ADR[o.a], gramText( o.b ), lexText( o.c ) ) ); args = opName( o ); break;
            case 7: r = join( fl::matchRows( ca::match( ADR[o.a], gramText( o.b ), lexText( o.c ) ) ), "\n" ); args = opName( o ); break;
            case 8: r = ca::text( ca::parse( ADR[o.a], lexText( o.c ) ) ); args = opName( o ); break;
            case 9: r = ca::compile( lexText( o.b ), m ) + m; args = opName( o ); break;
            case 10: r = ca::own( getLexiconMd5( l[0] ) ) + ca::own( getGrammarMd5( g[0] ) ) + ca::own( getMd5( ca::Z( GA ) ) ); args = "fingerprints " + std::to_string( s.l[0] == 2 ? 1 : s.l[0] ) + std::to_string( s.g[0] ); break;
        }
        move( s, o );
        return r;
    }
};

// what the model says of a call; "" where the model says nothing
static std::map<int,md::Lex> ML;
static std::map<int,md::Gram> MG;
static str model( const State &s, const Op &o, const str &got ) {
    int l = o.kind == 4 or o.kind == 5 ? s.l[o.c] : o.c, g = o.kind == 4 ? s.g[o.b] : o.b;
    if ( l == 2 ) l = 1;
    bool bad = ( o.kind == 0 and badLex( o.b ) ) or ( o.kind == 2 and badGram( o.b ) ) or ( o.kind == 9 and badLex( o.b ) ) or ( o.kind >= 6 and o.kind <= 8 and badLex( l ) ) or ( ( o.kind == 6 or o.kind == 7 ) and badGram( g ) );
    if ( bad ) return got.find( "rror: " ) != str::npos or got.compare( 0, 2, "E:" ) == 0 ? got : "an error";
    if ( o.kind == 0 or o.kind == 2 ) return "ok";
    if ( o.kind == 4 or o.kind == 6 ) {
        auto r = fl::records( MG[g], ML[l], ADR[o.a], o.locale, o.filter );
        if ( r.empty() ) return "no match";
        for ( auto &e : r ) if ( ca::text( e ) == got ) return got;
        return ca::text( r[0] );
    }
    if ( o.kind == 5 or o.kind == 8 ) {
        str w; int i = 0, j = 0;
        for ( auto &p : fl::phrases( ML[l], ADR[o.a], o.locale, o.filter ) ) {
            for ( auto &t : p ) w += "(" + std::to_string( i ) + "," + std::to_string( j++ ) + "," + show( t.text ) + "," + InClass::asString( types( t.cls ) ) + ",)";
            ++i;
        }
        return w;
    }
    if ( o.kind == 7 ) return join( fl::matchRows( MG[g], fl::phrases( ML[l], ADR[o.a], o.locale, o.filter ) ), "\n" );
    return got;
}

static str name( const std::vector<int> &h ) { str o; for ( size_t i = 0; i < h.size(); ++i ) o += ( i ? "; " : "" ) + opName( OPS[h[i]] ); return o; }

static str play( mc::Ex &x, const std::vector<int> &h ) {
    Real r;
    str all;
    for ( int i : h ) {
        State was = r.s;
        str args, got = r.step( OPS[i], args );
        x.transition( 1 );
        if ( args.size() ) {
            auto e = expected.find( args );
            if ( e == expected.end() ) {
                x.eq( got, model( was, OPS[i], got ), "result of " + opName( OPS[i] ) );
                expected[args] = got;
            }
            else x.eq( got, e->second, "result of " + opName( OPS[i] ) + " against the same call before" );
        }
        all += got + "/";
    }
    return all;
}

static void history( mc::Ex &x, const std::vector<int> &h, bool leaks, const str &canon = "" ) {
    x.run( [&]{ return name( h ); }, [&]{
        str all = play( x, h );
        x.trace( 1 );
        if ( canon.size() ) x.state( canon );
        if ( leaks ) {
            size_t b[5];
            b[0] = __sanitizer_get_current_allocated_bytes();
            int grew = 0;
            for ( int k = 1; k < 5; ++k ) {
                play( x, h );
                b[k] = __sanitizer_get_current_allocated_bytes();
                if ( b[k] > b[k-1] ) ++grew;
                else break;
            }
            x.require( grew < 4, "each of four repetitions leaves memory behind, " + std::to_string( grew == 4 ? b[4] - b[3] : 0 ) + " bytes the last time, although everything was released" );
        }
        x.outcome( all );
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    std::vector<md::Entry> a = { { "ST", "STREET", { "TYPE" }, {} }, { "ST", "SAINT", { "WORD" }, {} }, { "NEW YORK", "NYC", { "CITY", "WORD" }, {} }, { "STRASSE", "STR", { "TYPE" }, { "ATT_SUF" } }, { "MAIN", "MAIN", { "WORD", "TYPE" }, {} } };
    std::vector<md::Entry> b = { { "MAIN", "HAUPT", { "TYPE" }, {} }, { "NEW", "NEU", { "WORD" }, { "DET_PRE" } }, { "TAL", "T", { "QUALIF", "WORD" }, { "ATT_PRE" } }, { "7B", "7 B", { "NUMBER" }, {} } };
    LA = md::lexText( a ); LB = md::lexText( b, "de_DE", "GER" );
    str m; CA_ = ca::compile( LA, m );
    LX = "LEXICON:\tx\tENG\ten_US\t1\nLEXENTRY:\tA\tA\tWORD\t\nLEXENTRY:\tA\tA\tNIX\t\n"; LO = CA_.substr( 0, CA_.size() / 2 );
    auto rule = []( const vs &in, const vs &out, double sc ) { md::MRule r; r.in = in; r.out = out; r.score = sc; return r; };
    auto meta = []( const str &n, const std::vector<vs> &r ) { md::Section q; q.name = n; q.meta = true; q.refs = r; return q; };
    auto sec = []( const str &n, const std::vector<md::MRule> &r ) { md::Section q; q.name = n; q.meta = false; q.rules = r; return q; };
    MG[1].secs = { meta( "ADDRESS", { { "A" }, { "A", "ADDRESS" } } ), sec( "A", { rule( { "WORD" }, { "STREET" }, 0.5 ), rule( { "NUMBER" }, { "HOUSE" }, 0.625 ), rule( { "TYPE" }, { "SUFTYP" }, 0.75 ), rule( { "CITY" }, { "CITY" }, 0.875 ), rule( { "MIXED" }, { "UNITT" }, 0.25 ), rule( { "QUALIF" }, { "QUALIF" }, 0.125 ) } ) };
    MG[2].secs = { meta( "ADDRESS", { { "B", "C" } } ), sec( "B", { rule( { "NUMBER", "TYPE", "WORD" }, { "HOUSE", "SUFTYP", "STREET" }, 1 ), rule( { "NUMBER", "WORD" }, { "HOUSE", "STREET" }, 0.5 ), rule( { "WORD" }, { "STREET" }, 0.25 ) } ),
        sec( "C", { rule( { "TYPE" }, { "SUFTYP" }, 0.5 ), rule( { "WORD", "TYPE", "NUMBER" }, { "CITY", "PROV", "POSTAL" }, 1 ), rule( {}, {}, 0.125 ), rule( { "TYPE", "MIXED" }, { "PROV", "EXTRA" }, 1 ) } ) };
    GA = md::gramText( MG[1] ); GB = md::gramText( MG[2] );
    ML[1].list = a; ML[1].locale = "en_US"; ML[3].list = b; ML[3].locale = "de_DE";
    GX = "[ADDRESS]\n@A\n@A @ADDRESS\n[A]\nWORD -> STREET -> 0.5\n[B]\n@C\n";
    const char *F = "PUNCT,SPACE", *E = "en_US";
    OPS = {
        { 0, 0, 1, 0, E, F }, { 0, 0, 3, 0, E, F }, { 0, 1, 2, 0, E, F }, { 0, 1, 4, 0, E, F }, { 0, 0, 5, 0, E, F }, { 1, 0, 0, 0, E, F }, { 1, 1, 0, 0, E, F },
        { 2, 0, 1, 0, E, F }, { 2, 0, 2, 0, E, F }, { 2, 1, 1, 0, E, F }, { 2, 1, 3, 0, E, F }, { 3, 0, 0, 0, E, F }, { 3, 1, 0, 0, E, F },
        { 4, 0, 0, 0, E, F }, { 4, 1, 0, 1, E, F }, { 4, 1, 1, 0, "tr_TR", F }, { 4, 2, 0, 0, E, "PUNCT,SPACE,WORD" }, { 4, 3, 1, 1, E, F },
        { 5, 0, 0, 0, E, F }, { 5, 1, 0, 1, "de_DE", "" }, { 5, 3, 0, 0, E, F },
        { 6, 0, 1, 1, E, F }, { 6, 1, 2, 2, E, F }, { 6, 0, 3, 1, E, F }, { 7, 2, 1, 3, E, F }, { 7, 1, 1, 4, E, F }, { 8, 1, 0, 2, E, F }, { 8, 1, 0, 5, E, F }, { 9, 0, 1, 0, E, F }, { 9, 0, 4, 0, E, F }, { 10, 0, 0, 0, E, F }
    };
    const size_t BASE = OPS.size();
    // calls for addresses of every shape
    for ( size_t a = 0; a < ADR.size(); ++a ) {
        OPS.push_back( { 5, (int) a, 0, 0, E, F } );
        OPS.push_back( { 5, (int) a, 0, 1, E, "" } );
        OPS.push_back( { 4, (int) a, 0, 0, E, F } );
        OPS.push_back( { 4, (int) a, 1, 1, "tr_TR", "PUNCT,SPACE,NUMBER" } );
    }
    // the state graph, and the reference of every call in it
    struct Node { State s; std::vector<int> h; };
    std::vector<Node> graph( 1 );
    std::set<str> seen;
    seen.insert( graph[0].s.canon() );
    for ( size_t i = 0; i < graph.size(); ++i ) for ( size_t k = 0; k < BASE; ++k ) {
        if ( not enabled( graph[i].s, OPS[k] ) ) continue;
        Node n = graph[i];
        move( n.s, OPS[k] );
        n.h.push_back( k );
        if ( seen.insert( n.s.canon() ).second ) graph.push_back( n );
    }
    x.phase( "every state of the handles and every call in it" );
    for ( auto &n : graph ) for ( size_t k = 0; k < BASE; ++k ) {
        if ( not enabled( n.s, OPS[k] ) ) continue;
        std::vector<int> h = n.h; h.push_back( k );
        history( x, h, false, n.s.canon() );
    }
    x.phase( "every history of up to 3 (4) calls from nothing and from four loaded handles, with heap accounting up to length 2 (3)" );
    std::vector<std::vector<int> > starts = { {}, { 0, 2, 7, 9 }, { 1, 2, 8, 9 } };
    for ( size_t st = 0; st < starts.size(); ++st ) {
        State s0; for ( int i : starts[st] ) move( s0, OPS[i] );
        std::vector<std::pair<State,std::vector<int> > > level( 1, { s0, starts[st] } ), next;
        for ( int d = 1; d <= ( T ? 3 : 2 ) + ( st == 1 and T ? 1 : 0 ); ++d ) {
            for ( auto &e : level ) for ( size_t k = 0; k < BASE; ++k ) {
                if ( not enabled( e.first, OPS[k] ) ) continue;
                State s = e.first; move( s, OPS[k] );
                std::vector<int> h = e.second; h.push_back( k );
                next.push_back( { s, h } );
                history( x, h, d <= 2 );
            }
            level.swap( next ); next.clear();
        }
    }
    x.phase( "every address and call after a failure in between" );
    for ( size_t f = 0; f < BASE; ++f ) {
        bool fails = ( OPS[f].kind == 0 and OPS[f].b > 3 ) or ( OPS[f].kind == 2 and OPS[f].b > 2 ) or ( OPS[f].kind >= 6 and OPS[f].kind <= 9 and ( OPS[f].b > 2 or OPS[f].c > 3 ) );
        if ( not fails ) continue;
        for ( size_t k = 0; k < BASE; ++k ) for ( size_t j = 0; j < BASE; j += T ? 1 : 2 ) {
            std::vector<int> h = starts[1]; State s; for ( int i : h ) move( s, OPS[i] );
            bool ok = true;
            for ( int i : { (int) k, (int) f, (int) j } ) { if ( not enabled( s, OPS[i] ) ) ok = false; move( s, OPS[i] ); h.push_back( i ); }
            if ( ok ) history( x, h, false );
        }
    }
    x.phase( "every pair of calls over addresses of every shape" );
    for ( int st = 1; st < 3; ++st ) for ( size_t k = BASE; k < OPS.size(); ++k ) for ( size_t j = BASE; j < OPS.size(); ++j ) {
        if ( st == 2 and not T and ( k + j ) % 2 ) continue;
        std::vector<int> h = starts[st];
        h.push_back( k ); h.push_back( j );
        if ( T ) h.push_back( k );
        history( x, h, false );
    }
    x.phase( "texts that are alike, one after another: with as many bytes, words and classes, and one difference" );
    ML[10].list = { { "AB", "X1", { "TYPE" }, {} }, { "CD", "X2", { "WORD" }, { "ATT_SUF" } }, { "EF GH", "X3", { "CITY", "WORD" }, {} }, { "IJ", "X4", { "QUALIF" }, { "ATT_PRE" } } };
    ML[10].locale = "en_US";
    int nl = 11, ng = 11;
    auto variant = [&]( std::function<void( md::Lex & )> f ) { ML[nl] = ML[10]; f( ML[nl] ); ++nl; };
    for ( int e = 0; e < 4; ++e ) {
        variant( [&]( md::Lex &l ) { l.list[e].word[0] += 15; } );      // another first letter
        variant( [&]( md::Lex &l ) { l.list[e].word[1] += 15; } );
        variant( [&]( md::Lex &l ) { l.list[e].std = "Y" + l.list[e].std.substr( 1 ); } );
        variant( [&]( md::Lex &l ) { l.list[e].std[1] += 4; } );
        variant( [&]( md::Lex &l ) { l.list[e].type = { e % 2 ? "STOPWORD" : "QUALIF" }; } );
        variant( [&]( md::Lex &l ) { l.list[e].att = { e == 1 ? "ATT_PRE" : e == 3 ? "ATT_SUF" : "DET_SUF" }; } );
    }
    variant( []( md::Lex &l ) { std::swap( l.list[0].word, l.list[1].word ); } );
    variant( []( md::Lex &l ) { std::swap( l.list[0], l.list[3] ); } );
    variant( []( md::Lex &l ) { l.locale = "tr_TR"; } );
    for ( int k = 10; k < nl; ++k ) LMORE[k] = md::lexText( ML[k].list, ML[k].locale );
    MG[10].secs = { meta( "ADDRESS", { { "A", "B" }, { "B" } } ), sec( "A", { rule( { "NUMBER" }, { "HOUSE" }, 0.5 ), rule( { "TYPE", "WORD" }, { "PRETYP", "STREET" }, 0.75 ) } ), sec( "B", { rule( { "TYPE" }, { "SUFTYP" }, 0.5 ), rule( { "CITY", "WORD" }, { "CITY", "STREET" }, 0.25 ), rule( { "WORD", "TYPE" }, { "STREET", "SUFTYP" }, 0.25 ), rule( { "WORD" }, { "STREET" }, 0.25 ), rule( { "QUALIF", "WORD" }, { "QUALIF", "CITY" }, 0.5 ) } ) };
    auto gvar = [&]( std::function<void( md::Gram & )> f ) { MG[ng] = MG[10]; f( MG[ng] ); ++ng; };
    for ( int q = 1; q < 3; ++q ) for ( int r = 0; r < 2; ++r ) {
        gvar( [&]( md::Gram &g ) { g.secs[q].rules[r].out[0] = g.secs[q].rules[r].out[0] == "PROV" ? "CITY" : "PROV"; } );
        gvar( [&]( md::Gram &g ) { g.secs[q].rules[r].score += 0.125; } );
        gvar( [&]( md::Gram &g ) { g.secs[q].rules[r].in[0] = "QUAD"; } );
        gvar( [&]( md::Gram &g ) { std::swap( g.secs[q].rules[0], g.secs[q].rules[1] ); g.secs[q].rules[r].score = 1; } );
    }
    gvar( []( md::Gram &g ) { g.secs[0].refs[0] = { "B", "A" }; } );
    gvar( []( md::Gram &g ) { g.secs[0].refs[1] = { "A" }; } );
    gvar( []( md::Gram &g ) { std::swap( g.secs[1].rules, g.secs[2].rules ); } );
    gvar( []( md::Gram &g ) { std::swap( g.secs[1], g.secs[2] ); g.secs[2].rules[0].score = 0.0625; } );
    for ( int k = 10; k < ng; ++k ) GMORE[k] = md::gramText( MG[k] );
    const size_t A0 = ADR.size();
    for ( auto &t : { "12 ab", "12 cd", "21 ab", "12 ba", "ab cd", "cd ab", "ef gh", "gh ef", "uf gh", "xycd ab", "ijab cd", "Ab cd", "ab Cd", "ab c", "ab ce", "ab cd ", " ab cd", "ij cd", "12 ef gh ab", "12 ef gh cd", "12 ef gi ab", "", "1" } ) ADR.push_back( t );
    auto at = [&]( const Op &o ) { OPS.push_back( o ); return (int) OPS.size() - 1; };
    // the call of address a: with handles of slot q (0: lexicon slot 0, grammar slot 0; 1: slots 1), or with the texts
    auto ask = [&]( int kind, size_t a, int q, int g, int l ) { return kind < 6 ? at( { kind, (int) a, q, q, E, F } ) : at( { kind, (int) a, g, l, E, F } ); };
    auto loadL = [&]( int q, int l ) { return at( { 0, q, l, 0, E, F } ); };
    auto loadG = [&]( int q, int g ) { return at( { 2, q, g, 0, E, F } ); };
    auto pairs = [&]( int l1, int l2, int g1, int g2 ) {
        std::vector<int> one, two, txt;     // both in slot 0 in turn; each in its own; as texts
        for ( int r = 0; r < ( T ? 3 : 1 ); ++r ) {
            for ( int w = 0; w < 2; ++w ) { one.push_back( loadL( 0, w ? l2 : l1 ) ); one.push_back( loadG( 0, w ? g2 : g1 ) ); for ( size_t a = A0 + r; a < ADR.size(); a += 1 + ( T ? 0 : 1 ) ) one.push_back( ask( 4 + a % 2, a, 0, 0, 0 ) ); }
            if ( r == 0 ) for ( int w = 0; w < 2; ++w ) { two.push_back( loadL( w, w ? l2 : l1 ) ); two.push_back( loadG( w, w ? g2 : g1 ) ); }
            for ( size_t a = A0; a < ADR.size(); ++a ) for ( int w = 0; w < 2; ++w ) two.push_back( ask( 4 + ( a + r ) % 2, a, ( w + r ) % 2, 0, 0 ) );
            for ( size_t a = A0 + r; a < ADR.size(); a += T ? 1 : 3 ) for ( int w = 0; w < 2; ++w ) txt.push_back( ask( 6 + ( a + r ) % 3, a, 0, w ? g2 : g1, w ? l2 : l1 ) );
        }
        history( x, one, false ); history( x, two, false ); history( x, txt, false );
    };
    const size_t keep = OPS.size();
    for ( int i = 10; i < nl; ++i ) for ( int j = 10; j < nl; ++j ) {
        if ( i == j or ( not T and i != 10 and j != 10 and ( i + j ) % 10 ) ) continue;
        pairs( i, j, 10, 10 ); OPS.resize( keep );
    }
    for ( int i = 10; i < ng; ++i ) for ( int j = 10; j < ng; ++j ) {
        if ( i == j or ( not T and i != 10 and j != 10 and ( i + j ) % 10 ) ) continue;
        pairs( 10, 10, i, j ); OPS.resize( keep );
        if ( i == 10 or j == 10 ) { pairs( 10 + j % ( nl - 10 ), 10 + i % ( nl - 10 ), i, j ); OPS.resize( keep ); }
    }
    x.phase( "long runs of calls on the same handles" );
    for ( int run = 0; run < 6; ++run ) {
        std::vector<int> h = { loadL( 0, 10 ), loadG( 0, 10 ), loadL( 1, 12 + run ), loadG( 1, 11 + run ) };
        for ( int i = 0; i < ( T ? 3000 : 600 ); ++i ) h.push_back( ask( 4 + ( i / 7 ) % 2, A0 + ( run < 3 ? i * ( run + 1 ) : i / ( 2 << run ) ) % ( ADR.size() - A0 ), run % 2 ? i % 2 : i / 50 % 2, 0, 0 ) );
        history( x, h, true ); OPS.resize( keep );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P18";
    o.level = "model_checking";
    o.rule = "states say what each of two lexicon and two grammar handles holds and whether it was used; every call in every state and every history up to a depth is run on real handles under AddressSanitizer, each result compared with that of handles loaded for that call alone; histories are repeated to see whether memory grows";
    o.assumptions = { "a history leaks when each of four repetitions leaves memory behind; caches that fill once do not count", "AddressSanitizer reports uses of released memory" };
    return mc::main( argc, argv, o, explore );
}
