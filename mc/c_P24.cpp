// P24: the SQL functions, row by row.
#include "pg.h"
#include "real.h"
#include "flow.h"
using namespace rl;

static std::map<str,pg::Fn> SQL;
static std::map<str,str> COMPILED;

static size_t bytes() { pgm_trim(); return __sanitizer_get_current_allocated_bytes(); }

// one use of a function: what it is called with
struct Use { str fn; pg::Args a; };
static str uname( const Use &u ) {
    str o = u.fn + "(";
    for ( auto &e : u.a ) o += " " + e.first + "=" + show( e.second.size() > 200 ? e.second.substr( 0, 200 ) + "..." : e.second );
    return o + " )";
}
static const str &at( const pg::Args &a, const str &k ) { return a.at( k ); }

// what the library computes: the rows one after another, or an error
struct Want { bool err, open; std::vector<pg::Args> rows; str wrong; };   // open: the property says nothing about it
static std::map<str,md::Lex> LEXM;      // the models of texts, by the text
static std::map<str,md::Gram> GRAMM;
// what the library computes is what the model of the library says
static str checked( const pg::Args &a, const ca::Std *s, const ca::Par *p, const ca::Mat *m ) {
    auto l = LEXM.find( at( a, "lexicon" ) );
    if ( l == LEXM.end() or at( a, "address" ).size() > 400 ) return "";
    auto phr = fl::phrases( l->second, at( a, "address" ), at( a, "locale" ), at( a, "filter" ) );
    if ( p ) { str got = fl::parseText( *p ), due = fl::parseText( phr ); return got == due ? "" : got + " where the model has " + due; }
    auto g = GRAMM.find( at( a, "grammar" ) );
    if ( g == GRAMM.end() ) return "";
    if ( s ) { auto r = fl::records( g->second, l->second, phr ); return fl::among( *s, r ) ? "" : ca::text( *s ) + " where the model has " + fl::showRecs( r ); }
    vs got = fl::matchRows( *m ), due = fl::matchRows( g->second, phr );
    if ( got == due ) return "";
    return mc::join( got, "\n" ) + "\n          where the model has\n" + mc::join( due, "\n" );
}
static const Want &want( const Use &u ) {
    static std::map<str,Want> memo;
    str key = u.fn;
    for ( auto &e : u.a ) key += "\x01" + e.first + "\x02" + e.second;
    auto i = memo.find( key );
    if ( i != memo.end() ) return i->second;
    Want w; w.err = w.open = false;
    if ( u.fn == "as_standardize" ) {
        str m1, m2;
        void *g = ca::grammar( at( u.a, "grammar" ), m1 ), *l = ca::lexicon( at( u.a, "lexicon" ), m2 );
        if ( g ) __real_freeGrammarPtr( g ), pg::live().gram.erase( g );
        if ( l ) __real_freeLexiconPtr( l ), pg::live().lex.erase( l );
        w.err = not g or not l;
        if ( not w.err ) {
            auto s = ca::standardize( at( u.a, "address" ), at( u.a, "grammar" ), at( u.a, "lexicon" ), at( u.a, "locale" ), at( u.a, "filter" ) );
            w.open = s.err;
            w.rows.push_back( s.f );
            if ( not w.err ) w.wrong = checked( u.a, &s, 0, 0 );
        }
    }
    else if ( u.fn == "as_parse" ) {
        auto p = ca::parse( at( u.a, "address" ), at( u.a, "lexicon" ), at( u.a, "locale" ), at( u.a, "filter" ) );
        w.open = p.err;
        w.wrong = checked( u.a, 0, &p, 0 );
        for ( auto &r : p.rows ) w.rows.push_back( { { "pat", std::to_string( r.pat + 1 ) }, { "seq", std::to_string( r.seq + 1 ) }, { "word", r.word }, { "inclass", r.cls }, { "attached", r.att } } );
    }
    else if ( u.fn == "as_match" ) {
        auto p = ca::match( at( u.a, "address" ), at( u.a, "grammar" ), at( u.a, "lexicon" ), at( u.a, "locale" ), at( u.a, "filter" ) );
        w.open = p.err;
        w.wrong = checked( u.a, 0, 0, &p );
        for ( auto &r : p.rows ) w.rows.push_back( { { "tokens", r.toks }, { "score", mc::num( r.score ) }, { "nrules", mc::num( r.nrules ) } } );
    }
    else {
        str m, c = ca::compile( at( u.a, "lexicon" ), m );
        w.err = m.size() or c.empty();
        w.rows.push_back( { { "result", c } } );
    }
    return memo[key] = w;
}

struct Call {       // a site and what is being returned through it
    mc::Ex *x; pg::Site site; const Use *u; size_t row; bool busy;
    Call( mc::Ex &x, pg::Query &q, const str &fn ) : x( &x ), site( q, SQL.at( fn ) ), u( 0 ), row( 0 ), busy( false ) {}
    bool set() const { return site.f->set; }
    // the next row of what is being returned, or of a new use
    void step( const Use *n, bool shorthdr, const str &when = "" ) {
        if ( not busy ) { u = n; row = 0; }
        const Want &w = want( *u );
        auto r = site.call( u->a, shorthdr );
        str what = when + uname( *u ) + ", row " + std::to_string( row + 1 );
        x->require( str( pgm_fault() ).empty() and pg::live().fault.empty(), what + ": " + pgm_fault() + pg::live().fault );
        x->transition( 1 );
        if ( not set() ) {
            busy = false;
            if ( w.err ) { x->require( r.kind == PGM_ERROR and r.msg.size(), what + " gives " + pg::text( r ) + " where an error is due" ); return; }
            if ( not w.open ) rowIs( r, w.rows[0], what );
            return;
        }
        if ( r.kind == PGM_DONE or r.kind == PGM_ERROR ) {
            x->require( w.open or ( r.kind == PGM_DONE and row == w.rows.size() ), what + " gives " + pg::text( r ) + " where " + std::to_string( w.rows.size() ) + " rows are due" );
            busy = false;
            return;
        }
        x->require( row < w.rows.size(), what + " gives " + pg::text( r ) + " where " + std::to_string( w.rows.size() ) + " rows are due" );
        rowIs( r, w.rows[row], what );
        ++row;
        busy = true;
    }
    void rowIs( const pg::Res &r, const pg::Args &w, const str &what ) {
        x->require( r.kind == PGM_ROW, what + " gives " + pg::text( r ) );
        pg::Args got = r.v, due;
        vs cols = site.f->cols;
        if ( cols.empty() ) cols.push_back( "result" );
        for ( auto &c : cols ) { auto i = w.find( c ); if ( i != w.end() ) due[c] = i->second; }
        for ( auto &e : w ) if ( std::find( cols.begin(), cols.end(), e.first ) == cols.end() ) x->require( e.first == "nrules", what + ": there is no column " + e.first );
        for ( str c : { "score", "nrules" } ) { auto i = got.find( c ); if ( i != got.end() ) i->second = mc::num( atof( i->second.c_str() ) ); }
        if ( got != due ) {
            pg::Res d; d.kind = PGM_ROW; d.v = due; pg::Res g = r; g.v = got;
            x->eq( pg::text( g ), pg::text( d ), what );
        }
    }
    str canon() const { return busy ? site.f->name + std::to_string( row ) + "/" + std::to_string( want( *u ).rows.size() ) : "-"; }
};

// repeated if something is left behind: tables that live as long as the
// process are filled once only
template<class F> static void measured( mc::Ex &x, F body ) {
    for ( int k = 0; k < 4; ++k ) {
        long n[] = { pgm_permanent_chunks(), pgm_hash_entries(), pgm_contexts(), (long) pg::live().lex.size(), (long) pg::live().gram.size() };
        long b = bytes();
        body();
        long e = bytes();
        long m[] = { pgm_permanent_chunks(), pgm_hash_entries(), pgm_contexts(), (long) pg::live().lex.size(), (long) pg::live().gram.size() };
        bool same = std::equal( n, n + 5, m );
        if ( same and e == b ) return;
        if ( k == 3 ) x.require( false, std::to_string( e - b ) + " bytes that the calls allocated are not released" + ( same ? "" : "; memory contexts, table entries, permanent chunks or standardizers are left over" ) );
    }
}

// a use from its start to its end, in both forms of the arguments, twice at
// the same site
static void alone( mc::Ex &x, const Use &u ) {
    x.run( [&]{ return uname( u ); }, [&]{
        const Want &w = want( u );
        x.require( w.wrong.empty(), uname( u ) + " gives " + w.wrong );
        measured( x, [&]{
            pg::Query q;
            Call c( x, q, u.fn );
            for ( int sh = 0; sh < 2; ++sh ) do c.step( &u, sh, sh ? "again: " : "" ); while ( c.busy );
        } );
        x.trace( 1 );
        str o = u.fn + ( w.err ? " error" : w.open ? " unspecified" : "" );
        for ( auto &r : w.rows ) for ( auto &e : r ) o += e.first + "=" + ( e.second.size() > 300 ? std::to_string( mc::hash( e.second ) ) : e.second ) + ";";
        x.outcome( o );
        x.state( "alone " + u.fn + ( w.err ? "e" : "" ) + std::to_string( w.rows.size() ) );
    } );
}

// every order in which the calls of several sites can be interleaved
static void interleavings( mc::Ex &x, const std::vector<std::vector<Use> > &sites, bool oneQuery, bool early ) {
    std::vector<int> steps;
    for ( auto &s : sites ) { int n = 0; for ( auto &u : s ) { auto &w = want( u ); n += SQL.at( u.fn ).set ? w.rows.size() + 1 : 1; } steps.push_back( n ); }
    std::vector<int> done( sites.size(), 0 ), order;
    std::function<void()> rec = [&]{
        bool all = true;
        for ( size_t i = 0; i < sites.size(); ++i ) if ( done[i] < steps[i] ) all = false;
        // the statement may also end before everything is returned; what a
        // set that is not finished holds is not asked for then
        if ( all or ( early and order.size() ) ) {
            x.run( [&]{ str o; for ( auto &s : sites ) { for ( auto &u : s ) o += uname( u ) + "; "; o += "\n"; } o += "order"; for ( int i : order ) o += " " + std::to_string( i + 1 ); return o + ( oneQuery ? " in one query" : " in several queries" ); }, [&]{
                static uint64_t seen[100]; int nseen = 0;
                auto body = [&]{
                    nseen = 0;
                    std::vector<pg::Query*> q;
                    for ( size_t i = 0; i < ( oneQuery ? 1 : sites.size() ); ++i ) q.push_back( new pg::Query );
                    std::vector<Call*> c;
                    std::vector<size_t> use( sites.size(), 0 );
                    for ( size_t i = 0; i < sites.size(); ++i ) c.push_back( new Call( x, *q[ oneQuery ? 0 : i ], sites[i][0].fn ) );
                    for ( int i : order ) {
                        c[i]->step( &sites[i][ use[i] ], ( i + use[i] ) & 1 );
                        if ( not c[i]->busy ) ++use[i];
                        str st;
                        for ( size_t k = 0; k < sites.size(); ++k ) st += std::to_string( use[k] ) + c[k]->canon() + ";";
                        if ( nseen < 100 ) seen[nseen++] = mc::hash( st );
                    }
                    for ( auto *p : c ) delete p;
                    for ( size_t i = 0; i < q.size(); ++i ) { q[i]->end( ( order.size() + i ) % 3 ); delete q[i]; }
                    x.require( str( pgm_fault() ).empty(), pgm_fault() );
                    x.require( pg::live().fault.empty(), pg::live().fault );
                };
                if ( all ) measured( x, body ); else body();
                for ( int i = 0; i < nseen; ++i ) x.stateSet.insert( seen[i] );
                x.trace( 1 );
                str o; for ( auto &s : sites ) for ( auto &u : s ) o += u.fn + std::to_string( want( u ).rows.size() ) + ";";
                for ( int i : order ) o += char( '0' + i );
                x.outcome( o );
            } );
        }
        for ( size_t i = 0; i < sites.size(); ++i ) if ( done[i] < steps[i] ) {
            ++done[i]; order.push_back( i );
            rec();
            order.pop_back(); --done[i];
        }
    };
    rec();
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    SQL = pg::declared( str( REPO ) + "/src/address_standardizer2--2.0.sql.in" );
    const str H = "LEXICON:\tl\tENG\ten_US\n";
    std::vector<str> L = {
        H + "LEXENTRY:\tST\tSTREET\tTYPE\tDETACH\nLEXENTRY:\tST\tSAINT\tWORD\tDETACH\nLEXENTRY:\tN\tNORTH\tDIRECT\tDETACH\nLEXENTRY:\tMAIN ST\tMAIN STREET\tWORD\tDETACH\nLEXENTRY:\tSTRASSE\tSTRASSE\tTYPE\tATT_SUF,DET_SUF\n",
        H + "LEXENTRY:\tST\tSTR\tTYPE\tDETACH\n" };
    for ( int i = 0; i < 2; ++i ) { str m; L.push_back( ca::compile( L[i], m ) ); }
    {
        md::Lex m; m.locale = "en_US";
        m.insert( { "ST", "STREET", { "TYPE" }, { "DETACH" } } ); m.insert( { "ST", "SAINT", { "WORD" }, { "DETACH" } } ); m.insert( { "N", "NORTH", { "DIRECT" }, { "DETACH" } } );
        m.insert( { "MAIN ST", "MAIN STREET", { "WORD" }, { "DETACH" } } ); m.insert( { "STRASSE", "STRASSE", { "TYPE" }, { "ATT_SUF", "DET_SUF" } } );
        LEXM[L[0]] = LEXM[L[2]] = m;
        md::Lex k; k.locale = "en_US";
        k.insert( { "ST", "STR", { "TYPE" }, { "DETACH" } } );
        LEXM[L[1]] = LEXM[L[3]] = k;
    }
    const std::vector<str> BADL = { "", "nothing", H + "nothing\n", H + "LEXENTRY:\tA\tB\tNOCLASS\tDETACH\n", L[2].substr( 0, L[2].size() / 2 ), "22 serialization::archive 15 0 1 0\n0 0 1 0" };
    const str R = "NUMBER -> HOUSE -> 0.5\nNUMBER WORD -> HOUSE STREET -> 0.5\nNUMBER WORD TYPE -> HOUSE STREET SUFTYP -> 0.9\nNUMBER WORD WORD -> HOUSE STREET STREET -> 0.6\nDIRECT WORD TYPE -> PREDIR STREET SUFTYP -> 0.75\nWORD TYPE -> STREET SUFTYP -> 0.25\nWORD -> CITY -> 0.125\n";
    const std::vector<str> G = { "[ADDRESS]\n" + R, "[ADDRESS]\n@A @B\n@A\n[A]\n" + R + "[B]\nWORD -> CITY -> 0.5\nWORD WORD -> CITY PROV -> 0.25\n" };
    {
        std::vector<md::MRule> r = { { { "NUMBER" }, { "HOUSE" }, 0.5 }, { { "NUMBER", "WORD" }, { "HOUSE", "STREET" }, 0.5 }, { { "NUMBER", "WORD", "TYPE" }, { "HOUSE", "STREET", "SUFTYP" }, 0.9 }, { { "NUMBER", "WORD", "WORD" }, { "HOUSE", "STREET", "STREET" }, 0.6 },
            { { "DIRECT", "WORD", "TYPE" }, { "PREDIR", "STREET", "SUFTYP" }, 0.75 }, { { "WORD", "TYPE" }, { "STREET", "SUFTYP" }, 0.25 }, { { "WORD" }, { "CITY" }, 0.125 } };
        GRAMM[G[0]].secs = { { "ADDRESS", false, {}, r } };
        GRAMM[G[1]].secs = { { "ADDRESS", true, { { "A", "B" }, { "A" } }, {} }, { "A", false, {}, r }, { "B", false, {}, { { { "WORD" }, { "CITY" }, 0.5 }, { { "WORD", "WORD" }, { "CITY", "PROV" }, 0.25 } } } };
    }
    const str ANY = "[ADDRESS]\n@X\n@X @ADDRESS\n[X]\nWORD -> EXTRA -> 0.5\nTYPE -> EXTRA -> 0.5\n";
    GRAMM[ANY].secs = { { "ADDRESS", true, { { "X" }, { "X", "ADDRESS" } }, {} }, { "X", false, {}, { { { "WORD" }, { "EXTRA" }, 0.5 }, { { "TYPE" }, { "EXTRA" }, 0.5 } } } };
    const std::vector<str> BADG = { "", "[A]\nWORD -> CITY -> 0.5\n", "[ADDRESS]\nWORD -> CITY\n", "[ADDRESS]\n@NONE\n", "WORD -> CITY -> 0.5\n" };
    const vs F = { "PUNCT,SPACE", "PUNCT,SPACE,DASH,EMDASH", "", "WORD" }, LOC = { "en_US", "tr_TR", "C", "" };
    vs words = { "12", "main", "st", "n", ",", "haupstrasse", "main st", u8"\u00e9" };
    std::vector<str> adr;
    mc::sequences( words.size(), 0, T ? 4 : 3, [&]( const std::vector<int> &v ) {
        if ( not T and v.size() == 3 and ( v[0] + 2 * v[1] + 3 * v[2] ) % 4 ) return;
        vs p; for ( int i : v ) p.push_back( words[i] );
        adr.push_back( mc::join( p, " " ) );
    } );
    str big = "1";
    for ( int i = 0; i < 60; ++i ) big += " long";
    adr.push_back( big );
    adr.push_back( "\n12\t\"main\" st" );
    auto use = [&]( const str &fn, const str &a, const str &g, const str &l, const str &lo = "en_US", const str &f = "PUNCT,SPACE" ) {
        Use u; u.fn = fn;
        if ( fn != "as_compile_lexicon" ) { u.a = { { "address", a }, { "locale", lo }, { "filter", f } }; if ( fn != "as_parse" ) u.a["grammar"] = g; }
        u.a["lexicon"] = l;
        return u;
    };

    x.phase( "the declarations" );
    x.run( [&]{ return str( "the functions of the script" ); }, [&]{
        for ( str f : { "as_standardize", "as_parse", "as_match", "as_compile_lexicon" } ) {
            x.require( SQL.count( f ), "no function " + f );
            const pg::Fn &d = SQL.at( f );
            x.eq( d.symbol, f, "the symbol of " + f );
            // the functions read their arguments without asking whether they are null
            x.require( d.strict, f + " is not declared strict" );
            x.require( d.set == ( f == "as_parse" or f == "as_match" ), f + " returns one row or several" );
            vs a = f == "as_compile_lexicon" ? vs{ "lexicon" } : f == "as_parse" ? vs{ "address", "lexicon", "locale", "filter" } : vs{ "address", "grammar", "lexicon", "locale", "filter" };
            x.eq( mc::join( d.args, "," ), mc::join( a, "," ), "the arguments of " + f );
        }
        vs c; for ( int i = 0; i < 17; ++i ) c.push_back( ca::fieldName( i ) );
        vs got = SQL.at( "as_standardize" ).cols;
        std::sort( c.begin(), c.end() ); std::sort( got.begin(), got.end() );
        x.eq( mc::join( got, "," ), mc::join( c, "," ), "the columns of as_standardize" );
        x.outcome( "declared" );
    } );

    x.phase( "every pair of output classes" );
    vs outs;
    for ( int i = 0; i <= 17; ++i ) outs.push_back( OutClass::asString( OutClass::asType( i ) ) );
    outs.push_back( "IGNORE" ); outs.push_back( "EXTRA" ); outs.push_back( "BADTOKEN" );
    for ( auto &a : outs ) for ( auto &b : outs ) alone( x, use( "as_standardize", "12 main", "[ADDRESS]\nNUMBER WORD -> " + a + " " + b + " -> 0.5\n", L[0] ) );

    x.phase( "every column with every kind of value" );
    {
        vs vals = { "0", "00", "0A", "A0", "007", "1", "-1", "+1", "1/2", ".5", "1E5", "#", "#1", "-", "NULL", "N", "T", "F", "{}", "{A,B}", "(A)", "\"Q\"", "'", "''", "\\", "\\N", "%S", "%", "_", "$1", "@A", "[A]", "->", ",", ";", ":", "A B", u8"\u00c9", u8"\u4e2d", u8"\U0001F600", u8"\u00a0", "TRUE", "EXTRA", "IGNORE", "BADTOKEN", "STREET", "HOUSE", str( 127, 'L' ), str( 255, '0' ) };
        str t = H;
        md::Lex m; m.locale = "en_US";
        for ( size_t i = 0; i < vals.size(); ++i ) {
            str w = str( "V" ) + char( 'A' + i / 26 ) + char( 'A' + i % 26 );
            t += "LEXENTRY:\t" + w + "\t" + vals[i] + "\tWORD\tDETACH\n";
            m.insert( { w, vals[i], { "WORD" }, { "DETACH" } } );
        }
        LEXM[t] = m;
        for ( auto &o : outs ) {
            str g = "[ADDRESS]\nWORD -> " + o + " -> 0.5\nNUMBER -> " + o + " -> 0.5\nMIXED -> " + o + " -> 0.5\nWORD WORD -> " + o + " " + o + " -> 0.25\nNUMBER WORD -> HOUSE " + o + " -> 0.25\n";
            if ( o != "BADTOKEN" ) {
                md::Gram d;
                d.secs = { { "ADDRESS", false, {}, { { { "WORD" }, { o }, 0.5 }, { { "NUMBER" }, { o }, 0.5 }, { { "MIXED" }, { o }, 0.5 }, { { "WORD", "WORD" }, { o, o }, 0.25 }, { { "NUMBER", "WORD" }, { "HOUSE", o }, 0.25 } } } };
                GRAMM[g] = d;
            }
            for ( size_t i = 0; i < vals.size(); ++i ) {
                str w = str( "V" ) + char( 'A' + i / 26 ) + char( 'A' + i % 26 );
                for ( auto &a : vs{ w, "0 " + w, w + " VAA" } ) if ( T or a == w or o == outs[ i % outs.size() ] ) alone( x, use( "as_standardize", a, g, t ) );
                if ( o == outs[0] ) { alone( x, use( "as_parse", w + " 0 " + w, "", t ) ); alone( x, use( "as_match", w, g, t ) ); }
            }
            for ( str a : { "0", "00", "007", "0A", "A0", "1", "10", "99999999999999999999" } ) alone( x, use( "as_standardize", a, g, t ) );
        }
    }

    x.phase( "every address, alone" );
    for ( size_t i = 0; i < adr.size(); ++i ) for ( size_t g = 0; g < G.size(); ++g ) for ( size_t l = 0; l < L.size(); ++l ) for ( size_t f = 0; f < F.size(); ++f ) for ( size_t o = 0; o < LOC.size(); ++o ) {
        if ( not T and ( ( i + g + l ) % F.size() != f or ( i + l ) % LOC.size() != o ) ) continue;
        if ( T and ( i + l + g ) % 4 and f and o ) continue;
        alone( x, use( "as_standardize", adr[i], G[g], L[l], LOC[o], F[f] ) );
        if ( g == 0 ) alone( x, use( "as_parse", adr[i], "", L[l], LOC[o], F[f] ) );
        alone( x, use( "as_match", adr[i], G[g], L[l], LOC[o], F[f] ) );
    }

    x.phase( "long fields and many rows" );
    {
        auto rows = [&]( int n ) { str g = "[ADDRESS]\n@R\n[R]\n"; for ( int i = 0; i < n; ++i ) g += str( "WORD -> " ) + ( i % 2 ? "CITY" : "STREET" ) + " -> 0." + std::to_string( 100 + i * 7 % 800 ) + "\n"; return g; };
        for ( int n : { 10, 17, 33, 50, 65, 100, 129, 200, 257 } ) {
            alone( x, use( "as_match", "main", rows( n ), L[0] ) );
            str w( n, 'w' ), u, t;
            for ( int i = 0; i < n; ++i ) { u += "\xC3\xA9"; t += "a" + std::to_string( i ) + " "; }
            const str &any = ANY;
            str many( n < 40 ? n : 0, ',' ); boost::algorithm::replace_all( many, ",", "main, " );
            if ( many.size() ) for ( auto &f : vs{ "as_standardize", "as_parse", "as_match" } ) { alone( x, use( f, many, any, L[0] ) ); alone( x, use( f, many + "main st", any, L[1] ) ); }
            for ( auto &a : vs{ w, u, w + " " + u, "st " + w, u + " st " + w } ) for ( auto &f : vs{ "as_standardize", "as_parse", "as_match" } ) alone( x, use( f, a, any, L[0] ) );
            alone( x, use( "as_parse", t, "", L[0] ) );
            for ( str c : { "STREET", "CITY", "BLDNG", "UNITT", "POSTAL", "PROV" } ) alone( x, use( "as_standardize", "12 " + w, "[ADDRESS]\nNUMBER WORD -> HOUSE " + c + " -> 0.5\n", L[0] ) );
            str H2 = H; for ( int i = 0; i < n; ++i ) H2 += "LEXENTRY:\tW" + std::to_string( i ) + "\tX" + w + "\tWORD\t\n";
            alone( x, use( "as_compile_lexicon", "", "", H2 ) );
            alone( x, use( "as_standardize", "w1 w" + std::to_string( n - 1 ), any, H2 ) );
        }
        for ( int n = 1; n <= ( T ? 9 : 7 ); ++n ) { str a; for ( int i = 0; i < n; ++i ) a += "main st "; alone( x, use( "as_parse", a, "", L[0] ) ); if ( n < 6 ) alone( x, use( "as_match", a, ANY, L[0] ) ); }
    }
    x.phase( "texts that cannot be loaded" );
    for ( size_t i = 0; i < adr.size(); i += T ? 1 : 7 ) {
        for ( auto &l : BADL ) { for ( auto &g : G ) alone( x, use( "as_standardize", adr[i], g, l ) ); for ( auto &g : BADG ) alone( x, use( "as_standardize", adr[i], g, l ) ); }
        for ( auto &g : BADG ) for ( auto &l : L ) alone( x, use( "as_standardize", adr[i], g, l ) );
        for ( auto &l : BADL ) { alone( x, use( "as_parse", adr[i], "", l ) ); alone( x, use( "as_match", adr[i], G[0], l ) ); }
        for ( auto &g : BADG ) alone( x, use( "as_match", adr[i], g, L[0] ) );
    }

    x.phase( "compiling" );
    for ( auto &l : L ) alone( x, use( "as_compile_lexicon", "", "", l ) );
    for ( auto &l : BADL ) alone( x, use( "as_compile_lexicon", "", "", l ) );
    vs lines = { H, "LEXENTRY:\tA\tB\tWORD\tDETACH\n", "LEXENTRY:\tC D\tE\tTYPE,WORD\tATT_SUF\n", "\n", "junk\n", "LEXENTRY:\tA\tB\tNOCLASS\tDETACH\n" };
    mc::sequences( lines.size(), 1, T ? 5 : 4, [&]( const std::vector<int> &v ) { str t; for ( int i : v ) t += lines[i]; alone( x, use( "as_compile_lexicon", "", "", t ) ); } );

    x.phase( "every interleaving of calls in progress" );
    Use p1 = use( "as_parse", "12", "", L[0] ), p2 = use( "as_parse", "12 main", "", L[0] ), p3 = use( "as_parse", "main st", "", L[0] ), p0 = use( "as_parse", "", "", L[1] ), pb = use( "as_parse", "12", "", BADL[2] ),
        m1 = use( "as_match", "12 st", G[0], L[0] ), m2 = use( "as_match", "12 main st", G[1], L[0] ), m0 = use( "as_match", "n", G[0], L[0] ), mb = use( "as_match", "12", BADG[2], L[0] ),
        s1 = use( "as_standardize", "12 main st", G[0], L[0] ), s2 = use( "as_standardize", "12 main st", G[0], L[1] ), s3 = use( "as_standardize", "n n", G[1], L[0] ), sb = use( "as_standardize", "12", G[0], BADL[2] ),
        c1 = use( "as_compile_lexicon", "", "", L[1] ), cb = use( "as_compile_lexicon", "", "", BADL[3] );
    std::vector<Use> sets = { p1, p2, p3, p0, pb, m1, m2, m0, mb };
    for ( auto &a : sets ) for ( auto &b : sets ) for ( bool one : { true, false } ) {
        size_t n = want( a ).rows.size() + want( b ).rows.size();
        if ( T or n < ( one ? 10 : 8 ) ) interleavings( x, { { a }, { b } }, one, T or n < 6 );
    }
    for ( auto &a : { p1, m0, p0 } ) for ( auto &b : { p2, mb, pb } ) for ( bool one : { true, false } ) interleavings( x, { { a }, { b }, { s1, s2 } }, one, T );
    for ( auto &a : sets ) for ( auto &b : sets ) if ( a.fn == b.fn ) for ( bool one : { true, false } ) {
        if ( not T and want( a ).rows.size() + want( b ).rows.size() > 4 ) continue;
        interleavings( x, { { a, b }, { s1, sb } }, one, T );
        interleavings( x, { { a, b }, { c1, cb } }, one, T );
        if ( T or want( a ).rows.size() + want( b ).rows.size() < 3 ) interleavings( x, { { a, b }, { b, a } }, one, T );
    }
    for ( bool one : { true, false } ) for ( auto &a : { p1, m0 } ) interleavings( x, { { s1, s2, s3 }, { s3, sb, s1 }, { a } }, one, T );
    if ( T ) for ( auto &a : sets ) for ( auto &b : sets ) for ( auto &c : { p1, m0, pb } ) if ( want( a ).rows.size() + want( b ).rows.size() < 8 ) interleavings( x, { { a }, { b }, { c } }, true, false );
    if ( getenv( "MC_ROWS" ) ) for ( auto &a : sets ) fprintf( stderr, "%s %zu\n", a.fn.c_str(), want( a ).rows.size() );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P24";
    o.level = "model_checking";
    o.rule = "one evaluation per use of a function or per interleaving of the calls of several sites, complete or cut off at every point; states are how far each call in progress is, transitions the calls made on the real code; every row is compared with the library's, column by column as the script declares them, and the library's rows with the model's, and finished calls must have given back every byte";
    o.assumptions = { "the stand-in for the database server (memory contexts, call protocol of set returning functions, tuples, error recovery) behaves as the server does where the extension uses it", "what a set returning function that is never run to its end holds, and what as_parse and as_match do with texts that cannot be loaded, is not decided" };
    return mc::main( argc, argv, o, explore );
}
