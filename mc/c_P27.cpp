// P27: the tools that turn data files into loadable ones.
#include <dirent.h>
#include "real.h"
#include "capi.h"
using namespace rl;

static const str TOOLS = str( REPO ) + "/tools/";
static str scratch;             // a directory of this worker

struct Run { str out; int rc; };
static Run run( const str &tool, const str &args ) {
    Run r;
    str cmd = "cd '" + scratch + "' && perl '" + TOOLS + tool + "' " + args + " 2>err </dev/null";
    FILE *p = popen( cmd.c_str(), "r" );
    char b[4096]; size_t n;
    while ( ( n = fread( b, 1, sizeof b, p ) ) > 0 ) r.out.append( b, n );
    r.rc = pclose( p );
    return r;
}
static void put( const str &name, const str &text ) { std::ofstream f( scratch + "/" + name, std::ios::binary ); f << text; }
static void clear( const str &dir ) {
    if ( DIR *d = opendir( dir.c_str() ) ) {
        while ( struct dirent *e = readdir( d ) ) {
            str n = e->d_name;
            if ( n == "." or n == ".." ) continue;
            str p = dir + "/" + n;
            struct stat st;
            if ( lstat( p.c_str(), &st ) == 0 and S_ISDIR( st.st_mode ) ) { clear( p ); rmdir( p.c_str() ); }
            else unlink( p.c_str() );
        }
        closedir( d );
    }
}

// ------------------------------------------------------------- SQL scripts

typedef std::map<str,str> RowOf;
struct Script { std::vector<vs> stmts; str bad; };      // literals start with a quote
static Script sql( const str &s ) {
    Script r; r.stmts.resize( 1 );
    for ( size_t i = 0; i < s.size(); ) {
        char c = s[i];
        if ( isspace( (unsigned char) c ) ) { ++i; continue; }
        if ( s.compare( i, 2, "--" ) == 0 ) { while ( i < s.size() and s[i] != '\n' ) ++i; continue; }
        if ( c == '\'' ) {
            str t = "'";
            for ( ++i; ; ++i ) {
                if ( i >= s.size() ) { r.bad = "a text is not closed"; return r; }
                if ( s[i] == '\'' ) { if ( i + 1 < s.size() and s[i + 1] == '\'' ) ++i; else break; }
                t += s[i];
            }
            ++i;
            r.stmts.back().push_back( t );
            continue;
        }
        if ( c == ';' ) { if ( r.stmts.back().size() ) r.stmts.push_back( vs() ); ++i; continue; }
        if ( strchr( "(),=", c ) ) { r.stmts.back().push_back( str( 1, c ) ); ++i; continue; }
        str t;
        while ( i < s.size() and not isspace( (unsigned char) s[i] ) and not strchr( "(),=;'", s[i] ) ) t += tolower( s[i++] );
        r.stmts.back().push_back( t );
    }
    if ( r.stmts.back().size() ) r.bad = "the last statement is not closed"; else r.stmts.pop_back();
    return r;
}
struct Loaded { std::vector<RowOf> rows; std::set<str> columns; bool created, dropped, begun, committed, compiled; str bad; };
// what running the script on a database leaves in the table
static Loaded load( const str &text ) {
    Loaded r; r.created = r.dropped = r.begun = r.committed = r.compiled = false;
    Script s = sql( text );
    r.bad = s.bad;
    for ( auto &q : s.stmts ) {
        auto has = [&]( size_t at, const vs &w ) { for ( size_t i = 0; i < w.size(); ++i ) if ( at + i >= q.size() or q[at + i] != w[i] ) return false; return true; };
        if ( q[0] == "set" or q[0] == "analyze" or has( 0, { "create", "index" } ) ) ;
        else if ( q[0] == "begin" ) r.begun = true;
        else if ( q[0] == "commit" ) r.committed = true;
        else if ( has( 0, { "drop", "table" } ) ) { r.dropped = true; r.rows.clear(); }
        else if ( has( 0, { "create", "table", "as_config", "(" } ) ) {
            r.created = true;
            int depth = 1; bool start = true;
            for ( size_t i = 4; i < q.size() and depth; ++i ) {
                if ( q[i] == "(" ) ++depth; else if ( q[i] == ")" ) --depth;
                else if ( q[i] == "," and depth == 1 ) start = true;
                else if ( start ) { r.columns.insert( q[i] ); start = false; }
            }
        }
        else if ( has( 0, { "insert", "into", "as_config", "(" } ) ) {
            vs cols; size_t i = 4;
            for ( ; i < q.size() and q[i] != ")"; ++i ) if ( q[i] != "," ) cols.push_back( q[i] );
            if ( not has( i + 1, { "values", "(" } ) ) { r.bad = "an insert without values"; break; }
            vs vals;
            for ( i += 3; i < q.size() and q[i] != ")"; ++i ) if ( q[i] != "," ) vals.push_back( q[i] );
            if ( i + 1 != q.size() or cols.size() != vals.size() ) { r.bad = "an insert of " + std::to_string( vals.size() ) + " values into " + std::to_string( cols.size() ) + " columns"; break; }
            RowOf row;
            for ( size_t k = 0; k < cols.size(); ++k ) {
                if ( vals[k][0] != '\'' ) { r.bad = "a value that is not a text: " + vals[k]; break; }
                row[cols[k]] = vals[k].substr( 1 );
                if ( r.created and not r.columns.count( cols[k] ) ) r.bad = "column " + cols[k] + " was not created";
            }
            if ( r.compiled ) r.bad = "a row is inserted after the lexicons were compiled";
            r.rows.push_back( row );
        }
        else if ( has( 0, { "update", "as_config", "set", "clexicon", "=", "as_compile_lexicon", "(", "lexicon", ")" } ) and q.size() == 9 ) r.compiled = true;
        else { r.bad = "unknown statement " + mc::join( q, " " ).substr( 0, 200 ); break; }
    }
    return r;
}

struct Country { str name, lex, gmr, code; bool hasG; };
static void loadTool( mc::Ex &x, const std::vector<Country> &cs, const str &dir, bool create, const str &dataset ) {
    Run r = run( "load-lex-gmr-files", str( create ? "-c " : "" ) + dataset + " '" + dir + "' out.sql" );
    x.require( r.rc == 0, "load-lex-gmr-files fails: " + mc::slurp( scratch + "/err" ) );
    str text = mc::slurp( scratch + "/out.sql" );
    Loaded l = load( text );
    x.require( l.bad.empty(), "the script does not run: " + l.bad + "\n" + text.substr( 0, 1500 ) );
    std::multiset<str> got, want;
    for ( auto &w : l.rows ) { str o; for ( auto &c : w ) o += c.first + "=" + show( c.second ) + "\n"; got.insert( o ); }
    for ( auto &c : cs ) if ( c.hasG ) {
        RowOf w; w["countrycode"] = c.code; w["countryname"] = c.name; w["dataset"] = dataset; w["lexicon"] = c.lex; w["grammar"] = c.gmr; w["filter"] = "PUNCT,SPACE,DASH";
        str o; for ( auto &k : w ) o += k.first + "=" + show( k.second ) + "\n"; want.insert( o );
    }
    str g, w;
    for ( auto &o : got ) g += o; for ( auto &o : want ) w += o;
    x.eq( g, w, "rows of the script" );
    bool tables = create and cs.size();
    x.require( l.created == tables and l.dropped == tables, "the table is created exactly when asked for" );
    x.require( l.begun and l.committed and l.compiled, "the script begins, compiles the lexicons and commits" );
    x.outcome( std::to_string( l.rows.size() ) + " rows " + g, l.rows.size() > 0 );
}

// ------------------------------------------------------------ rules of PAGC

static const char *IN[] = { "NUMBER", "WORD", "TYPE", "QUALIF", 0, 0, "ROAD", "STOPWORD", "RR", "DASH", "CITY", "PROV", "NATION", "AMPERS", "BOXH", "ORD", "UNITH", "UNITT", "SINGLE", "BUILDH", "MILE", "DOUBLE", "DIRECT", "MIXED", "BUILDT", "FRACT", "PCT", "PCH", "QUINT", "QUAD" };
static const char *OUT[] = { "BLDNG", "HOUSE", "PREDIR", "QUALIF", "PRETYP", "STREET", "SUFTYP", "SUFDIR", "RR", "EXTRA", "CITY", "PROV", "NATION", "POSTAL", "BOXH", "BOXT", "UNITH", "UNITT" };
static const char *SECT[] = { "MACRO", "MICRO", "ARC", "HOUSE", "BUILDING" };
struct PR { std::vector<int> in, out; int type, rank; bool bad; str raw; };
static str line( const PR &r ) {
    if ( r.raw.size() ) return r.raw;
    str o;
    for ( int i : r.in ) o += std::to_string( i ) + " ";
    o += "-1 ";
    for ( int i : r.out ) o += std::to_string( i ) + " ";
    return o + "-1 " + std::to_string( r.type ) + " " + std::to_string( r.rank );
}
static std::map<str,std::multiset<str> > sections( const str &text ) {      // of a grammar without its meta section
    std::map<str,std::multiset<str> > r;
    str l, cur; std::istringstream i( text );
    while ( std::getline( i, l ) ) {
        if ( l.empty() or l[0] == '#' ) continue;
        if ( l[0] == '[' ) { cur = l.substr( 1, l.find( ']' ) - 1 ); continue; }
        if ( cur == "ADDRESS" ) continue;
        std::istringstream w( l ); str t, o; double sc = 0;
        while ( w >> t ) { if ( t == "->" ) { o += "-> "; } else { char *e; sc = strtod( t.c_str(), &e ); if ( *e ) o += t + " "; else o += mc::num( sc ) + " "; } }
        r[cur].insert( o );
    }
    return r;
}
static str text( const std::map<str,std::multiset<str> > &m ) { str o; for ( auto &s : m ) { if ( s.second.empty() ) continue; o += "[" + s.first + "]\n"; for ( auto &l : s.second ) o += l + "\n"; } return o; }
static void rulesTool( mc::Ex &x, const std::vector<PR> &rs, const std::vector<PR> &rs2 ) {
    std::map<str,std::multiset<str> > want;
    str f1, f2;
    bool anyBad = false;
    for ( int k = 0; k < 2; ++k ) for ( auto &r : k ? rs2 : rs ) {
        ( k ? f2 : f1 ) += line( r ) + "\n";
        if ( r.bad ) { anyBad = anyBad or r.raw.empty(); continue; }
        str o;
        for ( int i : r.in ) o += str( IN[i] ) + " "; o += "-> ";
        for ( int i : r.out ) o += str( OUT[i] ) + " "; o += "-> " + mc::num( r.rank / 20.0 ) + " ";
        want[SECT[r.type]].insert( o );
    }
    put( "r1.txt", f1 ); put( "r2.txt", f2 );
    Run r = run( "convert-pagc-rules", rs2.empty() ? "r1.txt" : "r1.txt r2.txt" );
    x.require( r.rc == 0, "convert-pagc-rules fails: " + mc::slurp( scratch + "/err" ) );
    x.eq( text( sections( r.out ) ), text( want ), "rules of the converted grammar" );
    if ( anyBad ) x.require( mc::slurp( scratch + "/err" ).find( "ERROR" ) != str::npos, "a bad rule is not reported" );
    if ( want.size() == 5 ) {       // the root refers to all five
    str m; void *g = ca::grammar( r.out, m );
    x.require( g != 0, "the converted grammar is rejected: " + m + "\n" + r.out );
    freeGrammarPtr( g );
    }
    x.outcome( r.out, want.size() > 0 );
}

// ---------------------------------------------------------- lexicons of PAGC

struct PE { str word, std; int type; bool raw; };
static str field( const str &l, int k ) { str o; for ( char c : l ) { if ( c == '\t' ) --k; else if ( k == 0 ) o += c; } return o; }
static std::map<str,std::set<str> > entries( const str &text, str &bad ) {
    std::map<str,std::set<str> > r;
    str l; std::istringstream i( text ); bool head = false;
    while ( std::getline( i, l ) ) {
        if ( l.empty() or l[0] == '#' ) continue;
        if ( field( l, 0 ) == "LEXICON:" and not head ) { head = true; continue; }
        if ( not head or field( l, 0 ) != "LEXENTRY:" ) { bad = l; continue; }
        str k = field( l, 1 ) + "|" + field( l, 2 );
        auto c = md::parseCsv( field( l, 3 ) );
        r[k].insert( c.begin(), c.end() );
    }
    if ( not head ) bad = "no header";
    return r;
}
static void lexTool( mc::Ex &x, const std::vector<PE> &es, bool two ) {
    std::map<str,std::set<str> > want;
    str f1 = "COPY lex FROM stdin;\n", f2; size_t n = 0;
    for ( auto &e : es ) {
        ( two and ++n > es.size() / 2 ? f2 : f1 ) += std::to_string( n ) + "\t" + e.word + "\t" + std::to_string( e.type ) + "\t" + e.std + "\n";
        want[e.word + "|" + e.std].insert( IN[e.type] );
    }
    put( "l1.sql", f1 ); put( "l2.sql", f2 + "\\.\n" );
    Run r = run( "convert-pagc-lex-gaz", "l1.sql l2.sql" );
    x.require( r.rc == 0, "convert-pagc-lex-gaz fails: " + mc::slurp( scratch + "/err" ) );
    str bad, g, w;
    auto got = entries( r.out, bad );
    x.require( bad.empty(), "the converted lexicon has a line that is not an entry: " + bad );
    for ( auto &e : got ) { g += e.first + ":"; for ( auto &c : e.second ) g += " " + c; g += "\n"; }
    for ( auto &e : want ) { w += e.first + ":"; for ( auto &c : e.second ) w += " " + c; w += "\n"; }
    x.eq( g, w, "entries of the converted lexicon" );
    str m; void *l = ca::lexicon( r.out, m );
    x.require( l != 0, "the converted lexicon is rejected: " + m );
    freeLexiconPtr( l );
    x.outcome( g, es.size() > 0 );
}

// ------------------------------------------------------- comparing lexicons

static void compareTool( mc::Ex &x, const vs &a, const vs &b, bool comments ) {
    auto file = [&]( const vs &v ) {
        str o = comments ? "# a lexicon\n\nLEXICON:\tT\tENG\ten_US\t\n" : "LEXICON:\tT\tENG\ten_US\t\n";
        for ( auto &w : v ) { o += "LEXENTRY:\t" + w + "\t" + w + "X\tWORD\t\n"; if ( comments ) o += "# LEXENTRY:\tZ\n\n"; }
        return o;
    };
    put( "a.lex", file( a ) ); put( "b.lex", file( b ) );
    Run r = run( "compare-lexicon", "a.lex b.lex" );
    x.require( r.rc == 0, "compare-lexicon fails: " + mc::slurp( scratch + "/err" ) );
    str want;
    for ( auto &w : b ) if ( std::find( a.begin(), a.end(), w ) == a.end() ) want += "LEXENTRY:\t" + w + "\t" + w + "X\tWORD\t\n";
    x.eq( show( r.out ), show( want ), "entries reported" );
    x.outcome( r.out, want.size() > 0 );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    scratch = x.outPrefix + ".tools";
    mkdir( scratch.c_str(), 0755 );
    clear( scratch );

    x.phase( "load scripts: every lexicon and grammar text of up to N lines" );
    const vs LL = { "LEXENTRY:\tO'HARE\tO''HARE\tWORD\t", "LEXENTRY:\tA\\B\tC\\'\tTYPE\t", "# $lex @x -- \"q\"; '", "LEXENTRY:\tD\xC3\x89\tRUE\tTYPE\t", "", "LEXENTRY:\t%s\t');drop\tWORD\t" };
    const vs GL = { "[ADDRESS]", "@A", "# 'x'", "WORD -> STREET -> 0.5", "" };
    const std::vector<std::pair<str,str> > LOC = { { "en_US", "us" }, { "de_AT", "at" }, { "FR_fr", "fr" } };
    auto body = []( const vs &lines, const std::vector<int> &v, bool nl ) { str o; for ( size_t i = 0; i < v.size(); ++i ) o += lines[v[i]] + ( i + 1 < v.size() or nl ? "\n" : "" ); return o; };
    int n = 0;
    auto one = [&]( const std::vector<Country> &cs, bool create, const str &sub ) {
        x.run( [&]{ str o = create ? "with -c\n" : ""; for ( auto &c : cs ) o += c.name + ".lex\n" + c.lex + ( c.hasG ? "\n" + c.name + ".gmr\n" + c.gmr : "" ) + "\n"; return o; }, [&]{
            clear( scratch );
            str d = scratch + "/d" + sub;
            mkdir( ( scratch + "/d" ).c_str(), 0755 );
            mkdir( d.c_str(), 0755 );
            for ( auto &c : cs ) { put( "d" + sub + "/" + c.name + ".lex", c.lex ); if ( c.hasG ) put( "d" + sub + "/" + c.name + ".gmr", c.gmr ); }
            put( "d/other.txt", "x" ); put( "d/lonely.gmr", "[ADDRESS]\n" );
            loadTool( x, cs, "d", create, "set1" );
        } );
    };
    mc::sequences( LL.size(), 0, T ? 4 : 2, [&]( const std::vector<int> &v ) {
        for ( int nl = 0; nl < 2; ++nl ) {
            ++n;
            auto &lo = LOC[n % 3];
            std::vector<int> gv; for ( int i : v ) gv.push_back( ( i + n ) % GL.size() );
            one( { { "alpha", "LEXICON:\tX\tENG\t" + lo.first + "\t\n" + body( LL, v, nl ), body( GL, gv, n % 3 ), lo.second, true } }, n % 2, n % 5 == 0 ? "/deep" : "" );
        }
    } );
    for ( int a = 0; a < 3; ++a ) for ( int b = 0; b < 3; ++b ) for ( int g = 0; g < 4; ++g ) for ( int c = 0; c < 2; ++c )
        one( { { "alpha", "LEXICON:\tX\tENG\t" + LOC[a].first + "\t\n" + LL[a] + "\n", "g1", LOC[a].second, ( g & 1 ) != 0 }, { "new_beta", "LEXICON:\tY\tENG\t" + LOC[b].first + "\t\n" + LL[b + 3], "it's\n", LOC[b].second, ( g & 2 ) != 0 } }, c, "" );
    one( {}, true, "" );
    one( {}, false, "" );
    x.phase( "the load script of the shipped files" );
    for ( int c = 0; c < 2; ++c ) x.run( [&]{ return str( "data/sample" ) + ( c ? " with -c" : "" ); }, [&]{
        clear( scratch );
        str dir = str( REPO ) + "/data/sample";
        std::vector<Country> cs;
        if ( DIR *d = opendir( dir.c_str() ) ) {
            while ( struct dirent *e = readdir( d ) ) {
                str f = e->d_name;
                if ( not md::endsWith( f, ".lex" ) ) continue;
                Country k; k.name = f.substr( 0, f.size() - 4 ); k.lex = mc::slurp( dir + "/" + f ); k.gmr = mc::slurp( dir + "/" + k.name + ".gmr" ); k.hasG = k.gmr.size() > 0;
                size_t h = k.lex.find( "LEXICON:\t" );
                str head = k.lex.substr( h, k.lex.find( '\n', h ) - h );
                str loc = field( head, 3 );
                for ( char ch : loc.substr( loc.find( '_' ) + 1 ) ) k.code += tolower( ch );
                cs.push_back( k );
            }
            closedir( d );
        }
        x.require( cs.size() > 10, "the sample files are not there" );
        loadTool( x, cs, dir, c, "sample" );
    } );

    x.phase( "rule files of PAGC: every class, type and rank" );
    auto rules = [&]( const std::vector<PR> &a, const std::vector<PR> &b ) {
        x.run( [&]{ str o; for ( auto &r : a ) o += line( r ) + "\n"; o += "second file\n"; for ( auto &r : b ) o += line( r ) + "\n"; return o; }, [&]{ clear( scratch ); rulesTool( x, a, b ); } );
    };
    auto pr = []( const std::vector<int> &i, const std::vector<int> &o, int t, int k, bool bad = false ) { PR r; r.in = i; r.out = o; r.type = t; r.rank = k; r.bad = bad; return r; };
    for ( int i = 0; i < 30; ++i ) if ( IN[i] ) for ( int t = 0; t < 5; ++t ) { rules( { pr( { i }, { ( i * 5 + t ) % 18 }, t, ( i * 7 + t ) % 21 ) }, {} ); if ( T ) for ( int o = 0; o < 18; ++o ) rules( { pr( { i, 1 }, { o, 5 }, t, ( i + o ) % 21 ) }, {} ); }
    for ( int o = 0; o < 18; ++o ) for ( int k = 0; k < 21; k += T ? 1 : 5 ) rules( { pr( { 0, 1, 2 }, { 1, o, 6 }, o % 5, k ) }, {} );
    x.phase( "rule files of PAGC: every file of up to N lines" );
    std::vector<PR> pool = { pr( { 0 }, { 1 }, 3, 10 ), pr( { 1, 2 }, { 5, 6 }, 2, 17 ), pr( { 1, 1, 1 }, { 5, 5, 5 }, 2, 3 ), pr( { 10, 11 }, { 10, 11 }, 0, 16 ), pr( { 1 }, { 5 }, 2, 9 ), pr( { 0, 1 }, { 1 }, 2, 9, true ), pr( { 0 }, { 1 }, 5, 9, true ), pr( { 18 }, { 0 }, 4, 20 ) };
    { PR c; c.bad = true; c.raw = "# comment"; pool.push_back( c ); c.raw = "-1"; pool.push_back( c ); }
    mc::sequences( pool.size(), 1, T ? 4 : 2, [&]( const std::vector<int> &v ) {
        std::vector<PR> a, b;
        for ( size_t i = 0; i < v.size(); ++i ) ( i == 2 or ( i == 1 and ( v[0] + v[1] ) % 3 == 0 ) ? b : a ).push_back( pool[v[i]] );
        if ( v.size() == 4 and v[3] < v[0] ) return;
        rules( a, b );
    } );

    std::vector<PR> base = { pr( { 10, 11 }, { 10, 11 }, 0, 16 ), pr( { 0, 1 }, { 1, 5 }, 1, 9 ), pr( { 1, 2 }, { 5, 6 }, 2, 17 ), pr( { 0 }, { 1 }, 3, 10 ), pr( { 19, 1 }, { 0, 0 }, 4, 10 ) };
    for ( auto &a : pool ) for ( auto &b : pool ) { std::vector<PR> v = { a }; v.insert( v.end(), base.begin(), base.end() ); rules( v, { b } ); rules( { b }, v ); }

    x.phase( "lexicon files of PAGC: every class, every file of up to N lines" );
    auto lex = [&]( const std::vector<PE> &es, bool two ) { x.run( [&]{ str o; for ( auto &e : es ) o += e.word + "\t" + std::to_string( e.type ) + "\t" + e.std + "\n"; return o; }, [&]{ clear( scratch ); lexTool( x, es, two ); } ); };
    const vs WORDS = { "ST", "ST ", "S.T", "C (A)", "N+*", "O'HARE", "A|B", "[X", "50%", "A\\B", "$A" };
    for ( int i = 0; i < 30; ++i ) if ( IN[i] ) for ( auto &w : WORDS ) { if ( w == "ST " ) continue; lex( { { w, w, i } }, false ); lex( { { w, w, i }, { w, w, 1 }, { "ST", w, i } }, i % 2 ); }
    std::vector<PE> ep;
    for ( auto &w : { "ST", "C (A)", "st" } ) for ( auto &s : { "ST", "S.T", "C (A)" } ) for ( int t : { 1, 2 } ) ep.push_back( PE{ w, s, t } );
    mc::sequences( ep.size(), 2, T ? 3 : 2, [&]( const std::vector<int> &v ) { std::vector<PE> es; for ( int i : v ) es.push_back( ep[i] ); lex( es, v[0] % 2 ); } );

    x.phase( "comparing every two word lists" );
    const vs CW = { "ST", "STREET", "st", "A B", "key", "0", "" };
    std::vector<vs> lists;
    mc::sequences( CW.size(), 0, T ? 3 : 2, [&]( const std::vector<int> &v ) { vs l; for ( int i : v ) l.push_back( CW[i] ); lists.push_back( l ); } );
    for ( size_t a = 0; a < lists.size(); ++a ) for ( size_t b = 0; b < lists.size(); ++b ) {
        if ( not T and ( a * 3 + b ) % 4 ) continue;
        if ( T and lists[a].size() + lists[b].size() > 5 ) continue;
        x.run( [&]{ return "a: " + join( lists[a], ";" ) + "  b: " + join( lists[b], ";" ); }, [&]{ compareTool( x, lists[a], lists[b], ( a + b ) % 2 ); } );
    }
    clear( scratch );
    rmdir( scratch.c_str() );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P27";
    o.rule = "one evaluation per set of input files, run through the real tool and its output compared with what was put in; distinct outcomes are distinct outputs";
    return mc::main( argc, argv, o, explore );
}
