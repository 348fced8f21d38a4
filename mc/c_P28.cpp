// P28: copies of grammars, searches and lexicons.
#include "grams.h"
using namespace rl;
using namespace gr;

static std::vector<Gram> GR;                    // the grammars that are loaded
static std::vector<std::vector<vs> > PH;        // the phrases that are searched for
static std::vector<str> WANT;                   // what a search in each finds
static std::vector<str> TEXT;                   // what each is written as

static std::vector<Token> phrase( const std::vector<vs> &p ) {
    std::vector<Token> t;
    for ( size_t i = 0; i < p.size(); ++i ) t.push_back( token( "t" + std::to_string( i ), md::classes( p[i].begin(), p[i].end() ) ) );
    return t;
}
static vs sorted( vs v ) { std::sort( v.begin(), v.end() ); return v; }
static str expected( const Gram &g ) {
    str o;
    for ( auto &q : PH ) {
        vs r;
        for ( auto &p : md::patterns( q ) ) for ( auto &d : md::derivations( g, "ADDRESS", p, q.size() ) ) {
            str t;
            for ( auto *u : d ) t += "(" + md::ruleText( *u ) + ")";
            r.push_back( t );
        }
        o += join( sorted( r ), "," ) + ";";
    }
    return o;
}
static str found( Search &s ) {
    str o;
    for ( auto &q : PH ) {
        vs r;
        for ( auto &e : s.search( phrase( q ) ) ) { str t; for ( auto &u : e.rules ) { std::ostringstream w; w << u; t += "(" + w.str() + ")"; } r.push_back( t ); }
        o += join( sorted( r ), "," ) + ";";
    }
    return o;
}
template<class T> static str written( const T &g ) { std::ostringstream o; o << g; return o.str(); }
static Grammar *load( int g ) { std::istringstream in( md::gramText( GR[g] ) ); return new Grammar( in ); }

// what can be done with NG grammars and NS searches
enum Kind { LOAD, GCOPY, GASSIGN, GFREE, SEARCH, SCOPY, SASSIGN, SFREE, USE, RELOCATE };
struct Op { Kind k; int i, j; };
static str name( const Op &o ) {
    static const char *n[] = { "load", "copy grammar", "assign grammar", "destroy grammar", "search of grammar", "copy search", "assign search", "destroy search", "use search", "put grammar into a growing vector" };
    return str( n[o.k] ) + " " + std::to_string( o.i ) + ( o.j >= 0 ? " " + std::to_string( o.j ) : "" );
}
struct World {
    std::unique_ptr<Grammar> G[3];
    std::unique_ptr<Search> S[3];
    std::vector<Grammar> V;
    int g[3], s[3];
    std::vector<int> v;
    World() { for ( int i = 0; i < 3; ++i ) g[i] = s[i] = -1; }
    bool can( const Op &o ) const {
        switch ( o.k ) {
            case LOAD: return true;
            case GCOPY: case SEARCH: case GFREE: return g[o.i] >= 0;
            case GASSIGN: return g[o.i] >= 0 and g[o.j] >= 0;
            case SCOPY: case SFREE: case USE: return s[o.i] >= 0;
            case SASSIGN: return s[o.i] >= 0 and s[o.j] >= 0;
            case RELOCATE: return g[o.i] >= 0 and v.size() < 3;
        }
        return false;
    }
    void model( const Op &o ) {
        switch ( o.k ) {
            case LOAD: g[o.j] = o.i; break;
            case GCOPY: case GASSIGN: g[o.j] = g[o.i]; break;
            case GFREE: g[o.i] = -1; break;
            case SEARCH: s[o.j] = g[o.i]; break;
            case SCOPY: case SASSIGN: s[o.j] = s[o.i]; break;
            case SFREE: s[o.i] = -1; break;
            case RELOCATE: v.push_back( g[o.i] ); break;
            case USE: break;
        }
    }
    void step( const Op &o ) {
        switch ( o.k ) {
            case LOAD: G[o.j].reset( load( o.i ) ); break;
            case GCOPY: G[o.j].reset( new Grammar( *G[o.i] ) ); break;
            case GASSIGN: *G[o.j] = *G[o.i]; break;
            case GFREE: G[o.i].reset(); break;
            case SEARCH: S[o.j].reset( new Search( *G[o.i] ) ); break;
            case SCOPY: S[o.j].reset( new Search( *S[o.i] ) ); break;
            case SASSIGN: *S[o.j] = *S[o.i]; break;
            case SFREE: S[o.i].reset(); break;
            case USE: found( *S[o.i] ); break;
            case RELOCATE: V.push_back( *G[o.i] ); V.shrink_to_fit(); break;
        }
        model( o );
    }
    str canon() const {
        str o;
        for ( int i : g ) o += char( 'A' + i );
        o += '/';
        for ( int i : s ) o += char( 'A' + i );
        o += '/';
        for ( int i : v ) o += char( 'A' + i );
        return o;
    }
    void grammar( mc::Ex &x, const Grammar &a, int w, const str &what ) {
        x.eq( written( a ), TEXT[w], what + " written out" );
        Search t( a );
        x.eq( found( t ), WANT[w], "derivations from " + what );
    }
    void check( mc::Ex &x ) {
        for ( int i = 0; i < 3; ++i ) if ( s[i] >= 0 ) x.eq( found( *S[i] ), WANT[s[i]], "derivations of search " + std::to_string( i ) );
        for ( int i = 0; i < 3; ++i ) if ( g[i] >= 0 ) {
            grammar( x, *G[i], g[i], "grammar " + std::to_string( i ) );
            x.eq( str( G[i]->getMd5() ), md5( md::gramText( GR[g[i]] ).find( '\n' ) == str::npos ? "" : flat( g[i] ) ), "fingerprint of grammar " + std::to_string( i ) );
            x.require( G[i]->status() == Grammar::CHECK_OK and G[i]->issues().empty(), "grammar " + std::to_string( i ) + " has status " + std::to_string( G[i]->status() ) + " " + G[i]->issues() );
        }
        for ( size_t i = 0; i < v.size(); ++i ) grammar( x, V[i], v[i], "grammar " + std::to_string( i ) + " of the vector" );
    }
    static str flat( int w ) { str t; for ( char c : md::gramText( GR[w] ) ) if ( c != '\n' ) t += c; return t; }
};

static void histories( mc::Ex &x, const std::vector<Op> &ops, const std::vector<Op> &start, int depth ) {
    std::vector<Op> h = start;
    std::function<void( World & )> rec = [&]( World &m ) {
        std::vector<Op> s = h;
        if ( (int) ( h.size() - start.size() ) == depth ) {
            x.run( [&]{ str o; for ( auto &e : s ) o += name( e ) + "; "; return o; }, [&]{
                World w;
                for ( auto &o : s ) { w.step( o ); x.transition( 1 ); x.state( w.canon() ); }
                w.check( x );
                x.trace( 1 );
                str o = w.canon(); for ( auto &e : s ) o += "," + std::to_string( e.k );
                x.outcome( o );
            } );
            return;
        }
        for ( auto &o : ops ) if ( m.can( o ) ) {
            World n;
            for ( int i = 0; i < 3; ++i ) n.g[i] = m.g[i], n.s[i] = m.s[i];
            n.v = m.v;
            n.model( o );
            h.push_back( o );
            rec( n );
            h.pop_back();
        }
    };
    World m; for ( auto &o : start ) m.model( o );
    rec( m );
}

// two lexicons that are edited, queried, copied and assigned
static std::vector<md::Entry> EN;
static LexEntry real( const md::Entry &e ) { return LexEntry( e.word + "\t" + e.std + "\t" + md::csv( e.type ) + "\t" + md::csv( e.att ) ); }
static void lexicons( mc::Ex &x, int depth ) {
    const str ADR = "hauptstrasse 5 new st";
    int nE = EN.size(), per = 2 * nE + 4;
    auto opname = [&]( int o ) {
        int i = o / per, k = o % per;
        str w = i ? "second" : "first";
        if ( k < 2 * nE ) return str( k % 2 ? "remove " : "insert " ) + EN[k/2].word + ( k % 2 ? " from " : " into " ) + w;
        static const char *n[] = { "use the ", "copy to the ", "assign to the ", "load anew the " };
        return n[k - 2 * nE] + w;
    };
    mc::sequences( 2 * per, 1, depth, [&]( const std::vector<int> &v ) {
        // the first step is taken with the first lexicon: the other order is the same with names exchanged
        if ( v[0] >= per ) return;
        x.run( [&]{ str o = "two lexicons:"; for ( int i : v ) o += " " + opname( i ) + ";"; return o; }, [&]{
            md::Lex m[2];
            std::unique_ptr<Lexicon> L[2];
            std::vector<md::Entry> base = { EN[0], EN[1] };
            for ( int i = 0; i < 2; ++i ) { m[i].locale = "en_US"; for ( auto &e : base ) m[i].insert( e ); L[i].reset( rl::load( m[i] ) ); }
            for ( int o : v ) {
                int i = o / per, k = o % per;
                if ( k < 2 * nE ) { if ( k % 2 ) { L[i]->remove( real( EN[k/2] ) ); m[i].remove( EN[k/2] ); } else { L[i]->insert( real( EN[k/2] ) ); m[i].insert( EN[k/2] ); } }
                else if ( k == 2 * nE ) tokenize( *L[i], ADR );
                else if ( k == 2 * nE + 1 ) { L[i].reset( new Lexicon( *L[1-i] ) ); m[i] = m[1-i]; }
                else if ( k == 2 * nE + 2 ) { *L[i] = *L[1-i]; m[i] = m[1-i]; }
                else { m[i] = md::Lex(); m[i].locale = "en_US"; for ( auto &e : base ) m[i].insert( e ); L[i].reset( rl::load( m[i] ) ); }
                x.transition( 1 );
            }
            str all;
            for ( int i = 0; i < 2; ++i ) {
                str what = i ? " of the second" : " of the first";
                auto g = toks( Tokenizer( *L[i] ).getTokens( ADR ) ), w = md::tokens( m[i], md::upper( ADR, "en_US" ) );
                if ( not ( g == w ) ) x.eq( md::showToks( g ), md::showToks( w ), "tokens" + what );
                std::unique_ptr<Lexicon> F( rl::load( m[i] ) );
                x.eq( written( *L[i] ), written( *F ), "entries" + what );
                x.eq( L[i]->regexPrefixAtt() + " " + L[i]->regexSuffixAtt(), F->regexPrefixAtt() + " " + F->regexSuffixAtt(), "affixes" + what );
                all += written( *F ) + "|";
            }
            x.trace( 1 );
            x.state( all );
            x.outcome( all + std::to_string( v.size() ) + opname( v.back() ) );
        } );
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    {
        Gram g;
        g.secs = { meta( "ADDRESS", { { "M", "R" }, { "R" } } ), meta( "M", { { "R" }, { "R", "M" } } ), rules( "R", { { A }, { B, A } } ) };
        mark( g ); GR.push_back( g );
        Gram h;
        h.secs = { rules( "Q", { { B } } ), meta( "N", { { "Q", "Q" }, { "P" } } ), meta( "ADDRESS", { { "N" }, { "P", "N" }, { "Q" } } ), rules( "P", { { A, A }, { A } } ), };
        mark( h ); GR.push_back( h );
    }
    PH = { { { A } }, { { B } }, { { A, B }, { A, B } }, { { A }, { B }, { B } }, { { A }, { B }, { A } } };
    for ( auto &g : GR ) {
        WANT.push_back( expected( g ) );
        // written: sections with references first, then those with rules
        std::istringstream in( md::gramText( g ) );
        Grammar r( in );
        TEXT.push_back( written( r ) );
    }

    std::vector<Op> ops;
    for ( int w = 0; w < 2; ++w ) for ( int j = 0; j < 2; ++j ) ops.push_back( { LOAD, w, j } );
    for ( int i = 0; i < 2; ++i ) {
        ops.push_back( { GCOPY, i, 1 - i } ); ops.push_back( { GASSIGN, i, 1 - i } ); ops.push_back( { GFREE, i, -1 } );
        for ( int j = 0; j < 2; ++j ) ops.push_back( { SEARCH, i, j } );
        ops.push_back( { SCOPY, i, 1 - i } ); ops.push_back( { SASSIGN, i, 1 - i } ); ops.push_back( { SFREE, i, -1 } );
        ops.push_back( { RELOCATE, i, -1 } );
    }
    ops.push_back( { GASSIGN, 0, 0 } );
    x.phase( "every history of up to 4 (5) steps with two grammars, two searches and a vector of grammars" );
    // only a load can come first, and which of the two places it fills makes no difference
    for ( int w = 0; w < 2; ++w ) for ( int d = 0; d < ( T ? 5 : 4 ); ++d ) histories( x, ops, { { LOAD, w, 0 } }, d );
    x.phase( "every history of up to 3 (4) steps from two grammars with a search each, the one a copy of the other or not" );
    for ( int d = 1; d <= ( T ? 4 : 3 ); ++d ) {
        histories( x, ops, { { LOAD, 0, 0 }, { LOAD, 1, 1 }, { SEARCH, 0, 0 }, { SEARCH, 1, 1 } }, d );
        histories( x, ops, { { LOAD, 0, 0 }, { GCOPY, 0, 1 }, { SEARCH, 1, 0 }, { SCOPY, 0, 1 } }, d );
        if ( d < ( T ? 4 : 3 ) ) histories( x, ops, { { LOAD, 1, 0 }, { RELOCATE, 0, -1 }, { LOAD, 0, 0 }, { RELOCATE, 0, -1 }, { SEARCH, 0, 0 } }, d );
    }
    x.phase( "every history of up to 3 (4) steps with two lexicons" );
    EN = { { "NEW ST", "NEW STREET", { "CITY" }, {} }, { "STRASSE", "STR", { "TYPE" }, { "ATT_SUF", "DET_SUF" } }, { "HAUPT", "HPT", { "QUALIF" }, { "ATT_PRE" } }, { "ST", "STREET", { "TYPE" }, {} } };
    if ( T ) EN.push_back( { "STRASSE", "ROAD", { "ROAD" }, {} } );
    lexicons( x, T ? 4 : 3 );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P28";
    o.level = "model_checking";
    o.rule = "one evaluation per history of loading, copying, assigning, destroying and searching; at its end every object that is left must answer as what was copied into it; distinct outcomes are distinct contents of the objects with the kinds of steps";
    o.assumptions = { "memory that is read after its release is noticed by the address sanitizer" };
    return mc::main( argc, argv, o, explore );
}
