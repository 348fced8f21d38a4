// P06: a lexicon after any history of edits and queries.
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "real.h"
#include <deque>
using namespace rl;

static std::vector<md::Entry> E;        // the entries that are inserted and removed
static const vs ADR = { "st main", "hauptstrasse 5 st", "stra\xC3\x9F" "e am st. new st", "mainst" };
static const vs TXT = { "ST", "STRASSE", "HAUPT", "NEW ST", "MAIN", "MAINSTRASSE" };
enum { REGEX = 100, PREFIX, SUFFIX, TOKENIZE, COPY, COMPILE, FIND };
static const char *qname( int q ) { static const char *n[] = { "regex", "prefixes", "suffixes", "tokenize", "copy", "save+load", "find+classify" }; return n[q - 100]; }

static str opName( int o ) { return o >= 100 ? qname( o ) : ( o % 2 ? "remove " : "insert " ) + E[o/2].word + "/" + E[o/2].std + "/" + md::csv( E[o/2].type ) + "/" + md::csv( E[o/2].att ); }
static LexEntry real( const md::Entry &e ) { return LexEntry( e.word + "\t" + e.std + "\t" + md::csv( e.type ) + "\t" + md::csv( e.att ) ); }

static str ents( const std::vector<md::Entry> &v ) { str o; for ( auto &e : v ) o += e.word + "|" + e.std + "|" + md::csv( e.type ) + "|" + md::csv( e.att ) + ";"; return o; }
static str dump( const Lexicon &l ) { std::ostringstream o; o << l; return o.str(); }

struct Run {
    std::unique_ptr<Lexicon> L;
    std::unique_ptr<Tokenizer> T;
    md::Lex m;
    Run( const std::vector<int> &start, bool text ) {
        m.locale = "en_US";
        for ( int i : start ) m.insert( E[i] );
        if ( text ) L.reset( rl::load( m ) );
        else { L.reset( new Lexicon( str( "test" ) ) ); L->locale( "en_US" ); L->lang( "ENG" ); for ( int i : start ) L->insert( real( E[i] ) ); }
        T.reset( new Tokenizer( *L ) );
    }
    void step( int o ) {
        if ( o < 100 ) {
            LexEntry e = real( E[o/2] );
            if ( o % 2 ) { L->remove( e ); m.remove( E[o/2] ); } else { L->insert( e ); m.insert( E[o/2] ); }
        }
        else switch ( o ) {
            case REGEX: L->regex(); break;
            case PREFIX: L->regexPrefixAtt(); break;
            case SUFFIX: L->regexSuffixAtt(); break;
            case TOKENIZE: T->getTokens( ADR[1] ); break;
            case COPY: { std::unique_ptr<Lexicon> n( new Lexicon( *L ) ); T.reset( new Tokenizer( *n ) ); L = std::move( n ); break; }
            case COMPILE: {
                std::stringstream s;
                { boost::archive::text_oarchive a( s ); const Lexicon &c = *L; a << c; }
                std::unique_ptr<Lexicon> n( new Lexicon( str( "x" ) ) );
                { boost::archive::text_iarchive a( s ); a >> *n; }
                T.reset( new Tokenizer( *n ) ); L = std::move( n );
                break;
            }
            case FIND: for ( auto &t : TXT ) { L->find( t ); Token k; k.text( t ); L->classify( k, InClass::WORD ); L->standardize( k ); } break;
        }
    }
    // everything a user can see, against the model and a fresh lexicon
    void check( mc::Ex &x, bool full ) {
        str got, want;
        for ( auto &t : TXT ) {
            std::vector<md::Entry> g;
            for ( auto &e : L->find( t ) ) g.push_back( entry( e ) );
            got += ents( g ) + "/"; want += ents( m.find( t ) ) + "/";
        }
        x.eq( got, want, "entries found" );
        for ( auto &t : TXT ) {
            Token k; k.text( t );
            L->classify( k, InClass::WORD );
            md::Tok w = md::classify( m, t, "WORD" );
            if ( not ( tok( k ) == w ) ) x.eq( md::showToks( { tok( k ) } ), md::showToks( { w } ), "classes of " + show( t ) );
        }
        std::unique_ptr<Lexicon> F( rl::load( m ) );
        str a = dump( *L ), b = dump( *F );
        x.eq( a.substr( a.find( "\tENG" ) ), b.substr( b.find( "\tENG" ) ), "the lexicon written out" );
        for ( size_t i = 0; i < ADR.size(); ++i ) {
            if ( not full and i != 1 ) continue;
            auto g = toks( T->getTokens( ADR[i] ) ), w = md::tokens( m, ADR[i] );
            if ( not ( g == w ) ) x.eq( md::showToks( g ), md::showToks( w ), "tokens of " + show( ADR[i] ) );
        }
        x.eq( L->regex(), F->regex(), "expression of all words against that of a fresh lexicon" );
        x.eq( L->regexPrefixAtt(), F->regexPrefixAtt(), "expression of the attachable prefixes" );
        x.eq( L->regexSuffixAtt(), F->regexSuffixAtt(), "expression of the attachable suffixes" );
    }
};

static str hist( const std::vector<int> &start, bool text, const std::vector<int> &h ) {
    str o = text ? "loaded from text:" : "built by insertion:";
    for ( int i : start ) o += " " + E[i].word + "/" + E[i].std;
    for ( int i : h ) o += "; " + opName( i );
    return o;
}

// the words by themselves in insertion order: what the state consists of
static str canon( const md::Lex &m, int caches, bool text ) {
    std::map<str,str> w;
    for ( auto &e : m.list ) w[e.word] += ents( { e } );
    str o;
    for ( auto &e : w ) o += e.second + "#";
    return o + std::to_string( caches ) + ( text ? "t" : "i" );
}
static int cache( int c, int o, bool changed ) {
    if ( changed ) return 0;
    if ( o == REGEX ) return c | 1;
    if ( o == PREFIX ) return c | 2;
    if ( o == SUFFIX ) return c | 4;
    if ( o == TOKENIZE ) return 7;
    return c;
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    E = { { "ST", "STREET", { "TYPE" }, {} }, { "ST", "SAINT", { "TYPE" }, {} }, { "ST", "STREET", { "TYPE" }, { "ATT_SUF" } }, { "STRASSE", "STR", { "TYPE" }, { "ATT_SUF", "DET_SUF" } }, { "HAUPT", "HPT", { "QUALIF" }, { "ATT_PRE" } }, { "NEW ST", "NEW STREET", { "CITY" }, {} }, { "ST", "STREET", { "WORD", "TYPE" }, {} },
        { "HAUPT", "HEAD", { "WORD" }, {} }, { "STRASSE", "ROAD", { "ROAD" }, {} } };    // the last two only in lexicons to start from
    size_t nE = T ? 7 : 6;
    std::vector<int> ops;
    for ( size_t i = 0; i < 2 * nE; ++i ) ops.push_back( i );
    for ( int q : { REGEX, PREFIX, SUFFIX, TOKENIZE, COPY, COMPILE, FIND } ) ops.push_back( q );

    x.phase( "every reachable state and every step from it" );
    struct Node { std::vector<int> h; md::Lex m; int c; bool text; };
    std::deque<Node> q;
    std::set<str> seen;
    for ( int t = 0; t < 2; ++t ) { Node n; n.m.locale = "en_US"; n.c = 0; n.text = t; q.push_back( n ); seen.insert( canon( n.m, 0, t ) ); }
    while ( q.size() ) {
        Node n = q.front(); q.pop_front();
        for ( int o : ops ) {
            md::Lex m = n.m;
            if ( o < 100 ) { if ( o % 2 ) m.remove( E[o/2] ); else m.insert( E[o/2] ); }
            bool changed = m.list.size() != n.m.list.size();
            int c = cache( n.c, o, changed );
            Node k; k.h = n.h; k.h.push_back( o ); k.m = m; k.c = c; k.text = n.text;
            if ( seen.insert( canon( m, c, n.text ) ).second ) q.push_back( k );
        }
        Node s = n;
        x.run( [&]{ return "state " + canon( s.m, s.c, s.text ) + " reached by " + hist( {}, s.text, s.h ) + " and every step from it"; }, [&]{
            {
                Run r( {}, s.text );
                for ( int o : s.h ) r.step( o );
                r.check( x, true );
                x.trace( 1 );
            }
            x.state( canon( s.m, s.c, s.text ) );
            for ( int o : ops ) {
                Run r( {}, s.text );
                for ( int p : s.h ) r.step( p );
                r.step( o );
                try { r.check( x, false ); } catch ( mc::Fail &f ) { f.msg = "after the step " + opName( o ) + ": " + f.msg; throw; }
                x.transition( 1 ); x.trace( 1 );
            }
            x.outcome( ents( s.m.list ) );
        } );
    }
    x.phase( "every history of up to 3 (4) steps, without merging states, from 4 lexicons" );
    std::vector<std::vector<int> > starts = { {}, { 0, 3, 4 }, { 2, 1, 5, 0 }, { 7, 4, 8, 3 } };
    for ( size_t st = 0; st < starts.size(); ++st ) mc::sequences( ops.size(), 1, T ? 4 : 3, [&]( const std::vector<int> &v ) {
        std::vector<int> h;
        for ( int i : v ) h.push_back( ops[i] );
        x.run( [&]{ return hist( starts[st], st != 1, h ); }, [&]{
            Run r( starts[st], st != 1 );
            for ( int o : h ) { r.step( o ); x.transition( 1 ); }
            r.check( x, v.size() < 3 );
            x.trace( 1 );
            x.outcome( ents( r.m.list ) );
        } );
    } );
    x.phase( "every history of 4 (5) steps of two edits, two queries and a copy" );
    std::vector<int> few = { 0, 1, 6, 7, 8, 9, REGEX, SUFFIX, PREFIX, TOKENIZE };
    mc::sequences( few.size(), 4, T ? 5 : 4, [&]( const std::vector<int> &v ) {
        std::vector<int> h;
        for ( int i : v ) h.push_back( few[i] );
        x.run( [&]{ return hist( { 4 }, true, h ); }, [&]{
            Run r( { 4 }, true );
            for ( int o : h ) { r.step( o ); x.transition( 1 ); }
            r.check( x, false );
            x.trace( 1 );
            x.outcome( ents( r.m.list ) );
        } );
    } );
    x.phase( "ladder of entries of a word and of words" );
    // inserts and removes with a check after each, on lexicons that are larger
    for ( int n = 2; n <= ( T ? 36 : 14 ); ++n ) for ( int way = 0; way < 4; ++way )
        x.run( [&]{ return std::to_string( n ) + " entries of the words ST and STRASSE, " + ( way & 1 ? "removed from the last on" : "removed from the first on" ) + ( way & 2 ? ", looked at between" : "" ); }, [&]{
            Run r( { 4 }, way & 1 );
            std::vector<md::Entry> es;
            for ( int i = 0; i < n; ++i ) {
                md::Entry e = { i % 5 == 4 ? "STRASSE" : "ST", "S" + std::to_string( i ), { i % 2 ? "TYPE" : "WORD" }, {} };
                if ( i % 3 == 2 ) e.att.insert( "ATT_SUF" );
                es.push_back( e );
            }
            auto put = [&]( const md::Entry &e ) { r.L->insert( real( e ) ); r.m.insert( e ); };
            auto del = [&]( const md::Entry &e ) { r.L->remove( real( e ) ); r.m.remove( e ); };
            for ( auto &e : es ) { put( e ); if ( way & 2 ) r.check( x, false ); x.transition(); }
            for ( auto &e : es ) put( e );      // no second time
            r.check( x, true );
            for ( int i = 0; i < n; ++i ) { del( es[ way & 1 ? n - 1 - i : ( i * 5 + 2 ) % n ] ); x.transition(); if ( way & 2 or i % 4 == 0 ) r.check( x, false ); }
            r.check( x, true );
            x.trace( 1 );
            x.outcome( ents( r.m.list ) + std::to_string( n * 4 + way ) );
        } );
    for ( int n : { 30, 60, 130, 300, 700 } ) for ( int way = 0; way < 3; ++way )
        x.run( [&]{ return "a lexicon of " + std::to_string( n ) + " words, edited at " + ( way == 0 ? "its begin" : way == 1 ? "its end" : "its middle" ); }, [&]{
            Run r( {}, false );
            auto w = [&]( int i ) { str t; for ( int q = i + 1; q; q /= 5 ) t += "ABSTR"[q % 5]; return t; };
            auto en = [&]( int i ) { md::Entry e = { w( i ), "S", { i % 2 ? "TYPE" : "WORD" }, {} }; if ( i % 7 == 2 ) e.att.insert( "ATT_SUF" ); if ( i % 11 == 2 ) e.att.insert( "ATT_PRE" ); return e; };
            for ( int i = 0; i < n; ++i ) { r.L->insert( real( en( i ) ) ); r.m.insert( en( i ) ); }
            r.check( x, true );
            int at = way == 0 ? 0 : way == 1 ? n - 3 : n / 2;
            for ( int i = at; i < at + 3; ++i ) { r.L->remove( real( en( i ) ) ); r.m.remove( en( i ) ); r.check( x, false ); x.transition(); }
            for ( int i = at; i < at + 3; ++i ) { r.L->insert( real( en( i ) ) ); r.m.insert( en( i ) ); x.transition(); }
            r.check( x, true );
            for ( int i = 0; i < n; i += n / 20 + 1 ) for ( str a : { w( i ), "5 " + w( i ) + " X", w( i ) + "Q" } ) {
                auto g = toks( r.T->getTokens( a ) ), want = md::tokens( r.m, a );
                if ( not ( g == want ) ) x.eq( md::showToks( g ), md::showToks( want ), "tokens of " + show( a ) );
            }
            x.trace( 1 );
            x.outcome( std::to_string( n * 3 + way ) );
        } );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P06";
    o.level = "model_checking";
    o.rule = "states are the entries of every word in order, the expressions cached and the way the lexicon was made; every state reachable by inserting and removing the entries and querying is reached on the real lexicon and every step from it is taken; besides, every history up to a depth is run without merging states";
    o.assumptions = { "six (seven) entries with four words" };
    return mc::main( argc, argv, o, explore );
}
