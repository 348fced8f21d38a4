// P14: alternates.
#include "flow.h"
using namespace rl;

static void check( mc::Ex &x, Lexicon &L, const md::Lex &m, const std::vector<Token> &in, str &all, bool &any ) {
    Tokenizer T( L );
    auto got = T.getAltTokens( in );
    auto want = md::alternates( m, toks( in ) );
    vs g, w;
    for ( auto &p : got ) g.push_back( md::showToks( toks( p ) ) );
    for ( auto &p : want ) w.push_back( md::showToks( p ) );
    std::sort( g.begin(), g.end() );
    std::sort( w.begin(), w.end() );
    if ( g != w ) { x.eq( join( g, "\n             " ), join( w, "\n             " ), "alternates of " + md::showToks( toks( in ) ) ); x.require( false, "alternates differ" ); }
    // filters apply to an address, not to the words of a token that is split
    Tokenizer F( L );
    F.filter( types( { "CITY", "QUALIF", "ROAD", "TYPE", "WORD", "NUMBER", "QUAD", "SPACE", "PUNCT", "DASH" } ) );
    auto filtered = F.getAltTokens( in );
    vs f;
    for ( auto &p : filtered ) f.push_back( md::showToks( toks( p ) ) );
    std::sort( f.begin(), f.end() );
    if ( f != w ) { x.eq( join( f, "\n             " ), join( w, "\n             " ), "alternates, with filters set, of " + md::showToks( toks( in ) ) ); x.require( false, "alternates differ" ); }
    if ( g.size() ) any = true;
    all += join( g, "/" );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    md::Lex m; m.locale = "en_US";
    m.insert( { "NEW YORK", "NEW YORK", { "CITY" }, {} } );
    m.insert( { "NEW", "NEW", { "QUALIF" }, {} } );
    m.insert( { "OLD COUNTRY ROAD", "OLD COUNTRY RD", { "ROAD" }, {} } );
    m.insert( { "ROAD", "RD", { "TYPE" }, {} } );
    m.insert( { "A-B C", "ABC", { "WORD" }, {} } );
    m.insert( { "US 1", "US 1", { "ROAD" }, {} } );
    std::unique_ptr<Lexicon> L( load( m ) );

    x.phase( "every phrase of up to 4 (5) tokens over 9 kinds" );
    vs pool = { "ST", "NEW YORK", "OLD COUNTRY ROAD", " ", ",", "US 1", ", -", "12", "A-B C" };
    mc::sequences( pool.size(), 0, T ? 5 : 4, [&]( const std::vector<int> &v ) {
        x.run( [&]{ vs n; for ( int i : v ) n.push_back( show( pool[i] ) ); return "phrase of the tokens " + join( n, " " ); }, [&]{
            std::vector<Token> in;
            for ( int i : v ) { Token t; t.text( pool[i] ); L->classify( t, InClass::WORD ); t.outclass( OutClass::STREET ); in.push_back( t ); }
            str all; bool any = false;
            check( x, *L, m, in, all, any );
            x.outcome( all, any );
        } );
    } );
    x.phase( "texts with blanks in every place" );
    mc::sequences( 3, 1, T ? 7 : 6, [&]( const std::vector<int> &v ) {
        str w; for ( int i : v ) w += "A 1"[i];
        x.run( [&]{ return "phrase of the tokens " + show( w ) + " and " + show( "NEW YORK" ); }, [&]{
            Token a, b; a.text( w ); b.text( "NEW YORK" );
            L->classify( a, InClass::WORD ); L->classify( b, InClass::WORD );
            str all; bool any = false;
            check( x, *L, m, { a }, all, any );
            check( x, *L, m, { a, b }, all, any );
            check( x, *L, m, { b, a }, all, any );
            x.outcome( all, any );
        } );
    } );
    x.phase( "ladder of multi-word tokens" );
    for ( int n = 1; n <= ( T ? 13 : 11 ); ++n ) for ( int gap = 0; gap < 2; ++gap )
        x.run( [&]{ return std::to_string( n ) + " tokens of two words" + ( gap ? " with single words between" : "" ); }, [&]{
            std::vector<Token> in;
            for ( int i = 0; i < n; ++i ) {
                Token t; t.text( "A" + std::to_string( i ) + " B" + std::to_string( i ) ); t.inclass( InClass::ROAD ); in.push_back( t );
                if ( gap ) { Token s; s.text( "S" + std::to_string( i ) ); s.inclass( InClass::TYPE ); in.push_back( s ); }
            }
            str all; bool any = false;
            check( x, *L, m, in, all, any );
            x.outcome( all, any );
        } );
    x.phase( "ladder of words in a token and of tokens around it" );
    for ( int n = 2; n <= ( T ? 90 : 40 ); ++n ) for ( int way = 0; way < 4; ++way )
        x.run( [&]{ return "a token of " + std::to_string( n ) + " words" + ( way & 1 ? " among as many others" : "" ) + ( way & 2 ? ", twice" : "" ); }, [&]{
            std::vector<Token> in;
            Token t, s;
            str w; for ( int i = 0; i < n; ++i ) w += ( i ? " " : "" ) + ( i % 3 ? "W" + std::to_string( i ) : i % 2 ? str( "NEW" ) : std::to_string( i ) );
            t.text( w ); t.inclass( InClass::ROAD );
            s.text( "S" ); s.inclass( InClass::TYPE );
            if ( way & 1 ) for ( int i = 0; i < n; ++i ) in.push_back( s );
            in.push_back( t );
            if ( way & 1 ) for ( int i = 0; i < n / 2; ++i ) in.push_back( s );
            if ( way & 2 ) in.push_back( t );
            str all; bool any = false;
            check( x, *L, m, in, all, any );
            x.outcome( all, any );
        } );
    x.phase( "every address of up to 4 (5) words" );
    vs words = { "new york", "new", "old country road", "5", ",", "a-b c", "us 1" };
    mc::sequences( words.size(), 1, T ? 5 : 3, [&]( const std::vector<int> &v ) {
        str a; for ( size_t i = 0; i < v.size(); ++i ) a += ( i ? " " : "" ) + words[v[i]];
        x.run( [&]{ return "address " + show( a ); }, [&]{
            str all; bool any = false;
            for ( int f = 0; f < 2; ++f ) {
                Tokenizer t( *L );
                if ( f ) t.filter( types( { "PUNCT", "SPACE" } ) );
                auto in = t.getTokens( a );
                auto mt = md::tokens( m, a, f ? std::set<str>{ "PUNCT", "SPACE" } : std::set<str>() );
                if ( not ( toks( in ) == mt ) ) continue;    // not this property
                check( x, *L, m, in, all, any );
            }
            x.outcome( all, any );
        } );
    } );
    x.phase( "the rows of a parse for addresses with many phrases" );
    {
        const str txt = md::lexText( m.list );
        vs ws = { "new york", "us 1", "old country road", "a-b c", "main", "5", "," };
        str msg;
        void *H = ca::lexicon( txt, msg );
        for ( int n = 1; n <= ( T ? 9 : 7 ); ++n ) for ( size_t st = 1; st < ws.size(); ++st ) for ( size_t s = 0; s < ( T ? ws.size() : 2 ); ++s )
            x.run( [&]{ return "parse of " + std::to_string( n ) + " parts from " + ws[s] + " by " + std::to_string( st ); }, [&]{
                str a;
                for ( int i = 0; i < n; ++i ) a += ( i ? " " : "" ) + ws[ ( s + i * st ) % ( i % 3 == 2 ? ws.size() : 4 ) ];
                x.eq( fl::parseText( ca::parse( a, H, "en_US", "PUNCT,SPACE" ) ), fl::parseText( fl::phrases( m, a, "en_US", "PUNCT,SPACE" ) ), "rows of the parse of " + show( a ) );
                x.outcome( a );
            } );
        freeLexiconPtr( H );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P14";
    o.rule = "one evaluation per phrase or address; the alternates, as a multiset of phrases with texts, classes and lexicon flags, must be one per non-empty choice of multi-word tokens; distinct outcomes are distinct non-empty alternate lists";
    return mc::main( argc, argv, o, explore );
}
