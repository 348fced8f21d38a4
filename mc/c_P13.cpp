// P13: filters.
#include "flow.h"
using namespace rl;

static std::set<str> names( const std::set<InClass::Type> &s ) { std::set<str> r; for ( auto &c : s ) r.insert( InClass::asString( c ) ); return r; }

static std::vector<md::Tok> keep( const std::vector<md::Tok> &in, const std::set<str> &f ) {
    std::vector<md::Tok> r;
    for ( auto &t : in ) { bool drop = false; for ( auto &c : f ) if ( t.cls.count( c ) ) drop = true; if ( not drop ) r.push_back( t ); }
    return r;
}

static void explore( mc::Ex &x ) {
    md::Lex m; m.locale = "en_US";
    m.insert( { "ST", "STREET", { "TYPE" }, {} } );
    m.insert( { "ST", "SAINT", { "WORD", "STOPWORD" }, {} } );
    m.insert( { "NEW YORK", "NEW YORK", { "CITY", "PROV" }, {} } );
    m.insert( { "#", "#", { "UNITH" }, {} } );
    std::unique_ptr<Lexicon> L( load( m ) );
    vs parts = { "ST", "NEW YORK", "12345", "A", "AB1", " ", ", ", "-", "1/2", "\xE2\x80\x94", "#", "K1A" };

    x.phase( "every subset of 10 classes with every address of up to 2 (3) parts" );
    vs cls = { "PUNCT", "SPACE", "TYPE", "WORD", "STOPWORD", "NUMBER", "QUINT", "SINGLE", "DASH", "CITY" };
    mc::sequences( parts.size(), 1, x.thorough ? 3 : 2, [&]( const std::vector<int> &v ) {
        str a;
        for ( size_t i = 0; i < v.size(); ++i ) a += parts[v[i]] + ( i + 1 < v.size() and v[i] % 3 == 0 ? " " : "" );
        x.run( [&]{ return "address " + show( a ) + " under every filter over " + join( cls, "," ); }, [&]{
            auto all = tokenize( *L, a );
            Tokenizer T( *L );
            std::set<str> seen;
            auto rall = T.getTokens( a );
            for ( int mask = 0; mask < 1024; ++mask ) {
                std::set<str> f;
                for ( int b = 0; b < 10; ++b ) if ( mask >> b & 1 ) f.insert( cls[b] );
                T.filter( types( f ) );
                auto want = keep( all, f );
                auto got = toks( T.applyFilter( rall ) );
                if ( not ( got == want ) ) x.eq( md::showToks( got ), md::showToks( want ), "tokens left by the filter " + md::csv( f ) );
                // the whole tokenizer for small and full sets, the filter alone for all
                if ( mask < 32 or ( mask & ( mask - 1 ) ) == 0 or mask % 97 == 0 ) {
                    got = toks( T.getTokens( a ) );
                    if ( not ( got == want ) ) x.eq( md::showToks( got ), md::showToks( want ), "tokens under the filter " + md::csv( f ) );
                }
                seen.insert( texts( want ) );
            }
            str o;
            for ( auto &s : seen ) o += s + "/";
            x.outcome( o, seen.size() > 1 );
        } );
    } );

    x.phase( "ladder of numbers of tokens" );
    for ( int n : { 5, 9, 17, 34, 70, 140, 300 } ) for ( size_t st = 1; st < parts.size(); ++st ) x.run( [&]{ return "address of " + std::to_string( n ) + " parts, every " + std::to_string( st ) + "th"; }, [&]{
        str a;
        for ( int i = 0; i < n; ++i ) a += parts[ i * st % parts.size() ] + " ";
        auto all = tokenize( *L, a );
        Tokenizer T( *L );
        str o;
        for ( auto f : std::vector<std::set<str> >{ { "SPACE" }, { "PUNCT", "SPACE" }, { "TYPE" }, { "NUMBER", "SINGLE", "WORD" }, { "STOPWORD", "PROV", "DASH", "FRACT", "QUINT", "SPACE", "UNITH" } } ) {
            T.filter( types( f ) );
            auto want = keep( all, f );
            auto got = toks( T.getTokens( a ) );
            if ( not ( got == want ) ) x.eq( md::showToks( got ), md::showToks( want ), "tokens under the filter " + md::csv( f ) );
            o += std::to_string( got.size() ) + "/";
        }
        x.outcome( o );
    } );
    x.phase( "every class by itself as filter and as class of a token" );
    for ( int i = 0; i <= 36; ++i ) for ( int j = 0; j <= 36; ++j ) {
        str a = InClass::asString( InClass::asType( i ) ), b = InClass::asString( InClass::asType( j ) );
        if ( a == "BADTOKEN" or b == "BADTOKEN" ) continue;
        x.run( [&]{ return "filter " + a + " on tokens with the classes " + b; }, [&]{
            Tokenizer T( *L );
            T.filter( types( { a } ) );
            std::vector<Token> v = { token( "X", { b } ), token( "Y", { b, "WORD" } ), token( "Z", { a, b } ), token( "W", {} ) };
            auto got = toks( T.applyFilter( v ) ), want = keep( toks( v ), { a } );
            if ( not ( got == want ) ) x.eq( md::showToks( got ), md::showToks( want ), "tokens left" );
            x.outcome( texts( got ) + a );
        } );
    }

    x.phase( "every sequence of up to 4 (5) filter operations" );
    // add W, add P, remove W, remove P, clear, set {}, set {W,S}, set {P}, tokenize
    str adr = "ST 5, A";
    auto base = tokenize( *L, adr );
    vs op = { "add WORD", "add PUNCT", "remove WORD", "remove PUNCT", "clear", "set {}", "set {WORD,SPACE}", "set {PUNCT}", "tokenize", "remove SPACE" };
    mc::sequences( op.size(), 0, x.thorough ? 5 : 4, [&]( const std::vector<int> &v ) {
        x.run( [&]{ vs n; for ( int i : v ) n.push_back( op[i] ); return "filter operations: " + join( n, "; " ); }, [&]{
            Tokenizer T( *L );
            std::set<str> f;
            for ( int i : v ) {
                switch ( i ) {
                    case 0: T.addFilter( InClass::WORD ); f.insert( "WORD" ); break;
                    case 1: T.addFilter( InClass::PUNCT ); f.insert( "PUNCT" ); break;
                    case 2: T.removeFilter( InClass::WORD ); f.erase( "WORD" ); break;
                    case 3: T.removeFilter( InClass::PUNCT ); f.erase( "PUNCT" ); break;
                    case 4: T.clearFilter(); f.clear(); break;
                    case 5: T.filter( types( {} ) ); f.clear(); break;
                    case 6: T.filter( types( { "WORD", "SPACE" } ) ); f = { "WORD", "SPACE" }; break;
                    case 7: T.filter( types( { "PUNCT" } ) ); f = { "PUNCT" }; break;
                    case 8: if ( v.size() < 4 or v[0] % 3 == 0 ) { auto g = toks( T.getTokens( adr ) ); if ( not ( g == keep( base, f ) ) ) x.eq( md::showToks( g ), md::showToks( keep( base, f ) ), "tokens under " + md::csv( f ) ); } break;
                    case 9: T.removeFilter( InClass::SPACE ); f.erase( "SPACE" ); break;
                }
                x.eq( md::csv( names( T.filter() ) ), md::csv( f ), "classes in the filter" );
                x.transition();
            }
            x.outcome( md::csv( f ), v.size() > 0 );
        } );
    } );
    x.phase( "filters given as text to the address interface" );
    vs five = { "PUNCT", "SPACE", "TYPE", "NUMBER", "CITY" };
    vs adrs = { "12 ST, NEW YORK", "1/2 - ST", "NEW YORK,", "ST", ", ", "" };
    str msg;
    void *H = ca::lexicon( md::lexText( m.list ), msg );
    vs lists;
    for ( int mask = 0; mask < 32; ++mask ) for ( int way = 0; way < 4; ++way ) {
        vs f;
        for ( int b = 0; b < 5; ++b ) if ( mask >> b & 1 ) f.push_back( five[b] );
        if ( way & 1 ) std::reverse( f.begin(), f.end() );
        lists.push_back( join( f, way & 2 ? " , " : "," ) );
        if ( mask and way == 3 ) { f.push_back( f[0] ); lists.push_back( " " + join( f, "," ) + " " ); }
    }
    for ( auto &a : adrs ) for ( auto &f : lists ) x.run( [&]{ return "address " + show( a ) + " with the filter " + show( f ); }, [&]{
        str want = fl::parseText( fl::phrases( m, a, "en_US", boost::algorithm::erase_all_copy( f, " " ) ) ), got = fl::parseText( ca::parse( a, H, "en_US", f ) );
        x.eq( got, want, "rows of the parse" );
        x.outcome( a + "|" + got );
    } );
    freeLexiconPtr( H );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P13";
    o.rule = "one evaluation per address under all 1024 filters, per pair of classes, and per sequence of filter operations; the tokens left must be those of the unfiltered list without a filtered class; distinct outcomes are distinct sets of remaining token lists and filters";
    return mc::main( argc, argv, o, explore );
}
