// P12: attached affixes and letter-digit mixes.
#include "real.h"
using namespace rl;

static void lexicon( mc::Ex &x, const md::Lex &m, const std::vector<str> &words, const str &space ) {
    x.run( [&]{ return md::lexText( m.list ) + std::to_string( words.size() ) + " words: " + space; }, [&]{
        std::unique_ptr<Lexicon> L( load( m ) );
        str all; bool any = false;
        for ( auto &w : words ) {
            auto got = tokenize( *L, w ), want = md::tokens( m, w );
            if ( not ( got == want ) ) x.eq( md::showToks( got ), md::showToks( want ), "the pieces of " + show( w ) );
            str joined;
            for ( auto &t : got ) joined += t.text;
            x.eq( joined, md::upper( w, m.locale ), "the pieces of " + show( w ) + " joined" );
            if ( got.size() > 1 ) any = true;
            all += texts( got ) + "/";
        }
        x.outcome( all, any );
    } );
}

// the splitter called by itself for a classified word
static void direct( mc::Ex &x, const md::Lex &m, const std::vector<str> &words ) {
    x.run( [&]{ return md::lexText( m.list ) + std::to_string( words.size() ) + " words split directly"; }, [&]{
        std::unique_ptr<Lexicon> L( load( m ) );
        Tokenizer T( *L );
        str all;
        for ( auto &w : words ) {
            if ( m.has( w ) ) continue;
            Token t; t.text( w );
            L->classify( t, InClass::WORD );
            auto got = toks( T.splitToken( t ) );
            md::Tok c = md::classify( m, w, "WORD" );
            vs want = md::pieces( m, c );
            if ( want.size() == 1 and got.empty() ) continue;
            std::vector<md::Tok> wt;
            for ( auto &p : want ) wt.push_back( md::classify( m, p, "WORD" ) );
            if ( not ( got == wt ) ) x.eq( md::showToks( got ), md::showToks( wt ), "the pieces of " + show( w ) );
            all += texts( got ) + "/";
        }
        x.outcome( all );
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    auto all = []( const md::cps &a, int lo, int hi ) { std::vector<str> r; mc::sequences( a.size(), lo, hi, [&]( const std::vector<int> &v ) { r.push_back( word( a, v ) ); } ); return r; };
    const std::set<str> flags[] = { {}, { "ATT_PRE" }, { "ATT_SUF" }, { "ATT_PRE", "ATT_SUF" }, { "DET_PRE", "DET_SUF" }, { "ATT_SUF", "DET_PRE" } };
    auto pool = [&]( const str &name, const vs &words, int options, const std::vector<str> &texts, const str &space ) {
        x.phase( name );
        mc::sequences( options + 1, words.size(), words.size(), [&]( const std::vector<int> &v ) {
            md::Lex m; m.locale = "en_US";
            static const char *cl[] = { "TYPE", "DIRECT", "ROAD", "CITY", "BUILDH" };
            for ( size_t i = 0; i < v.size(); ++i ) if ( v[i] ) m.insert( { words[i], "S" + words[i], { cl[i % 5] }, flags[v[i]-1] } );
            lexicon( x, m, texts, space );
            if ( v.size() < 4 ) direct( x, m, texts );
        } );
    };
    pool( "every flag of four nested entries, every word over A and B", { "A", "AB", "BA", "BB" }, T ? 6 : 4, all( { 'A', 'B' }, 1, T ? 8 : 5 ), "every word over A and B of up to 5 (8) letters" );
    pool( "every flag of three entries, every word over three letters", { "A", "BC", "CAB" }, T ? 6 : 4, all( { 'A', 'b', 'C' }, 1, T ? 6 : 4 ), "every word over A, b, C" );
    pool( "letters of more than one byte", { "\xC3\x89", "\xC3\x89\xD0\x96", "\xE4\xB8\xAD" }, T ? 6 : 4, all( { 'A', 0xC9, 0x416, 0x4E2D }, 1, T ? 5 : 3 ), "every word over A, E acute, Zhe and a Han letter" );
    pool( "affixes beside digits and underscores", { "A", "AB", "A1" }, T ? 6 : 3, all( { 'A', 'B', '1', '_' }, 1, T ? 5 : 3 ), "every word over A, B, 1 and underscore" );
    x.phase( "letter and digit mixes" );
    {
        md::Lex m; m.locale = "en_US";
        auto w = all( { 'A', 'b', 0xC9, 0x416, 0x4E2D, '1', '2', 0x0665 }, 1, T ? 5 : 4 );
        m.insert( { "A", "A", { "DIRECT" }, {} } );
        m.insert( { "12", "12", { "ORD" }, {} } );
        for ( size_t i = 0; i < w.size(); i += 64 ) {
            md::Lex e; e.locale = "en_US";
            std::vector<str> part( w.begin() + i, w.begin() + std::min( i + 64, w.size() ) );
            lexicon( x, i % 128 ? m : e, part, "words " + show( part[0] ) + " and following over letters and digits" );
            direct( x, i % 128 ? e : m, part );
        }
    }
    x.phase( "one letter beside every number of digits" );
    {
        md::Lex m; m.locale = "en_US";
        std::vector<str> w;
        for ( int n = 1; n <= 24; ++n ) for ( str l : { "N", "n", "\xC3\x89", "\xE4\xB8\xAD" } ) { str d( n, '7' ); w.push_back( l + d ); w.push_back( d + l ); w.push_back( l + d + l ); w.push_back( l + l + d ); w.push_back( d + l + l ); w.push_back( d + l + d ); }
        lexicon( x, m, w, "one or two letters before, after or within up to 24 digits" );
    }
    x.phase( "words with several entries, attached or not" );
    mc::sequences( T ? 6 : 4, 2, 3, [&]( const std::vector<int> &v ) {
        md::Lex m; m.locale = "en_US";
        static const char *cl[] = { "TYPE", "DIRECT", "ROAD" };
        for ( size_t i = 0; i < v.size(); ++i ) m.insert( { "BA", "S" + std::to_string( i ), { cl[i] }, flags[v[i]] } );
        m.insert( { "AB", "AB", { "CITY" }, flags[v.back()] } );
        auto w = all( { 'A', 'B', 'C' }, 1, 5 );
        lexicon( x, m, w, "every word over A, B, C of up to 5 letters" );
        direct( x, m, w );
    } );
    x.phase( "ladder of affix lengths, word lengths and numbers of affixes" );
    for ( int n = 1; n <= ( T ? 80 : 45 ); ++n ) {
        md::Lex m; m.locale = "en_US";
        str p( n, 'P' ), s( n, 'S' ), e; for ( int i = 0; i < n; ++i ) e += "\xC3\x89";
        m.insert( { p, p, { "QUALIF" }, { "ATT_PRE" } } );
        m.insert( { s, s, { "TYPE" }, { "ATT_SUF" } } );
        m.insert( { e, e, { "TYPE" }, { "ATT_SUF", "ATT_PRE" } } );
        m.insert( { "Q", "Q", { "QUALIF" }, { "ATT_PRE", "ATT_SUF" } } );
        vs w;
        for ( int k : { 1, 2, n, 3 * n } ) {
            str b( k, 'X' );
            for ( auto &t : vs{ p + b, b + s, p + b + s, p + s, e + b, b + e, e + b + e, "Q" + b, b + "Q", "Q" + b + s, p, s, p + p, s + s, p + e, b + p, s + b, b } ) w.push_back( t );
        }
        lexicon( x, m, w, "words of affixes of " + std::to_string( n ) + " letters" );
        direct( x, m, w );
    }
    for ( int n : { 5, 19, 40, 101, 230 } ) for ( int way = 0; way < 4; ++way ) {
        md::Lex m; m.locale = "en_US";
        vs w;
        for ( int i = 0; i < n; ++i ) {
            int k = way & 1 ? n - 1 - i : i;
            str a = str() + char( 'A' + k % 26 ) + char( 'A' + k / 26 % 26 ) + ( k % 3 ? "K" : "ZZ" );
            m.insert( { a, a, { k % 2 ? "TYPE" : "ROAD" }, flags[ way & 2 ? 3 : 1 + k % 2 ] } );
            if ( i % ( n / 15 + 1 ) == 0 or i == n - 1 ) for ( auto &t : vs{ a + "XX", "XX" + a, a + "X" + a } ) w.push_back( t );
        }
        lexicon( x, m, w, "words with one of " + std::to_string( n ) + " affixes" );
        direct( x, m, w );
    }
    x.phase( "words inside an address" );
    {
        md::Lex m; m.locale = "de_DE";
        m.insert( { "STRASSE", "STR", { "TYPE" }, { "ATT_SUF", "DET_SUF" } } );
        m.insert( { "STR", "STR", { "TYPE" }, { "ATT_SUF" } } );
        m.insert( { "ALT", "ALT", { "QUALIF" }, { "ATT_PRE" } } );
        m.insert( { "AM", "AM", { "TYPE" }, { "DET_PRE" } } );
        vs w = { "Hauptstra\xC3\x9F" "e", "ALTSTADT", "altstr", "strasse", "am", "5a", ",", "Altm\xC3\xBChlstr" };
        mc::sequences( w.size(), 1, T ? 4 : 3, [&]( const std::vector<int> &v ) {
            str a; for ( int i : v ) a += w[i] + " ";
            x.run( [&]{ return "address " + show( a ) + " with\n" + md::lexText( m.list, m.locale ); }, [&]{
                std::unique_ptr<Lexicon> L( load( m ) );
                auto got = tokenize( *L, a ), want = md::tokens( m, a );
                if ( not ( got == want ) ) x.eq( md::showToks( got ), md::showToks( want ), "tokens" );
                x.outcome( texts( got ) );
            } );
        } );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P12";
    o.rule = "one evaluation per lexicon, splitting every word of its space; the pieces and their classes must be those of the reference and join to the word; distinct outcomes are distinct vectors of pieces";
    return mc::main( argc, argv, o, explore );
}
