// P10: the longest lexicon phrase at a word start, with its classes.
#include "real.h"
using namespace rl;

static const char *CL[] = { "TYPE", "CITY", "UNITH", "DIRECT", "ROAD", "BOXH", "NATION", "PROV", "STOPWORD", "WORD", "NUMBER", "RR" };

// word k of the pool gets one or two entries with classes of its own
static void add( md::Lex &m, const str &w, int k ) {
    m.insert( { w, w, { CL[ k % 12 ] }, {} } );
    if ( k % 2 ) m.insert( { w, "STD", { CL[ ( k + 5 ) % 12 ], "BUILDH" }, { "DET_SUF" } } );
}

static void lexicon( mc::Ex &x, const md::Lex &m, const std::vector<str> &addr, const str &space ) {
    x.run( [&]{ return md::lexText( m.list ) + std::to_string( addr.size() ) + " addresses: " + space; }, [&]{
        std::unique_ptr<Lexicon> L( load( m ) );
        str all; bool any = false;
        for ( auto &a : addr ) {
            auto got = tokenize( *L, a ), want = md::tokens( m, a );
            if ( texts( got ) != texts( want ) ) x.eq( texts( got ), texts( want ), "tokens of " + show( a ) );
            for ( size_t i = 0; i < got.size(); ++i ) {
                if ( not got[i].inLex and not want[i].inLex ) continue;
                if ( not ( got[i] == want[i] ) ) x.eq( md::showToks( got ), md::showToks( want ), "classes of the lexicon tokens of " + show( a ) );
                any = true;
                all += got[i].text + "|" + md::csv( got[i].cls );
            }
            all += "/";
        }
        x.outcome( all, any );
    } );
}

static void subsets( int n, int k, std::function<void( const std::vector<int> & )> f ) {
    std::vector<int> v;
    std::function<void( int )> rec = [&]( int from ) {
        if ( v.size() ) f( v );
        if ( (int) v.size() == k ) return;
        for ( int i = from; i < n; ++i ) { v.push_back( i ); rec( i + 1 ); v.pop_back(); }
    };
    rec( 0 );
}

static void space( mc::Ex &x, const vs &pool, int k, const md::cps &alpha, int top, const str &name, bool lowerToo = false ) {
    std::vector<str> addr;
    mc::sequences( alpha.size(), 1, top, [&]( const std::vector<int> &v ) { addr.push_back( word( alpha, v ) ); } );
    subsets( pool.size(), k, [&]( const std::vector<int> &s ) {
        md::Lex m; m.locale = "en_US";
        for ( int i : s ) add( m, pool[i], i );
        lexicon( x, m, addr, name );
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    x.phase( "words and phrases that share prefixes" );
    space( x, { "A", "AB", "B", "A B", "A BA", "B A B", "AA", "A A A", "BA A" }, T ? 4 : 2, { 'A', 'B', ' ' }, T ? 7 : 6, "every string over A, B and blank" );
    x.phase( "words with punctuation" );
    space( x, { "A", "A.", "A.B", "A-B", "A - B", "B'A", "A, B", "&", "A & B", "-A" }, T ? 3 : 2, { 'A', 'b', ' ', '-', '.' }, T ? 5 : 4, "every string over A, b, blank, dash and point" );
    space( x, { "A", "B'A", "A, B", "&", "A & B", "B/A", "A&B" }, 2, { 'A', 'B', ' ', '&', ',', '\'', '/' }, T ? 4 : 3, "every string over A, B, blank, ampersand, comma, apostrophe and slash" );
    x.phase( "words of metacharacters" );
    space( x, { "A+", "A*", "(A)", "A?", "[A]", "A|B", "A^", "A$", "{A}", "A\\B", "A.B", "A", "^A", "A{2}", "A+B", "\\A" }, 2, { 'A', 'B', '+', '(', ')', '|', '^' }, T ? 4 : 3, "every string over A, B and + ( ) | ^" );
    space( x, { "A*", "A?", "[A]", "A$", "{A}", "A\\B", "A", "A{2}", "[^A]", "A#", "A~", "A=!" }, T ? 2 : 1, { 'A', 'B', '*', '?', '[', ']', '$', '{', '}', '\\' }, 3, "every string over A, B and * ? [ ] $ { } \\" );
    x.phase( "words with digits and letters of other scripts" );
    space( x, { "1", "1A", "A1", "1ST", "\xC3\x89", "\xC3\x89\x41", "A\xC3\x89 1", "\xE4\xB8\xAD", "\xE4\xB8\xAD\xE4\xB8\xAD", "1 1" }, 2, { 'A', '1', ' ', 0xE9, 0x4E2D }, T ? 5 : 4, "every string over A, 1, blank, e acute and a Han letter" );
    space( x, { "1", "1/1", "1.1", "1,1", "1/1A", "1ST", "11", "A" }, 2, { 'A', '1', '/', '.', ',', ' ' }, T ? 5 : 3, "every string over A, 1, slash, point, comma and blank" );
    x.phase( "ladder of lexicon sizes" );
    vs longs;
    mc::sequences( 3, 1, 5, [&]( const std::vector<int> &v ) {
        str w; for ( int i : v ) w += "AB "[i];
        if ( w[0] != ' ' and w[w.size()-1] != ' ' and w.find( "  " ) == str::npos ) longs.push_back( w );
    } );
    std::vector<str> addr;
    mc::sequences( 3, 5, T ? 8 : 6, [&]( const std::vector<int> &v ) { addr.push_back( word( { 'A', 'B', ' ' }, v ) ); } );
    for ( size_t n = 3; n <= longs.size(); n += T ? 2 : 9 ) for ( size_t st = 1; st < 20; st += T ? 2 : 9 ) {
        md::Lex m; m.locale = "en_US";
        for ( size_t i = 0; i < n; ++i ) add( m, longs[ i * st % longs.size() ], i );
        lexicon( x, m, addr, "every string of 5 to 6 (8) characters over A, B and blank" );
    }
    x.phase( "ladder of word lengths and words in a phrase" );
    for ( int n = 2; n <= ( T ? 70 : 44 ); n += T ? 1 : n < 12 ? 1 : 4 ) for ( int way = 0; way < 4; ++way ) {
        md::Lex m; m.locale = "en_US";
        str unit = way == 0 ? "A" : way == 1 ? "\xC3\x89" : way == 2 ? "A " : "AB-";
        auto rep = [&]( int k ) { str o; for ( int i = 0; i < k; ++i ) o += unit; return unit == "A " ? o.substr( 0, o.size() - 1 ) : o; };
        add( m, rep( n ), 1 ); add( m, rep( n / 2 ), 2 ); add( m, rep( n ) + " B", 3 ); add( m, rep( n - 1 ) + "B", 4 );
        vs ad;
        for ( auto k : { n / 2, n - 1, n, n + 1, 2 * n } ) for ( str b : { "", " B", "B", " B B", " 1" } ) { ad.push_back( rep( k ) + b ); ad.push_back( "5 " + rep( k ) + b + " 5" ); }
        lexicon( x, m, ad, "around words of length " + std::to_string( n ) );
    }
    x.phase( "lexicons of up to 1100 (5000) words" );
    for ( int n : { 40, 60, 110, 300, 600, 1100, 5000 } ) if ( n < 5000 or T ) for ( int way = 0; way < 2; ++way ) {
        md::Lex m; m.locale = "en_US";
        vs ad;
        for ( int i = 0; i < n; ++i ) {
            int k = way ? n - 1 - i : i;
            str w; for ( int q = k + 1; q; q /= 7 ) w += "ABCDEFG"[q % 7];
            if ( k % 5 == 0 ) w += " X";
            m.insert( { w, w, { CL[ k % 12 ] }, {} } );
            if ( k % 7 == 3 ) m.insert( { w, "T", { CL[ ( k + 3 ) % 12 ] }, {} } );
            if ( i % ( n / 24 + 1 ) == 0 or i + 3 > n ) { ad.push_back( w ); ad.push_back( "5 " + w + " Y" ); ad.push_back( w + "Q" ); }
        }
        lexicon( x, m, ad, "words of the lexicon" );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P10";
    o.rule = "one evaluation per lexicon, tokenizing every address of its space; token texts must be those of the longest-match reference and every lexicon token must carry the union of the classes of its entries; distinct outcomes are distinct vectors of recognised lexicon tokens";
    return mc::main( argc, argv, o, explore );
}
