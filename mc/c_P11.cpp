// P11: Lexicon::classify against the documented shapes.
#include "real.h"
using namespace rl;

static void one( mc::Ex &x, Lexicon &L, const md::Lex &m, const str &w, InClass::Type d ) {
    x.run( [&]{ return "classify " + show( w ) + " by default " + InClass::asString( d ) + ( m.list.empty() ? " without a lexicon" : " with a lexicon" ); }, [&]{
        Token t; t.text( w );
        L.classify( t, d );
        md::Tok got = tok( t ), want = md::classify( m, w, InClass::asString( d ) );
        if ( not ( got == want ) ) x.eq( md::showToks( { got } ), md::showToks( { want } ), "classification" );
        x.outcome( md::csv( got.cls ) + ( got.inLex ? "L" : "" ) + std::to_string( md::dec( w ).size() ), w.size() > 0 );
    } );
}

static void explore( mc::Ex &x ) {
    md::Lex none, some;
    none.locale = some.locale = "en_US";
    some.insert( { "A", "A", { "SINGLE", "TYPE" }, {} } );
    some.insert( { "A", "B", { "CITY" }, {} } );
    some.insert( { "11", "11", { "ORD" }, {} } );
    some.insert( { "-", "-", { "SPACE" }, {} } );
    some.insert( { "\xC3\x89", "E", { "DIRECT" }, {} } );
    std::unique_ptr<Lexicon> N( load( none ) ), S( load( some ) );
    md::cps full = { 'A', 'z', '1', '9', 0xC9, 0x3B6, 0x4E2D, 0x0665, 0x10400, ' ', '\t', '-', 0x2014, '&', '@', '/', '.', ',', '_', '|', '#', '\'', 0x00BF, 0x0301, '+', 0x20AC, 0xFF11 };
    md::cps core = { 'A', 'b', '1', 0xC9, 0x0665, '/', '.', ',', '-', ' ', '@', '_' };
    md::cps post = { 'A', 'q', '7', '0', 0xC9, 0x0665 };
    x.phase( "every text of up to 2 (3) characters of 27 kinds" );
    const InClass::Type defaults[] = { InClass::WORD, InClass::PUNCT, InClass::BADTOKEN };
    mc::sequences( full.size(), 0, x.thorough ? 3 : 2, [&]( const std::vector<int> &v ) {
        for ( auto d : defaults ) { one( x, *N, none, word( full, v ), d ); one( x, *S, some, word( full, v ), d ); }
    } );
    x.phase( "every text of 3 and 4 (5) characters of 12 kinds" );
    mc::sequences( core.size(), 3, x.thorough ? 5 : 4, [&]( const std::vector<int> &v ) { one( x, *N, none, word( core, v ), v[0] % 2 ? InClass::WORD : InClass::PUNCT ); } );
    x.phase( "every text of 5 and 6 (7) letters and digits" );
    mc::sequences( post.size(), 5, x.thorough ? 7 : 6, [&]( const std::vector<int> &v ) { one( x, *N, none, word( post, v ), InClass::WORD ); } );
    x.phase( "every length of digits, letters, marks and dashes up to 12 (40)" );
    for ( size_t n = 1; n <= ( x.thorough ? 40u : 12u ); ++n ) for ( auto c : full ) {
        one( x, *N, none, md::enc( md::cps( n, c ) ), InClass::WORD );
        for ( auto d : full ) for ( size_t k = 0; k < n; k += n > 3 ? n - 1 : 1 ) {
            if ( n < 5 and not x.thorough ) continue;
            md::cps w( n, c ); w[k] = d;
            one( x, *N, none, md::enc( w ), InClass::PUNCT );
        }
    }
    x.phase( "every length of both sides of a mark up to 70 (200), and of letters and digits mixed" );
    for ( size_t n = 1; n <= ( x.thorough ? 200u : 70u ); ++n ) {
        str d( n, '4' ), l( n, 'K' );
        vs w = { d + "/5", "5/" + d, d + "/" + d, d + ".5", "5." + d, d + ",5", "5," + d, d + "," + d, d + ",", "," + d, d + "/", d + "-" + d, l + "-" + l, d + l, l + d, l + "1" + l, d + "A" + d, d, l, str( n, '-' ), str( n, ' ' ), str( n, '#' ), d + " " + d, l + "'" + l };
        for ( auto &t : w ) one( x, *N, none, t, n % 2 ? InClass::WORD : InClass::PUNCT );
    }
    x.phase( "every number of entries of a word up to 12 (36), with a class each" );
    for ( int n = 1; n <= ( x.thorough ? 36 : 12 ); ++n ) for ( int st : { 1, 5, 11 } ) {
        md::Lex m; m.locale = "en_US";
        for ( int i = 0, k = st; i < n; ++i, k += st ) {
            str c = InClass::asString( InClass::asType( k % 37 ) );
            if ( c != "BADTOKEN" ) m.insert( { "ST", "S" + std::to_string( i ), { c }, {} } );
        }
        if ( m.list.empty() ) continue;
        static std::vector<std::unique_ptr<Lexicon> > hold;
        hold.emplace_back( load( m ) );
        Lexicon *H = hold.back().get();
        x.run( [&]{ return "classify ST with\n" + md::lexText( m.list ); }, [&]{
            Token t; t.text( "ST" );
            H->classify( t, InClass::WORD );
            md::Tok got = tok( t ), want = md::classify( m, "ST", "WORD" );
            if ( not ( got == want ) ) x.eq( md::showToks( { got } ), md::showToks( { want } ), "classification" );
            x.outcome( md::csv( got.cls ) );
        } );
    }
    x.phase( "characters of every category of every block, alone, twice, and beside a letter and a digit" );
    std::map<int,int> seen;
    for ( UChar32 c = 1; c < 0x30000; ++c ) {
        if ( c >= 0xD800 and c < 0xE000 ) continue;
        int g = u_charType( c );
        if ( g == U_UNASSIGNED or g == U_PRIVATE_USE_CHAR or g == U_CONTROL_CHAR or g == U_FORMAT_CHAR or g == U_SURROGATE ) continue;
        if ( g == U_LETTER_NUMBER or g == U_CONNECTOR_PUNCTUATION or g == U_COMBINING_SPACING_MARK or g == U_ENCLOSING_MARK ) continue;
        if ( seen[ g * 4096 + c / 256 ]++ >= ( x.thorough ? 256 : 2 ) ) continue;
        for ( int k = 0; k < ( x.thorough ? 5 : 4 ); ++k ) {
            md::cps s = { c };
            if ( k == 1 ) s = { c, c }; if ( k == 2 ) s = { 'A', c }; if ( k == 3 ) s = { c, '1' }; if ( k == 4 ) s = { '1', c, '1' };
            one( x, k % 2 ? *S : *N, k % 2 ? some : none, md::enc( s ), InClass::WORD );
        }
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P11";
    o.rule = "one evaluation per text, lexicon and default class; text, class set and lexicon flag after classification are compared with the reference shapes; distinct outcomes are distinct class sets by text length";
    o.assumptions = { "valid UTF-8 without control (other than blank and tab) and format characters, letter numbers, other connector punctuation and spacing or enclosing marks" };
    return mc::main( argc, argv, o, explore );
}
