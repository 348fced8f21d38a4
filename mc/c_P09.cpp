// P09: the tokens of an address spell the address.
#include "real.h"
using namespace rl;

struct L { md::Lex m; Lexicon *r; };

static md::cps noBlank( const md::cps &v ) { md::cps o; for ( auto c : v ) if ( not md::isS( c ) ) o.push_back( c ); return o; }

static void one( mc::Ex &x, L &l, const str &a ) {
    x.run( [&]{ return "address " + show( a ) + " with the lexicon\n" + md::lexText( l.m.list, l.m.locale ); }, [&]{
        auto got = tokenize( *l.r, a );
        md::cps want = noBlank( md::dec( md::upper( a, l.m.locale ) ) ), have;
        size_t lead = 0;
        while ( lead < want.size() and want[lead] == md::EM ) ++lead;
        want.erase( want.begin(), want.begin() + lead );
        for ( auto &t : got ) {
            x.require( t.text.size() > 0, "an empty token in " + md::showToks( got ) );
            x.require( t.cls.size() > 0, "a token without a class in " + md::showToks( got ) );
            md::cps c = noBlank( md::dec( t.text ) );
            have.insert( have.end(), c.begin(), c.end() );
        }
        // a dash kept by the tokens may lead as well
        if ( have.size() > want.size() ) want.insert( want.begin(), std::min( lead, have.size() - want.size() ), md::EM );
        md::cps cmp = want;
        if ( have.size() == want.size() )       // 1,5 is read as 1.5
            for ( size_t i = 1; i + 1 < cmp.size(); ++i )
                if ( cmp[i] == ',' and have[i] == '.' and md::isD( cmp[i-1] ) and md::isD( cmp[i+1] ) ) cmp[i] = '.';
        if ( have != cmp ) x.eq( md::enc( have ) + "   from the tokens " + texts( got ), md::enc( want ), "what the tokens spell, without blanks" );
        auto mod = md::tokens( l.m, a );
        x.eq( texts( got ), texts( mod ), "where the address is cut" );
        x.outcome( texts( got ), got.size() > 1 );
    } );
}

static void explore( mc::Ex &x ) {
    std::vector<L> lex( 4 );
    lex[1].m.insert( { "A", "A", { "WORD" }, {} } );
    lex[1].m.insert( { "A A", "A A", { "CITY" }, {} } );
    lex[1].m.insert( { "1A", "1A", { "ORD" }, {} } );
    lex[2].m.insert( { "A", "A", { "TYPE" }, { "ATT_PRE", "ATT_SUF" } } );
    lex[2].m.insert( { "A-A", "A-A", { "WORD" }, {} } );
    lex[2].m.insert( { "A.", "A", { "TYPE" }, { "ATT_SUF" } } );
    lex[3].m.insert( { "\xC3\x89", "E", { "TYPE" }, { "ATT_PRE", "ATT_SUF" } } );
    lex[3].m.insert( { "#", "NUM", { "UNITH" }, {} } );
    lex[3].m.insert( { "&", "AND", { "WORD" }, {} } );
    lex[3].m.insert( { "1/1", "HALF", { "FRACT" }, {} } );
    for ( auto &l : lex ) { l.m.locale = "en_US"; l.r = load( l.m ); }

    //                 A    digit blank  ,    -    .     /    &    tab  e'     Han    emdash sym mark    #    Arabic5 _  @
    md::cps full = { 'A', '1', ' ', ',', '-', '.', '/', '&', '\t', 0xE9, 0x4E2D, 0x2014, '+', 0x0301, '#', 0x0665, '_', '@', '{' };
    md::cps core = { 'A', '1', ' ', ',', '-', 0xC9, 0x2014, '/', '{' };
    x.phase( "every address of up to 3 (4) characters of 19 kinds" );
    for ( auto &l : lex ) mc::sequences( full.size(), 0, x.thorough ? 4 : 3, [&]( const std::vector<int> &v ) { one( x, l, word( full, v ) ); } );
    md::cps space = { 'A', '1', ',', ' ', '\t', '\n', '\v', '\f', '\r', 0xA0, 0x3000, 0x2028, '-' };
    x.phase( "every address of up to 3 (4) characters of 13 kinds, with every kind of blank" );
    for ( size_t i = 1; i < 3; ++i ) mc::sequences( space.size(), 2, x.thorough ? 4 : 3, [&]( const std::vector<int> &v ) { one( x, lex[i], word( space, v ) ); } );
    x.phase( "every address of 4 (5, 6) characters of 9 kinds" );
    for ( auto &l : lex ) mc::sequences( core.size(), 4, x.thorough ? 5 : 4, [&]( const std::vector<int> &v ) { one( x, l, word( core, v ) ); } );
    x.phase( "every pair of a character of every kind and a neighbour" );
    // one character of each general category and a few of each block
    std::map<int,int> seen;
    for ( UChar32 c = 1; c < 0x30000; ++c ) {
        if ( c >= 0xD800 and c < 0xE000 ) continue;
        int g = u_charType( c );
        if ( g == U_UNASSIGNED or g == U_PRIVATE_USE_CHAR or g == U_CONTROL_CHAR or g == U_FORMAT_CHAR or g == U_SURROGATE ) continue;
        if ( g == U_LETTER_NUMBER or g == U_CONNECTOR_PUNCTUATION or g == U_COMBINING_SPACING_MARK or g == U_ENCLOSING_MARK ) continue;
        if ( seen[ g * 4096 + c / ( x.thorough ? 256 : 4096 ) ]++ >= ( x.thorough ? 4 : 2 ) ) continue;
        for ( int k = 0; k < 6; ++k ) {
            md::cps s = { c };
            if ( k == 1 ) s = { 'A', c }; if ( k == 2 ) s = { c, 'A' }; if ( k == 3 ) s = { '1', c, '1' }; if ( k == 4 ) s = { 'A', ' ', c, ' ', 'A' }; if ( k == 5 ) s = { c, c };
            one( x, lex[k%2], md::enc( s ) );
        }
    }
    x.phase( "every length of a run of digits, letters, marks and blanks" );
    for ( int n = 2; n <= 300; n += n < ( x.thorough ? 140 : 45 ) ? 1 : 23 ) {
        auto rep = [&]( const str &s ) { str o; for ( int i = 0; i < n; ++i ) o += s; return o; };
        str d = rep( "7" );
        vs run = { d, rep( "A" ), rep( "AB" ), rep( "\xC3\xA9" ), rep( "\xE4\xB8\xAD" ), d + "/" + d, d + "." + d, d + ",5", "5," + d, rep( "#" ), rep( "," ), rep( ".#" ), rep( "- " ), rep( "1A" ), rep( "A1" ), "A" + d, d + "A", "A" + rep( " " ) + "A", "A" + rep( "-" ) + "A", rep( "1/" ), rep( "1." ) + "1", rep( "&" ), rep( "\xE2\x80\x94" ), rep( "A " ), rep( "5, " ) };
        for ( size_t i = 0; i < run.size(); ++i ) {
            one( x, lex[ ( i + n ) % 4 ], run[i] );
            if ( n < 45 or x.thorough ) one( x, lex[ ( i + n + 1 ) % 4 ], "A 5 " + run[i] + " A" );
        }
    }
    x.phase( "ladder of long addresses" );
    vs part = { "A", "AB", "12", "A1", "A A", ", ", " - ", "\xE2\x80\x94", "\xC3\xA9", "1/1", "..", " " };
    for ( int n = 4; n <= ( x.thorough ? 128 : 100 ); n += n < 24 ? 4 : 38 ) for ( size_t s = 0; s < part.size(); ++s ) for ( size_t st = 1; st < part.size(); ++st ) {
        str a;
        for ( int i = 0; i < n; ++i ) a += part[ ( s + i * st ) % part.size() ];
        one( x, lex[ ( s + st ) % 4 ], a );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P09";
    o.rule = "one evaluation per address and lexicon: the token texts, less blanks, must spell the normalised upper-cased address, and the cuts must be those of the reference tokenizer; distinct outcomes are distinct token sequences of two or more tokens";
    o.assumptions = { "valid UTF-8 without control and format characters, letter numbers, other connector punctuation and spacing or enclosing marks" };
    return mc::main( argc, argv, o, explore );
}
