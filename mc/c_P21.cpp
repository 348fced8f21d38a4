// P21: case and composition of letters.
#include "flow.h"
#include "utils.h"
#include <unicode/uniset.h>
using namespace rl;

static str once( const str &s, const str &loc ) { UErrorCode e = U_ZERO_ERROR; return Utils::upperCaseUTF8( Utils::normalizeUTF8( s, e ), loc ); }
static str norm( const str &s ) { UErrorCode e = U_ZERO_ERROR; return Utils::normalizeUTF8( s, e ); }
static str nfc( const str &s ) {
    UErrorCode e = U_ZERO_ERROR; str o;
    icu::Normalizer2::getNFCInstance( e )->normalize( icu::UnicodeString::fromUTF8( s ), e ).toUTF8String( o );
    return o;
}
static str title( const str &s, const str &loc ) {
    icu::UnicodeString u = icu::UnicodeString::fromUTF8( s );
    u.toTitle( 0, icu::Locale( loc.c_str() ) );
    str o; u.toUTF8String( o ); return o;
}
static str bare( const str &s ) {           // without marks, composed
    str o;
    for ( auto c : md::dec( md::nfd( s ) ) ) if ( not ( U_GET_GC_MASK( c ) & U_GC_M_MASK ) ) o += md::enc( c );
    return nfc( o );
}
static str hex( UChar32 c ) { char b[16]; snprintf( b, sizeof b, "U+%04X", (unsigned) c ); return b; }
static str same( const str &a, const str &b ) { return a == b ? "" : mc::show( a ) + ", expected " + mc::show( b ); }

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    const vs locs = { "en_US", "tr_TR", "de_DE", "el_GR", "lt_LT", "nl_NL", "az", "" };

    x.phase( "every Unicode scalar value" );
    for ( UChar32 lo = 0; lo < 0x110000; lo += 256 ) {
        if ( lo >= 0xD800 and lo < 0xE000 ) continue;
        bool letters = false;       // blocks with anything that has a case or a decomposition
        for ( UChar32 c = lo; c < lo + 256; ++c ) if ( u_tolower( c ) != c or u_toupper( c ) != c or md::nfd( md::enc( c ) ) != md::enc( c ) or u_hasBinaryProperty( c, UCHAR_CHANGES_WHEN_UPPERCASED ) or md::isM( c ) ) letters = true;
        if ( not T and not letters and lo >= 0x20000 and lo % 0x1000 ) continue;
        x.run( [&]{ return hex( lo ) + " to " + hex( lo + 255 ); }, [&]{
            for ( UChar32 c = lo; c < lo + 256; ++c ) {
                str s = md::enc( c ), d = md::nfd( s );
                x.require( norm( s ) == nfc( s ) and norm( d ) == nfc( s ), hex( c ) + " normalised: " + same( norm( d ), nfc( s ) ) );
                x.require( norm( norm( s ) ) == norm( s ), hex( c ) + " normalised twice differs" );
                for ( auto &l : locs ) {
                    if ( not letters and &l != &locs[0] ) break;
                    str w = md::upper( s, l ), u = once( s, l );
                    x.require( u == w, hex( c ) + " in locale " + l + ": " + same( u, w ) );
                    x.require( once( d, l ) == w, hex( c ) + " decomposed in locale " + l + ": " + same( once( d, l ), w ) );
                    x.require( once( u, l ) == u, hex( c ) + " in locale " + l + " twice: " + same( once( u, l ), u ) );
                }
            }
            x.outcome( hex( lo ), letters );
        } );
    }
    x.phase( "every letter with every combining mark, and with two of them" );
    md::cps base, marks;
    for ( UChar32 c = 'A'; c <= 'z'; ++c ) if ( u_isalpha( c ) ) base.push_back( c );
    for ( UChar32 c : { 0xDF, 0xE6, 0xF8, 0x131, 0x130, 0x17F, 0x1C6, 0x1C5, 0x149, 0x390, 0x3B0, 0x3C2, 0x3C3, 0x3B1, 0x3B9, 0x3C5, 0x3C9, 0x399, 0x438, 0x418, 0x456, 0xFB01, 0x1E9E, 0x1FB3, 0x345 } ) base.push_back( c );
    for ( UChar32 c = 0xC0; c < 0x180; ++c ) if ( u_isalpha( c ) ) base.push_back( c );
    for ( UChar32 c = 0x300; c < 0x370; ++c ) marks.push_back( c );
    md::cps few = { 0x300, 0x301, 0x307, 0x308, 0x327, 0x323, 0x345, 0x33A };
    for ( auto b : base ) for ( auto &l : locs ) {
        if ( not T and l != "en_US" and l != "tr_TR" and l != "lt_LT" and l != "el_GR" ) continue;
        x.run( [&]{ return hex( b ) + " with marks in locale " + l; }, [&]{
            auto check = [&]( const md::cps &v ) {
                str s = md::enc( v ), w = md::upper( s, l );
                str u = once( s, l );
                x.require( u == w, "text " + mc::show( s ) + ": " + same( u, w ) );
                x.require( once( u, l ) == u, "text " + mc::show( s ) + " twice: " + same( once( u, l ), u ) );
                x.require( once( md::nfd( s ), l ) == w, "text " + mc::show( s ) + " decomposed: " + same( once( md::nfd( s ), l ), w ) );
                x.require( once( nfc( s ), l ) == w, "text " + mc::show( s ) + " composed: " + same( once( nfc( s ), l ), w ) );
            };
            for ( auto m : marks ) { check( { b, m } ); if ( l == "en_US" or T ) for ( auto k : few ) check( { b, m, k } ); check( { 'x', b, m, 'y' } ); }
            for ( auto m : few ) for ( auto k : few ) for ( auto j : few ) if ( T or l == "en_US" ) check( { b, m, k, j } );
            x.outcome( hex( b ) + l );
        } );
    }
    x.phase( "accents removed from every letter and from letters with marks" );
    for ( UChar32 lo = 0; lo < 0x110000; lo += 256 ) {
        if ( lo >= 0xD800 and lo < 0xE000 ) continue;
        str t; bool some = false;
        for ( UChar32 c = lo; c < lo + 256; ++c ) { str s = md::enc( c ); if ( bare( s ) != s ) some = true; }
        if ( not T and not some and lo > 0x3000 ) continue;
        x.run( [&]{ return "accents removed from " + hex( lo ) + " to " + hex( lo + 255 ); }, [&]{
            // one text per run of characters that cannot join one another
            str t, w;
            for ( UChar32 c = lo; c < lo + 256; ++c ) { t += md::enc( c ) + "|"; w += bare( md::enc( c ) ) + "|"; }
            str got = Utils::unaccentUTF8( t );
            if ( got != w ) for ( UChar32 c = lo; c < lo + 256; ++c ) { str g = Utils::unaccentUTF8( md::enc( c ) ), e = bare( md::enc( c ) ); x.require( g == e, hex( c ) + ": " + same( g, e ) ); }
            x.eq( got, w, "text without accents" );
            x.outcome( "u" + hex( lo ), some );
        } );
    }
    for ( auto b : base ) x.run( [&]{ return "accents removed from " + hex( b ) + " with marks"; }, [&]{
        str t, w;
        for ( auto m : marks ) for ( auto k : few ) { str s = md::enc( md::cps{ b, m, k } ); t += s + "|"; w += bare( s ) + "|"; }
        x.eq( Utils::unaccentUTF8( t ), w, "text without accents" );
        x.eq( Utils::unaccentUTF8( md::nfd( t ) ), w, "decomposed text without accents" );
        x.eq( Utils::unaccentUTF8( w ), w, "text without accents, again" );
        x.outcome( "um" + hex( b ) );
    } );

    x.phase( "long texts: every letter repeated, and runs of letters, at every length up to 140 (300), and at longer ones" );
    std::vector<size_t> lens; for ( size_t n = 1; n <= ( T ? 300 : 140 ); ++n ) lens.push_back( n );
    for ( size_t n : { 199, 200, 201, 254, 255, 256, 257, 299, 300, 399, 400, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2048, 4096 } ) if ( n > lens.back() ) lens.push_back( n );
    for ( size_t n : lens ) for ( auto &l : { str( "en_US" ), str( "tr_TR" ), str( "el_GR" ) } ) x.run( [&]{ return "texts of " + std::to_string( n ) + " letters in locale " + l; }, [&]{
        std::vector<md::cps> texts;
        for ( size_t k = 0; k < 12; ++k ) { md::cps v; for ( size_t i = 0; i < n; ++i ) v.push_back( base[( k * 17 + i ) % base.size()] ); texts.push_back( v ); }
        for ( UChar32 c : { 0x61, 0x69, 0xE9, 0xDF, 0x149, 0x3B1, 0xFB01 } ) {
            texts.push_back( md::cps( n, c ) );
            md::cps v; for ( size_t i = 0; i + 1 < n; i += 2 ) { v.push_back( c ); v.push_back( 0x301 ); } texts.push_back( v );
            v.assign( n, 'x' ); v.back() = c; texts.push_back( v );        // only the last letter
            v.push_back( 0x308 ); texts.push_back( v );
        }
        for ( auto &v : texts ) {
            str s = md::enc( v ), w = md::upper( s, l );
            x.require( norm( s ) == nfc( s ), "normalised " + mc::show( s ) + ": " + same( norm( s ), nfc( s ) ) );
            x.require( norm( md::nfd( s ) ) == nfc( s ), "normalised decomposed " + mc::show( s ) + ": " + same( norm( md::nfd( s ) ), nfc( s ) ) );
            x.require( once( s, l ) == w, "text " + mc::show( s ) + ": " + same( once( s, l ), w ) );
            x.require( once( w, l ) == w, "text " + mc::show( s ) + " twice: " + same( once( w, l ), w ) );
            str b = bare( s ); x.require( Utils::unaccentUTF8( s ) == b, "without accents " + mc::show( s ) + ": " + same( Utils::unaccentUTF8( s ), b ) );
        }
        x.outcome( "long" + std::to_string( n ) + l );
    } );

    x.phase( "every address of up to 3 (4) letters in every variant" );
    md::Lex m;
    vs letters = { "a", "i", "\xC4\xB1", "\xC3\xA9", "\xC3\x9F", "\xCF\x83", "\xCE\xB1\xCC\x81", "\xC3\xB1", "\xC7\x86", "\xEF\xAC\x81" };
    const str G = "[ADDRESS]\n@A\n[A]\nNUMBER TYPE WORD -> HOUSE PRETYP STREET -> 0.75\nNUMBER WORD -> HOUSE STREET -> 0.5\nNUMBER WORD WORD -> HOUSE STREET STREET -> 0.5\nNUMBER TYPE TYPE -> HOUSE PRETYP SUFTYP -> 0.875\n";
    for ( auto &loc : locs ) {
        if ( loc == "az" or loc == "" or loc == "nl_NL" ) continue;
        // the entries of the lexicon in their written form: some in lower case, some decomposed
        std::vector<md::Entry> es = { { "i\xC3\xA9", "IE", { "TYPE" }, {} }, { "\xC4\xB1" "e\xCC\x81", "JE", { "TYPE" }, {} }, { "\xCF\x83\xCE\xAC", "SA", { "TYPE" }, {} }, { "a\xC3\x9F", "ASS", { "TYPE" }, {} }, { "n\xCC\x83", "ENYE", { "TYPE" }, {} } };
        str msg, LT = md::lexText( es, loc );
        void *L = ca::lexicon( LT, msg ), *GH = ca::grammar( G, msg );
        md::Lex ml; ml.locale = loc;
        for ( auto e : es ) { e.word = md::upper( e.word, loc ); ml.insert( e ); }
        mc::sequences( letters.size(), 1, T ? 4 : 3, [&]( const std::vector<int> &v ) {
            if ( not T and v.size() == 3 and ( v[0] > 5 and v[2] > 5 ) ) return;
            str a; for ( int i : v ) a += letters[i];
            x.run( [&]{ return "address \"12 i\xC3\xA9 " + a + "\" in its variants, locale " + loc; }, [&]{
                str full = "12 i\xC3\xA9 " + a, c = md::upper( full, loc );
                std::set<str> vars = { full, c, md::nfd( full ), md::nfd( c ), md::lower( full, loc ), md::lower( c, loc ), title( full, loc ), nfc( full ), title( md::nfd( full ), loc ), md::nfd( title( full, loc ) ) };
                // mixed: every second code point in upper case
                str mix; { int k = 0; for ( auto q : md::dec( full ) ) mix += k++ % 2 ? md::upper( md::enc( q ), loc ) : md::enc( q ); }
                vars.insert( mix );
                str wantP = fl::parseText( fl::phrases( ml, full, loc, "PUNCT,SPACE" ) );
                str rec = ca::text( ca::standardize( c, GH, L, loc ) );
                str all, ref;
                for ( auto &s : vars ) {
                    if ( md::upper( s, loc ) != c ) continue;      // not a spelling of the same text, like a final sigma
                    x.eq( fl::parseText( ca::parse( s, L, loc ) ), wantP, "tokens of " + mc::show( s ) );
                    x.eq( ca::text( ca::standardize( s, GH, L, loc ) ), rec, "record of " + mc::show( s ) );
                    str wr = texts( tokenize( *(Lexicon *) L, s, { "PUNCT", "SPACE" } ) );
                    if ( ref.empty() ) ref = wr;
                    x.eq( wr, ref, "tokens made from " + mc::show( s ) + " directly" );
                    all += s + "|";
                }
                x.outcome( all + rec );
            } );
        } );
        freeLexiconPtr( L ); freeGrammarPtr( GH );
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P21";
    o.rule = "one evaluation per block of 256 code points, per letter with all marks and per address with all its spellings; the values must be ICU's own case mapping and composition; distinct outcomes are distinct blocks, letters and sets of spellings with their records";
    o.assumptions = { "ICU's case mapping and normalisation are right" };
    return mc::main( argc, argv, o, explore );
}
