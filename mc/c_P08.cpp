// P08: compiled lexicons.
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "grams.h"
#include "flow.h"
using namespace rl;

static str save( const Lexicon &l ) { std::ostringstream o; { boost::archive::text_oarchive a( o ); a << l; } return o.str(); }
static void load( Lexicon &l, const str &s ) { std::istringstream i( s ); boost::archive::text_iarchive a( i ); a >> l; }
static str dump( const Lexicon &l ) { std::ostringstream o; o << l; return o.str(); }
// all that can be asked of a lexicon, without its name
static str look( Lexicon &l ) {
    str d = dump( l );
    return d.substr( d.find( '\t', d.find( '\t' ) + 1 ) ) + "regex " + l.regex() + "\nprefix " + l.regexPrefixAtt() + "\nsuffix " + l.regexSuffixAtt() + "\nmd5 " + l.getMd5() + "\n" + l.langAsString() + l.locale();
}
static str tokens( Lexicon &l, const vs &adr ) { str o; for ( auto &a : adr ) o += md::showToks( tokenize( l, a ) ) + "\n"; return o; }

struct V0 { template<class A> void serialize( A &a, const unsigned int ) { std::string s = "query-lex"; a & s; a & s; } };
struct V1 { template<class A> void serialize( A &a, const unsigned int ) { std::string s = "query-lex"; a & s; a & s; } };
BOOST_CLASS_VERSION( V1, 1 )
struct V99 { template<class A> void serialize( A &a, const unsigned int ) { std::string s = "query-lex"; a & s; a & s; } };
BOOST_CLASS_VERSION( V99, 99 )
template<class T> static str old() { std::ostringstream o; { boost::archive::text_oarchive a( o ); T v; const T &c = v; a << c; } return o.str(); }

static const vs ADR = { "12 main st", "St. Main, 5", "hauptstrasse 7 a", "new york new york", "a.b*c (x) c++ c", "\xC3\x89t\xC3\xA9 12-14", "ol\xF0\x90\x90\x80 1,5", "", "the end of the road" };
static const str G1 = "[ADDRESS]\n@A\n@A @ADDRESS\n[A]\nWORD -> STREET -> 0.5\nNUMBER -> HOUSE -> 0.625\nTYPE -> SUFTYP -> 0.75\nCITY -> CITY -> 0.875\nSINGLE -> UNITT -> 0.25\nPUNCT -> EXTRA -> 0.125\nDASH -> IGNORE -> 1\n";

static void lexicon( mc::Ex &x, const str &text ) {
    x.run( [&]{ return "lexicon text\n" + text; }, [&]{
        str msg, all;
        str c = ca::compile( text, msg );
        void *tp; str tm;
        tp = ca::lexicon( text, tm );
        x.require( ( tp != 0 ) == ( c.size() > 0 ) and ( tp != 0 ) == msg.empty(), "loading the text and compiling it do not agree: " + msg + " / " + tm );
        if ( not tp ) { x.eq( msg, tm, "error of compiling" ); x.outcome( "rejected " + msg, true ); return; }
        str c2 = ca::compile( text, msg );
        x.require( c == c2, "compiling again gives another result" );
        str cm; void *cp = ca::lexicon( c, cm );
        x.require( cp != 0, "the compiled lexicon cannot be loaded: " + cm );
        Lexicon &a = *(Lexicon *) tp, &b = *(Lexicon *) cp;
        x.eq( look( b ), look( a ), "the compiled lexicon" );
        x.eq( tokens( b, ADR ), tokens( a, ADR ), "tokens from the compiled lexicon" );
        void *gp = ca::grammar( G1, msg );
        for ( auto &ad : ADR ) {
            x.eq( ca::text( ca::standardize( ad, gp, cp ) ), ca::text( ca::standardize( ad, gp, tp ) ), "record of " + show( ad ) + " (pointers)" );
            str s = ca::text( ca::standardize( ad, G1, text ) ), p = ca::text( ca::parse( ad, text ) ), m = join( fl::matchRows( ca::match( ad, G1, text ) ), "\n" );
            x.eq( ca::text( ca::standardize( ad, G1, c ) ), s, "record of " + show( ad ) );
            x.eq( ca::text( ca::parse( ad, c ) ), p, "rows of " + show( ad ) );
            x.eq( join( fl::matchRows( ca::match( ad, G1, c ) ), "\n" ), m, "listing of " + show( ad ) );
            all += s + p + m;
        }
        x.eq( ca::own( getLexiconMd5( cp ) ), ca::own( getLexiconMd5( tp ) ), "fingerprint of the compiled lexicon" );
        for ( str bad : { "", "[ADDRESS]\nWORD -> -> 1\n" } ) x.eq( ca::text( ca::standardize( "12 main", bad, c ) ), ca::text( ca::standardize( "12 main", bad, text ) ), "error with a bad grammar" );
        freeGrammarPtr( gp ); freeLexiconPtr( tp ); freeLexiconPtr( cp );
        x.outcome( all );
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    std::vector<md::Entry> pool = {
        { "ST", "STREET", { "TYPE" }, {} }, { "ST", "SAINT", { "WORD" }, { "DET_PRE" } }, { "STRASSE", "STR", { "TYPE" }, { "ATT_SUF", "DET_SUF" } }, { "NEW YORK", "NYC", { "CITY", "PROV" }, {} },
        { "A.B*C", "x [y]", { "WORD" }, {} }, { "C++", "{c}^$|", { "TYPE" }, {} }, { "HAUPT", "HPT", { "TYPE" }, { "ATT_PRE" } }, { "\xC3\x89T\xC3\x89", "ETE", { "CITY" }, {} }, { "12", "0012", { "ORD", "NUMBER" }, {} }, { "OL\xF0\x90\x90\x80", "", { "WORD" }, {} } };
    x.phase( "every subset of 10 entries" );
    for ( int m = 0; m < 1024; ++m ) {
        if ( not T and m % 3 and m & ( m - 1 ) ) continue;
        std::vector<md::Entry> l;
        for ( int i = 0; i < 10; ++i ) if ( m >> i & 1 ) l.push_back( pool[i] );
        const char *loc[] = { "en_US", "de_DE", "tr_TR", "" }, *lang[] = { "ENG", "GER", "XXX", "" };
        lexicon( x, md::lexText( l, loc[m % 4], lang[m / 4 % 4] ) );
        if ( m % 8 == 7 ) { str t = md::lexText( l ), u = "\xEF\xBB\xBF"; for ( char c : t ) { if ( c == '\n' ) u += "\r"; u += c; } lexicon( x, u ); }
    }
    x.phase( "every pair of attachment sets and every class" );
    for ( int a = 0; a < 16; ++a ) for ( int b = 0; b < 16; ++b ) {
        const char *n[] = { "ATT_PRE", "ATT_SUF", "DET_PRE", "DET_SUF" };
        md::Entry e = { "STRASSE", "STR", { "TYPE" }, {} }, f = { "HAUPT", "HPT", { "QUALIF" }, {} };
        for ( int k = 0; k < 4; ++k ) { if ( a >> k & 1 ) e.att.insert( n[k] ); if ( b >> k & 1 ) f.att.insert( n[k] ); }
        lexicon( x, md::lexText( { e, f } ) );
    }
    for ( int i = -1; i <= 36; ++i ) { str c = InClass::asString( InClass::asType( i ) ); lexicon( x, md::lexText( { { "ST", "S", { c }, {} }, { "MAIN", "M", { c, "WORD" }, {} } } ) ); }
    x.phase( "texts that are rejected" );
    for ( str s : { "", "x", "LEXENTRY:\tA\tA\tWORD\t\n", "LEXICON:\tx\tENG\ten_US\t0\nA\n", "LEXICON:\tx\tENG\ten_US\t0\nLEXENTRY:\tA\tA\tNIX\t\n", "22", "22 serialization::archive", "LEXICON:" } ) lexicon( x, s );
    x.phase( "words of every length up to 70, many entries" );
    for ( int n = 1; n <= 70; ++n ) lexicon( x, md::lexText( { { str( n, 'A' ), str( 71 - n, 'B' ), { "WORD" }, {} }, { str( n, 'A' ) + " " + str( n, 'B' ), " ", { "CITY" }, {} } } ) );
    for ( int n = 2; n <= ( T ? 200 : 40 ); n += 13 ) { std::vector<md::Entry> l; for ( int i = 0; i < n; ++i ) l.push_back( { "W" + std::to_string( i * i ), "S" + std::to_string( i ), { i % 2 ? "TYPE" : "WORD" }, {} } ); lexicon( x, md::lexText( l ) ); }

    x.phase( "every history of up to 4 (5) of: save and load, copy, query, edit" );
    for ( int which = 0; which < 3; ++which ) mc::sequences( 6, 0, T ? 5 : 4, [&]( const std::vector<int> &v ) {
        md::Lex m; m.locale = which == 1 ? "tr_TR" : "en_US";
        for ( int i = which; i < 10; i += which + 1 ) m.insert( pool[i] );
        x.run( [&]{ str o = "lexicon " + std::to_string( which ) + ":"; const char *n[] = { " save+load", " copy", " tokenize", " regexes", " insert STR", " remove STRASSE" }; for ( int i : v ) o += n[i]; return o + "\n" + md::lexText( m.list, m.locale ); }, [&]{
            std::unique_ptr<Lexicon> L( load( m ) );
            str md5 = L->getMd5();
            LexEntry ins( "STR\tSTRADA\tTYPE\tATT_SUF" ), rem( "STRASSE\tSTR\tTYPE\tATT_SUF,DET_SUF" );
            for ( int i : v ) {
                if ( i == 0 ) { std::unique_ptr<Lexicon> N( new Lexicon( str( "other" ) ) ); str s = save( *L ); load( *N, s ); x.eq( save( *N ), s, "saving what was loaded" ); L = std::move( N ); }
                if ( i == 1 ) L.reset( new Lexicon( *L ) );
                if ( i == 2 ) tokens( *L, { ADR[2] } );
                if ( i == 3 ) { L->regex(); L->regexPrefixAtt(); L->regexSuffixAtt(); }
                if ( i == 4 ) { L->insert( ins ); m.insert( entry( ins ) ); }
                if ( i == 5 ) { L->remove( rem ); m.remove( entry( rem ) ); }
                x.transition();
            }
            std::unique_ptr<Lexicon> F( load( m ) );
            str a = look( *L ), b = look( *F );
            x.eq( a.substr( 0, a.find( "\nmd5" ) ), b.substr( 0, b.find( "\nmd5" ) ), "the lexicon after the history" );
            x.require( md5 == L->getMd5(), "the fingerprint changed" );
            x.eq( tokens( *L, ADR ), tokens( *F, ADR ), "tokens after the history" );
            x.outcome( a, v.size() > 0 );
        } );
    } );

    x.phase( "every place to cut a compiled lexicon off" );
    for ( int which = 0; which < ( T ? 4 : 2 ); ++which ) {
        std::vector<md::Entry> l;
        for ( size_t i = 0; i < pool.size(); ++i ) if ( which == 0 or ( i + which ) % 3 ) l.push_back( pool[i] );
        if ( which == 3 ) l.clear();
        str text = md::lexText( l ), msg, c = ca::compile( text, msg );
        for ( size_t n = 0; n < c.size(); ++n )
            x.run( [&]{ return "the first " + std::to_string( n ) + " of " + std::to_string( c.size() ) + " bytes of the compiled form of\n" + text; }, [&]{
                str cut = c.substr( 0, n ), m1, m2;
                void *p = ca::lexicon( cut, m1 );
                x.require( ( p != 0 ) == m1.empty(), "an error message does not agree with the pointer" );
                if ( p ) {
                    void *q = ca::lexicon( text, m2 );
                    str a = look( *(Lexicon *) p ), b = look( *(Lexicon *) q );
                    x.eq( a.substr( 0, a.find( "\nmd5" ) ), b.substr( 0, b.find( "\nmd5" ) ), "a cut off lexicon was loaded" );
                    x.eq( tokens( *(Lexicon *) p, ADR ), tokens( *(Lexicon *) q, ADR ), "tokens from a cut off lexicon" );
                    freeLexiconPtr( q );
                }
                for ( int i = 0; i < 3; i += 2 ) {
                    ca::Par r = ca::parse( ADR[i], cut );
                    x.require( r.err == ( p == 0 ), "the text interface and the pointer interface do not agree on a cut off lexicon" );
                    if ( not r.err ) x.eq( ca::text( r ), ca::text( ca::parse( ADR[i], text ) ), "rows from a cut off lexicon" );
                    if ( n % 5 == 0 ) {
                        ca::Std s = ca::standardize( ADR[i], G1, cut );
                        x.require( s.err == ( p == 0 ), "the text interface and the pointer interface do not agree on a cut off lexicon" );
                        if ( not s.err ) x.eq( ca::text( s ), ca::text( ca::standardize( ADR[i], G1, text ) ), "record from a cut off lexicon" );
                    }
                }
                x.outcome( p ? "loaded" : "rejected: " + m1.substr( 0, 40 ) );
                freeLexiconPtr( p );
            } );
    }
    x.phase( "older and newer format versions" );
    const str olds[] = { old<V0>(), old<V1>(), old<V99>() };
    for ( int i = 0; i < 3; ++i ) for ( auto &a : ADR )
        x.run( [&]{ return "compiled lexicon of another version " + show( olds[i] ) + " address " + show( a ); }, [&]{
            str msg; void *p = ca::lexicon( olds[i], msg );
            x.require( not p, "a lexicon of another version was loaded" );
            ca::Std s = ca::standardize( a, G1, olds[i] ); ca::Par r = ca::parse( a, olds[i] ); ca::Mat m = ca::match( a, G1, olds[i] );
            x.require( s.err and r.err and m.err and not s.rec and not r.rec and not m.rec, "a lexicon of another version gave a result" );
            if ( i < 2 ) { x.eq( msg, str( "E:Re-compile-lexicon" ), "error (pointer)" ); x.eq( s.msg + r.msg + m.msg, str( "Re-compile-lexiconRe-compile-lexiconRe-compile-lexicon" ), "errors" ); }
            x.outcome( msg + s.msg, true );
        } );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P08";
    o.rule = "one evaluation per lexicon text compiled and compared with itself through every interface, per history of saving, loading, copying, querying and editing, per place to cut a compiled lexicon off, and per format version; distinct outcomes are distinct results over all addresses";
    o.assumptions = { "a cut inside the fingerprint at the very end may be accepted, as the entries are complete" };
    return mc::main( argc, argv, o, explore );
}
