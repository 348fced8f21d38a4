// P25: the shipped lexicons and grammars.
#include <dirent.h>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "capi.h"
#include "real.h"
using namespace rl;

static const str DATA = str( REPO ) + "/data/sample";

static vs files( const str &ext ) {
    vs r;
    if ( DIR *d = opendir( DATA.c_str() ) ) {
        while ( struct dirent *e = readdir( d ) ) { str n = e->d_name; if ( md::endsWith( n, ext ) ) r.push_back( n.substr( 0, n.size() - ext.size() ) ); }
        closedir( d );
    }
    std::sort( r.begin(), r.end() );
    return r;
}
static vs lines( const str &text ) {
    vs r; str l; std::istringstream i( text );
    while ( std::getline( i, l ) ) { if ( l.size() and l.back() == '\r' ) l.pop_back(); r.push_back( l ); }
    if ( r.size() and r[0].compare( 0, 3, "\xEF\xBB\xBF" ) == 0 ) r[0] = r[0].substr( 3 );
    return r;
}
static vs split( const str &s, char c ) { vs r( 1 ); for ( char k : s ) if ( k == c ) r.push_back( "" ); else r.back() += k; return r; }
static str strip( const str &s ) { size_t a = s.find_first_not_of( " \t" ); return a == str::npos ? "" : s.substr( a, s.find_last_not_of( " \t" ) - a + 1 ); }
static str squeeze( const str &s ) { str o; for ( char c : s ) if ( c != ' ' or o.empty() or o.back() != ' ' ) o += c; return o; }

// ---------------------------------------------------------- lexicons

struct File { str name, text, lang, locale; md::Lex lex; bool has; };

// an independent reading of a lexicon file
static File *read( const str &name ) {
    File *f = new File; f->name = name; f->text = mc::slurp( DATA + "/" + name + ".lex" ); f->has = false;
    for ( auto &l : lines( f->text ) ) {
        vs v = split( l, '\t' );
        if ( v[0] == "LEXICON:" and not f->has ) { f->has = true; if ( v.size() > 2 ) f->lang = v[2]; if ( v.size() > 3 ) f->locale = v[3]; }
        else if ( v[0] == "LEXENTRY:" ) {
            md::Entry e;
            v.resize( 5 );
            for ( auto &s : v ) s = md::upper( squeeze( s ), f->locale );
            e.word = v[1]; e.std = v[2];
            for ( auto &c : split( v[3], ',' ) ) if ( strip( c ).size() ) e.type.insert( strip( c ) );
            for ( auto &a : split( v[4], ',' ) ) for ( auto k : { "DET_PRE", "DET_SUF", "ATT_PRE", "ATT_SUF" } ) if ( strip( a ) == k ) e.att.insert( k );
            f->lex.insert( e );
        }
    }
    f->lex.locale = f->locale;
    f->lex.frozen = true;
    return f;
}
static str es( const md::Entry &e ) { return e.word + "|" + e.std + "|" + md::csv( e.type ) + "|" + md::csv( e.att ); }
static str listOf( const std::vector<md::Entry> &v ) { str o; for ( auto &e : v ) o += es( e ) + "\n"; return o; }
static str firstDiff( const str &a, const str &b ) {
    std::istringstream i( a ), j( b ); str x, y;
    while ( true ) {
        bool p = (bool) std::getline( i, x ), q = (bool) std::getline( j, y );
        if ( not p and not q ) return "";
        if ( p != q or x != y ) return "got " + ( p ? show( x ) : str( "nothing" ) ) + " expected " + ( q ? show( y ) : str( "nothing" ) );
    }
}
// what the library holds: the entries of the dump, in its order
static str held( const Lexicon &l, std::vector<md::Entry> &v ) {
    std::ostringstream o; o << l;
    vs t = lines( o.str() );
    for ( size_t i = 1; i < t.size(); ++i ) v.push_back( rl::entry( LexEntry( t[i] ) ) );
    return o.str();
}
static str load( Lexicon *&l, const str &name ) {
    try { l = new Lexicon( str( "x" ), DATA + "/" + name + ".lex" ); return ""; } catch ( std::exception &e ) { return e.what(); }
}
struct Loaded { Lexicon *text, *comp; str err; };
static Loaded &get( const File &f ) {
    static std::map<str,Loaded> m;
    auto i = m.find( f.name );
    if ( i != m.end() ) return i->second;
    Loaded l{ 0, 0, "" };
    l.err = load( l.text, f.name );
    if ( l.text ) {
        std::stringstream s; { boost::archive::text_oarchive a( s ); const Lexicon &c = *l.text; a << c; }
        l.comp = new Lexicon; boost::archive::text_iarchive a( s ); a >> *l.comp;
    }
    return m[ f.name ] = l;
}

// ---------------------------------------------------------- grammars

struct GSec { str name; bool meta; vs lines; };
static std::vector<GSec> readGram( const str &text ) {
    std::vector<GSec> r;
    for ( auto &l : lines( text ) ) {
        str s = strip( l );
        if ( s.empty() or s[0] == '#' ) continue;
        if ( s[0] == '[' ) { r.push_back( GSec{ s.substr( 1, s.find( ']' ) - 1 ), false, {} } ); continue; }
        if ( r.empty() ) continue;
        if ( s.find( '@' ) != str::npos ) { r.back().meta = true; str n; for ( char c : s ) if ( c == '@' ) { if ( n.size() ) n += " "; } else if ( c != ' ' and c != '\t' ) n += c; r.back().lines.push_back( n ); }
        else { vs t; std::istringstream i( s ); str w; while ( i >> w ) t.push_back( w ); t.back() = num( (float) atof( t.back().c_str() ) ); r.back().lines.push_back( join( t, " " ) ); }
    }
    return r;
}
static str gs( const std::vector<GSec> &v, bool meta ) { str o; for ( auto &s : v ) if ( s.meta == meta and s.lines.size() ) o += "[" + s.name + "]\n" + join( s.lines, "\n" ) + "\n"; return o; }
static md::Gram gramOf( const std::vector<GSec> &v ) {
    md::Gram g;
    for ( auto &s : v ) if ( s.lines.size() ) {
        md::Section m; m.name = s.name; m.meta = s.meta;
        for ( auto &l : s.lines ) {
            vs t = split( l, ' ' );
            if ( s.meta ) { m.refs.push_back( t ); continue; }
            md::MRule r; r.score = 0; int k = 0;
            for ( auto &w : t ) if ( w == "->" ) ++k; else if ( k == 0 ) r.in.push_back( w ); else if ( k == 1 ) r.out.push_back( w ); else r.score = atof( w.c_str() );
            m.rules.push_back( r );
        }
        g.secs.push_back( m );
    }
    return g;
}
// the input of the n-th rules of everything a section refers to
static bool sampleOf( const md::Gram &g, const str &name, int n, int depth, vs &o ) {
    const md::Section *s = g.find( name );
    if ( not s or depth > 8 or o.size() > 12 ) return false;
    if ( not s->meta ) { auto &r = s->rules[ n % s->rules.size() ]; o.insert( o.end(), r.in.begin(), r.in.end() ); return true; }
    for ( auto &r : s->refs[ n % s->refs.size() ] ) if ( not sampleOf( g, r, n, depth + 1, o ) ) return false;
    return true;
}
static str rules5( float score ) { char b[32]; snprintf( b, sizeof b, "%.5g", score ); return b; }

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    std::vector<File*> fs;
    for ( auto &n : files( ".lex" ) ) fs.push_back( read( n ) );
    vs gn = files( ".gmr" );
    x.phase( "every shipped lexicon" );
    x.run( [&]{ return "files of " + DATA; }, [&]{ x.require( fs.size() and gn.size(), "no shipped lexicons or grammars" ); x.outcome( "some" ); } );
    for ( auto fp : fs ) x.run( [&]{ return "lexicon " + fp->name; }, [&]{
        File &f = *fp;
        Loaded &l = get( f );
        x.require( l.text, "cannot be loaded: " + l.err );
        x.eq( l.text->langAsString(), InClass::asString( InClass::asLang( f.lang ) ), "language" );
        x.eq( l.text->locale(), f.locale, "locale" );
        std::vector<md::Entry> want = f.lex.list, got, again, c;
        std::stable_sort( want.begin(), want.end(), []( const md::Entry &a, const md::Entry &b ) { return a.word < b.word; } );
        str dump = held( *l.text, got );
        x.require( got == want, "entries: " + firstDiff( listOf( got ), listOf( want ) ) );
        std::set<str> words; for ( auto &e : want ) words.insert( e.word );
        x.eq( split( lines( dump )[0], '\t' ).back(), std::to_string( words.size() ), "count written" );
        std::istringstream in( dump );
        Lexicon b( "x", in );
        x.require( held( b, again ) == dump, "its dump reads as another: " + firstDiff( listOf( again ), listOf( got ) ) );
        x.eq( b.langAsString() + b.locale(), l.text->langAsString() + l.text->locale(), "language and locale of its dump" );
        x.require( held( *l.comp, c ) == dump, "compiled and loaded: " + firstDiff( listOf( c ), listOf( got ) ) );
        x.eq( str( l.comp->getMd5() ), str( l.text->getMd5() ), "fingerprint" );
        // the same through the C interface
        str msg;
        str comp = ca::compile( f.text, msg );
        x.require( msg.empty() and comp.size(), "cannot be compiled: " + msg );
        for ( auto &e : want ) {
            auto v = l.text->find( e.word );
            size_t n = 0; for ( auto &k : v ) if ( rl::entry( k ) == e ) ++n;
            x.require( n == 1, es( e ) + " is found " + std::to_string( n ) + " times" );
        }
        x.outcome( f.name + mc::num( mc::hash( dump ) ) );
    } );

    x.phase( "every shipped grammar" );
    for ( auto &n : gn ) x.run( [&]{ return "grammar " + n; }, [&]{
        auto v = readGram( mc::slurp( DATA + "/" + n + ".gmr" ) );
        Grammar *g = 0;
        try { g = new Grammar( DATA + "/" + n + ".gmr" ); } catch ( std::exception &e ) { x.require( false, str( "cannot be loaded: " ) + e.what() ); }
        std::ostringstream d; d << *g;
        auto h = readGram( d.str() );
        for ( bool meta : { true, false } ) x.require( gs( h, meta ) == gs( v, meta ), firstDiff( gs( h, meta ), gs( v, meta ) ) );
        Grammar b( d.str().c_str() );
        std::ostringstream d2; d2 << b;
        x.require( d2.str() == d.str(), "its dump changes when it is read again" );
        // every section is there, and no other
        size_t secs = 0; for ( auto &s : v ) if ( s.lines.size() ) ++secs;
        size_t written = 0; for ( auto &l : lines( d.str() ) ) if ( l.size() and l[0] == '[' ) ++written;
        x.require( written == secs, std::to_string( written ) + " sections are written of " + std::to_string( secs ) );
        x.require( g->status() == b.status() and g->issues() == b.issues(), "its dump is found faulty in another way" );
        x.require( g->status() != Grammar::CHECK_FATAL, "found faulty: " + g->issues() );
        x.outcome( n + d.str() );
        delete g;
    } );

    x.phase( "every section of every shipped grammar searched for the input of each of its rules" );
    for ( auto &n : gn ) {
        md::Gram g = gramOf( readGram( mc::slurp( DATA + "/" + n + ".gmr" ) ) );
        for ( auto &sec : g.secs ) x.run( [&]{ return "grammar " + n + " section " + sec.name; }, [&]{
            Grammar G( DATA + "/" + n + ".gmr" );
            Search S( G );
            std::set<vs> pats;
            if ( not sec.meta ) for ( auto &r : sec.rules ) pats.insert( r.in );
            else for ( int k = 0; k < ( T ? 40 : 12 ); ++k ) {
                vs p; if ( sampleOf( g, sec.name, k, 0, p ) and p.size() <= ( T ? 10u : 7u ) ) pats.insert( p );
            }
            str all;
            for ( auto &p : pats ) {
                std::vector<Token> t;
                for ( size_t i = 0; i < p.size(); ++i ) t.push_back( token( "t" + std::to_string( i ), { p[i] } ) );
                vs got, want;
                for ( auto &e : S.search( sec.name, t ) ) {
                    str o; x.require( e.remaining.empty(), "a match leaves a rest of " + join( p, " " ) );
                    for ( auto &u : e.rules ) { for ( auto c : u.in() ) o += InClass::asString( c ) + " "; o += "-> "; for ( auto c : u.out() ) o += OutClass::asString( c ) + " "; o += rules5( u.score() ) + "; "; }
                    got.push_back( o );
                }
                for ( auto &d : md::derivations( g, sec.name, p, p.size() ) ) {
                    str o;
                    for ( auto *u : d ) { for ( auto &c : u->in ) o += c + " "; o += "-> "; for ( auto &c : u->out ) o += c + " "; o += rules5( u->score ) + "; "; }
                    want.push_back( o );
                }
                std::sort( got.begin(), got.end() ); std::sort( want.begin(), want.end() );
                x.require( got == want, join( p, " " ) + ": " + firstDiff( join( got, "\n" ), join( want, "\n" ) ) );
                if ( not sec.meta ) x.require( got.size() > 0, join( p, " " ) + " is not matched by its own rule" );
                all += join( got, "\n" );
            }
            x.outcome( n + sec.name + all, pats.size() > 0 );
        } );
    }

    x.phase( "every word of every shipped lexicon alone, in lower case, inside addresses, from the text and compiled" );
    for ( auto fp : fs ) {
        std::set<str> words; for ( auto &e : fp->lex.list ) words.insert( e.word );
        int k = 0;
        for ( auto &w : words ) { ++k; x.run( [&]{ return fp->name + " " + show( w ); }, [&]{
            File &f = *fp;
            Loaded &l = get( f );
            x.require( l.text, "cannot be loaded: " + l.err );
            auto u = md::dec( w );
            if ( u.empty() ) { x.outcome( "empty", false ); return; }
            str lo = md::lower( w, f.locale );
            bool same = md::upper( lo, f.locale ) == w;
            vs ctx = { w, "12 " + ( same ? lo : w ) + " QZJX" };
            if ( T ) { ctx.push_back( lo ); ctx.push_back( "qzjx, " + w + "." ); ctx.push_back( w + ", 12" ); }
            for ( size_t i = 0; i < ctx.size(); ++i ) for ( Lexicon *lex : { l.text, l.comp } ) {
                if ( not T and ( lex == l.comp ) != ( ( i + k ) % 2 == 1 ) and i > 0 ) continue;
                Tokenizer t( *lex );
                auto got = rl::toks( t.getTokens( ctx[i] ) );
                auto want = md::tokens( f.lex, ctx[i] );
                str how = show( ctx[i] ) + ( lex == l.comp ? " compiled" : "" );
                x.require( got == want, how + ":\n    got      " + md::showToks( got ) + "\n    expected " + md::showToks( want ) );
                if ( i == 0 and not md::isS( u[0] ) and u[0] != md::EM )
                    x.require( got.size() == 1 and got[0].text == w and got[0].cls == f.lex.lookup( w ) and got[0].inLex, how + " is not one token of its classes: " + md::showToks( got ) );
            }
            x.outcome( fp->name + w + md::csv( f.lex.lookup( w ) ) );
        } ); }
    }
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P25";
    o.rule = "for every shipped lexicon and grammar, an independent reading of the file, its dump reloaded, its archive reloaded; every distinct word of every lexicon tokenized alone and inside addresses, in both cases, with both lexicons";
    o.assumptions = { "the files are those of data/sample in the working tree", "a word that starts with white space or an em dash cannot start a token and is only compared with the reference tokenizer" };
    o.caseLimit = 90;
    return mc::main( argc, argv, o, explore );
}
