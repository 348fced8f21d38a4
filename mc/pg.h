// SQL calls of the extension's functions under the stand-in server.
#ifndef PG_H
#define PG_H

#include "capi.h"
#include "pgmock.h"
#include <map>
#include <set>
#include <cctype>

extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" {
void *__real_getLexiconPtr( char *, char ** );
void __real_freeLexiconPtr( void * );
void *__real_getGrammarPtr( char *, char ** );
void __real_freeGrammarPtr( void * );
}

namespace pg {
typedef std::string str;
typedef std::vector<str> vs;

// the standardizers' parts alive, and how often any was loaded
struct Live { std::set<void*> lex, gram; long loads; str fault; int own; };     // own: here, not in the library
inline Live &live() { static Live l; return l; }

inline void alive( std::set<void*> &s, void *p ) { ++live().own; s.insert( p ); --live().own; }

// a function as the extension's script declares it
struct Fn { str name, symbol; vs args, cols; std::vector<int> types; bool set, strict; };

inline std::map<str,Fn> declared( const str &file ) {
    std::map<str,Fn> r;
    str s = mc::slurp( file ), t;
    // words, brackets and quoted texts
    vs w;
    for ( size_t i = 0; i < s.size(); ) {
        if ( s.compare( i, 2, "--" ) == 0 or s[i] == '\\' ) { while ( i < s.size() and s[i] != '\n' ) ++i; continue; }
        if ( isspace( (unsigned char) s[i] ) ) { ++i; continue; }
        if ( s[i] == '\'' ) { size_t e = s.find( '\'', i + 1 ); w.push_back( s.substr( i, e - i ) ); i = e + 1; continue; }
        if ( strchr( "(),;=:", s[i] ) ) { w.push_back( str( 1, s[i++] ) ); continue; }
        t.clear();
        while ( i < s.size() and not isspace( (unsigned char) s[i] ) and not strchr( "(),;='", s[i] ) ) t += tolower( s[i++] );
        if ( t.empty() ) ++i; else w.push_back( t );
    }
    for ( size_t i = 0; i + 1 < w.size(); ++i ) if ( w[i] == "function" ) {
        Fn f; f.name = w[i+1]; f.set = f.strict = false;
        size_t k = i + 3;
        while ( k < w.size() and w[k] != ")" ) {
            vs p;
            while ( k < w.size() and w[k] != "," and w[k] != ")" ) p.push_back( w[k++] );
            if ( k < w.size() and w[k] == "," ) ++k;
            if ( p.size() and p[0] == "out" ) {
                f.cols.push_back( p[1] );
                f.types.push_back( p[2] == "text" ? PGM_TEXT : p[2] == "integer" or p[2] == "int" or p[2] == "int4" ? PGM_INT4 : PGM_FLOAT8 );
            }
            else if ( p.size() ) f.args.push_back( p[0] == "in" ? p[1] : p[0] );
        }
        for ( ; k < w.size() and w[k] != ";"; ++k ) {
            if ( w[k] == "setof" ) f.set = true;
            if ( w[k] == "strict" ) f.strict = true;
            if ( w[k] == "as" ) { vs q; size_t m = k + 1; while ( m < w.size() and ( w[m][0] == '\'' or w[m] == "," ) ) { if ( w[m] != "," ) q.push_back( w[m].substr( 1 ) ); ++m; } if ( q.size() ) f.symbol = q.size() > 1 ? q[1] : f.name; }
        }
        r[f.name] = f;
    }
    return r;
}

typedef std::map<str,str> Args;
struct Res { int kind; std::map<str,str> v; str msg; };       // v: columns that are not null

struct Query {
    PgmQuery *q;
    Query() : q( pgm_query() ) {}
    void end( int how ) { if ( q ) pgm_end( q, how ); q = 0; }
    ~Query() { end( 0 ); }
    Query( const Query & ) = delete;
};
struct Site {
    const Fn *f; PgmSite *s;
    Site( Query &q, const Fn &fn ) : f( &fn ) {
        s = pgm_site( q.q, fn.symbol.c_str(), fn.cols.size(), fn.types.empty() ? 0 : &fn.types[0], fn.set );
    }
    Res call( const Args &a, bool shorthdr = false ) {
        std::vector<const char*> p;
        for ( auto &n : f->args ) { auto i = a.find( n ); p.push_back( i == a.end() ? "" : i->second.c_str() ); }
        Res r;
        r.kind = pgm_call( s, p.size(), p.empty() ? 0 : &p[0], shorthdr );
        if ( r.kind == PGM_ERROR ) r.msg = pgm_message();
        for ( int i = 0; i < pgm_nvals(); ++i ) if ( pgm_val( i ) ) r.v[ f->cols.empty() ? "result" : f->cols[i] ] = pgm_val( i );
        return r;
    }
};
inline str text( const Res &r ) {
    if ( r.kind == PGM_ERROR ) return "error: " + r.msg;
    if ( r.kind == PGM_DONE ) return "end";
    if ( r.kind == PGM_NULL ) return "null";
    str o;
    for ( auto &e : r.v ) o += e.first + "=" + mc::show( e.second ) + " ";
    return "(" + o + ")";
}

}

extern "C" {
void *__wrap_getLexiconPtr( char *t, char **e ) { void *p = __real_getLexiconPtr( t, e ); ++pg::live().loads; if ( p ) pg::alive( pg::live().lex, p ); return p; }
void *__wrap_getGrammarPtr( char *t, char **e ) { void *p = __real_getGrammarPtr( t, e ); ++pg::live().loads; if ( p ) pg::alive( pg::live().gram, p ); return p; }
void __wrap_freeLexiconPtr( void *p ) { if ( p and not pg::live().lex.erase( p ) ) { pg::live().fault = "a lexicon that is not alive is released"; return; } __real_freeLexiconPtr( p ); }
void __wrap_freeGrammarPtr( void *p ) { if ( p and not pg::live().gram.erase( p ) ) { pg::live().fault = "a grammar that is not alive is released"; return; } __real_freeGrammarPtr( p ); }
}
#endif
