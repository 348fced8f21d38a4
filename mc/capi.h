// The C interface, with every result turned into text and released.
#ifndef CAPI_H
#define CAPI_H

#include "mc.h"
#include "address_standardizer.h"

namespace ca {
typedef std::string str;

// a private, writable, exactly sized copy of an argument
struct Z {
    char *p;
    explicit Z( const str &s ) : p( (char *) malloc( s.size() + 1 ) ) { memcpy( p, s.c_str(), s.size() + 1 ); }
    ~Z() { free( p ); }
    Z( const Z & ) = delete;
    operator char*() const { return p; }
};

inline const char *fieldName( int i ) {
    static const char *n[] = { "building", "house_num", "predir", "qual", "pretype", "name", "suftype", "sufdir", "ruralroute", "extra", "city", "prov", "country", "postcode", "box", "unit", "pattern" };
    return n[i];
}
inline char *&field( STDADDR *s, int i ) {
    char **f[] = { &s->building, &s->house_num, &s->predir, &s->qual, &s->pretype, &s->name, &s->suftype, &s->sufdir, &s->ruralroute, &s->extra, &s->city, &s->prov, &s->country, &s->postcode, &s->box, &s->unit, &s->pattern };
    return *f[i];
}
inline void freeStd( STDADDR *s ) { if ( s ) { for ( int i = 0; i < 17; ++i ) free( field( s, i ) ); free( s ); } }
inline void freeTok( TOKENS *t, int n ) { if ( t ) { for ( int i = 0; i < n; ++i ) { free( t[i].word ); free( t[i].inclass ); free( t[i].attached ); } free( t ); } }
inline void freeMat( MTOKEN *t, int n ) { if ( t ) { for ( int i = 0; i < n; ++i ) free( t[i].tokens ); free( t ); } }

typedef std::map<str,str> Record;           // present fields only
struct Std { bool rec, err; Record f; str msg; };
struct Row { int pat, seq; str word, cls, att; };
struct Par { bool rec, err; std::vector<Row> rows; str msg; };
struct MRow { str toks; double score, nrules; };
struct Mat { bool rec, err; std::vector<MRow> rows; str msg; };

inline Std take( STDADDR *s, char *e ) {
    Std r; r.rec = s != 0; r.err = e != 0;
    if ( s ) for ( int i = 0; i < 17; ++i ) if ( field( s, i ) ) r.f[ fieldName( i ) ] = field( s, i );
    if ( e ) r.msg = e;
    freeStd( s ); free( e );
    return r;
}
inline Par take( TOKENS *t, int n, char *e ) {
    Par r; r.rec = t != 0; r.err = e != 0;
    if ( t ) for ( int i = 0; i < n; ++i ) r.rows.push_back( Row{ t[i].pat, t[i].seq, t[i].word, t[i].inclass, t[i].attached } );
    if ( e ) r.msg = e;
    freeTok( t, n ); free( e );
    return r;
}
inline Mat take( MTOKEN *t, int n, char *e ) {
    Mat r; r.rec = t != 0; r.err = e != 0;
    if ( t ) for ( int i = 0; i < n; ++i ) r.rows.push_back( MRow{ t[i].tokens, t[i].score, t[i].nrules } );
    if ( e ) r.msg = e;
    freeMat( t, n ); free( e );
    return r;
}

inline Std standardize( const str &a, const str &g, const str &l, const str &loc = "en_US", const str &flt = "PUNCT,SPACE" ) {
    char *e = 0; Z za( a ), zg( g ), zl( l ), zo( loc ), zf( flt );
    STDADDR *s = std_standardize( za, zg, zl, zo, zf, &e );
    return take( s, e );
}
inline Std standardize( const str &a, void *g, void *l, const str &loc = "en_US", const str &flt = "PUNCT,SPACE" ) {
    char *e = 0; Z za( a ), zo( loc ), zf( flt );
    STDADDR *s = std_standardize_ptrs( za, g, l, zo, zf, &e );
    return take( s, e );
}
inline Par parse( const str &a, const str &l, const str &loc = "en_US", const str &flt = "PUNCT,SPACE" ) {
    char *e = 0; int n = 0; Z za( a ), zl( l ), zo( loc ), zf( flt );
    TOKENS *t = std_parse_address( za, zl, zo, zf, &n, &e );
    return take( t, n, e );
}
inline Par parse( const str &a, void *l, const str &loc = "en_US", const str &flt = "PUNCT,SPACE" ) {
    char *e = 0; int n = 0; Z za( a ), zo( loc ), zf( flt );
    TOKENS *t = std_parse_address_ptrs( za, l, zo, zf, &n, &e );
    return take( t, n, e );
}
inline Mat match( const str &a, const str &g, const str &l, const str &loc = "en_US", const str &flt = "PUNCT,SPACE" ) {
    char *e = 0; int n = 0; Z za( a ), zg( g ), zl( l ), zo( loc ), zf( flt );
    MTOKEN *t = std_match_address( za, zg, zl, zo, zf, &n, &e );
    return take( t, n, e );
}
inline void *grammar( const str &g, str &msg ) {
    char *e = 0; Z z( g );
    void *p = getGrammarPtr( z, &e );
    msg = e ? str( "E:" ) + e : ""; free( e );
    return p;
}
inline void *lexicon( const str &l, str &msg ) {
    char *e = 0; Z z( l );
    void *p = getLexiconPtr( z, &e );
    msg = e ? str( "E:" ) + e : ""; free( e );
    return p;
}
inline str compile( const str &l, str &msg ) {
    char *e = 0; Z z( l );
    char *p = serialize_lexicon( z, &e );
    msg = e ? str( "E:" ) + e : ""; free( e );
    str r = p ? p : ""; free( p );
    return r;
}
inline str own( char *p ) { str r = p ? p : "(null)"; free( p ); return r; }

inline str text( const Record &f ) {
    str o;
    for ( auto &e : f ) o += e.first + "=" + mc::show( e.second ) + " ";
    return o;
}
inline str text( const Std &s ) { return s.rec ? text( s.f ) + ( s.err ? " AND ERROR " + s.msg : "" ) : s.err ? "error: " + s.msg : "no match"; }
inline str text( const Par &p ) {
    if ( not p.rec ) return p.err ? "error: " + p.msg : "nothing";
    str o;
    for ( auto &r : p.rows ) o += "(" + std::to_string( r.pat ) + "," + std::to_string( r.seq ) + "," + mc::show( r.word ) + "," + r.cls + "," + r.att + ")";
    return o + ( p.err ? " AND ERROR " + p.msg : "" );
}
inline str text( const Mat &p ) {
    if ( not p.rec ) return p.err ? "error: " + p.msg : "nothing";
    str o;
    for ( auto &r : p.rows ) o += "(" + r.toks + "; " + mc::num( r.score ) + "; " + mc::num( r.nrules ) + ")";
    return o + ( p.err ? " AND ERROR " + p.msg : "" );
}

}
#endif
