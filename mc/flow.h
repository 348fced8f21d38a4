// The model of the whole way from an address to a record, to the rows of a
// parse and to the rows of a match listing.
#ifndef FLOW_H
#define FLOW_H

#include "real.h"
#include "capi.h"

namespace fl {

using md::str;
using md::vs;
typedef std::vector<md::Tok> Phrase;
typedef std::vector<vs> Ph;

inline std::vector<Phrase> phrases( const md::Lex &lex, const str &addr, const str &locale, const str &filter ) {
    std::vector<Phrase> r;
    r.push_back( md::tokens( lex, md::upper( addr, locale ), md::parseCsv( filter ) ) );
    auto alt = md::alternates( lex, r[0] );
    r.insert( r.end(), alt.begin(), alt.end() );
    return r;
}
inline Ph classes( const Phrase &p ) {      // in the order of the enumeration
    Ph r;
    for ( auto &k : p ) { vs c; for ( auto &e : rl::types( k.cls ) ) c.push_back( InClass::asString( e ) ); r.push_back( c ); }
    return r;
}
inline str pattern( const vs &p, const md::Deriv &d ) {
    str m;
    for ( auto &c : p ) m += c + " ";
    m += "->";
    for ( auto *r : d ) for ( auto &o : r->out ) m += " " + o;
    return m;
}
inline const char *fieldOf( const str &o ) {
    static const std::map<str,const char*> m = { { "BLDNG", "building" }, { "HOUSE", "house_num" }, { "PREDIR", "predir" }, { "QUALIF", "qual" }, { "PRETYP", "pretype" },
        { "STREET", "name" }, { "SUFTYP", "suftype" }, { "SUFDIR", "sufdir" }, { "RR", "ruralroute" }, { "STOP", "extra" }, { "EXTRA", "extra" }, { "BADTOKEN", "extra" },
        { "CITY", "city" }, { "PROV", "prov" }, { "NATION", "country" }, { "POSTAL", "postcode" }, { "BOXH", "box" }, { "BOXT", "box" }, { "UNITH", "unit" }, { "UNITT", "unit" }, { "IGNORE", 0 } };
    return m.at( o );
}
inline str stdWord( const md::Lex &lex, const md::Tok &t, const str &cls ) {
    for ( auto &e : lex.find( t.text ) ) if ( e.type.count( cls ) ) return e.std.empty() ? t.text : e.std;
    return t.text;
}
// the records of every derivation with the highest mean score
inline std::vector<ca::Record> records( const md::Gram &g, const md::Lex &lex, const std::vector<Phrase> &phr ) {
    std::vector<ca::Record> r;
    long num = 0, den = 1; bool any = false;
    for ( auto &p : phr ) {
        Ph c = classes( p );
        for ( auto &q : md::patterns( c ) ) for ( auto &d : md::derivations( g, "ADDRESS", q, c.size() ) ) {
            long s = 0, n = 1000 * (long) d.size();
            for ( auto *u : d ) s += (long) ( u->score * 1000 + 0.5 );
            if ( d.empty() ) { n = 1; s = 0; }
            if ( any and s * den < num * n ) continue;
            if ( not any or s * den > num * n ) r.clear();
            any = true; num = s; den = n;
            ca::Record f;
            vs out;
            for ( auto *u : d ) out.insert( out.end(), u->out.begin(), u->out.end() );
            for ( size_t i = 0; i < p.size(); ++i ) {
                const char *k = fieldOf( out[i] );
                if ( k ) f[k] += ( f.count( k ) and f[k].size() ? " " : "" ) + stdWord( lex, p[i], q[i] );
            }
            f["pattern"] = pattern( q, d );
            r.push_back( f );
        }
    }
    return r;
}
inline std::vector<ca::Record> records( const md::Gram &g, const md::Lex &lex, const str &addr, const str &locale = "en_US", const str &filter = "PUNCT,SPACE" ) {
    return records( g, lex, phrases( lex, addr, locale, filter ) );
}
inline str showRecs( const std::vector<ca::Record> &v ) { str o; for ( auto &r : v ) o += ( o.size() ? "\n          or " : "" ) + ca::text( r ); return o.empty() ? "no match" : o; }
inline bool among( const ca::Std &s, const std::vector<ca::Record> &v ) {
    if ( s.err ) return false;
    if ( not s.rec ) return v.empty();
    return std::find( v.begin(), v.end(), s.f ) != v.end();
}
// the rows of a parse as text; attachment flags are not set on tokens
inline str parseText( const std::vector<Phrase> &phr ) {
    str o; int i = 0, j = 0;
    for ( auto &p : phr ) {
        for ( auto &t : p ) o += "(" + std::to_string( i ) + "," + std::to_string( j++ ) + "," + mc::show( t.text ) + "," + InClass::asString( rl::types( t.cls ) ) + ")";
        ++i;
    }
    return o;
}
inline str parseText( const ca::Par &p ) {
    if ( p.err ) return "error: " + p.msg;
    str o;
    for ( auto &r : p.rows ) o += "(" + std::to_string( r.pat ) + "," + std::to_string( r.seq ) + "," + mc::show( r.word ) + "," + r.cls + ")";
    return o;
}
inline str row( const str &m, double s, double n ) { char b[64]; snprintf( b, sizeof b, "; %.9g; %.0f", s, n ); return m + b; }
inline vs matchRows( const md::Gram &g, const std::vector<Phrase> &phr ) {
    vs r;
    for ( auto &p : phr ) {
        Ph c = classes( p );
        for ( auto &q : md::patterns( c ) ) for ( auto &d : md::derivations( g, "ADDRESS", q, c.size() ) ) {
            double s = 0;
            for ( auto *u : d ) s += (float) u->score;
            r.push_back( row( pattern( q, d ), s / d.size(), d.size() ) );
        }
    }
    std::sort( r.begin(), r.end() );
    if ( r.empty() ) r.push_back( row( "Failed to match to grammar!", -1, -1 ) );
    return r;
}
inline vs matchRows( const ca::Mat &m ) {
    vs r;
    if ( m.err ) r.push_back( "error: " + m.msg );
    for ( auto &e : m.rows ) r.push_back( row( e.toks, e.score, e.nrules ) );
    std::sort( r.begin(), r.end() );
    return r;
}

}
#endif
