// The checks of a trie, for either kind of trie.
#ifndef TRIES_H
#define TRIES_H

#include "model.h"
#include "mc.h"
#include <boost/regex.hpp>
#include <boost/regex/icu.hpp>

namespace tr {
using md::str;
using md::vs;

struct U8 {         // an expression over code points
    boost::u32regex re;
    explicit U8( const str &s ) : re( boost::make_u32regex( s ) ) {}
    bool match( const str &t ) const { return boost::u32regex_match( t, re ); }
    long first( const str &t ) const { boost::smatch w; return boost::u32regex_search( t, w, re, boost::regex_constants::match_continuous ) ? w[0].length() : -1; }
};
struct Bytes {      // an expression over bytes
    boost::regex re;
    explicit Bytes( const str &s ) : re( s ) {}
    bool match( const str &t ) const { return boost::regex_match( t, re ); }
    long first( const str &t ) const { boost::smatch w; return boost::regex_search( t, w, re, boost::regex_constants::match_continuous ) ? w[0].length() : -1; }
};

// "" if the trie of these words answers every probe as the set does
template<class TRIE, class RE> str check( const vs &words, const vs &probes, str *expr ) {
    TRIE t;
    std::set<str> set;
    size_t n = 0;
    for ( auto &w : words ) { t.addWord( w ); if ( w.size() ) { set.insert( w ); ++n; } }
    if ( t.size() != n ) return "size " + std::to_string( t.size() ) + " after adding " + std::to_string( n ) + " words";
    std::set<str> got;
    t.getWords( got );
    if ( got != set ) { str o; for ( auto &e : got ) o += mc::show( e ) + " "; return "words " + o; }
    str re = t.getRegexp();
    if ( expr ) *expr = re;
    if ( re != t.getRegexp() ) return "a second expression differs";
    std::unique_ptr<RE> r;
    if ( set.size() ) try { r.reset( new RE( re ) ); } catch ( std::exception &e ) { return "expression " + re + " is not valid: " + e.what(); }
    for ( auto &p : probes ) {
        bool is = set.count( p ), pre = p.empty();
        long best = -1;
        std::set<str> with;
        for ( auto &w : set ) {
            if ( w.compare( 0, p.size(), p ) == 0 ) { pre = true; with.insert( w ); }
            if ( p.compare( 0, w.size(), w ) == 0 and (long) w.size() > best ) best = w.size();
        }
        if ( t.isWord( p ) != is ) return "isWord " + mc::show( p ) + " is " + ( is ? "false" : "true" );
        if ( t.isPrefix( p ) != pre ) return "isPrefix " + mc::show( p ) + " is " + ( pre ? "false" : "true" );
        std::set<str> s;
        t.getWordsStartingWith( p, s );
        if ( s != with ) { str o; for ( auto &e : s ) o += mc::show( e ) + " "; return "words starting with " + mc::show( p ) + " are " + o; }
        if ( r ) {
            if ( r->match( p ) != is ) return "expression " + re + ( is ? " does not match " : " matches " ) + mc::show( p );
            long f = r->first( p );
            if ( f != best ) return "expression " + re + " takes " + std::to_string( f ) + " bytes of " + mc::show( p ) + ", the longest word has " + std::to_string( best );
        }
    }
    return "";
}

// every string up to a length over an alphabet
inline vs strings( const vs &alpha, int lo, int hi ) {
    vs r;
    mc::sequences( alpha.size(), lo, hi, [&]( const std::vector<int> &v ) { str s; for ( int i : v ) s += alpha[i]; r.push_back( s ); } );
    return r;
}

template<class TRIE, class RE> void explore( mc::Ex &x, const str &what, bool bytes ) {
    bool T = x.thorough;
    // x: every word in the order of the pool, then in the opposite order with every word twice
    auto both = [&]( const vs &w, const vs &probes ) {
        x.run( [&]{ str o = what + " of"; for ( auto &e : w ) o += " " + mc::show( e ); return o; }, [&]{
            str e1, e2;
            str m = check<TRIE,RE>( w, probes, &e1 );
            x.require( m.empty(), m );
            vs z( w.rbegin(), w.rend() );
            z.insert( z.end(), w.begin(), w.end() );
            z.push_back( "" );
            m = check<TRIE,RE>( z, probes, &e2 );
            x.require( m.empty(), "added in the opposite order and twice: " + m );
            x.require( e1 == e2, "the order of adding changes the expression: " + e1 + " and " + e2 );
            x.outcome( what + e1, w.size() > 0 );
        } );
    };
    x.phase( what + ": every set of words of up to 3 letters over two letters" );
    vs ab = { "A", "B" };
    vs pool = strings( ab, 1, 3 ), probes = strings( ab, 0, 4 );
    for ( auto &p : strings( { "A", "B", "C" }, 1, 3 ) ) if ( p.find( 'C' ) != str::npos ) probes.push_back( p );
    for ( int mask = 0; mask < 1 << 14; ++mask ) {
        vs w; for ( int b = 0; b < 14; ++b ) if ( mask >> b & 1 ) w.push_back( pool[b] );
        both( w, probes );
    }
    x.phase( what + ": every order of adding up to 4 words" );
    vs ord = { "A", "AB", "ABC", "B", "BA", "C" };
    if ( T ) { ord.push_back( "ABCD" ); ord.push_back( "AC" ); }
    vs op = strings( { "A", "B", "C" }, 0, 4 );
    mc::sequences( ord.size(), 0, T ? 5 : 4, [&]( const std::vector<int> &v ) {
        x.run( [&]{ str o = what + " adding in turn"; for ( int i : v ) o += " " + ord[i]; return o; }, [&]{
            vs w; for ( int i : v ) w.push_back( ord[i] );
            str e;
            str m = check<TRIE,RE>( w, op, &e );
            x.require( m.empty(), m );
            // every step, too
            TRIE t; std::set<str> s;
            for ( auto &k : w ) { t.addWord( k ); s.insert( k ); std::set<str> g; t.getWords( g ); x.require( g == s, "after adding " + k + " the words differ" ); x.transition(); }
            str o; for ( auto &k : s ) o += k + " "; x.state( o );
            x.outcome( what + o + e, v.size() > 0 );
        } );
    } );
    x.phase( what + ": every set of up to 3 one- and two-letter words with characters special to expressions" );
    vs sp;
    for ( char c : str( "-.+*~^$(){}[]\\|?/&:=#,<>!'\" A0n" ) ) sp.push_back( str( 1, c ) );
    // sets of single characters make a character class: sizes 1 to 3; 4 when thorough
    for ( size_t a = 0; a < sp.size(); ++a ) for ( size_t b = a; b < sp.size(); ++b ) for ( size_t c = b; c < sp.size(); ++c ) {
        if ( a != b and b == c ) continue;
        std::set<str> s = { sp[a], sp[b], sp[c] };
        both( vs( s.begin(), s.end() ), sp );
        if ( T or ( a < 17 and c < 17 ) ) { std::set<str> s2 = s; s2.insert( sp[a] + sp[b] ); s2.insert( sp[c] + sp[a] ); vs p = sp; for ( auto &e : s2 ) { p.push_back( e + sp[b] ); p.push_back( e ); } both( vs( s2.begin(), s2.end() ), p ); }
        for ( size_t d = c + 1; d < sp.size(); ++d ) { std::set<str> s3 = s; s3.insert( sp[d] ); both( vs( s3.begin(), s3.end() ), sp ); }
    }
    for ( auto &a : sp ) for ( auto &b : sp ) {
        vs p; for ( auto &c : sp ) { p.push_back( a + c ); p.push_back( c + b ); p.push_back( c ); }
        both( vs{ a + b }, p );
    }
    x.phase( what + ": every set of up to 3 (4) words of up to 2 letters of every encoded length" );
    vs u = { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "A", "\xC3\xA8", "\xE2\x82\xAD" };
    vs up = strings( u, 1, 2 ), uq = strings( u, 0, T ? 3 : 2 );
    uq.push_back( "\xC3\xA9\xC3\xA9\xC3\xA9" ); uq.push_back( "\xE2\x82\xAC" "A\xF0\x9F\x98\x80" );
    for ( size_t a = 0; a < up.size(); ++a ) for ( size_t b = a; b < up.size(); ++b ) for ( size_t c = b; c < up.size(); ++c ) {
        if ( a != b and b == c ) continue;
        std::set<str> s = { up[a], up[b], up[c] };
        both( vs( s.begin(), s.end() ), uq );
        if ( a != b ) for ( size_t d = c + 1; d < up.size(); d += T ? 1 : 5 ) { std::set<str> s3 = s; s3.insert( up[d] ); both( vs( s3.begin(), s3.end() ), uq ); }
    }
    x.phase( what + ": every set of up to 3 (4) words of up to 2 letters, marks that combine and joiners" );
    vs cm = { "A", "\xCC\x81", "\xE2\x80\x8D", "S", "\xEF\xB8\x8F" };
    vs cp = strings( cm, 1, 2 ), cq = strings( cm, 0, 3 );
    for ( size_t a = 0; a < cp.size(); ++a ) for ( size_t b = a; b < cp.size(); ++b ) for ( size_t c = b; c < cp.size(); ++c ) {
        if ( a != b and b == c ) continue;
        std::set<str> s = { cp[a], cp[b], cp[c] };
        both( vs( s.begin(), s.end() ), cq );
        if ( T and a != b ) for ( size_t d = c + 1; d < cp.size(); ++d ) { std::set<str> s3 = s; s3.insert( cp[d] ); both( vs( s3.begin(), s3.end() ), cq ); }
    }
    x.phase( what + ": words of every length up to 40 (120), alone, with a shorter one, and next to one that leaves them half way" );
    vs rep = { "A", "\xC3\xA9", "1A.", "AB\xE2\x82\xAC" };
    for ( size_t n = 1; n <= ( T ? 120 : 40 ); ++n ) for ( auto &r : rep ) for ( int k = 0; k < 4; ++k ) {
        str w, h, o;
        for ( size_t i = 0; i < n; ++i ) { w += r; if ( i < n / 2 ) h += r; }
        vs ws = { w };
        if ( k & 1 and h.size() ) ws.push_back( h );
        if ( k & 2 ) ws.push_back( h + "Z" + r + r );
        vs probes = { "", w + "A", w + r, h + "Z", h + "Z" + r, h + "Z" + r + r };
        str part; for ( size_t i = 0; i < n; ++i ) { part += r; probes.push_back( part ); probes.push_back( part + "Z" ); }
        both( ws, probes );
    }
    x.phase( what + ": sets of up to 400 (2000) words" );
    for ( int n : T ? std::vector<int>{ 5, 17, 33, 65, 129, 257, 400, 1000, 2000 } : std::vector<int>{ 5, 9, 17, 33, 65, 129, 257, 400 } ) for ( int k = 0; k < 4; ++k ) {
        vs ws, probes = { "", "1", "9", "W", "W1", "AA" };
        for ( int i = 0; i < n; ++i ) {
            str d = std::to_string( i ), w;
            if ( k == 0 ) w = d;                                        // every number
            else if ( k == 1 ) w = "W" + d + ( i % 3 ? "" : " ST" );
            else if ( k == 2 and not bytes ) w = md::enc( 0xC0 + i );   // many children of one node
            else if ( k == 2 ) w = str( 1, 'A' + i % 26 ) + char( 'A' + i / 26 % 26 ) + char( 'A' + i / 676 );
            else { w = str( 1, 'A' + i % 26 ); for ( int j = i; j; j /= 2 ) w += j % 2 ? "X" : "YY"; }
            ws.push_back( w );
        }
        for ( int i = 0; i < n; i += n > 40 ? n / 20 : 1 ) { probes.push_back( ws[i] ); probes.push_back( ws[i] + "0" ); probes.push_back( ws[i].substr( 0, bytes ? ws[i].size() - 1 : ws[i].size() / 2 * ( (unsigned char) ws[i][0] < 0x80 ) ) ); }
        both( ws, probes );
    }
}
}
#endif
