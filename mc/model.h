// Reference models, written from the documentation and kept simple.  They
// share no code with the library; character properties come from ICU.
#ifndef MODEL_H
#define MODEL_H

#include "mc.h"
#include <algorithm>
#include <cmath>
#include <unicode/uchar.h>
#include <unicode/unistr.h>
#include <unicode/normalizer2.h>
#include <unicode/locid.h>

namespace md {

typedef std::string str;
typedef std::vector<str> vs;
typedef std::vector<UChar32> cps;
typedef std::set<str> classes;      // class names

// ---------------------------------------------------------------- UTF-8

inline str enc( UChar32 c ) {
    str o;
    if ( c < 0x80 ) o += (char) c;
    else if ( c < 0x800 ) { o += (char) ( 0xC0 | c >> 6 ); o += (char) ( 0x80 | ( c & 63 ) ); }
    else if ( c < 0x10000 ) { o += (char) ( 0xE0 | c >> 12 ); o += (char) ( 0x80 | ( c >> 6 & 63 ) ); o += (char) ( 0x80 | ( c & 63 ) ); }
    else { o += (char) ( 0xF0 | c >> 18 ); o += (char) ( 0x80 | ( c >> 12 & 63 ) ); o += (char) ( 0x80 | ( c >> 6 & 63 ) ); o += (char) ( 0x80 | ( c & 63 ) ); }
    return o;
}
inline str enc( const cps &v, size_t a = 0, size_t b = str::npos ) {
    str o;
    for ( size_t i = a; i < v.size() and i < b; ++i ) o += enc( v[i] );
    return o;
}
inline cps dec( const str &s ) {     // valid UTF-8 only
    cps v;
    for ( size_t i = 0; i < s.size(); ) {
        unsigned char c = s[i];
        if ( c < 0x80 ) { v.push_back( c ); i += 1; }
        else if ( c < 0xE0 ) { v.push_back( ( c & 31 ) << 6 | ( s[i+1] & 63 ) ); i += 2; }
        else if ( c < 0xF0 ) { v.push_back( ( c & 15 ) << 12 | ( s[i+1] & 63 ) << 6 | ( s[i+2] & 63 ) ); i += 3; }
        else { v.push_back( ( c & 7 ) << 18 | ( s[i+1] & 63 ) << 12 | ( s[i+2] & 63 ) << 6 | ( s[i+3] & 63 ) ); i += 4; }
    }
    return v;
}
inline str upper( const str &s, const str &locale ) {
    icu::UnicodeString u = icu::UnicodeString::fromUTF8( s );
    UErrorCode e = U_ZERO_ERROR;
    u = icu::Normalizer2::getNFCInstance( e )->normalize( u, e );
    u.toUpper( icu::Locale( locale.c_str() ) );
    u = icu::Normalizer2::getNFCInstance( e )->normalize( u, e );
    str o;
    u.toUTF8String( o );
    return o;
}
inline str nfd( const str &s ) {
    icu::UnicodeString u = icu::UnicodeString::fromUTF8( s );
    UErrorCode e = U_ZERO_ERROR;
    u = icu::Normalizer2::getNFDInstance( e )->normalize( u, e );
    str o;
    u.toUTF8String( o );
    return o;
}
inline str lower( const str &s, const str &locale ) {
    icu::UnicodeString u = icu::UnicodeString::fromUTF8( s );
    u.toLower( icu::Locale( locale.c_str() ) );
    str o;
    u.toUTF8String( o );
    return o;
}

// ---------------------------------------------------- character kinds

inline bool isL( UChar32 c ) { return ( U_GET_GC_MASK( c ) & U_GC_L_MASK ) != 0; }
inline bool isD( UChar32 c ) { return ( U_GET_GC_MASK( c ) & U_GC_ND_MASK ) != 0; }
inline bool isM( UChar32 c ) { return ( U_GET_GC_MASK( c ) & U_GC_MN_MASK ) != 0; }
inline bool isP( UChar32 c ) { return ( U_GET_GC_MASK( c ) & U_GC_P_MASK ) != 0; }
inline bool isS( UChar32 c ) { return u_isspace( c ); }
inline bool isW( UChar32 c ) { return isL( c ) or isD( c ) or isM( c ); }        // part of a word
inline bool isW_( UChar32 c ) { return isW( c ) or c == '_'; }
const UChar32 EM = 0x2014;

// ------------------------------------------------------------ lexicon

struct Entry {
    str word, std;
    classes type;               // class names
    std::set<str> att;          // attachment flags
    bool operator==( const Entry &o ) const { return word == o.word and std == o.std and type == o.type and att == o.att; }
};

struct Lex {
    str locale;
    std::vector<Entry> list;    // in insertion order
    bool frozen;                // the list does not change any more: use an index
    mutable std::map<str,classes> index;
    mutable std::set<cps> wordSet;
    mutable size_t longest;
    Lex() : frozen( false ), longest( 0 ) {}
    const std::set<cps> &wordsOf() const {
        if ( frozen and index.size() ) return wordSet;
        wordSet.clear(); index.clear(); longest = 0;
        for ( auto &e : list ) {
            if ( frozen ) index[e.word].insert( e.type.begin(), e.type.end() );
            cps w = dec( e.word );
            if ( w.size() ) { wordSet.insert( w ); longest = std::max( longest, w.size() ); }
        }
        return wordSet;
    }
    void insert( const Entry &e ) { for ( auto &x : list ) if ( x == e ) return; list.push_back( e ); }
    void remove( const Entry &e ) { for ( size_t i = 0; i < list.size(); ++i ) if ( list[i] == e ) { list.erase( list.begin() + i ); return; } }
    classes lookup( const str &w ) const {
        classes r;
        if ( frozen ) { wordsOf(); auto i = index.find( w ); return i == index.end() ? r : i->second; }
        for ( auto &e : list ) if ( e.word == w ) r.insert( e.type.begin(), e.type.end() );
        return r;
    }
    bool has( const str &w ) const { for ( auto &e : list ) if ( e.word == w ) return true; return false; }
    std::vector<Entry> find( const str &w ) const { std::vector<Entry> r; for ( auto &e : list ) if ( e.word == w ) r.push_back( e ); return r; }
};

inline str csv( const classes &c ) { str o; for ( auto &e : c ) o += ( o.empty() ? "" : "," ) + e; return o; }

// class names sorted by name, for comparing sets
inline classes parseCsv( const str &s ) {
    classes r; str t;
    std::istringstream i( s );
    while ( std::getline( i, t, ',' ) ) if ( t.size() ) r.insert( t );
    return r;
}

inline str lexText( const std::vector<Entry> &l, const str &locale = "en_US", const str &lang = "ENG", const str &name = "test" ) {
    str o = "LEXICON:\t" + name + "\t" + lang + "\t" + locale + "\t" + std::to_string( l.size() ) + "\n";
    for ( auto &e : l ) o += "LEXENTRY:\t" + e.word + "\t" + e.std + "\t" + csv( e.type ) + "\t" + csv( e.att ) + "\n";
    return o;
}

// ------------------------------------------------------ classification

struct Tok {
    str text;
    classes cls;
    bool inLex;
    bool sep;                   // came from a separator
    bool operator==( const Tok &o ) const { return text == o.text and cls == o.cls and inLex == o.inLex; }
};

inline bool AZ( UChar32 c ) { return ( c >= 'A' and c <= 'Z' ) or ( c >= 'a' and c <= 'z' ); }

inline Tok classify( const Lex &lex, const str &text, const str &dflt ) {
    Tok t; t.text = text; t.sep = false;
    t.cls = lex.lookup( text );
    t.inLex = not t.cls.empty();
    if ( t.inLex ) return t;
    cps v = dec( text );
    size_t n = v.size();
    auto all = [&]( bool (*f)( UChar32 ), size_t a, size_t b ) { for ( size_t i = a; i < b; ++i ) if ( not f( v[i] ) ) return false; return b > a; };
    auto any = [&]( bool (*f)( UChar32 ) ) { for ( auto c : v ) if ( f( c ) ) return true; return false; };
    // digits SEP digits
    auto around = [&]( UChar32 s ) -> bool {
        for ( size_t i = 0; i < n; ++i ) if ( v[i] == s ) return i > 0 and i + 1 < n and all( isD, 0, i ) and all( isD, i + 1, n );
        return false;
    };
    auto pch = [&]() -> bool {      // A9 A99 AA9 AA99, each with an optional letter
        size_t i = 0, a = 0, d = 0;
        while ( i < n and AZ( v[i] ) ) { ++a; ++i; }
        while ( i < n and isD( v[i] ) ) { ++d; ++i; }
        if ( a < 1 or a > 2 or d < 1 or d > 2 ) return false;
        return i == n or ( i + 1 == n and AZ( v[i] ) );
    };
    auto pct = [&]() -> bool { return n == 3 and isD( v[0] ) and AZ( v[1] ) and ( isD( v[2] ) or AZ( v[2] ) ); };
    if ( around( '.' ) ) t.cls = { "NUMBER" };
    else if ( around( ',' ) ) { t.cls = { "NUMBER" }; t.text[ t.text.find( ',' ) ] = '.'; }
    else if ( all( isD, 0, n ) ) { t.cls = { "NUMBER" }; if ( n == 4 ) t.cls.insert( "QUAD" ); if ( n == 5 ) t.cls.insert( "QUINT" ); }
    else if ( text == "@" ) t.cls = { "ATSIGN" };
    else if ( text == "/" ) t.cls = { "SLASH" };
    else if ( around( '/' ) ) t.cls = { "FRACT" };
    else if ( pch() ) t.cls = { "MIXED", "PCH" };
    else if ( pct() ) t.cls = { "MIXED", "PCT" };
    else if ( all( isW_, 0, n ) ) {
        if ( any( isD ) ) t.cls = { "MIXED" };
        else { t.cls = { "WORD" }; if ( n == 1 ) t.cls.insert( "SINGLE" ); if ( n == 2 ) t.cls.insert( "DOUBLE" ); }
    }
    else if ( n == 1 and v[0] == EM ) t.cls = { "EMDASH" };
    else if ( text.size() and text.find_first_not_of( '-' ) == str::npos ) t.cls = { "DASH" };
    else if ( text == "&" ) t.cls = { "AMPERS" };
    else if ( all( isS, 0, n ) ) t.cls = { "SPACE" };
    else {
        bool p = n > 0;
        for ( auto c : v ) if ( not isP( c ) and c != '|' ) p = false;
        if ( p ) t.cls = { "PUNCT" };
    }
    if ( t.cls.empty() ) t.cls = { dflt };
    return t;
}

// ----------------------------------------------------------- splitting

inline bool endsWith( const str &s, const str &e ) { return s.size() >= e.size() and s.compare( s.size() - e.size(), e.size(), e ) == 0; }

// the pieces of a word that is not in the lexicon
inline vs pieces( const Lex &lex, const Tok &t ) {
    cps v = dec( t.text );
    size_t n = v.size();
    if ( t.cls.count( "MIXED" ) ) {
        auto digits = [&]( size_t a, size_t b ) { for ( size_t i = a; i < b; ++i ) if ( not isD( v[i] ) ) return false; return b > a; };
        if ( n > 1 and digits( 0, n - 1 ) and isL( v[n-1] ) ) return { enc( v, 0, n - 1 ), enc( v, n - 1 ) };
        if ( n > 1 and digits( 1, n ) and isL( v[0] ) ) return { enc( v, 0, 1 ), enc( v, 1 ) };
        return { t.text };
    }
    // longest attachable prefix that something follows within the word
    size_t p = 0, s = 0;
    for ( size_t k = n; k-- > 1; ) {
        str w = enc( v, 0, k );
        if ( isW_( v[k-1] ) != isW_( v[k] ) ) continue;
        for ( auto &e : lex.list ) if ( e.word == w and e.att.count( "ATT_PRE" ) ) p = k;
        if ( p ) break;
    }
    // shortest attachable suffix that something precedes
    for ( size_t k = 1; k < n; ++k ) {
        str w = enc( v, n - k );
        for ( auto &e : lex.list ) if ( e.word == w and e.att.count( "ATT_SUF" ) ) s = k;
        if ( s ) break;
    }
    if ( p and ( s == 0 or p + s == n ) ) return { enc( v, 0, p ), enc( v, p ) };
    if ( p and s and p + s < n ) return { enc( v, 0, p ), enc( v, p, n - s ), enc( v, n - s ) };
    if ( s ) return { enc( v, 0, n - s ), enc( v, n - s ) };
    return { t.text };
}

// ---------------------------------------------------------- tokenizing

inline str trimBlank( const str &s ) {
    const char *ws = " \f\n\r\t\v";
    size_t a = s.find_first_not_of( ws );
    if ( a == str::npos ) return " ";
    return s.substr( a, s.find_last_not_of( ws ) - a + 1 );
}

inline std::vector<Tok> tokens( const Lex &lex, const str &address, const std::set<str> &filter = std::set<str>() ) {
    std::vector<Tok> all, out;
    cps v = dec( upper( address, lex.locale ) );
    size_t i = 0, n = v.size();
    const std::set<cps> &words = lex.wordsOf();
    size_t longest = lex.longest;
    auto edge = [&]( size_t k ) { return k >= n or not isW( v[k] ); };
    while ( i < n ) {
        while ( i < n and isS( v[i] ) ) ++i;
        while ( i < n and v[i] == EM ) { ++i; while ( i < n and isS( v[i] ) ) ++i; }
        if ( i >= n ) break;
        size_t j = i;
        for ( size_t k = std::min( n - i, longest ); k > 0; --k )
            if ( edge( i + k ) and words.count( cps( v.begin() + i, v.begin() + i + k ) ) ) { j = i + k; break; }
        if ( j == i and isD( v[i] ) ) {         // 9/9 9.9 9,9
            size_t k = i;
            while ( k < n and isD( v[k] ) ) ++k;
            if ( k + 1 < n and ( v[k] == '/' or v[k] == '.' or v[k] == ',' ) and isD( v[k+1] ) ) {
                ++k;
                while ( k < n and isD( v[k] ) ) ++k;
                if ( edge( k ) ) j = k;
            }
        }
        if ( j == i ) while ( j < n and isW( v[j] ) ) ++j;
        if ( j > i ) {
            Tok t = classify( lex, enc( v, i, j ), "WORD" );
            if ( t.inLex ) all.push_back( t );
            else {
                vs p = pieces( lex, t );
                if ( p.size() == 1 ) {
                    if ( t.cls.count( "MIXED" ) ) t = classify( lex, p[0], "WORD" );
                    all.push_back( t );
                }
                else for ( auto &w : p ) all.push_back( classify( lex, w, "WORD" ) );
            }
        }
        i = j;
        while ( j < n and not isW( v[j] ) ) ++j;
        if ( j > i ) {
            Tok t = classify( lex, trimBlank( enc( v, i, j ) ), "PUNCT" );
            t.sep = true;
            all.push_back( t );
        }
        i = j;
    }
    for ( auto &t : all ) {
        bool drop = false;
        for ( auto &f : filter ) if ( t.cls.count( f ) ) drop = true;
        if ( not drop ) out.push_back( t );
    }
    return out;
}

inline vs splitBlank( const str &s ) {
    vs r; str t;
    for ( char c : s ) { if ( c == ' ' ) { if ( t.size() ) r.push_back( t ); t.clear(); } else t += c; }
    if ( t.size() ) r.push_back( t );
    if ( r.empty() ) r.push_back( s );
    return r;
}

// the alternates as an ordered list: bit k of the number chooses token k
inline std::vector<std::vector<Tok> > alternates( const Lex &lex, const std::vector<Tok> &in ) {
    std::vector<size_t> multi;
    for ( size_t i = 0; i < in.size(); ++i ) if ( splitBlank( in[i].text ).size() > 1 ) multi.push_back( i );
    std::vector<std::vector<Tok> > r;
    for ( size_t m = 1; m < ( (size_t) 1 << multi.size() ); ++m ) {
        std::vector<Tok> one;
        for ( size_t i = 0; i < in.size(); ++i ) {
            auto p = std::find( multi.begin(), multi.end(), i );
            if ( p != multi.end() and ( m >> ( p - multi.begin() ) & 1 ) )
                for ( auto &w : splitBlank( in[i].text ) ) one.push_back( classify( lex, w, "WORD" ) );
            else one.push_back( in[i] );
        }
        r.push_back( one );
    }
    return r;
}

inline str showToks( const std::vector<Tok> &v ) {
    str o;
    for ( auto &t : v ) o += "{" + t.text + "|" + csv( t.cls ) + ( t.inLex ? "|lex" : "" ) + "}";
    return o;
}

// ------------------------------------------------------------- grammar

struct MRule { vs in, out; double score; };
struct Section { str name; bool meta; std::vector<vs> refs; std::vector<MRule> rules; };
struct Gram {
    std::vector<Section> secs;
    const Section *find( const str &n ) const { for ( auto &s : secs ) if ( s.name == n ) return &s; return 0; }
};

inline str ruleText( const MRule &r ) {
    str o;
    for ( auto &c : r.in ) o += c + " ";
    o += "-> ";
    for ( auto &c : r.out ) o += c + " ";
    return o + "-> " + mc::num( r.score );
}
inline str gramText( const Gram &g ) {
    str o;
    for ( auto &s : g.secs ) {
        o += "[" + s.name + "]\n";
        for ( auto &l : s.refs ) { for ( size_t i = 0; i < l.size(); ++i ) o += ( i ? " @" : "@" ) + l[i]; o += "\n"; }
        for ( auto &r : s.rules ) o += ruleText( r ) + "\n";
    }
    return o;
}

typedef std::vector<const MRule*> Deriv;

// all leftmost derivations of the pattern from the start section: the
// section at the front is expanded; a section may only be matched while at
// most pattern+1 reference sections below the start have been expanded
inline void derive( const Gram &g, std::vector<const Section*> pending, const vs &pat, size_t pos, size_t metas, size_t limit, Deriv &cur, std::vector<Deriv> &out ) {
    if ( pending.empty() ) { if ( pos == pat.size() ) out.push_back( cur ); return; }
    if ( metas > limit ) return;
    const Section *s = pending.front();
    pending.erase( pending.begin() );
    if ( s->meta ) {
        for ( auto &l : s->refs ) {
            std::vector<const Section*> p;
            for ( auto &r : l ) p.push_back( g.find( r ) );
            p.insert( p.end(), pending.begin(), pending.end() );
            derive( g, p, pat, pos, metas + 1, limit, cur, out );
        }
    }
    else for ( auto &r : s->rules ) {
        if ( pos + r.in.size() > pat.size() ) continue;
        bool ok = true;
        for ( size_t i = 0; i < r.in.size(); ++i ) if ( r.in[i] != pat[pos+i] ) ok = false;
        if ( not ok ) continue;
        cur.push_back( &r );
        derive( g, pending, pat, pos + r.in.size(), metas, limit, cur, out );
        cur.pop_back();
    }
}
inline std::vector<Deriv> derivations( const Gram &g, const str &start, const vs &pat, size_t tokens ) {
    std::vector<Deriv> out;
    Deriv cur;
    // the start section counts as one expansion when it holds references
    size_t limit = tokens + 1 + ( g.find( start )->meta ? 1 : 0 );
    derive( g, { g.find( start ) }, pat, 0, 0, limit, cur, out );
    return out;
}

inline std::vector<vs> patterns( const std::vector<vs> &cls ) {
    std::vector<vs> r( 1 );
    for ( auto &c : cls ) {
        std::vector<vs> n;
        for ( auto &p : r ) for ( auto &x : c ) { vs q = p; q.push_back( x ); n.push_back( q ); }
        r = n;
    }
    return r;
}

}

#endif
