// Conversions between the library's objects and the reference models.
#ifndef REAL_H
#define REAL_H

#include "model.h"
#include "token.h"
#include "lexicon.h"
#include "lexentry.h"
#include "tokenizer.h"
#include "grammar.h"
#include "search.h"

namespace rl {

using md::str;
using md::vs;
using mc::show;
using mc::num;
using mc::join;

inline std::set<InClass::Type> types( const md::classes &c ) {
    std::set<InClass::Type> r;
    for ( auto &n : c ) r.insert( InClass::asOneType( n ) );
    return r;
}
inline md::Tok tok( const Token &t ) {
    md::Tok r;
    r.text = t.text();
    for ( auto &c : t.inclass() ) r.cls.insert( InClass::asString( c ) );
    r.inLex = t.inLex();
    r.sep = false;
    return r;
}
inline std::vector<md::Tok> toks( const std::vector<Token> &v ) {
    std::vector<md::Tok> r;
    for ( auto &t : v ) r.push_back( tok( t ) );
    return r;
}
inline Token token( const str &text, const md::classes &c ) {
    Token t;
    t.text( text );
    t.inclass( types( c ) );
    return t;
}
inline md::Entry entry( const LexEntry &e ) {
    md::Entry r;
    r.word = e.word();
    r.std = e.stdword();
    for ( auto &c : e.type() ) r.type.insert( InClass::asString( c ) );
    for ( auto &a : e.attached() ) r.att.insert( InClass::asString( a ) );
    return r;
}

// a lexicon of the library with the entries of a model lexicon
inline Lexicon *load( const md::Lex &l ) {
    std::istringstream in( md::lexText( l.list, l.locale ) );
    return new Lexicon( "test", in );
}
inline std::vector<md::Tok> tokenize( Lexicon &l, const str &a, const std::set<str> &filter = std::set<str>() ) {
    Tokenizer t( l );
    t.filter( types( filter ) );
    return toks( t.getTokens( a ) );
}
inline str texts( const std::vector<md::Tok> &v ) { str o; for ( auto &t : v ) o += "{" + t.text + "}"; return o; }
inline str word( const md::cps &alpha, const std::vector<int> &v ) { str o; for ( int i : v ) o += md::enc( alpha[i] ); return o; }

}

#endif
