// P04: loading grammar texts, compared with a line parser.
#include "grams.h"
using namespace rl;
using namespace gr;

struct Want { bool ok; int status; Gram g; str why; };

static bool blank( char c ) { return c == ' ' or c == '\t' or c == '\r' or c == '\f' or c == '\v'; }
static vs fields( const str &s ) { vs r; str t; for ( char c : s + " " ) { if ( blank( c ) ) { if ( t.size() ) r.push_back( t ); t.clear(); } else t += c; } return r; }

static Want model( const str &text ) {
    Want w; w.ok = true; w.status = 0;
    auto bad = [&]( const str &m ) { if ( w.ok ) { w.ok = false; w.why = m; } };
    str s = text;
    if ( s.compare( 0, 3, "\xEF\xBB\xBF" ) == 0 ) s = s.substr( 3 );
    Section cur; bool open = false;
    auto close = [&]{ if ( open and ( cur.refs.size() or cur.rules.size() ) ) w.g.secs.push_back( cur ); };
    std::istringstream in( s );
    str line;
    while ( w.ok and std::getline( in, line ) ) {
        vs f = fields( line );
        if ( f.empty() or f[0][0] == '#' ) continue;
        size_t a = 0, b = line.size();
        while ( blank( line[a] ) ) ++a;
        while ( blank( line[b-1] ) ) --b;
        str t = line.substr( a, b - a );
        if ( t[0] == '[' and t[t.size()-1] == ']' and t.size() > 2 ) {
            close();
            cur = Section(); cur.meta = false; cur.name = t.substr( 1, t.size() - 2 ); open = true;
            if ( w.g.find( cur.name ) ) bad( "duplicate section" );
            continue;
        }
        if ( not open ) { bad( "data outside a section" ); break; }
        if ( line.find( '@' ) != str::npos ) {
            if ( cur.rules.size() ) { bad( "mixed" ); break; }
            cur.meta = true;
            vs refs;
            // references may touch: @A@B
            for ( auto &e : f ) {
                if ( e[0] != '@' ) bad( "no reference" );
                str n;
                for ( size_t i = 1; i <= e.size(); ++i ) {
                    if ( i == e.size() or e[i] == '@' ) { if ( n.empty() ) bad( "empty reference" ); refs.push_back( n ); n.clear(); }
                    else n += e[i];
                }
            }
            cur.refs.push_back( refs );
        }
        else {
            if ( cur.refs.size() ) { bad( "mixed" ); break; }
            MRule r; r.score = 0;
            int part = 0;
            for ( auto &e : f ) {
                if ( e == "->" ) ++part;
                else if ( part == 0 ) r.in.push_back( e );
                else if ( part == 1 ) r.out.push_back( e );
                else if ( part == 2 ) r.score = atof( e.c_str() );
            }
            if ( r.in.size() != r.out.size() or r.score <= 0 ) bad( "bad rule" );
            cur.rules.push_back( r );
        }
    }
    if ( not w.ok ) return w;
    close();
    std::set<str> refd;
    for ( auto &e : w.g.secs ) for ( auto &l : e.refs ) for ( auto &r : l ) { refd.insert( r ); if ( not w.g.find( r ) ) bad( "missing " + r ); }
    if ( not w.g.find( "ADDRESS" ) ) bad( "no ADDRESS" );
    for ( auto &e : w.g.secs ) if ( e.name != "ADDRESS" and not refd.count( e.name ) ) w.status = 1;
    return w;
}

// the grammar as the library writes it: sections of references, then of rules
static str dump( const Gram &g ) {
    Gram o;
    for ( int k = 0; k < 2; ++k ) for ( auto &s : g.secs ) if ( s.meta == ( k == 0 ) ) o.secs.push_back( s );
    return md::gramText( o );
}
static str lines( const str &s ) {      // without blank lines and blanks at the ends
    str o, l;
    std::istringstream in( s );
    while ( std::getline( in, l ) ) { vs f = fields( l ); if ( f.size() ) o += join( f, " " ) + "\n"; }
    return o;
}

static void one( mc::Ex &x, const str &text, bool search ) {
    x.run( [&]{ return "grammar text " + show( text ); }, [&]{
        Want w = model( text );
        for ( int way = 0; way < 2; ++way ) {
            str err;
            std::unique_ptr<Grammar> G;
            std::istringstream in( text );
            try { G.reset( way ? new Grammar( text.c_str() ) : new Grammar( in ) ); }
            catch ( std::exception &e ) { err = e.what(); }
            if ( not w.ok ) {
                if ( G ) { std::ostringstream o; o << *G; x.require( false, "the text must be rejected (" + w.why + ") but was loaded as " + show( o.str() ) ); }
                x.require( err.size() > 0, "rejected without a message" );
                x.outcome( "rejected: " + w.why, true );
                continue;
            }
            x.require( G.get() != 0, "a good text was rejected: " + err );
            std::ostringstream o; o << *G;
            x.eq( lines( o.str() ), lines( dump( w.g ) ), "the grammar loaded" );
            x.eq( std::to_string( (int) G->status() ), std::to_string( w.status ), "status" );
            x.require( G->issues().empty() == ( w.status == 0 ), "issues do not agree with the status: " + show( G->issues() ) );
            std::istringstream again( o.str() );
            Grammar H( again );
            std::ostringstream p; p << H;
            x.eq( lines( p.str() ), lines( o.str() ), "the grammar written and loaded again" );
            x.require( H.status() == G->status(), "the grammar written and loaded again has another status" );
            if ( search ) {
                Search S( *G );
                vs cl = { A, B };
                mc::sequences( 2, 0, 3, [&]( const std::vector<int> &v ) {
                    std::vector<Token> t; vs pat;
                    for ( int i : v ) { t.push_back( token( "t", { cl[i] } ) ); pat.push_back( cl[i] ); }
                    size_t got = S.search( t ).size(), want = md::derivations( w.g, "ADDRESS", pat, pat.size() ).size();
                    x.require( got == want, "the loaded grammar has " + std::to_string( got ) + " derivations of [" + join( pat, " " ) + "] instead of " + std::to_string( want ) );
                } );
            }
            x.outcome( std::to_string( w.status ) + lines( o.str() ), true );
        }
    } );
}

static void explore( mc::Ex &x ) {
    bool T = x.thorough;
    const vs full = {
        "[ADDRESS]", "[R1]", "[M]", "  [R2]\t", "@R1", "@M @R1", "  @R1\t@R2 ", "@ADDRESS",
        "NUMBER -> HOUSE -> 0.5", " WORD\tNUMBER  ->  STREET HOUSE ->\t1 ", "-> -> 0.25", "# @R1 [X] -> comment", "  ",
        "NUMBER -> HOUSE", "NUMBER -> -> 0.5", "WORD -> STREET -> 0", "WORD -> STREET -> -1", "@R1 foo", "[ADDRESS] # no"
    };
    auto put = [&]( const vs &l, const vs &pool, const std::vector<int> &v, const str &eol, bool last ) { str s; for ( size_t i = 0; i < v.size(); ++i ) s += pool[v[i]] + ( i + 1 < v.size() or last ? eol : "" ); (void) l; return s; };
    x.phase( "every text of up to 3 (4) lines over 19 line shapes" );
    mc::sequences( full.size(), 0, T ? 4 : 3, [&]( const std::vector<int> &v ) { one( x, put( full, full, v, "\n", v.size() % 2 ), false ); } );
    x.phase( "every text of 4 or 5 (6) lines over 8 line shapes, from a root on" );
    const vs some = { "[R1]", "[M]", "@R1", "@M @R1", "NUMBER -> HOUSE -> 0.5", "# comment", "[ADDRESS]", "WORD -> -> 0.5" };
    mc::sequences( some.size(), 3, T ? 5 : 4, [&]( const std::vector<int> &v ) { one( x, "[ADDRESS]\n" + put( some, some, v, "\n", true ), v.size() < 4 ); } );

    x.phase( "a good text with one line (two lines) put in at every place, changed or left out, in every encoding" );
    const vs good = { "[ADDRESS]", "@M @R1", "@R1", "[M]", "@R2 @M", "@R2", "[R1]", "NUMBER WORD -> HOUSE STREET -> 0.75", "NUMBER -> HOUSE -> 0.5", "[R2]", "WORD -> CITY -> 1.25", "-> -> 0.125" };
    auto enc = [&]( const vs &l, bool all ) {
        for ( int e = 0; e < ( all ? 8 : 2 ); ++e ) {
            if ( not all and e ) e = 7;
            str s = e & 1 ? "\xEF\xBB\xBF" : "";
            for ( size_t i = 0; i < l.size(); ++i ) s += l[i] + ( i + 1 < l.size() or ( e & 2 ) ? ( e & 4 ? "\r\n" : "\n" ) : "" );
            one( x, s, true );
        }
    };
    enc( good, true );
    for ( size_t i = 0; i < good.size(); ++i ) { vs l = good; l.erase( l.begin() + i ); enc( l, true ); }
    for ( size_t i = 0; i < good.size(); ++i ) for ( size_t j = i; j < good.size(); ++j ) { vs l = good; std::swap( l[i], l[j] ); enc( l, false ); }
    for ( size_t i = 0; i <= good.size(); ++i ) for ( auto &e : full ) { vs l = good; l.insert( l.begin() + i, e ); enc( l, true ); }
    for ( size_t i = 0; i < good.size(); ++i ) for ( auto &e : full ) { vs l = good; l[i] = e; enc( l, false ); }
    for ( size_t i = 0; i < good.size(); ++i ) for ( size_t j = i; j < good.size(); ++j ) for ( size_t a = 0; a < full.size(); ++a ) for ( size_t b = 0; b < full.size(); ++b ) {
        if ( not T and ( i * 7 + j * 5 + a * 3 + b ) % 17 ) continue;
        vs l = good; l.insert( l.begin() + j, full[b] ); l.insert( l.begin() + i, full[a] ); enc( l, false );
    }

    x.phase( "a good text with a line that begins with every one or two ASCII characters, at every place" );
    {
        str ch; for ( int c = 9; c < 127; ++c ) if ( c >= 32 or c == 9 or c == 11 or c == 12 ) ch += (char) c;
        for ( char a : ch ) for ( char b : str( isalnum( (unsigned char) a ) ? "a" : ch.c_str() ) ) {
            if ( not T and isalnum( (unsigned char) b ) and b != 'a' and b != '1' ) continue;
            for ( const char *rest : { "", " note" } ) {
                if ( *rest != ' ' and not ispunct( (unsigned char) a ) ) continue;
                for ( size_t i = 0; i <= good.size(); i += T ? 1 : 4 ) { vs l = good; l.insert( l.begin() + i, str( 1, a ) + b + rest ); enc( l, false ); }
            }
        }
    }

    x.phase( "every order of the sections" );
    {
        std::vector<vs> secs = { { "[ADDRESS]", "@M @R1", "@R2" }, { "[M]", "@R2 @M", "@R1" }, { "[R1]", "NUMBER -> HOUSE -> 0.5" }, { "[R2]", "WORD -> CITY -> 1.25", "-> -> 0.125" }, { "[U]", "WORD -> STREET -> 1" } };
        std::vector<int> p = { 0, 1, 2, 3, 4 };
        do { for ( int n = 3; n <= 5; ++n ) { vs l; for ( int i = 0; i < n; ++i ) l.insert( l.end(), secs[p[i]].begin(), secs[p[i]].end() ); enc( l, true ); } } while ( std::next_permutation( p.begin(), p.end() ) );
    }
    x.phase( "every structure of the grammar space, with and without decoration" );
    structures( T ? 1 : 0, [&]( const Gram &g ) {
        str s = md::gramText( g );
        one( x, s, false );
        str d = "# head\n\n";
        for ( char c : s ) { if ( c == ' ' ) d += "\t "; else if ( c == '\n' ) d += " \r\n   # note\r\n\r\n"; else if ( c == '[' ) d += "  ["; else d += c; }
        one( x, d, false );
    } );
    x.phase( "every input and output class, rules of every length up to 12, scores" );
    for ( int i = 0; i <= 36; ++i ) for ( int o = 0; o <= 30; ++o ) {
        str a = InClass::asString( InClass::asType( i ) ), b = OutClass::asString( OutClass::asType( o ) );
        if ( a == "BADTOKEN" or ( b == "BADTOKEN" and o ) ) continue;
        one( x, "[ADDRESS]\n" + a + " -> " + b + " -> 0.5\n" + a + " " + a + " -> " + b + " " + b + " -> 0.25\n", false );
    }
    for ( int n = 0; n <= 12; ++n ) for ( int m = 0; m <= 12; ++m ) {
        str l = "[ADDRESS]\n";
        for ( int i = 0; i < n; ++i ) l += i % 2 ? "WORD " : "NUMBER ";
        l += "-> ";
        for ( int i = 0; i < m; ++i ) l += i % 2 ? "STREET " : "HOUSE ";
        one( x, l + "-> 0.5", true );
    }
    for ( str sc : { "1", "0.5", ".5", "5e-1", "100", "0.001", "1e-5", "0", "0.0", "-0.5", "x", "", "0x", "99999", "0.3", "0.7", "1.0", "+1" } ) one( x, "[ADDRESS]\nWORD -> CITY -> " + sc + "\n", false );
    x.phase( "section names of every ASCII character and of other letters" );
    vs chars;
    for ( int c = 33; c < 127; ++c ) chars.push_back( str( 1, (char) c ) );
    for ( str c : { "\xC3\x9C", "\xC3\xB1", "\xD0\x96", "\xE5\xB1\xB1", "\xF0\x90\x90\x80" } ) chars.push_back( c );
    for ( auto &c : chars ) {
        bool word = c.size() > 1 or isalnum( c[0] ) or c == "_";
        for ( str n : { c, "X" + c, c + "X", "X" + c + "X", c + c } ) {
            one( x, "[ADDRESS]\nWORD -> CITY -> 1\n[" + n + "]\nNUMBER -> HOUSE -> 0.5\n", true );
            one( x, "[" + n + "]\nNUMBER -> HOUSE -> 0.5\n[ADDRESS]\nWORD -> CITY -> 1\n[" + n + "]\n", false );
            if ( word ) one( x, "[ADDRESS]\n@" + n + " @" + n + "\n@M\n[" + n + "]\nNUMBER -> HOUSE -> 0.5\n[M]\n@" + n + "\n", true );
        }
    }
    for ( str n : { " X", "X ", " X ", "X Y", "X  Y", "\tX", "X\t", "X \t", " ADDRESS", "ADDRESS ", "X ]", "[X" } ) for ( str o : { "X", "X ", " X", "XY" } ) {
        one( x, "[ADDRESS]\nWORD -> CITY -> 1\n[" + n + "]\nNUMBER -> HOUSE -> 0.5\n[" + o + "]\nNUMBER -> HOUSE -> 0.25\n", true );
        one( x, "[" + n + "]\nNUMBER -> HOUSE -> 0.5\n[ADDRESS]\n@X\n[" + o + "]\nWORD -> CITY -> 1\n", true );
    }
    x.phase( "many sections, lines and references" );
    for ( int n = 1; n <= ( T ? 200 : 60 ); n += n < 20 ? 1 : 7 ) {
        Gram g; vs all;
        for ( int i = 0; i < n; ++i ) all.push_back( "S_" + std::to_string( i ) );
        g.secs.push_back( meta( "ADDRESS", { all, { "S_0" } } ) );
        for ( int i = 0; i < n; ++i ) {
            if ( i % 3 == 1 ) g.secs.push_back( meta( all[i], std::vector<vs>( 1 + i % 4, { all[( i + 1 ) % n], all[i] } ) ) );
            else g.secs.push_back( rules( all[i], std::vector<vs>( 1 + i % 5, vs( i % 7, A ) ) ) );
        }
        mark( g );
        one( x, md::gramText( g ), false );
    }
    x.phase( "long names, lines, rules, scores, lists of rules and of references" );
    for ( int n = 2; n <= ( T ? 400 : 160 ); n += n < 40 ? 1 : n < 70 ? 9 : 45 ) {
        str name, cls, outs, refs, many, lines, dup;
        for ( int i = 0; i < n; ++i ) {
            name += "ABCDEFGH_1"[i % 10];
            cls += i % 3 ? "WORD " : "NUMBER "; outs += i % 4 ? "STREET " : "HOUSE ";
            refs += i % 2 ? " @R" : " @" + str( 1 + i % 9, 'Q' );
            many += str( i % 2 ? "WORD" : "NUMBER" ) + " -> " + ( i % 3 ? "STREET" : "HOUSE" ) + " -> 0." + std::to_string( 101 + i ) + "\n";
            lines += i % 3 ? "@R @R\n" : "@R\n";
        }
        str qs; for ( int i = 1; i <= 9; ++i ) qs += "[" + str( i, 'Q' ) + "]\nNUMBER -> HOUSE -> 0.5\n";
        const str R = "[R]\nWORD -> CITY -> 1\n";
        one( x, "[ADDRESS]\n@" + name + "\n@" + name + " @" + name + "X\n[" + name + "]\nWORD -> CITY -> 1\n[" + name + "X]\nNUMBER -> HOUSE -> 1\n", true );
        one( x, "[ADDRESS]\n@" + name + "\n@" + name + "Y\n[" + name + "]\nWORD -> CITY -> 1\n[" + name + "X]\nNUMBER -> HOUSE -> 1\n", false );
        one( x, "[ADDRESS]\n" + cls + "-> " + outs + "-> 0.5\nWORD -> CITY -> 1\n", n < 12 );
        one( x, "[ADDRESS]\n" + cls + "WORD -> " + outs + "-> 0.5\n", false );
        one( x, "[ADDRESS]\n" + refs.substr( 1 ) + "\n@R\n" + R + qs, false );
        one( x, "[ADDRESS]\n@R\n[R]\n" + many, false );
        one( x, "[ADDRESS]\n" + lines + R, false );
        one( x, "[ADDRESS]\n@R\n" + str( n, '\n' ) + "# " + name + "\n#" + str( n, ' ' ) + "@X\n" + str( n, ' ' ) + R, true );
        one( x, "[ADDRESS]\nWORD" + str( n, ' ' ) + "->" + str( n, '\t' ) + "CITY ->" + str( n, ' ' ) + "0.5" + str( n, ' ' ) + "\n", true );
        one( x, "[ADDRESS]\n@R" + str( n, ' ' ) + "@R" + str( n, '\t' ) + "\n" + R, true );
        // the last section is referred to by none, is written twice, or refers to none
        str secs, twice, lost;
        for ( int i = 0; i < n; ++i ) { str m = "S" + std::to_string( i ); secs += "[" + m + "]\n" + ( i % 2 ? "WORD -> CITY -> 1\n" : "@R\n" ); }
        const str top = "[ADDRESS]\n@R\n@S" + std::to_string( n - 1 ) + "\n";
        one( x, top + secs + R, false );
        one( x, secs + top + R, false );
        for ( int k : { 0, 1, n / 2, n - 1 } ) one( x, top + secs + R + "[S" + std::to_string( k ) + "]\n" + ( k % 2 ? "WORD -> CITY -> 1\n" : "@R\n" ), false );
        for ( int k : { 0, n - 1 } ) { str t = secs; size_t at = t.find( "[S" + std::to_string( k ) + "]\n" ); t.insert( t.find( '\n', at ) + 1, "@NONE\n" ); one( x, top + t + R, false ); }
        one( x, top + secs, false );
        for ( int i = 0; i < n; ++i ) lost += "@R @S" + std::to_string( i ) + "\n";
        one( x, "[ADDRESS]\n" + lost + secs + R, false );
        one( x, "[ADDRESS]\n" + lost + "@R @S" + std::to_string( n ) + "\n" + secs + R, false );
    }
    for ( str sc : { "0.12", "0.123", "0.1234", "0.12345", "0.123456", "1.5", "12.25", "123.25", "1234.5", "12345.5", "0.00012", "0.50000", "1.000000", "00000.5", "0000000001", "1.25e2", "1.25e-2" } ) one( x, "[ADDRESS]\nWORD -> CITY -> " + sc + "\nWORD NUMBER -> CITY HOUSE -> " + sc + "  \n", false );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P04";
    o.rule = "one evaluation per grammar text, loaded from a stream and from memory, compared with a line parser (accepted or rejected, sections, rules, status), written out and loaded again; distinct outcomes are distinct grammars and distinct reasons of rejection";
    o.assumptions = { "a section without lines counts as not written", "class names are known ones; scores have at most six digits" };
    return mc::main( argc, argv, o, explore );
}
