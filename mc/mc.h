// Bounded exhaustive exploration of the real code: a check enumerates every
// case of a finite space in a fixed order; the space is divided over forked
// workers (case number modulo workers), every case is compared with a
// reference model, and a failing case is replayed in a fresh process before
// it is reported.
#ifndef MC_H
#define MC_H

#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

typedef std::string str;

inline double now() {
    struct timeval tv;
    gettimeofday( &tv, 0 );
    return tv.tv_sec + tv.tv_usec * 1e-6;
}

inline uint64_t hash( const void *p, size_t n, uint64_t h = 1469598103934665603ULL ) {
    const unsigned char *c = (const unsigned char *) p;
    for ( size_t i = 0; i < n; ++i ) { h ^= c[i]; h *= 1099511628211ULL; }
    h ^= h >> 29;
    return h;
}
inline uint64_t hash( const str &s, uint64_t h = 1469598103934665603ULL ) { return hash( s.data(), s.size(), h ); }

inline str show( const str &s ) {          // printable form
    str o = "\"";
    char b[8];
    for ( unsigned char c : s ) {
        if ( c == '\n' ) o += "\\n";
        else if ( c == '\t' ) o += "\\t";
        else if ( c == '\r' ) o += "\\r";
        else if ( c == '"' or c == '\\' ) { o += '\\'; o += (char) c; }
        else if ( c < 32 or c == 127 ) { snprintf( b, sizeof b, "\\x%02x", c ); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

inline str num( double d ) { char b[64]; snprintf( b, sizeof b, "%.9g", d ); return b; }
template<class T> inline str join( const std::vector<T> &v, const str &sep ) {
    std::ostringstream o;
    for ( size_t i = 0; i < v.size(); ++i ) o << ( i ? sep : "" ) << v[i];
    return o.str();
}

struct Fail { str key, msg; };

inline str utf8( const str &o ) {       // malformed parts made visible
    char b[8];
    str r; size_t i = 0;
    while ( i < o.size() ) {
        unsigned char c = o[i];
        int n = c < 0x80 ? 1 : c >= 0xC2 and c < 0xE0 ? 2 : c >= 0xE0 and c < 0xF0 ? 3 : c >= 0xF0 and c < 0xF5 ? 4 : 0;
        bool good = n > 0 and i + n <= o.size();
        for ( int k = 1; good and k < n; ++k ) if ( ( (unsigned char) o[i+k] & 0xC0 ) != 0x80 ) good = false;
        if ( good and n == 3 and ( ( c == 0xE0 and (unsigned char) o[i+1] < 0xA0 ) or ( c == 0xED and (unsigned char) o[i+1] > 0x9F ) ) ) good = false;
        if ( good and n == 4 and ( ( c == 0xF0 and (unsigned char) o[i+1] < 0x90 ) or ( c == 0xF4 and (unsigned char) o[i+1] > 0x8F ) ) ) good = false;
        if ( good ) { r += o.substr( i, n ); i += n; }
        else { snprintf( b, sizeof b, "<%02x>", c ); r += b; ++i; }
    }
    return r;
}

inline str json( const str &s ) {
    str o = "\"";
    char b[8];
    for ( unsigned char c : s ) {
        if ( c == '"' or c == '\\' ) { o += '\\'; o += (char) c; }
        else if ( c < 32 ) { snprintf( b, sizeof b, "\\u%04x", c ); o += b; }
        else o += (char) c;
    }
    return utf8( o ) + "\"";
}

struct Page {                       // shared by parent and one worker
    volatile long idx;              // case being evaluated, -1 between cases
    volatile double start;          // when it started
    volatile int done;              // 1 finished, 2 stopped at a violation, 3 out of time
    volatile long total;            // cases enumerated
};

struct Opts {
    str id, tier, level, rule;
    std::vector<str> assumptions;
    double caseLimit, deadline;
    Opts() : level( "exploration" ), caseLimit( 60 ), deadline( 600 ) {}
};

class Ex {
public:
    // what this process runs
    int worker, workers;
    long only, upto;                // -1: no limit
    str outPrefix;
    Page *page;
    double deadline;
    bool thorough, smoke;
    std::map<str,str> known;        // key -> text

    long idx, evals, nontriv, trans, traces;
    std::unordered_set<uint64_t> outcomes, stateSet;
    std::vector<str> samples;
    std::map<str,long> phases;
    std::map<str,str> hit;          // known findings met
    str phaseName, pendingOutcome;
    bool pendingNontriv, stop;
    long nextSample;
    int failed;

    Ex() : worker(0), workers(1), only(-1), upto(-1), page(0), deadline(0), thorough(false), smoke(false),
           idx(-1), evals(0), nontriv(0), trans(0), traces(0), pendingNontriv(false), stop(false), nextSample(1), failed(0) {}

    void phase( const str &n ) { phaseName = n; }

    // the next case: does this process evaluate it?
    bool mine() {
        ++idx;
        if ( stop ) return false;
        if ( only >= 0 ) return idx == only;
        if ( idx % workers != worker ) return false;
        if ( upto >= 0 and idx > upto ) { stop = true; return false; }
        return true;
    }

    void require( bool ok, const str &msg, const str &key = "" ) { if ( not ok ) throw Fail{ key, msg }; }
    template<class A,class B> void eq( const A &got, const B &want, const str &what, const str &key = "" ) {
        if ( not ( got == want ) ) {
            std::ostringstream o;
            o << what << ":\n    got      " << got << "\n    expected " << want;
            throw Fail{ key, o.str() };
        }
    }
    // what was observed; distinct outcomes are counted
    void outcome( const str &s, bool nontrivial = true ) {
        pendingOutcome = s;
        pendingNontriv = nontrivial;
    }
    void state( const str &canon ) { if ( stateSet.size() < 4000000 ) stateSet.insert( hash( canon ) ); }
    void transition( long n = 1 ) { trans += n; }
    void trace( long n = 1 ) { traces += n; }

    template<class D,class B> void run( D desc, B body ) {
        if ( not mine() ) return;
        page->start = now();
        page->idx = idx;
        pendingOutcome.clear();
        pendingNontriv = false;
        if ( only >= 0 ) { std::ofstream f( outPrefix + ".desc" ); f << desc() << "\n"; }
        Fail bad{ "", "" };
        bool isBad = false;
        try { body(); }
        catch ( Fail &f ) { isBad = true; bad = f; }
        catch ( std::exception &e ) { isBad = true; bad.msg = str( "unexpected exception: " ) + e.what(); }
        catch ( ... ) { isBad = true; bad.msg = "unexpected exception"; }
        ++evals;
        ++phases[ phaseName ];
        if ( isBad ) {
            auto k = known.find( bad.key );
            if ( bad.key.size() and k != known.end() ) hit[ bad.key ] = k->second;
            else {
                std::ofstream f( outPrefix + ".fail" );
                f << idx << "\n" << desc() << "\n" << bad.msg << "\n";
                f.close();
                failed = 1;
                stop = true;
            }
        }
        else {
            if ( pendingNontriv ) {
                ++nontriv;
                if ( outcomes.size() < 4000000 ) outcomes.insert( hash( pendingOutcome ) );
            }
            if ( evals >= nextSample and samples.size() < 12 ) {
                str s = desc();
                if ( s.size() > 900 ) s = s.substr( 0, 900 ) + "...";
                str o = pendingOutcome;
                if ( o.size() > 300 ) o = o.substr( 0, 300 ) + "...";
                samples.push_back( s + "  =>  " + o );
                nextSample = nextSample * 7 + 3;
            }
        }
        page->idx = -1;
        if ( deadline > 0 and ( evals & 15 ) == 0 and now() > deadline ) { stop = true; failed = 3; }
    }

    void finish() {
        page->total = idx + 1;
        std::ofstream f( outPrefix + ".res" );
        f << "total " << idx + 1 << "\nevals " << evals << "\nnontriv " << nontriv << "\ntrans " << trans << "\ntraces " << traces << "\n";
        for ( auto &p : phases ) f << "phase " << p.second << " " << p.first << "\n";
        for ( auto &p : hit ) f << "hit " << p.first << "\n";
        for ( auto &s : samples ) { str t = s; for ( auto &c : t ) if ( c == '\n' ) c = '\x01'; f << "sample " << t << "\n"; }
        f.close();
        std::ofstream b( outPrefix + ".out", std::ios::binary );
        for ( auto h : outcomes ) b.write( (const char *) &h, 8 );
        std::ofstream t( outPrefix + ".states", std::ios::binary );
        for ( auto h : stateSet ) t.write( (const char *) &h, 8 );
    }
};

typedef void (*Explore)( Ex & );

inline str slurp( const str &f ) {
    std::ifstream i( f, std::ios::binary );
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}

struct Driver {
    Opts o;
    Explore fn;
    str dir, self;
    std::map<str,str> known;
    bool thorough, smoke;
    int workers;
    double t0;

    static Page *newPage() {
        return (Page *) mmap( 0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 );
    }

    pid_t spawn( Page *pg, int w, int n, long only, long upto, const str &prefix ) {
        unlink( ( prefix + ".fail" ).c_str() );
        unlink( ( prefix + ".res" ).c_str() );
        pg->idx = -1; pg->done = 0; pg->start = now();
        fflush( 0 );
        pid_t p = fork();
        if ( p ) return p;
        setpgid( 0, 0 );
        prctl( PR_SET_PDEATHSIG, SIGKILL );     // ends with the parent
        int fd = open( ( prefix + ".err" ).c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0644 );
        dup2( fd, 2 );
        dup2( fd, 1 );
        Ex x;
        x.worker = w; x.workers = n; x.only = only; x.upto = upto;
        x.outPrefix = prefix; x.page = pg; x.thorough = thorough; x.smoke = smoke; x.known = known;
        x.deadline = only >= 0 ? 0 : t0 + o.deadline;
        fn( x );
        x.finish();
        pg->done = x.failed ? x.failed + 1 : 1;     // 2 violation, 4 deadline
        fflush( 0 );
        _exit( 0 );
    }

    // run one process to its end; "" if it held, else what went wrong
    str single( int w, int n, long only, long upto, double limit, str &desc ) {
        str prefix = dir + "/replay";
        Page *pg = newPage();
        pid_t p = spawn( pg, w, n, only, upto, prefix );
        double s = now();
        int st = 0;
        while ( waitpid( p, &st, WNOHANG ) == 0 ) {
            usleep( 3000 );
            double lim = only >= 0 ? limit : o.deadline;
            bool hung = only < 0 and pg->idx >= 0 and now() - pg->start > limit;
            if ( now() - s > lim or hung ) {
                kill( -p, SIGKILL ); kill( p, SIGKILL );
                waitpid( p, &st, 0 );
                desc = only >= 0 ? slurp( prefix + ".desc" ) : "";
                munmap( pg, 4096 );
                return "did not end within " + num( lim ) + " s";
            }
        }
        bool ok = pg->done == 1 or pg->done == 4;
        bool viol = pg->done == 2;
        munmap( pg, 4096 );
        if ( only >= 0 ) desc = slurp( prefix + ".desc" );
        if ( viol ) {
            str f = slurp( prefix + ".fail" );
            return f;
        }
        if ( ok ) return "";
        str e = slurp( prefix + ".err" );
        if ( e.size() > 6000 ) e = e.substr( 0, 6000 );
        std::ostringstream m;
        if ( WIFSIGNALED( st ) ) m << "the process died of signal " << WTERMSIG( st );
        else m << "the process exited with status " << WEXITSTATUS( st );
        m << "\n" << e;
        return m.str();
    }

    int run( int argc, char **argv ) {
        t0 = now();
        long only = -1;
        workers = sysconf( _SC_NPROCESSORS_ONLN );
        if ( workers < 1 ) workers = 1;
        if ( workers > 8 ) workers = 8;
        thorough = smoke = false;
        str evidence, replayDir, knownFile;
        for ( int i = 1; i < argc; ++i ) {
            str a = argv[i];
            if ( a == "--tier" ) { o.tier = argv[++i]; thorough = o.tier == "thorough"; }
            else if ( a == "--dir" ) dir = argv[++i];
            else if ( a == "--evidence" ) evidence = argv[++i];
            else if ( a == "--replays" ) replayDir = argv[++i];
            else if ( a == "--known" ) knownFile = argv[++i];
            else if ( a == "--only" ) only = atol( argv[++i] );
            else if ( a == "--workers" ) workers = atoi( argv[++i] );
            else if ( a == "--smoke" ) smoke = true;
        }
        if ( thorough ) o.deadline = getenv( "MC_DEADLINE" ) ? atof( getenv( "MC_DEADLINE" ) ) : 3000;
        else if ( getenv( "MC_DEADLINE" ) ) o.deadline = atof( getenv( "MC_DEADLINE" ) );
        {   // known: property=P01 key=<key> <text>
            std::ifstream f( knownFile );
            str line, head = "known: property=" + o.id + " key=";
            while ( std::getline( f, line ) )
                if ( line.compare( 0, head.size(), head ) == 0 ) {
                    str r = line.substr( head.size() );
                    auto p = r.find( ' ' );
                    known[ r.substr( 0, p ) ] = p == str::npos ? "" : r.substr( p + 1 );
                }
        }
        if ( only >= 0 ) {
            str d, m = single( 0, 1, only, -1, o.caseLimit * 2, d );
            std::cout << utf8( d + ( m.size() ? m : str( "held\n" ) ) );
            return m.size() ? 1 : 0;
        }

        std::vector<Page*> pg( workers );
        std::vector<pid_t> pid( workers );
        for ( int w = 0; w < workers; ++w ) {
            pg[w] = newPage();
            pid[w] = spawn( pg[w], w, workers, -1, -1, dir + "/w" + std::to_string( w ) );
        }
        long badIdx = -1; int badW = -1;
        bool capped = false;
        std::vector<str> notes;
        std::vector<bool> live( workers, true );
        int alive = workers;
        int errors = 0;
        while ( alive > 0 and badIdx < 0 ) {
            usleep( 5000 );
            for ( int w = 0; w < workers and badIdx < 0; ++w ) {
                if ( not live[w] ) continue;
                int st = 0;
                pid_t r = waitpid( pid[w], &st, WNOHANG );
                if ( r == 0 ) {
                    if ( pg[w]->idx >= 0 and now() - pg[w]->start > o.caseLimit ) {
                        badIdx = pg[w]->idx; badW = w;
                        kill( -pid[w], SIGKILL ); kill( pid[w], SIGKILL );
                        waitpid( pid[w], &st, 0 );
                        live[w] = false; --alive;
                    }
                    continue;
                }
                live[w] = false; --alive;
                if ( pg[w]->done == 1 ) continue;
                if ( pg[w]->done == 4 ) { capped = true; continue; }
                if ( pg[w]->done == 2 ) {
                    badIdx = atol( slurp( dir + "/w" + std::to_string( w ) + ".fail" ).c_str() ); badW = w;
                    continue;
                }
                badIdx = pg[w]->idx; badW = w;
                if ( badIdx < 0 ) {     // died outside a case, while preparing the space
                    badIdx = -2;
                    alive = 0;
                    break;
                }
            }
            if ( badIdx == -2 ) break;
        }
        for ( int w = 0; w < workers; ++w )
            if ( live[w] ) { kill( -pid[w], SIGKILL ); kill( pid[w], SIGKILL ); waitpid( pid[w], 0, 0 ); }

        str violation, desc;
        if ( badIdx == -2 ) {
            // the fixed texts a space is built from are run on the real code
            // as well; a crash that happens again is one of the code
            str e1 = slurp( dir + "/w" + std::to_string( badW ) + ".err" ).substr( 0, 3000 ), d;
            str again = single( badW, workers, -1, 0, o.caseLimit * 2, d );
            if ( again.empty() ) { std::cout << "ERROR: worker " << badW << " ended outside a case, and not again\n" << e1 << "\n"; errors = 1; }
            else {
                mkdir( replayDir.c_str(), 0755 );
                str rf = replayDir + "/" + o.id + "-setup.txt";
                std::ofstream f( rf );
                f << "property " << o.id << "\nwhile the fixed texts of the space were loaded\n\n" << again << "\n\nreplay: python3 /verif/mc/run.py " << o.id << " " << o.tier << "\n";
                f.close();
                violation = again;
                std::cout << utf8( slurp( rf ).substr( 0, 12000 ) ) << "\nVIOLATION property=" << o.id << " replay=" << rf << std::endl;
            }
        }
        if ( badIdx >= 0 ) {
            str first = slurp( dir + "/w" + std::to_string( badW ) + ".fail" );
            violation = single( badW, workers, badIdx, -1, o.caseLimit * 2, desc );
            str how = "on its own";
            if ( violation.empty() ) {      // it may need what the worker did before
                for ( int k = 0; k < 2 and violation.empty(); ++k )
                    violation = single( badW, workers, -1, badIdx, o.caseLimit * 2, desc );
                how = "after the cases before it of worker " + std::to_string( badW ) + " of " + std::to_string( workers );
            }
            if ( violation.empty() ) {
                std::cout << "ERROR: case " << badIdx << " failed once and held when replayed\n" << first << "\n"
                          << slurp( dir + "/w" + std::to_string( badW ) + ".err" ).substr( 0, 3000 ) << "\n";
                errors = 1;
            }
            else {
                mkdir( replayDir.c_str(), 0755 );
                str rf = replayDir + "/" + o.id + "-" + std::to_string( badIdx ) + ".txt";
                std::ofstream f( rf );
                f << "property " << o.id << "\ncase " << badIdx << " (fails " << how << ")\n\n" << desc << "\n" << violation
                  << "\n\nreplay: python3 /verif/mc/run.py " << o.id << " " << o.tier << " --only " << badIdx << "\n";
                f.close();
                std::cout << utf8( slurp( rf ).substr( 0, 12000 ) ) << "\nVIOLATION property=" << o.id << " replay=" << rf << std::endl;
            }
        }

        // evidence
        long total = 0, evals = 0, nontriv = 0, trans = 0, traces = 0;
        std::map<str,long> phases;
        std::vector<str> samples;
        std::set<str> hits;
        std::unordered_set<uint64_t> outs, states;
        for ( int w = 0; w < workers; ++w ) {
            str pre = dir + "/w" + std::to_string( w );
            std::ifstream f( pre + ".res" );
            str line;
            while ( std::getline( f, line ) ) {
                std::istringstream l( line );
                str k; long n = 0;
                l >> k;
                if ( k == "sample" ) { if ( ( w == 0 or w == 3 ) and samples.size() < 14 ) { str s = line.substr( 7 ); for ( auto &c : s ) if ( c == '\x01' ) c = '\n'; samples.push_back( s ); } }
                else if ( k == "phase" ) { l >> n; str p; std::getline( l, p ); phases[ p.size() ? p.substr( 1 ) : "all" ] += n; }
                else if ( k == "hit" ) hits.insert( line.substr( 4 ) );
                else { l >> n; if ( k == "total" ) total = std::max( total, n ); else if ( k == "evals" ) evals += n; else if ( k == "nontriv" ) nontriv += n; else if ( k == "trans" ) trans += n; else if ( k == "traces" ) traces += n; }
            }
            for ( int s = 0; s < 2; ++s ) {
                str b = slurp( pre + ( s ? ".states" : ".out" ) );
                for ( size_t i = 0; i + 8 <= b.size(); i += 8 ) {
                    uint64_t h; memcpy( &h, b.data() + i, 8 );
                    ( s ? states : outs ).insert( h );
                }
            }
        }
        for ( auto &h : hits ) std::cout << "KNOWN-FINDING: property=" << o.id << " " << h << " " << known[h] << "\n";
        const char *seed = getenv( "VERIF_SEED" );
        std::ofstream e( evidence );
        e << "{\n \"property\": " << json( o.id ) << ",\n \"tier\": " << json( o.tier ) << ",\n \"seed\": " << ( seed ? atol( seed ) : 1 )
          << ",\n \"level\": " << json( o.level ) << ",\n \"coverage\": {\n";
        if ( o.level == "model_checking" )
            e << "  \"states\": " << states.size() << ",\n  \"transitions\": " << trans << ",\n  \"traces_validated_against_impl\": " << traces << ",\n"
              << "  \"evaluations\": " << evals << ",\n  \"distinct_outcomes\": " << outs.size() << ",\n";
        else
            e << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << outs.size() << ",\n  \"nontrivial_cases\": " << nontriv << ",\n";
        e << "  \"cases_in_space\": " << total << ",\n  \"exhaustive\": " << ( not capped and badIdx == -1 and evals == total ? "true" : "false" ) << ",\n"
          << "  \"rule\": " << json( o.rule ) << ",\n  \"cases_by_part\": {";
        bool c = false;
        for ( auto &p : phases ) { e << ( c ? ", " : "" ) << json( p.first ) << ": " << p.second; c = true; }
        e << "},\n  \"samples\": [";
        c = false;
        for ( auto &s : samples ) { e << ( c ? ",\n   " : "\n   " ) << json( s ); c = true; }
        e << "]\n },\n \"assumptions\": [";
        c = false;
        for ( auto &s : o.assumptions ) { e << ( c ? ", " : "" ) << json( s ); c = true; }
        e << "],\n \"violations\": " << ( violation.size() ? 1 : 0 ) << ",\n \"wall_s\": " << num( now() - t0 ) << "\n}\n";
        e.close();
        std::cout << o.id << " " << o.tier << ": " << evals << " of " << total << " cases, " << outs.size() << " distinct outcomes";
        if ( o.level == "model_checking" ) std::cout << ", " << states.size() << " states, " << trans << " transitions, " << traces << " traces";
        std::cout << ", " << num( now() - t0 ) << " s" << ( capped ? ", STOPPED AT THE TIME LIMIT" : "" ) << std::endl;
        if ( violation.size() ) return 1;
        if ( errors ) return 2;
        if ( evals == 0 ) { std::cout << "ERROR: nothing was explored\n"; return 2; }
        return 0;
    }
};

inline int main( int argc, char **argv, const Opts &o, Explore fn ) {
    Driver d;
    d.o = o;
    d.fn = fn;
    return d.run( argc, argv );
}

// every sequence over 0..base-1 of length lo..hi, shortest first
template<class F> inline void sequences( int base, int lo, int hi, F f ) {
    for ( int n = lo; n <= hi; ++n ) {
        std::vector<int> v( n, 0 );
        for (;;) {
            f( v );
            int i = n - 1;
            while ( i >= 0 and ++v[i] == base ) v[i--] = 0;
            if ( i < 0 ) break;
        }
    }
}

}

#endif
