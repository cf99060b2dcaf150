// Deterministic simulation engine: recorded choices, isolated runs, shrinking, replay, evidence.
// One seed decides everything: every decision of a run is a draw from Ctx; a run is a pure function
// of the code and of its list of draws.
#pragma once
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace dst {

using u64 = std::uint64_t; using u32 = std::uint32_t; using u16 = std::uint16_t; using u8 = std::uint8_t;

inline u64 mix64( u64 x ) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline u64 hash_str( char const * s ) { u64 h = 1469598103934665603ull; while ( *s ) { h ^= (u8)*s++; h *= 1099511628211ull; } return mix64( h ); }

struct Violation { std::string cls, msg; };
struct Reject {};      // the drawn case is outside the property's domain; counted, not judged

constexpr size_t kMaxChoices = 1u << 21;
constexpr size_t kLogCap     = 1u << 21;

// State of an isolated run that must survive a crash of the child.
struct SharedRun { u64 hash; u64 nchoices; u64 done; u64 loglen; char log[kLogCap]; u64 choices[kMaxChoices]; };

struct Stats
{
    std::map<std::string,u64> faults, probes, counts, known;
    u64 runs = 0, rejected = 0, nontrivial = 0, steps = 0; double simtime = 0;
};

class Ctx
{
public:
    Stats & st; bool verbose = false;
    u64 hash = 0x1234567; u64 sig = 0; bool nontrivial = false; bool rejected = false;
    double simtime = 0;         // simulated seconds of this run
    u64 steps = 0, step_cap = 0;
    std::string text; SharedRun * sh = nullptr; bool thorough = false;

    Ctx( Stats & s, u64 seed ) : st( s ), rng( seed ) {}
    Ctx( Stats & s, std::vector<u64> const & given_ ) : st( s ), given( &given_ ) {}

    // ---- choices. 0 is always the simplest outcome.
    u64 draw( u64 n )
    {
        if ( n <= 1 ) return 0;
        u64 v;
        if ( given ) { v = pos < given->size() ? (*given)[pos] : 0; ++pos; if ( v >= n ) v = n - 1; }
        else { rng += 0x9e3779b97f4a7c15ull; u64 z = rng; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31;
               v = (u64)( ( (unsigned __int128) z * n ) >> 64 ); }
        if ( sh ) { if ( sh->nchoices < kMaxChoices ) sh->choices[ sh->nchoices++ ] = v; }
        return v;
    }
    bool chance( u64 num, u64 den ) { return draw( den ) >= den - num; }
    long range( long lo, long hi )  { return lo + (long) draw( (u64)( hi - lo + 1 ) ); }
    u64  logu( u64 max )            // log-uniform in [0,max], monotone in its single draw
    {
        u64 r = draw( 1u << 16 );
        double v = std::exp2( (double) r / 65536.0 * std::log2( (double) max + 1.0 ) ) - 1.0;
        u64 k = (u64) v; return k > max ? max : k;
    }
    double real( double lo, double hi ) { return lo + ( hi - lo ) * ( (double) draw( 1u << 20 ) / ( 1u << 20 ) ); }

    // ---- log and measures
    void h( u32 x ) { h( (u64) x ); }
    void h( u64 x ) { hash = mix64( hash ^ x ); if ( sh ) sh->hash = hash; }
    void h( double d ) { u64 x; std::memcpy( &x, &d, 8 ); h( x ); }
    __attribute__(( format( printf, 2, 3 ) )) void ev( char const * fmt, ... )
    {
        char buf[512]; va_list ap; va_start( ap, fmt ); vsnprintf( buf, sizeof buf, fmt, ap ); va_end( ap );
        h( hash_str( buf ) ); note_( buf );
    }
    __attribute__(( format( printf, 2, 3 ) )) void note( char const * fmt, ... )    // text only
    {
        if ( !verbose ) return;
        char buf[512]; va_list ap; va_start( ap, fmt ); vsnprintf( buf, sizeof buf, fmt, ap ); va_end( ap ); note_( buf );
    }
    void cover( u64 x ) { sig = mix64( sig ^ x ); }
    void fault( char const * k, u64 n = 1 ) { st.faults[k] += n; nontrivial = true; cover( hash_str( k ) ); note( "  ! fault: %s", k ); }
    void probe( char const * k, u64 n = 1 ) { st.probes[k] += n; }
    void count( char const * k, u64 n = 1 ) { st.counts[k] += n; }
    void step( u64 n = 1 ) { steps += n; if ( step_cap && steps > step_cap ) fail( "runaway", "no progress within the step bound" ); }

    [[noreturn]] __attribute__(( format( printf, 3, 4 ) )) void fail( char const * cls, char const * fmt, ... )
    {
        char buf[2048]; va_list ap; va_start( ap, fmt ); vsnprintf( buf, sizeof buf, fmt, ap ); va_end( ap );
        ev( "VIOLATION [%s]", cls ); note_( buf );
        throw Violation{ cls, buf };
    }
    [[noreturn]] void reject() { rejected = true; throw Reject{}; }

private:
    void note_( char const * s )
    {
        if ( !verbose || !sh ) return;
        size_t n = std::strlen( s ); if ( sh->loglen + n + 2 > kLogCap ) return;
        std::memcpy( sh->log + sh->loglen, s, n ); sh->loglen += n; sh->log[ sh->loglen++ ] = '\n';
    }
    u64 rng = 0; std::vector<u64> const * given = nullptr; size_t pos = 0;
};

struct Scenario { char const * name; u64 quick, thorough; std::function<void( Ctx & )> run; };

struct Check
{
    char const * property; char const * rule; char const * distinct_measure;
    std::vector<char const *> real, stub, assumptions;
    std::vector<Scenario> scenarios;
    double quick_wall = 240, thorough_wall = 780;
    int    run_cpu_s = 20;
};

// ---------------------------------------------------------------------------------------------

namespace detail {

inline double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome { bool violated = false; std::string cls, msg; u64 hash = 0; std::vector<u64> choices; std::string log; };

inline SharedRun *& shared_run_ptr() { static SharedRun * p = nullptr; return p; }
inline SharedRun * shared_run()
{
    SharedRun *& p = shared_run_ptr();
    if ( !p ) p = (SharedRun *) mmap( nullptr, sizeof( SharedRun ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    return p;
}

inline void arm( int s ) { itimerval t{}; t.it_value.tv_sec = s; setitimer( ITIMER_PROF, &t, nullptr ); }

// Run one scenario in an isolated child. Either from a seed or from a list of choices.
inline Outcome isolated( Check const & ck, Scenario const & sc, u64 seed, std::vector<u64> const * given, bool verbose, bool thorough )
{
    SharedRun * sh = shared_run(); sh->hash = 0; sh->nchoices = 0; sh->done = 0; sh->loglen = 0;
    int fd[2]; if ( pipe( fd ) ) { perror( "pipe" ); _exit( 2 ); }
    fflush( nullptr );
    pid_t pid = fork();
    if ( pid < 0 ) { perror( "fork" ); _exit( 2 ); }
    if ( pid == 0 )
    {
        close( fd[0] ); arm( ck.run_cpu_s );
        if ( !verbose ) { int n = open( "/dev/null", O_WRONLY ); if ( n >= 0 ) { dup2( n, 2 ); } }
        Stats st; std::string out;
        auto go = [&]( Ctx & c ) {
            c.verbose = verbose; c.sh = sh; c.thorough = thorough;
            try { sc.run( c ); out = "ok\n"; }
            catch ( Violation const & v ) { out = "violation\n" + v.cls + "\n" + v.msg + "\n"; }
            catch ( Reject const & ) { out = "reject\n"; }
            sh->hash = c.hash;
        };
        if ( given ) { Ctx c( st, *given ); go( c ); } else { Ctx c( st, seed ); go( c ); }
        sh->done = 1;
        size_t o = 0; while ( o < out.size() ) { ssize_t k = write( fd[1], out.data() + o, out.size() - o ); if ( k <= 0 ) break; o += k; }
        _exit( 0 );
    }
    close( fd[1] );
    std::string in; char buf[4096]; double t0 = now(); bool killed = false;
    for (;;)
    {
        pollfd p{ fd[0], POLLIN, 0 }; int r = poll( &p, 1, 1000 );
        if ( r > 0 ) { ssize_t k = read( fd[0], buf, sizeof buf ); if ( k <= 0 ) break; in.append( buf, k ); }
        else if ( now() - t0 > ck.run_cpu_s * 5 ) { kill( pid, SIGKILL ); killed = true; break; }
    }
    close( fd[0] );
    int status = 0; waitpid( pid, &status, 0 );
    Outcome o; o.hash = sh->hash; o.choices.assign( sh->choices, sh->choices + sh->nchoices ); o.log.assign( sh->log, sh->loglen );
    if ( killed ) { o.violated = true; o.cls = "hang"; o.msg = "the run did not end"; }
    else if ( WIFSIGNALED( status ) )
    {
        int s = WTERMSIG( status );
        o.violated = true; o.cls = s == SIGPROF ? "hang" : std::string( "crash:" ) + ( sigabbrev_np( s ) ? sigabbrev_np( s ) : "?" );
        o.msg = s == SIGPROF ? "the run did not end within its processor-time bound" : "the code under test crashed";
    }
    else if ( WEXITSTATUS( status ) != 0 ) { o.violated = true; o.cls = "crash:exit" + std::to_string( WEXITSTATUS( status ) ); o.msg = "the code under test ended the process (sanitizer report or abort)"; }
    else
    {
        std::istringstream is( in ); std::string l; std::getline( is, l );
        if ( l == "violation" ) { o.violated = true; std::getline( is, o.cls ); std::getline( is, o.msg, '\0' ); while ( !o.msg.empty() && o.msg.back() == '\n' ) o.msg.pop_back(); }
    }
    return o;
}

inline std::string json_str( std::string const & s )
{
    std::string o = "\""; char b[8];
    for ( unsigned char ch : s ) { if ( ch == '"' || ch == '\\' ) { o += '\\'; o += ch; } else if ( ch == '\n' ) o += "\\n"; else if ( ch < 32 || ch > 126 ) { snprintf( b, sizeof b, "\\u%04x", ch ); o += b; } else o += ch; }
    return o + "\"";
}
inline std::string json_map( std::map<std::string,u64> const & m )
{
    std::string o = "{"; bool first = true;
    for ( auto & kv : m ) { if ( !first ) o += ", "; first = false; o += json_str( kv.first ) + ": " + std::to_string( kv.second ); }
    return o + "}";
}
template< typename V > inline std::string json_list( V const & v )
{
    std::string o = "["; bool first = true; for ( auto & s : v ) { if ( !first ) o += ", "; first = false; o += json_str( s ); } return o + "]";
}

struct Slot { std::atomic<u64> cur; std::atomic<u64> active; std::atomic<u64> done; };
struct Shared { std::atomic<u64> best; std::atomic<u64> stopped; Slot slot[64]; };

inline void dump( std::ostream & os, char const * tag, std::map<std::string,u64> const & m ) { for ( auto & kv : m ) os << tag << '\t' << kv.first << '\t' << kv.second << '\n'; }

inline u64 run_seed( u64 verif_seed, char const * prop, char const * scen, u64 idx ) { return mix64( mix64( verif_seed * 0x9e37 + hash_str( prop ) ) ^ hash_str( scen ) ^ mix64( idx ) ); }

inline void mkdirs( std::string const & p ) { for ( size_t i = 1; i <= p.size(); ++i ) if ( i == p.size() || p[i] == '/' ) mkdir( p.substr( 0, i ).c_str(), 0777 ); }

inline std::vector<u64> shrink( Check const & ck, Scenario const & sc, std::vector<u64> best, std::string const & cls, bool thorough, double budget_s, u64 & tried )
{
    double t0 = now(); tried = 0;
    auto over = [&] { return now() - t0 > budget_s || tried > 6000; };
    auto test = [&]( std::vector<u64> const & c ) -> bool {
        ++tried; Outcome o = isolated( ck, sc, 0, &c, false, thorough );
        if ( !( o.violated && o.cls == cls ) ) return false;
        std::vector<u64> nc = o.choices; while ( !nc.empty() && nc.back() == 0 ) nc.pop_back();
        auto less = []( std::vector<u64> const & a, std::vector<u64> const & b ) { if ( a.size() != b.size() ) return a.size() < b.size(); return a < b; };
        if ( less( nc, best ) ) { best = nc; return true; }
        return false;
    };
    while ( !best.empty() && best.back() == 0 ) best.pop_back();
    bool progress = true;
    while ( progress && !over() )
    {
        progress = false;
        for ( size_t len = best.size(); len >= 1 && !over(); len = len == 1 ? 0 : ( len > 8 ? len / 2 : len - 1 ) )
        {
            for ( size_t at = 0; at + len <= best.size() && !over(); )
            {   // delete a chunk
                std::vector<u64> c( best ); c.erase( c.begin() + at, c.begin() + at + len );
                if ( test( c ) ) { progress = true; continue; }
                bool nz = false; for ( size_t i = at; i < at + len; ++i ) nz |= best[i] != 0;
                if ( nz && len > 1 ) { c = best; std::fill( c.begin() + at, c.begin() + at + len, 0 ); if ( test( c ) ) progress = true; }
                at += len > 1 ? len : 1;
            }
        }
        for ( size_t i = 0; i < best.size() && !over(); ++i )
        {   // lower single values
            if ( best[i] == 0 ) continue;
            std::vector<u64> c( best ); c[i] = 0; if ( test( c ) ) { progress = true; continue; }
            u64 lo = 0, hi = i < best.size() ? best[i] : 0;
            while ( hi - lo > 1 && i < best.size() && !over() )
            {
                u64 mid = lo + ( hi - lo ) / 2; c = best; if ( i >= c.size() ) break; c[i] = mid;
                if ( test( c ) ) { progress = true; hi = i < best.size() ? best[i] : 0; if ( hi <= lo ) break; } else lo = mid;
            }
        }
    }
    return best;
}

inline int replay_file( Check const & ck, std::string const & path, bool quiet )
{
    std::ifstream f( path ); std::string l, prop, scen, cls; u64 hash = 0; size_t n = 0; std::vector<u64> ch; bool thorough = false;
    while ( std::getline( f, l ) )
    {
        if ( l.rfind( "property: ", 0 ) == 0 ) prop = l.substr( 10 );
        else if ( l.rfind( "scenario: ", 0 ) == 0 ) scen = l.substr( 10 );
        else if ( l.rfind( "class: ", 0 ) == 0 ) cls = l.substr( 7 );
        else if ( l.rfind( "tier: ", 0 ) == 0 ) thorough = l.substr( 6 ) == "thorough";
        else if ( l.rfind( "hash: ", 0 ) == 0 ) hash = strtoull( l.c_str() + 6, nullptr, 16 );
        else if ( l.rfind( "choices: ", 0 ) == 0 ) { n = strtoull( l.c_str() + 9, nullptr, 10 ); for ( size_t i = 0; i < n; ++i ) { u64 v; f >> v; ch.push_back( v ); } break; }
    }
    if ( prop != ck.property ) { fprintf( stderr, "replay file is for property %s, this is %s\n", prop.c_str(), ck.property ); return 2; }
    for ( auto & s : ck.scenarios ) if ( scen == s.name )
    {
        Outcome o = isolated( ck, s, 0, &ch, !quiet, thorough );
        if ( !quiet ) printf( "%s", o.log.c_str() );
        if ( !o.violated ) { printf( "REPLAY: no violation (expected class %s)\n", cls.c_str() ); return 0; }
        printf( "REPLAY: class=%s hash=%016llx\n%s\n", o.cls.c_str(), (unsigned long long) o.hash, o.msg.c_str() );
        if ( o.cls == cls && o.hash == hash ) { printf( "VIOLATION property=%s replay=%s\n", ck.property, path.c_str() ); return 1; }
        printf( "REPLAY: differs from the recorded class=%s hash=%016llx\n", cls.c_str(), (unsigned long long) hash ); return 3;
    }
    fprintf( stderr, "unknown scenario %s\n", scen.c_str() ); return 2;
}

} // namespace detail

inline int dst_main( int argc, char ** argv, Check const & ck )
{
    using namespace detail;
    setvbuf( stdout, nullptr, _IOLBF, 0 );
    int pers = personality( 0xffffffff );
    if ( pers != -1 && !( pers & ADDR_NO_RANDOMIZE ) && !getenv( "DST_REEXEC" ) )
    {
        setenv( "DST_REEXEC", "1", 1 );
        if ( personality( pers | ADDR_NO_RANDOMIZE ) != -1 ) execv( "/proc/self/exe", argv );
    }
    std::string mode = argc > 1 ? argv[1] : "check";
    auto env = []( char const * k, char const * d ) { char const * v = getenv( k ); return std::string( v && *v ? v : d ); };
    u64 const vseed = strtoull( env( "VERIF_SEED", "1" ).c_str(), nullptr, 10 );
    std::string const tier = env( "VERIF_TIER", "quick" ); bool const thorough = tier == "thorough";

    if ( mode == "replay" ) return replay_file( ck, argv[2], argc > 3 && std::string( argv[3] ) == "quiet" );

    if ( mode == "one" )
    {   // one SCENARIO INDEX: print log of a run
        for ( auto & s : ck.scenarios ) if ( !strcmp( s.name, argv[2] ) )
        {
            Outcome o = isolated( ck, s, run_seed( vseed, ck.property, s.name, strtoull( argv[3], nullptr, 10 ) ), nullptr, true, thorough );
            printf( "%s\n%s hash=%016llx choices=%zu %s %s\n", o.log.c_str(), o.violated ? "VIOLATED" : "ok", (unsigned long long) o.hash, o.choices.size(), o.cls.c_str(), o.msg.c_str() ); return 0;
        }
        return 2;
    }
    if ( mode == "hashes" )
    {   // hashes of the given SCENARIO-number:INDEX pairs, in a fresh process, one isolated child each
        for ( int i = 2; i < argc; ++i )
        {
            int s; unsigned long long k; if ( sscanf( argv[i], "%d:%llu", &s, &k ) != 2 ) return 2;
            Outcome o = isolated( ck, ck.scenarios[s], run_seed( vseed, ck.property, ck.scenarios[s].name, k ), nullptr, false, thorough );
            printf( "H %016llx\n", (unsigned long long) o.hash );
        }
        return 0;
    }

    // ------------------------------------------------------------------ check
    double const t0 = now(); double const wall = thorough ? ck.thorough_wall : ck.quick_wall;
    double const scale = atof( env( "DST_SCALE", "1" ).c_str() );
    std::string const verif = env( "VERIF_DIR", "/verif" ), out = verif + "/out/" + ck.property;
    mkdirs( out ); mkdirs( verif + "/evidence" ); mkdirs( verif + "/replays" );
    int nw = atoi( env( "DST_WORKERS", "0" ).c_str() ); if ( nw <= 0 ) { nw = (int) sysconf( _SC_NPROCESSORS_ONLN ); } if ( nw > 8 ) nw = 8; if ( nw < 1 ) nw = 1;

    // known findings: "known: property=ID class=CLASS <text>"
    std::map<std::string,std::string> known;
    { std::ifstream f( verif + "/known_findings.txt" ); std::string l; std::string const pre = std::string( "known: property=" ) + ck.property + " class=";
      while ( std::getline( f, l ) ) if ( l.rfind( pre, 0 ) == 0 ) { auto r = l.substr( pre.size() ); auto sp = r.find( ' ' ); known[ r.substr( 0, sp ) ] = sp == std::string::npos ? "" : r.substr( sp + 1 ); } }

    // run table: interleave scenarios so that each gets a proportional share of any wall cap
    struct Item { int s; u64 k; };
    std::vector<Item> items;
    { std::vector<u64> want, have; u64 total = 0;
      for ( auto & s : ck.scenarios ) { u64 n = (u64)( ( thorough ? s.thorough : s.quick ) * scale ); if ( n < 1 ) n = 1; want.push_back( n ); have.push_back( 0 ); total += n; }
      items.reserve( total );
      for ( u64 i = 0; i < total; ++i ) { int b = -1; double br = 2; for ( size_t s = 0; s < want.size(); ++s ) { if ( have[s] >= want[s] ) continue; double r = ( have[s] + 0.5 ) / want[s]; if ( r < br ) { br = r; b = (int) s; } } items.push_back( { b, have[b]++ } ); } }
    u64 const N = items.size();

    Shared * S = (Shared *) mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    struct Rec { u64 hash, sig; u8 flags; };
    Rec * rec = (Rec *) mmap( nullptr, N * sizeof( Rec ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    S->best = ~0ull; S->stopped = 0;
    std::vector<pid_t> pids;
    fflush( nullptr );
    for ( int w = 0; w < nw; ++w )
    {
        pid_t pid = fork(); if ( pid < 0 ) { perror( "fork" ); return 2; }
        if ( pid == 0 )
        {
            Stats st;
            int dn = open( "/dev/null", O_WRONLY ); if ( dn >= 0 ) dup2( dn, 2 );
            for ( u64 i = w; i < N; i += nw )
            {
                if ( i > S->best.load() ) break;
                if ( now() - t0 > wall ) { S->stopped = 1; break; }
                S->slot[w].cur = i; S->slot[w].active = 1; arm( ck.run_cpu_s );
                auto & it = items[i]; auto & sc = ck.scenarios[it.s];
                Ctx c( st, run_seed( vseed, ck.property, sc.name, it.k ) ); c.thorough = thorough;
                bool bad = false;
                try { sc.run( c ); }
                catch ( Violation const & v ) { if ( known.count( v.cls ) ) st.known[v.cls]++; else bad = true; }
                catch ( Reject const & ) { st.rejected++; }
                st.runs++; st.simtime += c.simtime; st.steps += c.steps; st.counts[ std::string( "runs:" ) + sc.name ]++;
                rec[i].hash = c.hash; rec[i].sig = c.sig ^ hash_str( sc.name ); rec[i].flags = 1 | ( c.rejected ? 2 : 0 ) | ( c.nontrivial ? 4 : 0 );
                S->slot[w].active = 0; S->slot[w].done++;
                if ( bad ) { u64 b = S->best.load(); while ( i < b && !S->best.compare_exchange_weak( b, i ) ) {} break; }
            }
            arm( 0 );
            std::ofstream f( out + "/stats." + std::to_string( w ) );
            dump( f, "F", st.faults ); dump( f, "P", st.probes ); dump( f, "C", st.counts ); dump( f, "K", st.known );
            f << "T\truns\t" << st.runs << "\nT\trejected\t" << st.rejected << "\nT\tsteps\t" << st.steps << "\nD\tsimtime\t" << st.simtime << "\n"; f.close();
            _exit( 0 );
        }
        pids.push_back( pid );
    }
    bool crashed = false;
    for ( size_t w = 0; w < pids.size(); )
    {
        int status; pid_t r = waitpid( -1, &status, WNOHANG );
        if ( r > 0 )
        {
            ++w; for ( size_t j = 0; j < pids.size(); ++j ) if ( pids[j] == r && ( WIFSIGNALED( status ) || WEXITSTATUS( status ) ) )
            { crashed = true; u64 i = S->slot[j].cur, b = S->best.load(); if ( S->slot[j].active ) while ( i < b && !S->best.compare_exchange_weak( b, i ) ) {} }
            continue;
        }
        usleep( 2000 );
        if ( now() - t0 > wall + 60 + ck.run_cpu_s * 2 ) { for ( auto p : pids ) kill( p, SIGKILL ); fprintf( stderr, "workers did not stop\n" ); return 2; }
    }
    double const search_s = now() - t0;

    Stats st;
    for ( int w = 0; w < nw; ++w )
    {
        std::string p = out + "/stats." + std::to_string( w ); std::ifstream f( p ); std::string l;
        while ( std::getline( f, l ) )
        {
            auto a = l.find( '\t' ), b = l.rfind( '\t' ); if ( a == std::string::npos || a == b ) continue; std::string k = l.substr( a + 1, b - a - 1 ), v = l.substr( b + 1 );
            switch ( l[0] ) { case 'F': st.faults[k] += strtoull( v.c_str(), 0, 10 ); break; case 'P': st.probes[k] += strtoull( v.c_str(), 0, 10 ); break;
                case 'C': st.counts[k] += strtoull( v.c_str(), 0, 10 ); break; case 'K': st.known[k] += strtoull( v.c_str(), 0, 10 ); break;
                case 'T': if ( k == "runs" ) st.runs += strtoull( v.c_str(), 0, 10 ); else if ( k == "rejected" ) st.rejected += strtoull( v.c_str(), 0, 10 ); else st.steps += strtoull( v.c_str(), 0, 10 ); break;
                case 'D': st.simtime += atof( v.c_str() ); break; }
        }
        f.close(); unlink( p.c_str() );
    }
    std::set<u64> sigs, sigs_nt; for ( u64 i = 0; i < N; ++i ) if ( rec[i].flags & 1 ) { sigs.insert( rec[i].sig ); if ( ( rec[i].flags & 4 ) && !( rec[i].flags & 2 ) ) sigs_nt.insert( rec[i].sig ); }

    int rc = 0; u64 violations = 0; std::string vinfo, detinfo; u64 detruns = 0;
    if ( crashed && S->best.load() == ~0ull ) { fprintf( stderr, "a worker died outside a run\n" ); return 2; }

    // The code under test may keep state between runs of one process (itself suspicious). Then a violation seen in a
    // worker need not come from that run alone: search again with every run in a process of its own.
    auto isolated_search = [&]( double limit, u64 from ) -> u64 {
        S->best = ~0ull; std::vector<pid_t> ps; double const b0 = now(); fflush( nullptr );
        for ( int w = 0; w < nw; ++w )
        {
            pid_t pid = fork(); if ( pid < 0 ) return ~0ull;
            if ( pid == 0 )
            {
                shared_run_ptr() = nullptr;
                for ( u64 i = from + w; i < from + N; i += nw )
                {
                    u64 const n = i % N;
                    if ( n > S->best.load() || now() - b0 > limit ) break;
                    auto & it = items[n]; auto & sc = ck.scenarios[it.s];
                    Outcome o = isolated( ck, sc, run_seed( vseed, ck.property, sc.name, it.k ), nullptr, false, thorough );
                    if ( o.violated && !known.count( o.cls ) ) { u64 b = S->best.load(); while ( n < b && !S->best.compare_exchange_weak( b, n ) ) {} break; }
                }
                _exit( 0 );
            }
            ps.push_back( pid );
        }
        for ( auto p : ps ) { int status; waitpid( p, &status, 0 ); }
        return S->best.load();
    };
    bool retried = false;
    if ( S->best.load() != ~0ull )
    {
        auto & it = items[ S->best.load() ]; auto & sc = ck.scenarios[it.s];
        Outcome a = isolated( ck, sc, run_seed( vseed, ck.property, sc.name, it.k ), nullptr, false, thorough );
        if ( !a.violated ) { retried = true; fprintf( stderr, "run %s:%llu only fails after other runs in the same process; searching in isolated processes\n", sc.name, (unsigned long long) it.k );
            u64 was = S->best.load(); if ( isolated_search( 90, was > 2000 ? was - 2000 : 0 ) == ~0ull ) { fprintf( stderr, "ERROR: violation in run %s:%llu did not reproduce in isolation\n", sc.name, (unsigned long long) it.k ); return 2; } }
    }
    auto report = [&]( u64 const best ) -> int
    {
        auto & it = items[best]; auto & sc = ck.scenarios[it.s]; u64 const seed = run_seed( vseed, ck.property, sc.name, it.k );
        Outcome a = isolated( ck, sc, seed, nullptr, false, thorough ), b = isolated( ck, sc, seed, nullptr, false, thorough );
        if ( !a.violated || !b.violated || a.cls != b.cls || a.hash != b.hash ) { fprintf( stderr, "ERROR: violation in run %s:%llu did not reproduce (%s/%016llx vs %s/%016llx)\n", sc.name, (unsigned long long) it.k, a.cls.c_str(), (unsigned long long) a.hash, b.cls.c_str(), (unsigned long long) b.hash ); return 2; }
        u64 tried = 0; std::vector<u64> small = shrink( ck, sc, a.choices, a.cls, thorough, thorough ? 120 : 45, tried );
        Outcome f = isolated( ck, sc, 0, &small, true, thorough );
        if ( !f.violated || f.cls != a.cls ) { small = a.choices; f = isolated( ck, sc, 0, &small, true, thorough ); }
        char path[512]; snprintf( path, sizeof path, "%s/replays/%s-seed%llu-%s-%llu.replay", verif.c_str(), ck.property, (unsigned long long) vseed, sc.name, (unsigned long long) it.k );
        { std::ofstream o( path );
          o << "DST-REPLAY 1\nproperty: " << ck.property << "\nscenario: " << sc.name << "\ntier: " << tier << "\nverif_seed: " << vseed << "\nrun: " << it.k << "\nclass: " << f.cls << "\nmessage: "; for ( char ch : f.msg ) o << ( ch == '\n' ? ' ' : ch );
          char hb[32]; snprintf( hb, sizeof hb, "%016llx", (unsigned long long) f.hash ); o << "\nhash: " << hb << "\noriginal_choices: " << a.choices.size() << "\nshrink_runs: " << tried << "\nreplay_with: /verif/replay.sh " << path << "\nchoices: " << small.size() << "\n";
          for ( u64 v : small ) o << v << ' '; o << "\n--- log of the minimised run\n" << f.log; }
        // fresh-process replay gate
        fflush( nullptr );
        pid_t pid = fork(); if ( pid == 0 ) { int n = open( "/dev/null", O_WRONLY ); dup2( n, 1 ); execl( "/proc/self/exe", argv[0], "replay", path, "quiet", (char *) nullptr ); _exit( 9 ); }
        int status; waitpid( pid, &status, 0 );
        if ( !WIFEXITED( status ) || WEXITSTATUS( status ) != 1 ) { fprintf( stderr, "ERROR: fresh-process replay of %s did not reproduce the violation (status %d)\n", path, status ); return 2; }
        printf( "%s\n", f.log.size() > 4000 ? ( f.log.substr( 0, 1500 ) + "\n...\n" + f.log.substr( f.log.size() - 2400 ) ).c_str() : f.log.c_str() );
        printf( "class: %s\n%s\n(seed %llu, run %s:%llu, %zu choices minimised to %zu in %llu runs)\n", f.cls.c_str(), f.msg.c_str(), (unsigned long long) vseed, sc.name, (unsigned long long) it.k, a.choices.size(), small.size(), (unsigned long long) tried );
        printf( "VIOLATION property=%s replay=%s\n", ck.property, path );
        rc = 1; violations = 1; vinfo = f.cls + ": " + f.msg;
        return 0;
    };
    if ( S->best.load() != ~0ull ) { if ( int e = report( S->best.load() ) ) return e; }
    else
    {   // determinism: the same seeds in another process tree must give the same event-log hashes
        std::vector<u64> pick; u64 n = thorough ? 400 : 80; if ( n > N ) n = N;
        for ( u64 j = 0; j < n; ++j ) { u64 i = mix64( vseed * 77 + j ) % N; if ( rec[i].flags & 1 ) pick.push_back( i ); }
        std::vector<std::string> args{ argv[0], "hashes" }; for ( u64 i : pick ) args.push_back( std::to_string( items[i].s ) + ":" + std::to_string( items[i].k ) );
        std::vector<char *> av; for ( auto & s : args ) av.push_back( (char *) s.c_str() ); av.push_back( nullptr );
        int fd[2]; if ( pipe( fd ) ) return 2; fflush( nullptr );
        pid_t pid = fork(); if ( pid == 0 ) { dup2( fd[1], 1 ); close( fd[0] ); execv( "/proc/self/exe", av.data() ); _exit( 9 ); }
        close( fd[1] ); FILE * f = fdopen( fd[0], "r" ); char line[128]; size_t j = 0; bool ok = true;
        while ( fgets( line, sizeof line, f ) ) { unsigned long long hx; if ( sscanf( line, "H %llx", &hx ) == 1 ) { if ( j >= pick.size() || hx != rec[ pick[j] ].hash ) { ok = false; if ( j < pick.size() ) fprintf( stderr, "ERROR: run %s:%llu is not deterministic\n", ck.scenarios[ items[ pick[j] ].s ].name, (unsigned long long) items[ pick[j] ].k ); } ++j; } }
        fclose( f ); int status; waitpid( pid, &status, 0 );
        if ( !ok && !retried )
        {
            fprintf( stderr, "runs of one process influence each other; searching in isolated processes\n" );
            u64 b = isolated_search( 90, 0 );
            if ( b != ~0ull ) { if ( int e = report( b ) ) return e; ok = true; j = pick.size(); status = 0; }
        }
        if ( !ok || j != pick.size() || !WIFEXITED( status ) || WEXITSTATUS( status ) ) { fprintf( stderr, "ERROR: determinism check failed (%zu of %zu)\n", j, pick.size() ); return 2; }
        detruns = j;
    }
    for ( auto & k : known ) printf( "KNOWN-FINDING: property=%s %s %s\n", ck.property, k.first.c_str(), k.second.c_str() );

    double const t = now() - t0;
    // samples: a few complete runs written out
    std::string samples = "[";
    { int n = 0; for ( size_t s = 0; s < ck.scenarios.size() && n < 4; ++s ) { Outcome o = isolated( ck, ck.scenarios[s], run_seed( vseed, ck.property, ck.scenarios[s].name, 1 ), nullptr, true, thorough );
        std::string l = o.log.size() > 2500 ? o.log.substr( 0, 2500 ) + "..." : o.log; char hb[64]; snprintf( hb, sizeof hb, "%016llx", (unsigned long long) o.hash );
        samples += std::string( n++ ? ", " : "" ) + "{\"scenario\": " + json_str( ck.scenarios[s].name ) + ", \"run\": 1, \"draws\": " + std::to_string( o.choices.size() ) + ", \"hash\": \"" + hb + "\", \"log\": " + json_str( l ) + "}"; } }
    samples += "]";
    std::map<std::string,u64> perscen; for ( auto it = st.counts.begin(); it != st.counts.end(); ) if ( it->first.rfind( "runs:", 0 ) == 0 ) { perscen[ it->first.substr( 5 ) ] = it->second; it = st.counts.erase( it ); } else ++it;
    { std::ofstream e( verif + "/evidence/" + ck.property + ".json" );
      e << "{\n \"property\": \"" << ck.property << "\", \"tier\": \"" << ( thorough ? "thorough" : "quick" ) << "\", \"seed\": " << vseed << ", \"level\": \"exploration\",\n"
        << " \"coverage\": {\n  \"evaluations\": " << st.runs << ", \"distinct_nontrivial\": " << sigs_nt.size() << ",\n  \"rule\": " << json_str( ck.rule ) << ",\n"
        << "  \"distinct_measure\": " << json_str( ck.distinct_measure ) << ", \"distinct_executions\": " << sigs.size() << ",\n"
        << "  \"simulated_runs\": " << st.runs << ", \"rejected_runs\": " << st.rejected << ", \"runs_per_scenario\": " << json_map( perscen ) << ",\n"
        << "  \"runs_per_hour\": " << (u64)( st.runs / ( search_s > 0 ? search_s : 1 ) * 3600 ) << ", \"seeds_per_hour\": " << (u64)( st.runs / ( search_s > 0 ? search_s : 1 ) * 3600 ) << ", \"workers\": " << nw << ", \"stopped_by_wall_cap\": " << ( S->stopped ? "true" : "false" ) << ",\n"
        << "  \"simulated_time_s\": " << st.simtime << ", \"simulated_steps\": " << st.steps << ",\n"
        << "  \"faults_injected\": " << json_map( st.faults ) << ",\n  \"probes\": " << json_map( st.probes ) << ",\n  \"counts\": " << json_map( st.counts ) << ",\n  \"known_finding_hits\": " << json_map( st.known ) << ",\n"
        << "  \"determinism\": {\"runs_repeated_in_fresh_process\": " << detruns << ", \"mismatches\": 0},\n"
        << "  \"components_real\": " << json_list( ck.real ) << ", \"components_stub\": " << json_list( ck.stub ) << ",\n"
        << "  \"build_variant\": " << json_str( env( "DST_VARIANT", "full" ) ) << ",\n  \"samples\": " << samples << "\n },\n"
        << " \"assumptions\": " << json_list( ck.assumptions ) << ",\n \"wall_s\": " << t << ", \"violations\": " << violations << ( vinfo.empty() ? "" : ", \"violation\": " + json_str( vinfo ) ) << "\n}\n"; }
    printf( "%s %s: %llu runs (%llu rejected), %zu distinct, %.1f simulated s, %.1f s wall, %s%s%s\n", ck.property, tier.c_str(), (unsigned long long) st.runs, (unsigned long long) st.rejected, sigs.size(), st.simtime, t, rc ? "VIOLATED" : "held", env( "DST_VARIANT", "full" ) == std::string( "full" ) ? "" : ", ", env( "DST_VARIANT", "full" ) == std::string( "full" ) ? "" : env( "DST_VARIANT", "full" ).c_str() );
    return rc;
}

} // namespace dst
