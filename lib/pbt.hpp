/*
 * Small property-based testing engine.
 *
 * A case is a function of a finite sequence of bounded integer choices. Random generation records the
 * choices it draws; shrinking edits the recorded sequence (drops blocks, zeroes, halves, decrements) and
 * re-runs the case; a replay file is the shrunk sequence. Every case runs in a forked process, so aborts,
 * sanitizer reports and hangs of the code under test are failures like any other.
 */
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <array>
#include <limits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <fstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

inline uint64_t mix( uint64_t x ) {
  x += 0x9e3779b97f4a7c15ull;
  x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
  x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebull;
  return x ^ ( x >> 31 );
}
inline uint64_t hashStr( std::string const & s ) {
  uint64_t h = 1469598103934665603ull;
  for( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// source of choices
class Src {
  public:
    std::vector< uint64_t > rec;
    Src( uint64_t seed ): m_rep( nullptr ), m_state( seed ) {}
    Src( std::vector< uint64_t > const & rep ): m_rep( &rep ), m_state( 0 ) {}

    // uniform choice in [0, n); 0 is the simplest
    uint64_t draw( uint64_t n ) {
      if( n == 0 ) n = 1;
      uint64_t v;
      if( m_rep != nullptr ) {
        v = ( m_pos < m_rep->size() ) ? (*m_rep)[m_pos] : 0;
        if( v >= n ) v = n-1;
        m_pos++;
      }
      else {
        m_state += 0x9e3779b97f4a7c15ull;
        v = mix( m_state ) % n;
      }
      rec.push_back( v );
      if( rec.size() > 4000000 ) throw Discard();
      return v;
    }
    // integer in [lo, hi], lo simplest
    int64_t i( int64_t lo, int64_t hi ) { return lo + int64_t( draw( uint64_t( hi - lo ) + 1 ) ); }
    // true with probability p (false simplest)
    bool b( double p = 0.5 ) { return draw( 1000 ) >= uint64_t( 1000 * (1-p) + 0.5 ); }
    // real in [lo, hi], lo simplest
    double r( double lo, double hi ) { return lo + (hi-lo) * ( double( draw( 1u<<24 ) ) / double( (1u<<24)-1 ) ); }
    // real in [-a,a], 0 simplest
    double sr( double a ) { double v = double( draw( 1u<<24 ) ) / double( (1u<<24)-1 ); return b() ? -a*v : a*v; }
    // log-uniform real in [lo,hi]
    double lr( double lo, double hi ) { return std::exp( r( std::log( lo ), std::log( hi ) ) ); }
    template< typename T > T pick( std::vector< T > const & v ) { return v[ draw( v.size() ) ]; }
    // permutation of 0..n-1 (identity simplest)
    std::vector< std::size_t > perm( std::size_t n ) {
      std::vector< std::size_t > p( n );
      for( std::size_t k = 0; k < n; k++ ) p[k] = k;
      for( std::size_t k = 0; k+1 < n; k++ ) std::swap( p[k], p[ k + draw( n-k ) ] );
      return p;
    }
  private:
    std::vector< uint64_t > const * m_rep;
    uint64_t m_state;
    std::size_t m_pos = 0;
};

// outcome of a case
class Ctx {
  public:
    bool m_nontrivial = false;
    std::string m_sample;
    void nontrivial( bool v = true ) { if( v ) m_nontrivial = true; }
    void sample( std::string const & s ) { m_sample = s; }
    [[noreturn]] void fail( std::string const & m ) { throw Fail{ m }; }
    void require( bool c, std::string const & m ) { if( !c ) throw Fail{ m }; }
    template< typename F > void requireF( bool c, F f ) { if( !c ) throw Fail{ f() }; }
    // |a-b| <= abs + rel * max(|a|,|b|); NaN fails
    void close( double a, double b, double rel, double abs, std::string const & m ) {
      double d = std::fabs( a-b );
      double t = abs + rel * std::max( std::fabs( a ), std::fabs( b ) );
      if( !( d <= t ) ) {
        std::ostringstream o; o.precision( 17 );
        o << m << ": got " << a << " expected " << b << " |diff| " << d << " tol " << t;
        throw Fail{ o.str() };
      }
    }
    [[noreturn]] void discard() { throw Discard(); }
};

typedef std::function< void( Src &, Ctx & ) > Fn;

struct Check {
  std::string name;
  std::string rule;
  uint64_t quick;
  uint64_t thorough;
  Fn fn;
};

inline std::vector< Check > & checks() { static std::vector< Check > c; return c; }
struct Reg { Reg( Check const & c ) { checks().push_back( c ); } };

#define PBT_CAT2( a, b ) a##b
#define PBT_CAT( a, b ) PBT_CAT2( a, b )
// PBT( name, cases quick, cases thorough, "non-triviality rule" ) { body using s and c }
#define PBT( NAME, NQ, NT, RULE ) \
  static void PBT_CAT( pbt_fn_, NAME )( pbt::Src & s, pbt::Ctx & c ); \
  static pbt::Reg PBT_CAT( pbt_reg_, NAME )( pbt::Check{ #NAME, RULE, NQ, NT, PBT_CAT( pbt_fn_, NAME ) } ); \
  static void PBT_CAT( pbt_fn_, NAME )( pbt::Src & s, pbt::Ctx & c )

inline double now() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1e-9*t.tv_nsec; }

inline std::string jstr( std::string const & s ) {
  std::string o = "\"";
  for( unsigned char ch : s ) {
    if( ch == '"' || ch == '\\' ) { o += '\\'; o += ch; }
    else if( ch == '\n' ) o += "\\n";
    else if( ch == '\t' ) o += "\\t";
    else if( ch < 32 || ch > 126 ) { char b[8]; std::snprintf( b, 8, "\\u%04x", ch ); o += b; }
    else o += ch;
  }
  return o + "\"";
}

enum Status { OK = 0, TRIVIAL, DISCARD, FAIL };
struct Outcome { Status st = OK; std::string msg; std::vector< uint64_t > rec; std::string sample; };

inline Outcome runCase( Check const & ck, Src & s ) {
  Outcome o; Ctx c;
  try { ck.fn( s, c ); o.st = c.m_nontrivial ? OK : TRIVIAL; }
  catch( Fail & f ) { o.st = FAIL; o.msg = f.msg; }
  catch( Discard & ) { o.st = DISCARD; }
  catch( std::exception & e ) { o.st = FAIL; o.msg = std::string( "exception: " ) + e.what(); }
  o.rec = s.rec; o.sample = c.m_sample;
  return o;
}

struct Shared {
  volatile uint64_t cur[64];
  volatile uint64_t failIdx[64];
  volatile uint32_t nSamples;
  char samples[8][1500];
};

inline std::string tail( std::string const & f ) {
  std::ifstream in( f ); std::string all( (std::istreambuf_iterator<char>( in )), std::istreambuf_iterator<char>() );
  std::string keep;
  std::istringstream is( all ); std::string l; int n = 0;
  while( std::getline( is, l ) && n < 12 ) {
    if( l.find( "ERROR" ) != std::string::npos || l.find( "FATAL" ) != std::string::npos
        || l.find( "runtime error" ) != std::string::npos || l.find( "Assertion" ) != std::string::npos
        || l.find( "    #" ) == 0 ) { keep += l + "\n"; n++; }
  }
  if( keep.empty() ) keep = all.size() > 600 ? all.substr( all.size()-600 ) : all;
  return keep;
}

struct Opts {
  std::string tier = "quick", out, tmp = "/tmp", replay, replayOut, only;
  uint64_t seed = 1; double budget = 240; unsigned workers = 8; unsigned caseTimeout = 60; double scale = 1; unsigned retries = 1;
};

inline void silence( std::string const & f ) {
  int fd = open( f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644 );
  if( fd >= 0 ) { dup2( fd, 1 ); dup2( fd, 2 ); close( fd ); }
}

// runs a choice sequence in a child
inline Outcome runForked( Check const & ck, std::vector< uint64_t > const & rep, Opts const & op ) {
  std::string res = op.tmp + "/pbt_res." + std::to_string( getpid() );
  std::string log = op.tmp + "/pbt_log." + std::to_string( getpid() );
  unlink( res.c_str() );
  pid_t p = fork();
  if( p == 0 ) {
    silence( log );
    alarm( op.caseTimeout );
    Src s( rep );
    Outcome o = runCase( ck, s );
    std::ofstream f( res );
    f << int( o.st ) << "\n" << o.rec.size();
    for( uint64_t v : o.rec ) f << " " << v;
    f << "\n" << o.msg; f.close();
    _exit( 0 );
  }
  int st; while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {}
  Outcome o;
  std::ifstream f( res );
  int code; std::size_t n;
  if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && ( f >> code >> n ) ) {
    o.st = Status( code ); o.rec.resize( n );
    for( std::size_t k = 0; k < n; k++ ) f >> o.rec[k];
    f.ignore();
    o.msg.assign( (std::istreambuf_iterator<char>( f )), std::istreambuf_iterator<char>() );
  }
  else {
    o.st = FAIL; o.rec = rep;
    o.msg = ( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM ) ? "case timed out (hang)"
            : "crash/abort of the code under test:\n" + tail( log );
  }
  unlink( res.c_str() ); unlink( log.c_str() );
  return o;
}

inline uint64_t caseSeed( uint64_t seed, std::string const & name, uint64_t idx ) {
  return mix( mix( seed ) ^ hashStr( name ) ^ mix( idx * 0x1234567ull + 77 ) );
}

inline std::vector< uint64_t > shrink( Check const & ck, std::vector< uint64_t > best, std::string & msg, Opts const & op ) {
  double t0 = now(); unsigned tries = 0;
  auto better = []( std::vector< uint64_t > const & a, std::vector< uint64_t > const & b ) {
    if( a.size() != b.size() ) return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&]( std::vector< uint64_t > const & cand ) {
    if( now()-t0 > 45 || tries > 3000 ) return false;
    tries++;
    Outcome o = runForked( ck, cand, op );
    if( o.st == FAIL ) {
      std::vector< uint64_t > r = ( o.rec.size() <= cand.size() ) ? o.rec : cand;
      if( better( r, best ) ) { best = r; msg = o.msg; return true; }
    }
    return false;
  };
  bool prog = true;
  while( prog && now()-t0 < 45 && tries < 3000 ) {
    prog = false;
    for( std::size_t bl = std::max< std::size_t >( 1, best.size()/2 ); ; bl /= 2 ) {
      for( std::size_t k = 0; k + bl <= best.size(); ) {
        std::vector< uint64_t > cand( best.begin(), best.begin()+k );
        cand.insert( cand.end(), best.begin()+k+bl, best.end() );
        if( attempt( cand ) ) prog = true; else k += bl;
        if( now()-t0 > 45 || tries > 3000 ) break;
      }
      for( std::size_t k = 0; k + bl <= best.size() && bl > 1; k += bl ) {
        std::vector< uint64_t > cand = best;
        for( std::size_t j = k; j < k+bl; j++ ) cand[j] = 0;
        if( cand != best && attempt( cand ) ) prog = true;
        if( now()-t0 > 45 || tries > 3000 ) break;
      }
      if( bl <= 1 ) break;
    }
    for( std::size_t k = 0; k < best.size(); k++ ) {
      if( best[k] == 0 ) continue;
      std::vector< uint64_t > cand = best; cand[k] = 0;
      if( attempt( cand ) ) { prog = true; continue; }
      uint64_t lo = 0, hi = ( k < best.size() ) ? best[k] : 0;
      while( k < best.size() && hi - lo > 1 && now()-t0 < 45 && tries < 3000 ) {
        uint64_t m = lo + (hi-lo)/2;
        cand = best; cand[k] = m;
        if( attempt( cand ) ) { prog = true; if( k < best.size() ) hi = best[k]; else break; } else lo = m;
      }
    }
  }
  return best;
}

inline int main( int argc, char ** argv ) {
  Opts op;
  for( int a = 1; a+1 < argc; a += 2 ) {
    std::string k = argv[a], v = argv[a+1];
    if( k == "--tier" ) op.tier = v; else if( k == "--seed" ) op.seed = std::strtoull( v.c_str(), 0, 10 );
    else if( k == "--out" ) op.out = v; else if( k == "--tmp" ) op.tmp = v; else if( k == "--replay" ) op.replay = v;
    else if( k == "--replay-out" ) op.replayOut = v; else if( k == "--only" ) op.only = v;
    else if( k == "--budget" ) op.budget = std::atof( v.c_str() ); else if( k == "--workers" ) op.workers = std::atoi( v.c_str() );
    else if( k == "--case-timeout" ) op.caseTimeout = std::atoi( v.c_str() ); else if( k == "--scale" ) op.scale = std::atof( v.c_str() );
    else if( k == "--retries" ) op.retries = std::atoi( v.c_str() ); // for checks of schedules: a case is repeated up to this often to reproduce a failure
  }
  if( !op.replay.empty() ) {
    std::ifstream f( op.replay ); std::string l, name, mode; std::vector< uint64_t > ch; uint64_t w=0, W=1, upto=0, sd=1;
    while( std::getline( f, l ) ) {
      std::istringstream is( l ); std::string k; is >> k;
      if( k == "check" ) is >> name;
      else if( k == "choices" ) { mode = "case"; uint64_t v; while( is >> v ) ch.push_back( v ); }
      else if( k == "worker" ) { mode = "worker"; is >> sd >> w >> W >> upto; }
    }
    for( Check const & ck : checks() ) if( ck.name == name ) {
      Outcome o;
      if( mode == "worker" ) {
        pid_t p = fork();
        if( p == 0 ) {
          silence( op.tmp + "/pbt_wlog" );
          for( uint64_t k = w; k <= upto; k += W ) { alarm( op.caseTimeout ); Src s( caseSeed( sd, name, k ) ); o = runCase( ck, s ); if( o.st == FAIL ) _exit( 1 ); }
          _exit( 0 );
        }
        int st; waitpid( p, &st, 0 );
        o.st = ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) ? OK : FAIL;
        o.msg = "worker history replay";
      }
      else for( unsigned k = 0; k < op.retries && o.st != FAIL; k++ ) o = runForked( ck, ch, op );
      if( o.st == FAIL ) { std::printf( "REPLAY-FAIL %s: %s\n", name.c_str(), o.msg.c_str() ); return 1; }
      std::printf( "REPLAY-OK %s\n", name.c_str() ); return 0;
    }
    std::printf( "REPLAY-UNKNOWN-CHECK %s\n", name.c_str() ); return 2;
  }

  std::ofstream out( op.out );
  out << "{\"checks\":[";
  bool first = true; int rc = 0;
  double tStart = now();
  double nTot = 0; for( Check const & ck : checks() ) { (void) ck; nTot++; }
  for( Check const & ck : checks() ) {
    if( !op.only.empty() && ( "," + op.only + "," ).find( "," + ck.name + "," ) == std::string::npos ) continue;
    uint64_t N = uint64_t( ( op.tier == "thorough" ? ck.thorough : ck.quick ) * op.scale );
    if( N < 1 ) N = 1;
    unsigned W = op.workers; if( W > N ) W = N; if( W > 64 ) W = 64;
    Shared * sh = (Shared*) mmap( 0, sizeof( Shared ), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 );
    uint64_t * hs = (uint64_t*) mmap( 0, N*8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 );
    for( unsigned w = 0; w < 64; w++ ) { sh->cur[w] = ~0ull; sh->failIdx[w] = ~0ull; }
    double t0 = now();
    double deadline = tStart + op.budget;
    std::vector< pid_t > pids( W );
    for( unsigned w = 0; w < W; w++ ) {
      pids[w] = fork();
      if( pids[w] == 0 ) {
        silence( op.tmp + "/pbt_w" + std::to_string( w ) + ".log" );
        for( uint64_t k = w; k < N; k += W ) {
          if( now() > deadline ) break;
          sh->cur[w] = k;
          alarm( op.caseTimeout );
          Src s( caseSeed( op.seed, ck.name, k ) );
          Outcome o = runCase( ck, s );
          alarm( 0 );
          if( o.st == FAIL ) { sh->failIdx[w] = k; _exit( 3 ); }
          uint64_t h = 1469598103934665603ull;
          for( uint64_t v : o.rec ) h = mix( h ^ v );
          if( h < 16 ) h = 16;
          hs[k] = ( o.st == OK ) ? h : ( o.st == TRIVIAL ? 1 : 2 );
          if( o.st == OK && !o.sample.empty() && sh->nSamples < 3 ) {
            uint32_t n = __sync_fetch_and_add( &sh->nSamples, 1 );
            if( n < 8 ) std::snprintf( sh->samples[n], 1500, "%s", o.sample.c_str() );
          }
        }
        sh->cur[w] = ~0ull;
        fflush( 0 );
        _exit( 0 );
      }
    }
    uint64_t failIdx = ~0ull; unsigned failW = 0;
    for( unsigned w = 0; w < W; w++ ) {
      int st; while( waitpid( pids[w], &st, 0 ) < 0 && errno == EINTR ) {}
      bool bad = !( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 );
      if( bad ) { uint64_t k = sh->failIdx[w] != ~0ull ? sh->failIdx[w] : sh->cur[w]; if( k == ~0ull ) k = w; if( k < failIdx ) { failIdx = k; failW = w; } }
    }
    uint64_t ev = 0, disc = 0, triv = 0; std::set< uint64_t > dist;
    for( uint64_t k = 0; k < N; k++ ) {
      if( hs[k] == 0 ) continue;
      ev++; if( hs[k] == 2 ) disc++; else if( hs[k] == 1 ) triv++; else dist.insert( hs[k] );
    }
    bool vio = failIdx != ~0ull, sure = false; std::string msg, rf;
    if( vio ) {
      ev++;
      Src s0( caseSeed( op.seed, ck.name, failIdx ) );
      // the choices of the failing case: re-draw in a child with the seed
      std::vector< uint64_t > ch; bool alone = false;
      {
        // record the choices even if the case crashes: run with a shared buffer
        const std::size_t cap = 1u<<22;
        uint64_t * buf = (uint64_t*) mmap( 0, 8*(cap+1), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 );
        pid_t p = fork();
        if( p == 0 ) {
          silence( op.tmp + "/pbt_rec.log" );
          alarm( op.caseTimeout );
          struct RS : Src { RS( uint64_t sd ): Src( sd ) {} };
          Src s( caseSeed( op.seed, ck.name, failIdx ) );
          s.rec.reserve( cap );
          // the vector does not reallocate: mirror it from a signal-safe place on any exit
          static Src * ps; static uint64_t * pb; ps = &s; pb = buf;
          auto dump = []( int ) { std::size_t n = ps->rec.size(); for( std::size_t k = 0; k < n; k++ ) pb[k+1] = ps->rec[k]; pb[0] = n; _exit( 3 ); };
          signal( SIGABRT, dump ); signal( SIGSEGV, dump ); signal( SIGFPE, dump ); signal( SIGALRM, dump ); signal( SIGBUS, dump ); signal( SIGILL, dump );
          Outcome o = runCase( ck, s );
          std::size_t n = o.rec.size(); for( std::size_t k = 0; k < n; k++ ) buf[k+1] = o.rec[k]; buf[0] = n;
          _exit( o.st == FAIL ? 3 : 0 );
        }
        int st; waitpid( p, &st, 0 );
        ch.assign( buf+1, buf+1+buf[0] );
        munmap( buf, 8*(cap+1) );
        Outcome o;
        for( unsigned k = 0; k < 3*op.retries && o.st != FAIL; k++ ) o = runForked( ck, ch, op );
        alone = o.st == FAIL; msg = o.msg;
      }
      rf = op.replayOut + "." + ck.name + ".replay";
      if( alone ) {
        if( op.retries == 1 ) ch = shrink( ck, ch, msg, op );
        std::ofstream r( rf );
        r << "check " << ck.name << "\nchoices";
        for( uint64_t v : ch ) r << " " << v;
        std::string m2 = msg; std::replace( m2.begin(), m2.end(), '\n', ' ' );
        r << "\nmessage " << m2 << "\nfrom seed " << op.seed << " case " << failIdx << "\n";
      }
      else {
        std::ofstream r( rf );
        r << "check " << ck.name << "\nworker " << op.seed << " " << failW << " " << W << " " << failIdx << "\n";
        msg = "fails only after earlier cases in the same process";
      }
      // confirm three times
      unsigned again = 0;
      for( unsigned k = 0; k < 3; k++ ) {
        std::string cmd = std::string( argv[0] ) + " --replay " + rf + " --tmp " + op.tmp + " --case-timeout " + std::to_string( op.caseTimeout ) + " --retries " + std::to_string( op.retries ) + " > /dev/null 2>&1";
        int st = system( cmd.c_str() );
        if( WIFEXITED( st ) && WEXITSTATUS( st ) == 1 ) again++;
      }
      std::ostringstream m; m << msg << " [reproduced " << again << "/3]";
      msg = m.str();
      sure = op.retries > 1 ? again > 0 : again == 3;
      if( sure ) rc = 1; else if( rc == 0 ) rc = 4;
    }
    out << ( first ? "" : "," ) << "\n{\"name\":" << jstr( ck.name ) << ",\"rule\":" << jstr( ck.rule )
        << ",\"planned\":" << N << ",\"evaluations\":" << ev << ",\"discarded\":" << disc << ",\"trivial\":" << triv
        << ",\"distinct_nontrivial\":" << dist.size() << ",\"wall_s\":" << now()-t0 << ",\"violation\":" << ( vio ? "true" : "false" );
    if( vio ) out << ",\"sure\":" << ( sure ? "true" : "false" ) << ",\"message\":" << jstr( msg ) << ",\"replay\":" << jstr( rf );
    out << ",\"samples\":[";
    for( uint32_t k = 0; k < ( sh->nSamples < 3u ? uint32_t( sh->nSamples ) : 3u ); k++ ) out << ( k ? "," : "" ) << jstr( sh->samples[k] );
    out << "]}";
    first = false;
    std::printf( "  %-32s cases %8llu nontrivial %8zu trivial %6llu discarded %6llu %.1fs%s\n", ck.name.c_str(), (unsigned long long) ev,
                 dist.size(), (unsigned long long) triv, (unsigned long long) disc, now()-t0, vio ? "  FAILED" : "" );
    if( vio ) std::printf( "    %s\n", msg.c_str() );
    fflush( stdout );
    munmap( sh, sizeof( Shared ) ); munmap( hs, N*8 );
  }
  out << "\n]}\n";
  return rc;
}

} // namespace pbt

#endif
