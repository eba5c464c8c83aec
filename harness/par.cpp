// shared and distributed memory parallelisation, time groups and the scheduling of local time stepping.
// The kernels are recorders which chain non-commutative hashes of their inputs; any wrong order, missed, repeated or
// lost piece of work or message changes the final hashes. MPI is an in-process network with random delays.
#include "pbt.hpp"
#include <deque>
#include <map>
#include <memory>
#include <atomic>
#include <ucontext.h>
#include <sched.h>
#ifdef PP_USE_OMP
#include <omp.h>
#endif
#include "io/logging.h"
#include "parallel/global.h"
#include "time/Manager.h"
#ifdef PP_USE_MPI
#include <mpi.h>
#include "parallel/MpiRemix.h"
#endif
#include "parallel/DistributedDummy.hpp"
typedef uint64_t U; typedef std::size_t S_; static S_ const MX = std::numeric_limits< S_ >::max();
static U H( U x ) { return pbt::mix( x ); }

// ---------------------------------------------------------------------------------------------- random delays
struct Rng { U s; U n() { s += 0x9e3779b97f4a7c15ull; return H( s ); } bool p( unsigned permille ) { return n() % 1000 < permille; } };
static Rng g_net; static std::atomic< U > g_wall( 0 ), g_tick( 1 ); static std::vector< std::string > g_err; static std::atomic< int > g_lock( 0 );
static void err( std::string const & m ) { while( g_lock.exchange( 1 ) ); if( g_err.size() < 3 ) g_err.push_back( m ); g_lock = 0; }
// clock seen by the load balancing
extern "C" int gettimeofday( struct timeval * t, void * ) noexcept { U k = g_tick++; U d = H( k*977 ) % 7 == 0 ? 0 : H( k*31 ) % 900000; U w = g_wall += d; t->tv_sec = w/1000000; t->tv_usec = w%1000000; return 0; }

// ---------------------------------------------------------------------------------------------- coroutines: one per rank
struct Co { ucontext_t ctx; std::vector< char > stack; bool done = false; std::function< void() > f; };
static std::vector< std::unique_ptr< Co > > g_co; static ucontext_t g_main; static int g_cur = -1; static U g_sw = 0;
static void yield() {
#ifndef PP_USE_OMP
  if( g_cur < 0 ) return; if( ++g_sw > 3000000 ) { fprintf( stderr, "FATAL: no progress\n" ); abort(); } swapcontext( &g_co[g_cur]->ctx, &g_main );
#else
  sched_yield();
#endif
}
static void entry() { g_co[g_cur]->f(); g_co[g_cur]->done = true; int k = g_cur; g_cur = -1; setcontext( &g_main ); (void) k; }
static void runAll( std::vector< std::function< void() > > fs ) {
  g_co.clear(); g_sw = 0; for( auto & f : fs ) { g_co.emplace_back( new Co ); Co & c = *g_co.back(); c.f = f; c.stack.resize( 512*1024 ); getcontext( &c.ctx ); c.ctx.uc_stack.ss_sp = c.stack.data(); c.ctx.uc_stack.ss_size = c.stack.size(); c.ctx.uc_link = nullptr; makecontext( &c.ctx, entry, 0 ); }
  int last = -1, left = fs.size(); while( left ) { int k; do k = g_net.n() % fs.size(); while( g_co[k]->done ); g_cur = k; edge::parallel::g_rank = k; swapcontext( &g_main, &g_co[k]->ctx ); g_cur = -1; if( g_co[k]->done ) left--; last = k; } (void) last; g_co.clear();
}

// ---------------------------------------------------------------------------------------------- network
#ifdef PP_USE_MPI
struct Req { bool send; int src, dst, tag; unsigned char * buf; S_ n; std::vector< unsigned char > eager; bool isEager = false, matched = false, done = false; Req * peer = nullptr; };
static std::deque< std::unique_ptr< Req > > g_reqs; static std::map< std::array< int, 3 >, std::deque< Req* > > g_sq, g_rq; static U g_sent = 0; static unsigned g_pp = 300; static int g_size = 1;
static void netReset() { g_reqs.clear(); g_sq.clear(); g_rq.clear(); }
static bool netIdle() { for( auto & q : g_sq ) if( !q.second.empty() ) return false; for( auto & q : g_rq ) if( !q.second.empty() ) return false; return true; }
static void match( std::array< int, 3 > k ) { auto & a = g_sq[k]; auto & b = g_rq[k]; while( !a.empty() && !b.empty() ) { Req * s = a.front(), * r = b.front(); a.pop_front(); b.pop_front(); if( s->n != r->n ) err( "message of " + std::to_string( s->n ) + " bytes is received with a buffer of " + std::to_string( r->n ) ); s->peer = r; r->peer = s; s->matched = r->matched = true; } }
static void transfer( Req * s ) { Req * r = s->peer; if( std::min( s->n, r->n ) ) memcpy( r->buf, s->isEager ? s->eager.data() : s->buf, std::min( s->n, r->n ) ); r->done = true; s->done = true; }
extern "C" {
int MPI_Init( int *, char *** ) { return 0; } int MPI_Init_thread( int *, char ***, int, int * o ) { *o = MPI_THREAD_FUNNELED; return 0; } int MPI_Initialized( int * o ) { *o = 1; return 0; } int MPI_Finalize() { return 0; }
int MPI_Comm_size( MPI_Comm, int * o ) { *o = g_size; return 0; } int MPI_Comm_rank( MPI_Comm, int * o ) { *o = g_cur < 0 ? 0 : g_cur; return 0; } int MPI_Get_version( int * a, int * b ) { *a = 3; *b = 1; return 0; } int MPI_Barrier( MPI_Comm ) { return 0; }
int MPI_Isend( void const * b, int n, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request * o ) { int me = edge::parallel::g_rank; g_sent++; Req * r = new Req; g_reqs.emplace_back( r ); r->send = true; r->src = me; r->dst = dst; r->tag = tag; r->buf = (unsigned char*) b; r->n = n; if( g_net.p( 300 ) ) { r->isEager = true; r->eager.assign( r->buf, r->buf+n ); } g_sq[{ { me, dst, tag } }].push_back( r ); match( { { me, dst, tag } } ); *o = r; if( g_net.p( 200 ) ) yield(); return 0; }
int MPI_Irecv( void * b, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request * o ) { int me = edge::parallel::g_rank; Req * r = new Req; g_reqs.emplace_back( r ); r->send = false; r->src = src; r->dst = me; r->tag = tag; r->buf = (unsigned char*) b; r->n = n; memset( b, 0xa5, n ); g_rq[{ { src, me, tag } }].push_back( r ); match( { { src, me, tag } } ); *o = r; if( g_net.p( 200 ) ) yield(); return 0; }
int MPI_Test( MPI_Request * q, int * f, MPI_Status * ) {
  if( g_net.p( 150 ) ) yield(); Req * r = (Req*) *q; if( !r ) { *f = 1; return 0; }
  if( !r->done && r->matched && g_net.p( g_pp ) ) transfer( r->send ? r : r->peer ); if( r->send && r->isEager && !r->done && g_net.p( 100 ) ) { *f = 1; *q = MPI_REQUEST_NULL; return 0; }
  if( r->done && g_net.p( 700 ) ) { *f = 1; *q = MPI_REQUEST_NULL; } else *f = 0; return 0; }
int MPI_Wait( MPI_Request * q, MPI_Status * s ) { int f = 0; while( !f ) { MPI_Test( q, &f, s ); yield(); } return 0; }
int MPI_Waitall( int n, MPI_Request * q, MPI_Status * s ) { for( int i = n-1; i >= 0; i-- ) MPI_Wait( q+i, s ); return 0; }
}
struct Red { std::vector< std::vector< unsigned char > > in; int n = 0, out = 0; }; static std::map< int, Red > g_red; static std::vector< int > g_redNo;
extern "C" int MPI_Allreduce( void const * in, void * out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ) {
  int me = edge::parallel::g_rank, no = g_redNo[me]++; S_ sz = t == MPI_DOUBLE ? 8 : 4; Red & r = g_red[no]; r.in.resize( g_size ); r.in[me].assign( (unsigned char*) in, (unsigned char*) in + n*sz ); r.n++; while( g_red[no].n < g_size ) yield();
  for( int i = 0; i < n; i++ ) { for( int k = 0; k < g_size; k++ ) { if( t == MPI_DOUBLE ) { double v; memcpy( &v, &g_red[no].in[k][i*8], 8 ); double & o = ( (double*) out )[i]; o = k == 0 ? v : op == MPI_MIN ? std::min( o, v ) : op == MPI_MAX ? std::max( o, v ) : o+v; } else { int v; memcpy( &v, &g_red[no].in[k][i*4], 4 ); int & o = ( (int*) out )[i]; o = k == 0 ? v : op == MPI_MIN ? std::min( o, v ) : op == MPI_MAX ? std::max( o, v ) : o+v; } } } return 0; }
#else
static bool netIdle() { return true; } static void netReset() {} static U g_sent = 0; static unsigned g_pp = 0; static int g_size = 1; static std::vector< int > g_redNo;
#endif

// a scheduling thread which uses up seconds of its own time without any kernel being called waits forever
static std::atomic< U > g_work( 0 );
static void alive() { static thread_local U last = ~0ull, n = 0; static thread_local double at = 0; U w = g_work; if( w != last ) { last = w; n = 0; at = 0; return; } if( ++n % 4096 ) return; timespec t; clock_gettime( CLOCK_THREAD_CPUTIME_ID, &t ); double x = t.tv_sec + 1E-9*t.tv_nsec; if( at == 0 ) at = x; else if( x-at > 4 ) { fprintf( stderr, "FATAL: no progress\n" ); abort(); } }

// receiver output is not part of this harness
static std::atomic< U > g_flush( 0 ); void edge::io::Receivers::flushAll() {} void edge::io::Receivers::flushIf( unsigned int ) { g_flush++; }

#ifdef PP_USE_MPI
typedef edge::parallel::MpiRemix Dist;
struct Net: public Dist { using Dist::Dist; void comm() { alive(); Dist::comm(); yield(); }
  t_msg const & se( S_ i ) { return m_sendMsgs[i]; } t_msg const & re( S_ i ) { return m_recvMsgs[i]; } unsigned char * sb() { return m_sendBuffers; } unsigned char * rb() { return m_recvBuffers; } S_ sbs() { return m_sendBufferSize; } S_ rbs() { return m_recvBufferSize; } };
#else
typedef edge::parallel::DistributedDummy Dist;
struct Net: public Dist { using Dist::Dist; void comm() { alive(); yield(); } };
#endif

#if defined PP_T_EQUATIONS_SEISMIC
static bool const SEIS = true, SWE = false;
#elif defined PP_T_EQUATIONS_SWE
static bool const SEIS = false, SWE = true;
#else
static bool const SEIS = false, SWE = false;
#endif

// ---------------------------------------------------------------------------------------------- global problem
struct Prob { int n, F, G, R; std::vector< int > tg, rk; std::vector< std::array< int, 4 > > ad; std::vector< bool > src, rcv; std::vector< U > dof; std::vector< std::pair< int, int > > fa; };
struct St { std::vector< U > dof, full, h0, h1, acc; };
static void lo( St & s, int e, bool ts ) { U t = H( s.dof[e] ); s.full[e] = H( t+3 ); s.h0[e] = H( t+1 ); s.h1[e] = H( t+2 ); s.acc[e] = ts ? s.full[e] : s.acc[e] + s.full[e]; s.dof[e] = s.dof[e]*6364136223846793005ull + 1442695040888963407ull; }
static void sr( St & s, int e ) { s.dof[e] = H( s.dof[e] ) + 7; }
static U fl( U v, int f ) { return H( v + U( f+1 )*0x1234567ull ); }

struct Rank;
struct Ghost: public GhostBase {
  Prob const * P; Rank * R; St st; std::vector< double > t, dt; std::vector< U > nu; bool rt = true;
  void nap() { g_work++; if( !rt ) return; U r = H( g_tick++ * 7919 ) % 40; if( r == 0 ) usleep( H( g_tick ) % 60 ); else if( r < 4 ) sched_yield(); }
  void local( S_ first, S_ size, bool ts, double const * time, double d, S_ const * sp, unsigned char * const * se ) override;
  void neigh( S_ first, S_ size, bool ts, double const * d, unsigned char * const * re ) override;
  void src( S_ first, S_ size, double t0, double t1 ) override;
};
struct Rank {
  int id; std::vector< int > gl; std::map< int, int > lc; std::vector< S_ > nIn, nSe; std::vector< std::array< S_, 4 > > ad; std::vector< std::array< int, 4 > > rel; std::vector< int > srcEl; std::vector< t_elementChars > ec;
  std::vector< S_ > cs, seEl, reEl; std::vector< unsigned short > seFa, reFa; edge::data::Dynamic dyn; edge::parallel::Shared sh; edge::data::Internal in; GhostSolver gs; Ghost g; edge::io::Receivers rc;
  std::unique_ptr< Net > net; std::vector< edge::time::TimeGroupStatic > tgs; std::unique_ptr< edge::time::Manager > man;
};
void Ghost::local( S_ first, S_ size, bool ts, double const * time, double d, S_ const * sp, unsigned char * const * se ) {
  if( SWE ) { if( first+size > P->fa.size() ) { err( "faces out of bounds" ); return; } for( S_ i = first; i < first+size; i++ ) { nap(); nu[i] = H( st.dof[P->fa[i].first] + 3*H( P->fa[i].second < 0 ? 5 : st.dof[P->fa[i].second] ) ); } return; }
  if( first+size > R->gl.size() ) { if( size ) err( "elements of the local step out of bounds" ); return; }
  if( sp ) { S_ k = 0; for( S_ i = 0; i < first; i++ ) k += P->rcv[R->gl[i]]; if( *sp != k ) err( "first receiver element of the work package is " + std::to_string( *sp ) + " instead of " + std::to_string( k ) ); }
  for( S_ e = first; e < first+size; e++ ) {
    if( time && std::fabs( *time - t[e] ) > 1E-9*( 1+t[e] ) ) err( "time of the local step is " + std::to_string( *time ) + " instead of " + std::to_string( t[e] ) ); dt[e] = d; nap(); lo( st, e, ts );
    for( int f = 0; f < P->F; f++ ) { U * p = se ? (U*) se[e*P->F+f] : nullptr; if( !p ) continue; int r = R->rel[e][f]; if( r == 1 ) p[0] = st.full[e]; else if( r == 2 ) p[0] = ts ? st.full[e] : p[0] + st.full[e]; else { p[0] = st.h0[e]; nap(); p[1] = st.h1[e]; } } nap();
  }
}
void Ghost::src( S_ first, S_ size, double t0, double t1 ) { for( S_ i = first; i < first+size; i++ ) { if( i >= R->srcEl.size() ) { err( "sources out of bounds" ); return; } int e = R->srcEl[i]; if( std::fabs( t0 - t[e] ) > 1E-9*( 1+t[e] ) || std::fabs( t1 - t0 - dt[e] ) > 1E-9*( 1+t[e] ) ) err( "time interval of the sources does not match the local step" ); nap(); sr( st, e ); } }
void Ghost::neigh( S_ first, S_ size, bool ts, double const * d, unsigned char * const * re ) {
  if( SWE ) { if( first+size > (S_) P->n ) { err( "elements out of bounds" ); return; } for( S_ e = first; e < first+size; e++ ) { nap(); dt[e] = *d; U v = 0; for( S_ i = 0; i < P->fa.size(); i++ ) if( P->fa[i].first == (int) e || P->fa[i].second == (int) e ) v += fl( nu[i], i ); st.dof[e] = st.dof[e]*31 + v; t[e] += *d; } return; }
  if( first+size > R->gl.size() ) { if( size ) err( "elements of the neighboring step out of bounds" ); return; }
  for( S_ e = first; e < first+size; e++ ) { U v = 0; nap();
    for( int f = 0; f < P->F; f++ ) { int r = R->rel[e][f]; if( r == 0 ) continue; S_ a = R->ad[e][f]; U x; if( a == MX ) { U * p = re ? (U*) re[e*P->F+f] : nullptr; if( !p ) { err( "missing pointer to received data" ); continue; } x = r == 2 && !ts ? p[1] : p[0]; } else x = r == 1 ? st.full[a] : r == 3 ? st.acc[a] : ts ? st.h0[a] : st.h1[a]; v += fl( x, f ); }
    st.dof[e] += v; t[e] += dt[e]; nap(); }
}

static void gen( pbt::Src & s, Prob & P, bool mpi ) {
  P.G = SWE ? 1 : s.i( 1, 4 ); P.R = mpi ? s.i( 1, 3 ) : 1; P.F = SWE ? 4 : s.i( 1, 4 ); P.n = s.i( 1, 14 ); P.tg.resize( P.n ); P.rk.resize( P.n ); P.ad.assign( P.n, { { -1,-1,-1,-1 } } ); P.src.resize( P.n ); P.rcv.resize( P.n ); P.dof.resize( P.n );
  for( int e = 0; e < P.n; e++ ) { P.tg[e] = s.draw( P.G ); P.rk[e] = s.draw( P.R ); P.src[e] = SEIS && s.b( 0.3 ); P.rcv[e] = SEIS && s.b( 0.3 ); P.dof[e] = H( s.draw( 1000 ) + 1000*e ); }
  if( SWE ) { int nf = s.i( 1, 14 ); for( int i = 0; i < nf; i++ ) P.fa.push_back( { (int) s.draw( P.n ), (int) s.draw( P.n+1 ) - 1 } ); return; }
  int tr = s.i( 0, 3*P.n*P.F ); for( int i = 0; i < tr; i++ ) { int a = s.draw( P.n ), f = s.draw( P.F ), b = s.draw( P.n ), g = s.draw( P.F ); if( a == b || P.ad[a][f] >= 0 || P.ad[b][g] >= 0 || std::abs( P.tg[a]-P.tg[b] ) > 1 ) continue; P.ad[a][f] = b*4+g; P.ad[b][g] = a*4+f; }
}
// remote faces: different ranks; with one rank random faces are sent over the network to itself
static void build( pbt::Src & s, Prob const & P, std::vector< std::unique_ptr< Rank > > & rk, bool mpi, bool sep, double dt0 ) {
  bool loop = mpi && P.R == 1 && s.b( 0.9 ); std::vector< std::array< bool, 4 > > rem( P.n, { { false, false, false, false } } ); for( int e = 0; e < P.n; e++ ) for( int f = 0; f < P.F; f++ ) { int a = P.ad[e][f]; if( a < 0 || a/4 < e ) continue; bool r = P.rk[e] != P.rk[a/4]; if( loop ) r = s.b( 0.5 ); rem[e][f] = rem[a/4][a%4] = r; }
  rk.clear(); std::map< std::array< int, 4 >, std::vector< std::array< int, 4 > > > ch; // (rank,tg,rank,tg) with lower first -> (e,f,e2,f2)
  for( int e = 0; e < P.n; e++ ) for( int f = 0; f < P.F; f++ ) if( rem[e][f] ) { int a = P.ad[e][f]; ch[{ { P.rk[e], P.tg[e], P.rk[a/4], P.tg[a/4] } }].push_back( { { e, f, a/4, a%4 } } ); }
  // common order of the faces of both sides: by the face of the lower (rank,tg,element)
  std::map< std::array< int, 2 >, U > key; for( auto & c : ch ) for( auto & x : c.second ) { std::array< int, 2 > a = { { x[0], x[1] } }, b = { { x[2], x[3] } }; auto lo2 = std::min( a, b ); if( !key.count( lo2 ) ) key[lo2] = s.draw( 1000 ); }
  for( auto & c : ch ) std::sort( c.second.begin(), c.second.end(), [&]( std::array< int, 4 > const & x, std::array< int, 4 > const & y ) { auto k = [&]( std::array< int, 4 > const & z ) { std::array< int, 2 > a = { { z[0], z[1] } }, b = { { z[2], z[3] } }; auto l = std::min( a, b ); return std::make_tuple( key[l], l[0], l[1] ); }; if( k( x ) != k( y ) ) return k( x ) < k( y ); return x < y; } );
  for( int r = 0; r < P.R; r++ ) {
    rk.emplace_back( new Rank ); Rank & R = *rk.back(); R.id = r; R.nIn.assign( P.G, 0 ); R.nSe.assign( P.G, 0 ); std::vector< bool > se( P.n, false ); for( int e = 0; e < P.n; e++ ) for( int f = 0; f < P.F; f++ ) if( rem[e][f] ) se[e] = true; if( !SWE && s.b( 0.3 ) ) for( int e = 0; e < P.n; e++ ) if( s.b( 0.4 ) ) se[e] = true;
    for( int q = 0; q < 2; q++ ) for( int g = 0; g < P.G; g++ ) for( int e = 0; e < P.n; e++ ) if( P.rk[e] == r && P.tg[e] == g && se[e] == ( q == 1 ) ) { R.lc[e] = R.gl.size(); R.gl.push_back( e ); ( q ? R.nSe : R.nIn )[g]++; }
    int n = R.gl.size(); R.ad.resize( n ); R.rel.resize( n ); R.ec.resize( n+1 ); memset( (void*) R.ec.data(), 0, ( n+1 )*sizeof( t_elementChars ) );
    for( int i = 0; i < n; i++ ) { int e = R.gl[i]; if( P.src[e] ) R.srcEl.push_back( i ); if( P.rcv[e] ) R.ec[i].spType |= RECEIVER; for( int f = 0; f < 4; f++ ) { int a = P.ad[e][f]; R.ad[i][f] = a < 0 || rem[e][f] ? MX : R.lc[a/4]; R.rel[i][f] = a < 0 ? 0 : P.tg[a/4] == P.tg[e] ? 1 : P.tg[a/4] > P.tg[e] ? 2 : 3; } }
    R.cs.push_back( 0 ); for( auto & c : ch ) if( c.first[0] == r ) R.cs[0]++; std::vector< std::pair< std::array< int, 4 >, std::vector< std::array< int, 4 > > const * > > my; for( auto & c : ch ) if( c.first[0] == r ) my.push_back( { c.first, &c.second } ); auto pm = s.perm( my.size() );
    for( S_ k : pm ) { auto & c = my[k]; R.cs.push_back( c.first[1] ); R.cs.push_back( c.first[2] ); R.cs.push_back( c.first[3] ); R.cs.push_back( c.second->size() );
      // send order: the channel's pairs; receive order: the order in which the other side sends them
      auto & ot = ch[{ { c.first[2], c.first[3], c.first[0], c.first[1] } }]; for( auto & x : *c.second ) { R.seEl.push_back( R.lc[x[0]] ); R.seFa.push_back( x[1] ); } for( auto & x : ot ) { R.reEl.push_back( R.lc[x[2]] ); R.reFa.push_back( x[3] ); } }
    R.seEl.push_back( 0 ); R.reEl.push_back( 0 ); R.seFa.push_back( 0 ); R.reFa.push_back( 0 );
    edge::parallel::g_rank = r; R.sh.init( sep ); R.net.reset( new Net( 0, nullptr ) ); edge::parallel::g_rank = r;
#ifdef PP_USE_MPI
    R.net->init( P.G, P.F, n, 8, R.cs[0] ? R.cs.data() : nullptr, R.seFa.data(), R.seEl.data(), R.reFa.data(), R.reEl.data(), R.dyn, s.i( 1, 4 ) );
#else
    R.net->init( P.G, P.F, n, 8, nullptr, nullptr, nullptr, nullptr, nullptr, R.dyn );
#endif
    Ghost & g = R.g; g.P = &P; g.R = &R; g.st.dof.resize( n ); for( int i = 0; i < n; i++ ) g.st.dof[i] = P.dof[R.gl[i]]; g.st.full.assign( n, 1 ); g.st.h0.assign( n, 2 ); g.st.h1.assign( n, 3 ); g.st.acc.assign( n, 4 ); g.t.assign( n, 0 ); g.dt.assign( n, 0 ); g.nu.assign( P.fa.size(), 0 );
    R.gs.g = &g; R.in.m_globalShared3[0].g = &g; R.in.m_globalShared4[0] = &R.gs; R.in.m_elementModePrivate1 = &g;
    // work regions as in the setups; the result does not depend on the priorities
    auto & l_shared = R.sh; S_ NC = N_ENTRIES_CONTROL_FLOW; long long rt[1] = { RECEIVER };
    if( SWE ) { l_shared.regWrkRgn( 0, 0, 0, 0, P.fa.size(), 0 ); l_shared.regWrkRgn( 0, 1, 1, 0, P.n, 0 ); }
    else { S_ de = 0, sr2 = 0; bool rp = s.b(); for( int q = 0; q < 2; q++ ) for( int t = 0; t < P.G; t++ ) { S_ m = q ? R.nSe[t] : R.nIn[t]; int pr0 = q ? P.G*2-t : P.G-t, pr = rp ? s.i( 0, 8 ) : pr0, pr1 = rp ? s.i( 0, 8 ) : pr0, pr2 = rp ? s.i( 0, 8 ) : pr0; S_ ns = 0; for( S_ i = de; i < de+m; i++ ) ns += P.src[R.gl[i]];
        if( SEIS ) { l_shared.regWrkRgn( t, 0, t*NC+q, de, m, pr, 1, (int_spType*) rt, R.ec.data() ); l_shared.regWrkRgn( t, 1, t*NC+2+q, sr2, ns, pr1 ); l_shared.regWrkRgn( t, 2, t*NC+4+q, de, m, pr2 ); }
        else { l_shared.regWrkRgn( t, 0, t*NC+q, de, m, pr ); l_shared.regWrkRgn( t, 1, t*NC+2+q, de, m, pr2 ); } de += m; sr2 += ns; } }
    for( int t = 0; t < P.G; t++ ) R.tgs.push_back( edge::time::TimeGroupStatic( P.G, t, R.in, R.net->nCommBuffers(), R.net->getSendPtrs(), R.net->getRecvPtrs() ) );
    R.man.reset( new edge::time::Manager( dt0, R.sh, *R.net, R.tgs, R.rc ) );
  }
}
// reference: elements of a group predict at the begin and update at the end of the group's time steps
static void reference( Prob const & P, St & st, U super ) {
  if( SWE ) { for( U k = 0; k < super; k++ ) { std::vector< U > nu( P.fa.size() ); for( S_ i = 0; i < nu.size(); i++ ) nu[i] = H( st.dof[P.fa[i].first] + 3*H( P.fa[i].second < 0 ? 5 : st.dof[P.fa[i].second] ) ); for( int e = 0; e < P.n; e++ ) { U v = 0; for( S_ i = 0; i < nu.size(); i++ ) if( P.fa[i].first == e || P.fa[i].second == e ) v += fl( nu[i], i ); st.dof[e] = st.dof[e]*31 + v; } } return; }
  U per = 1ull << ( P.G-1 ); for( U k = 0; k < super*per; k++ ) {
    for( int e = 0; e < P.n; e++ ) { U m = 1ull << P.tg[e]; if( k % m ) continue; lo( st, e, ( k/m ) % 2 == 0 ); if( P.src[e] ) sr( st, e ); }
    std::vector< U > v( P.n, 0 ); for( int e = 0; e < P.n; e++ ) { U m = 1ull << P.tg[e]; if( ( k+1 ) % m ) continue; U stp = k/m; bool ts = stp % 2 == 0; for( int f = 0; f < P.F; f++ ) { int a = P.ad[e][f]; if( a < 0 ) continue; a /= 4; U x = P.tg[a] == P.tg[e] ? st.full[a] : P.tg[a] < P.tg[e] ? st.acc[a] : ts ? st.h0[a] : st.h1[a]; v[e] += fl( x, f ); } }
    for( int e = 0; e < P.n; e++ ) if( ( k+1 ) % ( 1ull << P.tg[e] ) == 0 ) st.dof[e] += v[e];
  }
}

static void sim( pbt::Src & s, pbt::Ctx & c, int threads ) {
  g_err.clear(); g_flush = 0; g_tick = 1 + s.draw( 100000 ); g_net.s = s.draw( 1u<<20 ); g_pp = 20 + s.draw( 900 ); netReset(); bool mpi = false;
#ifdef PP_USE_MPI
  mpi = SEIS;
#endif
  Prob P; gen( s, P, mpi && threads == 0 ? true : false ); if( threads == 0 && mpi == false ) P.R = 1; bool sep = s.b();
#ifdef PP_USE_OMP
  omp_set_num_threads( threads ); g_size = 1; edge::parallel::g_nRanks = 1; edge::parallel::g_rank = 0;
#else
  g_size = P.R; edge::parallel::g_nRanks = P.R;
#endif
  double dt0 = s.pick< double >( { 1, 0.25, 0.0137, 3.3E-4 } ); std::vector< std::unique_ptr< Rank > > rk; build( s, P, rk, mpi, sep, dt0 ); for( auto & r : rk ) r->g.rt = threads > 0;
  int nSync = s.i( 1, 3 ); double dtM = dt0*double( 1 << ( P.G-1 ) ), total = 0; St st; st.dof = P.dof; st.full.assign( P.n, 1 ); st.h0.assign( P.n, 2 ); st.h1.assign( P.n, 3 ); st.acc.assign( P.n, 4 ); std::vector< double > T( nSync ); std::vector< bool > mul( nSync ); std::vector< U > nf( nSync );
  for( int k = 0; k < nSync; k++ ) { nf[k] = s.draw( 4 ); double fr = s.b( 0.15 ) && dt0 >= 0.25 ? 0 : s.r( 0.01, 0.99 ); mul[k] = fr == 0; T[k] = ( nf[k]+fr )*dtM; total += T[k]; }
  std::vector< std::vector< U > > upd( P.R, std::vector< U >( nSync, 0 ) );
  auto body = [&]( int r ) { for( int k = 0; k < nSync; k++ ) { rk[r]->man->simulate( T[k] ); U u = rk[r]->tgs[P.G-1].getUpdatesSync(); upd[r][k] = u; for( int t = 0; t < P.G; t++ ) if( rk[r]->tgs[t].getUpdatesSync() != u << ( P.G-1-t ) ) err( "updates of time group " + std::to_string( t ) ); } };
  if( threads > 0 ) body( 0 ); else { std::vector< std::function< void() > > fs; for( int r = 0; r < P.R; r++ ) fs.push_back( [&body,r]() { body( r ); } ); runAll( fs ); }
  if( !g_err.empty() ) c.fail( g_err[0] );
  c.require( netIdle(), "messages are left after the last synchronization" );
  for( int k = 0; k < nSync; k++ ) { U w = upd[0][k]; for( int r = 0; r < P.R; r++ ) c.require( upd[r][k] == w, "ranks perform a different number of steps" ); c.require( w == nf[k]+1 || ( mul[k] && w == nf[k] ), "number of steps of the largest time group: " + std::to_string( w ) + ", full steps in the interval: " + std::to_string( nf[k] ) ); reference( P, st, w ); }
  for( auto & r : rk ) { for( int t = 0; t < P.G; t++ ) { c.close( r->tgs[t].getCovSimTime(), total, 1E-9, 0, "time covered by time group " + std::to_string( t ) ); c.require( r->tgs[t].finished(), "time group not finished" ); }
    for( S_ i = 0; i < r->gl.size(); i++ ) { c.close( r->g.t[i], total, 1E-9, 0, "time covered by an element" ); c.require( r->g.st.dof[i] == st.dof[r->gl[i]], "result of element " + std::to_string( r->gl[i] ) + " of time group " + std::to_string( P.tg[r->gl[i]] ) + " on rank " + std::to_string( r->id ) + " differs from the sequential execution" ); } }
  c.nontrivial( P.n > 1 && ( P.G > 1 || P.R > 1 || threads > 1 ) ); std::ostringstream os; os << "elements " << P.n << " time groups " << P.G << " ranks " << P.R << " threads " << threads << " syncs " << nSync << " messages " << g_sent; c.sample( os.str() ); rk.clear();
}

#ifdef PP_USE_OMP

// work packages of the threads partition the work regions, whatever the measured times
PBT( balance, 20000, 400000, "more than one worker and region" ) {
  g_tick = 1 + s.draw( 1000000 ); int nw = s.i( 1, 6 ), nr = s.i( 1, 5 ); edge::parallel::LoadBalancing lb( s.pick< double >( { 1E-3, 1E-6, 0.3 } ), s.pick< double >( { 0, 0.025, 0.4 } ) ); lb.init( nw );
  struct Rg { S_ first, size; std::vector< long long > ty; }; std::vector< Rg > rg; int n = s.i( 0, 60 ); std::vector< t_elementChars > ec( n+1 ); memset( (void*) ec.data(), 0, ec.size()*sizeof( ec[0] ) ); for( int i = 0; i < n; i++ ) ec[i].spType = s.draw( 8 );
  for( int r = 0; r < nr; r++ ) { Rg g; g.first = s.i( 0, n ); g.size = s.i( 0, n-g.first ); int nt = s.i( 0, 3 ); for( int t = 0; t < nt; t++ ) g.ty.push_back( 1+s.draw( 7 ) ); int pos = s.i( 0, rg.size() ); lb.regWrkRgn( pos, g.first, g.size, nt, g.ty.data(), ec.data() ); rg.insert( rg.begin()+pos, g ); }
  int st = s.i( 0, 8 ); for( int k = 0; k <= st; k++ ) {
    for( int r = 0; r < nr; r++ ) { S_ at = rg[r].first; S_ mn = MX, mxs = 0; for( int w = 0; w < nw; w++ ) { S_ f = 77, z = 77, sp[4] = { 99, 99, 99, 99 }; lb.getWrkTd( r, w, f, z, sp ); c.require( f == at, "work packages of a region are not contiguous: package " + std::to_string( w ) + " starts at " + std::to_string( f ) + " instead of " + std::to_string( at ) ); for( S_ t = 0; t < rg[r].ty.size(); t++ ) { S_ x = 0; for( S_ i = 0; i < f; i++ ) x += ( ec[i].spType & rg[r].ty[t] ) == rg[r].ty[t]; c.require( sp[t] == x, "first sparse entity of a work package: " + std::to_string( sp[t] ) + " instead of " + std::to_string( x ) ); } at += z; mn = std::min( mn, z ); mxs = std::max( mxs, z ); } c.require( at == rg[r].first+rg[r].size, "work packages do not cover the region" ); if( k == 0 ) c.require( mxs-mn <= 1, "initial work packages are not balanced" ); }
    for( int r = 0; r < nr; r++ ) { int m = s.i( 0, 3 ); for( int q = 0; q < m; q++ ) for( int w = 0; w < nw; w++ ) if( s.b( 0.8 ) ) { lb.startClock( r, w ); lb.stopClock( r, w ); } } lb.balance(); }
  c.nontrivial( nw > 1 && nr > 1 ); std::ostringstream os; os << "workers " << nw << " regions " << nr << " balancing steps " << st; c.sample( os.str() );
}

// regions are handed out by priority and registration order, the status of packages follows the life cycle
PBT( regions, 5000, 100000, "more than one region" ) {
  int nw = 1; omp_set_num_threads( s.i( 1, 3 ) ); edge::parallel::Shared sh; bool sep = s.b(); sh.init( sep ); int nT = edge::parallel::g_nThreads; nw = sep && nT > 1 ? nT-1 : nT; c.require( sh.m_nWrks == nw, "number of workers" );
  { std::atomic< int > wk( 0 ), sc( 0 ), cm( 0 );
#pragma omp parallel
    { if( sh.isWrk() ) wk++; if( sh.isSched() ) sc++; if( sh.isComm() ) cm++; }
    c.require( wk == nw && sc == 1 && cm == 1, "roles of the threads" ); }
  int nr = s.i( 1, 7 ); struct Rg { unsigned id; int prio; S_ first, size; unsigned short tg, st; }; std::vector< Rg > rg; auto ids = s.perm( nr ); for( int r = 0; r < nr; r++ ) { Rg g = { (unsigned)( ids[r]*3 ), (int) s.i( -3, 3 ), (S_) s.draw( 20 ), (S_) s.draw( 20 ), (unsigned short) s.draw( 5 ), (unsigned short) s.draw( 5 ) }; rg.push_back( g ); sh.regWrkRgn( g.tg, g.st, g.id, g.first, g.size, g.prio ); }
  typedef edge::parallel::Shared SH; std::vector< std::vector< int > > stt( nr, std::vector< int >( nw, 0 ) ); /* 0: wait 1: ready 2: in progress 3: finished */ int bad = 0; std::string msg; int ops = s.i( 1, 40 );
  auto as = [&]( int w, std::function< void() > f ) { int th = nw == nT ? w : w+1;
#pragma omp parallel num_threads( nT )
    { if( omp_get_thread_num() == th ) { try { f(); } catch( pbt::Fail & e ) { bad = 1; msg = e.msg; } } }
    if( bad ) c.fail( msg ); };
  std::vector< int > cur( nw, -1 ); for( int o = 0; o < ops; o++ ) { int r = s.draw( nr );
    switch( s.draw( 4 ) ) {
      case 0: { bool ok = true; for( int x : stt[r] ) ok = ok && ( x == 0 || x == 3 ); if( ok ) { sh.setStatusAll( SH::RDY, rg[r].id ); for( int & x : stt[r] ) x = 1; } break; }
      case 1: { int w = s.draw( nw ); as( w, [&]() { unsigned short tg, st; unsigned id; int_el fi, sz, sp[128]; bool got = sh.getWrkTd( tg, st, id, fi, sz, sp ); int e = -1; for( int q = 0; q < nr; q++ ) if( stt[q][w] == 1 && ( e < 0 || rg[q].prio > rg[e].prio ) ) e = q; if( got != ( e >= 0 ) ) throw pbt::Fail{ got ? "work without ready package" : "no work in spite of a ready package" }; if( !got ) return; if( id != rg[e].id || tg != rg[e].tg || st != rg[e].st ) throw pbt::Fail{ "work region " + std::to_string( id ) + " instead of " + std::to_string( rg[e].id ) }; if( fi < rg[e].first || fi+sz > rg[e].first+rg[e].size ) throw pbt::Fail{ "work package out of its region" }; sh.setStatusTd( SH::IPR, id ); stt[e][w] = 2; } ); break; }
      case 2: { int w = s.draw( nw ); if( stt[r][w] == 2 ) as( w, [&]() { sh.setStatusTd( SH::FIN, rg[r].id ); stt[r][w] = 3; } ); break; }
      default: if( s.b( 0.1 ) ) { sh.resetStatus( SH::WAI ); for( auto & x : stt ) for( int & y : x ) y = 0; sh.balance(); } }
    for( int q = 0; q < nr; q++ ) { SH::t_status k[4] = { SH::WAI, SH::RDY, SH::IPR, SH::FIN }; for( int x = 0; x < 4; x++ ) { bool all = true; for( int y : stt[q] ) all = all && y == x; c.require( sh.getStatusAll( k[x], rg[q].id ) == all, "status of the packages of a region" ); } } }
  // first touch initialization covers all values
  { int G = s.i( 1, 3 ); std::vector< S_ > in( G ), se( G ); S_ t = 0; for( auto & x : in ) t += x = s.draw( 9 ); for( auto & x : se ) t += x = s.draw( 9 ); S_ pe = s.i( 1, 5 ); t *= pe; std::vector< int > v( t+1, 7 );
#pragma omp parallel num_threads( nT )
    sh.numaInit( (unsigned short) G, in.data(), se.data(), pe, v.data() );
    for( S_ i = 0; i < t; i++ ) c.require( v[i] == 0, "value is not initialized" ); c.require( v[t] == 7, "initialization beyond the array" ); }
  c.nontrivial( nr > 1 ); std::ostringstream os; os << "regions " << nr << " workers " << nw << " operations " << ops; c.sample( os.str() );
}
PBT( threads, 2500, 60000, "several elements and threads or time groups" ) { alarm( 240 ); sim( s, c, s.i( 1, 4 ) ); }
#else
PBT( ranks, 10000, 150000, "several elements and ranks or time groups" ) { sim( s, c, 0 ); }
#endif

#if defined( PP_USE_MPI ) && !defined( PP_USE_OMP )
// every face has its own part of the messages, both sides agree on tags, sizes and order
PBT( messages, 4000, 80000, "with channels" ) {
  g_err.clear(); g_net.s = 1; netReset(); Prob P; gen( s, P, true ); g_size = P.R; edge::parallel::g_nRanks = P.R; std::vector< std::unique_ptr< Rank > > rk; build( s, P, rk, true, false, 1 ); S_ nc = 0;
  for( auto & rp : rk ) { Rank & R = *rp; S_ n = R.gl.size(), C = R.cs[0], k = 0; nc += C; unsigned char * so = R.net->sb(), * ro = R.net->rb(); std::set< S_ > sd, rd; S_ ss = 0, rs = 0;
    for( S_ i = 0; i < C; i++ ) { S_ tg = R.cs[1+i*4], ra = R.cs[2+i*4], ta = R.cs[3+i*4], m = R.cs[4+i*4]; auto & a = R.net->se( i ); auto & b = R.net->re( i ); S_ ns = m*8*( tg > ta ? 2 : 1 ), nr = m*8*( tg < ta ? 2 : 1 );
      c.require( a.tgL == tg && a.tgR == ta && b.tgL == tg && b.tgR == ta && a.rank == (int) ra && b.rank == (int) ra, "time groups and rank of a channel" ); c.require( a.size == ns && b.size == nr, "size of a message" ); c.require( a.offL == ss && b.offL == rs, "offset of a message" );
      for( S_ j = 0; j < m; j++, k++ ) { S_ x = R.seEl[k]*P.F+R.seFa[k], y = R.reEl[k]*P.F+R.reFa[k]; sd.insert( x ); rd.insert( y ); c.require( R.net->getSendPtrs()[0][x] == so+ss+j*( ns/m ), "send pointer" ); c.require( R.net->getRecvPtrs()[0][y] == ro+rs+j*( nr/m ), "receive pointer" ); }
      ss += ns; rs += nr; 
      // the other side
      Rank & O = *rk[ra]; int hit = 0; for( S_ j = 0; j < O.cs[0]; j++ ) if( O.cs[1+j*4] == ta && O.cs[2+j*4] == (S_) R.id && O.cs[3+j*4] == tg ) { hit++; c.require( O.net->re( j ).tag == a.tag && O.net->se( j ).tag == b.tag, "tags of both sides" ); c.require( O.net->re( j ).size == a.size && O.net->se( j ).size == b.size, "sizes of both sides" ); } c.require( hit == 1, "harness: channel of the other side" );
      for( S_ j = 0; j < i; j++ ) if( R.net->se( j ).rank == a.rank ) c.require( R.net->se( j ).tag != a.tag && R.net->re( j ).tag != b.tag, "tags of different channels coincide" ); }
    c.require( R.net->sbs() == ss && R.net->rbs() == rs, "size of the buffers" ); for( S_ x = 0; x < n*P.F; x++ ) { if( !sd.count( x ) ) c.require( R.net->getSendPtrs()[0][x] == nullptr, "send pointer of a face without communication" ); if( !rd.count( x ) ) c.require( R.net->getRecvPtrs()[0][x] == nullptr, "receive pointer of a face without communication" ); } }
  c.nontrivial( nc > 0 ); std::ostringstream os; os << "ranks " << P.R << " time groups " << P.G << " channels " << nc; c.sample( os.str() );
}
// double buffered communication: the buffers of send number n and of the receive which consumes it match on both sides
struct Two: public edge::parallel::Distributed { using Distributed::Distributed; void beginSends( bool, unsigned short ) {} void beginRecvs( bool, unsigned short ) {} void comm() {} bool finSends( bool, unsigned short ) const { return true; } bool finRecvs( bool, unsigned short ) const { return true; }
  void go( Prob const & P, Rank & R ) { Distributed::init( P.G, P.F, R.gl.size(), 8, R.cs.data(), R.seFa.data(), R.seEl.data(), R.reFa.data(), R.reEl.data(), 2, R.dyn ); }
  unsigned char * sb( int b ) { return m_sendBuffers + b*m_sendBufferSize; } unsigned char * rb( int b ) { return m_recvBuffers + b*m_recvBufferSize; } S_ so( S_ c ) { return m_sendMsgs[c].offL; } S_ ro( S_ c ) { return m_recvMsgs[c].offL; }
  void se( unsigned short tg, S_ n, unsigned short * o ) { m_nSendsSync[tg] = n; sendCommBuffers2( tg, o[0], o[1], o[2] ); } void re( unsigned short tg, S_ n, unsigned short * o ) { m_nRecvsSync[tg] = n; recvCommBuffers2( tg, o[0], o[1] ); } };
PBT( double_buffers, 2000, 40000, "with channels" ) {
  g_err.clear(); g_net.s = 1; netReset(); Prob P; gen( s, P, true ); g_size = P.R; edge::parallel::g_nRanks = P.R; std::vector< std::unique_ptr< Rank > > rk; build( s, P, rk, true, false, 1 ); S_ nc = 0; std::vector< std::unique_ptr< Two > > tw; for( auto & r : rk ) { tw.emplace_back( new Two( 0, nullptr ) ); tw.back()->go( P, *r ); c.require( tw.back()->nCommBuffers() == 2, "number of buffers" ); }
  for( int k = 0; k < 8; k++ ) for( auto & rp : rk ) { Rank & R = *rp; Two & T = *tw[R.id]; S_ C = R.cs[0], at = 0; nc += C;
    for( S_ i = 0; i < C; i++ ) { S_ tg = R.cs[1+i*4], ra = R.cs[2+i*4], ta = R.cs[3+i*4], m = R.cs[4+i*4], n = s.draw( 40 ); if( tg < ta ) n |= 1; unsigned short o[3]; T.se( tg, n, o ); int L = o[0], Rm = tg < ta ? o[1] : o[2]; c.require( L < 2 && Rm < 2, "buffer of a message" );
      for( S_ j = 0; j < m; j++ ) { S_ x = R.seEl[at+j]*P.F+R.seFa[at+j]; c.require( T.getSendPtrs()[n%2][x] == T.sb( L )+T.so( i )+j*8*( tg > ta ? 2 : 1 ), "send pointer of a double buffered message" ); }
      Rank & O = *rk[ra]; Two & U_ = *tw[ra]; S_ ao = 0; for( S_ j = 0; j < O.cs[0]; j++ ) { S_ mo = O.cs[4+j*4]; if( O.cs[1+j*4] == ta && O.cs[2+j*4] == (S_) R.id && O.cs[3+j*4] == tg ) { S_ q0 = tg < ta ? n/2 : tg == ta ? n : 2*n, q1 = tg > ta ? q0+1 : q0; for( S_ q = q0; q <= q1; q++ ) { unsigned short w[2]; U_.re( ta, q, w ); int B = ta < tg ? w[0] : w[1]; c.require( B == Rm, "receive number " + std::to_string( q ) + " of time group " + std::to_string( ta ) + " uses another buffer than send number " + std::to_string( n ) + " of time group " + std::to_string( tg ) );
            for( S_ z = 0; z < mo; z++ ) { S_ y = O.reEl[ao+z]*P.F+O.reFa[ao+z]; c.require( U_.getRecvPtrs()[q%4][y] == U_.rb( B )+U_.ro( j )+z*8*( tg > ta ? 2 : 1 ), "receive pointer of a double buffered message" ); } } } ao += mo; }
      at += m; } }
  c.nontrivial( nc > 0 ); std::ostringstream os; os << "ranks " << P.R << " time groups " << P.G << " channels " << nc/8; c.sample( os.str() );
}
// data synchronization and minimum over all ranks
PBT( collectives, 3000, 60000, "more than one rank" ) {
  g_err.clear(); g_net.s = s.draw( 1u<<20 ); g_pp = 300; netReset(); Prob P; gen( s, P, true ); g_size = P.R; edge::parallel::g_nRanks = P.R; std::vector< std::unique_ptr< Rank > > rk; build( s, P, rk, true, false, 1 ); g_red.clear(); g_redNo.assign( P.R, 0 );
  S_ bc = s.i( 0, 5 ), bf = s.i( 0, 9 ), nv = s.i( 1, 5 ); std::vector< std::vector< unsigned char > > se( P.R ), re( P.R ); std::vector< std::vector< double > > va( P.R, std::vector< double >( nv ) ); std::vector< std::vector< unsigned short > > mi( P.R, std::vector< unsigned short >( nv, 9 ) );
  for( int r = 0; r < P.R; r++ ) { S_ z = 0; for( S_ i = 0; i < rk[r]->cs[0]; i++ ) z += bc+bf*rk[r]->cs[4+i*4]; se[r].resize( z+1 ); re[r].assign( z+1, 0x77 ); for( auto & x : se[r] ) x = s.draw( 256 ); for( auto & x : va[r] ) x = s.i( -2, 2 ) + ( s.b( 0.3 ) ? s.r( 0, 1 ) : 0 ); }
  std::vector< std::function< void() > > fs; for( int r = 0; r < P.R; r++ ) fs.push_back( [&,r]() { rk[r]->net->syncData( bc, bf, se[r].data(), re[r].data() ); edge::parallel::Distributed::min( nv, va[r].data(), mi[r].data() ); } ); runAll( fs ); if( !g_err.empty() ) c.fail( g_err[0] ); c.require( netIdle(), "messages are left after the synchronization" );
  for( int r = 0; r < P.R; r++ ) { Rank & R = *rk[r]; S_ o = 0; for( S_ i = 0; i < R.cs[0]; i++ ) { S_ z = bc+bf*R.cs[4+i*4]; Rank & O = *rk[R.cs[2+i*4]]; S_ oo = 0; for( S_ j = 0; j < O.cs[0]; j++ ) { S_ zo = bc+bf*O.cs[4+j*4]; if( O.cs[1+j*4] == R.cs[3+i*4] && O.cs[2+j*4] == (S_) r && O.cs[3+j*4] == R.cs[1+i*4] ) c.require( memcmp( &re[r][o], &se[O.id][oo], z ) == 0, "synchronized data of a channel" ); oo += zo; } o += z; } c.require( re[r][o] == 0x77, "synchronized data is written out of bounds" ); }
  for( S_ v = 0; v < nv; v++ ) { int w = 0; for( int r = 1; r < P.R; r++ ) if( va[r][v] < va[w][v] ) w = r; for( int r = 0; r < P.R; r++ ) c.require( mi[r][v] == ( r == w ? 1 : 0 ), "rank with the minimum" ); }
  c.nontrivial( P.R > 1 ); std::ostringstream os; os << "ranks " << P.R << " values " << nv << " bytes " << bc << "+" << bf << "*faces"; c.sample( os.str() );
}
#endif
