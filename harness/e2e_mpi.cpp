// MPI between processes through a file mapped by all of them (E2E_SHM), see e2e.py. Messages are copied at a random
// time between the start of the send and its completion; two messages on the same (source, destination, tag) keep their order.
#include <mpi.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
namespace {
std::size_t const ARENA = std::size_t( 1 ) << 30, MSGS = 200000;
struct Msg { int src, dst, tag, state; std::size_t size, off; std::atomic< int > ready; };
struct Shm { std::atomic< int > lock; std::size_t n, used; std::atomic< int > arrived, gen; unsigned char red[16][4096]; Msg m[MSGS]; };
Shm * g = nullptr; unsigned char * arena = nullptr; int rk = 0, nr = 1; unsigned long long rs = 1; bool inited = false;
struct Req { bool done, send; void const * p; void * q; std::size_t size; int peer, tag; std::size_t slot; int wait; };
std::recursive_mutex mu;
unsigned rnd( unsigned n ) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return ( rs >> 33 ) % n; }
void lock() { int e = 0; while( !g->lock.compare_exchange_weak( e, 1 ) ) { e = 0; sched_yield(); } }
void unlock() { g->lock.store( 0 ); }
void die( char const * m ) { std::fprintf( stderr, "E2E-MPI: %s\n", m ); std::_Exit( 77 ); }
void init() {
  if( inited ) return;
  inited = true;
  char const * f = std::getenv( "E2E_SHM" );
  rk = f ? std::atoi( std::getenv( "E2E_RANK" ) ) : 0; nr = f ? std::atoi( std::getenv( "E2E_RANKS" ) ) : 1;
  rs = 88172645463325252ull + 7919 * rk + ( std::getenv( "E2E_SEED" ) ? std::strtoull( std::getenv( "E2E_SEED" ), nullptr, 10 ) * 104729 : 0 );
  void * a;
  if( f ) {
    int fd = open( f, O_RDWR );
    if( fd < 0 ) die( "no shared file" );
    a = mmap( nullptr, sizeof( Shm ) + ARENA, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
  }
  else a = mmap( nullptr, sizeof( Shm ) + ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
  if( a == MAP_FAILED ) die( "mmap" );
  g = (Shm *) a; arena = (unsigned char *) a + sizeof( Shm );
}
std::size_t sz( MPI_Datatype t ) { switch( t ) { case MPI_BYTE: return 1; case MPI_DOUBLE: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: return 8; case MPI_UNSIGNED_SHORT: return 2; default: return 4; } }
std::vector< Req * > sends;
bool progress( Req * r ) {
  if( r->done ) return true;
  if( r->send ) {
    if( r->wait-- > 0 ) return false;
    std::memcpy( arena + g->m[r->slot].off, r->p, r->size );
    g->m[r->slot].ready.store( 1, std::memory_order_release );
    return r->done = true;
  }
  lock();
  if( r->slot == MSGS ) for( std::size_t i = 0; i < g->n; i++ ) if( g->m[i].state == 0 && g->m[i].src == r->peer && g->m[i].dst == rk && g->m[i].tag == r->tag ) { g->m[i].state = 1; r->slot = i; break; }
  unlock();
  if( r->slot == MSGS ) return false;
  Msg & m = g->m[r->slot];
  if( m.size > r->size ) die( "message truncated" );
  if( !m.ready.load( std::memory_order_acquire ) || r->wait-- > 0 ) return false;
  std::memcpy( r->q, arena + m.off, m.size );
  return true;
}
// every call makes progress with all sends
void poll() { std::lock_guard< std::recursive_mutex > l( mu ); for( std::size_t i = 0; i < sends.size(); ) { if( progress( sends[i] ) ) { sends[i] = sends.back(); sends.pop_back(); } else i++; } }
}
extern "C" {
int MPI_Init( int *, char *** ) { init(); return 0; }
int MPI_Init_thread( int *, char ***, int w, int * p ) { init(); *p = w; return 0; }
int MPI_Initialized( int * f ) { *f = inited; return 0; }
int MPI_Comm_size( MPI_Comm, int * s ) { init(); *s = nr; return 0; }
int MPI_Comm_rank( MPI_Comm, int * r ) { init(); *r = rk; return 0; }
int MPI_Get_version( int * a, int * b ) { *a = 3; *b = 1; return 0; }
int MPI_Barrier( MPI_Comm ) { int k = g->gen.load(); if( g->arrived.fetch_add( 1 ) + 1 == nr ) { g->arrived.store( 0 ); g->gen.store( k + 1 ); } else while( g->gen.load() == k ) { poll(); usleep( 50 ); } return 0; }
int MPI_Finalize() {
  MPI_Barrier( MPI_COMM_WORLD );
  if( rk == 0 ) { lock(); for( std::size_t i = 0; i < g->n; i++ ) if( g->m[i].state == 0 ) die( "a message was never received" ); unlock(); }
  return 0;
}
int MPI_Isend( void const * p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request * q ) {
  if( n < 0 || dst < 0 || dst >= nr ) die( "invalid arguments of MPI_Isend" );
  std::lock_guard< std::recursive_mutex > l( mu ); lock();
  if( g->n == MSGS || g->used + n * sz( t ) > ARENA ) die( "out of space" );
  Msg & m = g->m[g->n]; m.src = rk; m.dst = dst; m.tag = tag; m.state = 0; m.size = n * sz( t ); m.off = g->used; m.ready.store( 0 ); g->used += ( m.size + 63 ) / 64 * 64;
  *q = new Req{ false, true, p, nullptr, m.size, dst, tag, g->n++, (int) rnd( 4 ) };
  sends.push_back( (Req *) *q );
  unlock(); return 0;
}
int MPI_Irecv( void * p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request * q ) {
  if( n < 0 || src < 0 || src >= nr ) die( "invalid arguments of MPI_Irecv" );
  std::lock_guard< std::recursive_mutex > l( mu );
  *q = new Req{ false, false, nullptr, p, n * sz( t ), src, tag, MSGS, (int) rnd( 4 ) };
  std::memset( p, 0xff, n * sz( t ) );
  return 0;
}
int MPI_Test( MPI_Request * q, int * f, MPI_Status * ) {
  std::lock_guard< std::recursive_mutex > l( mu );
  poll();
  *f = 1;
  if( *q == MPI_REQUEST_NULL ) return 0;
  if( ( *f = progress( (Req *) *q ) ) ) { for( std::size_t i = 0; i < sends.size(); i++ ) if( sends[i] == *q ) { sends.erase( sends.begin() + i ); break; } delete (Req *) *q; *q = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Wait( MPI_Request * q, MPI_Status * s ) { int f = 0; while( true ) { MPI_Test( q, &f, s ); if( f ) return 0; usleep( 20 ); } }
int MPI_Waitall( int n, MPI_Request * q, MPI_Status * ) { while( true ) { bool all = true; for( int i = 0; i < n; i++ ) { int f; MPI_Test( q + i, &f, MPI_STATUS_IGNORE ); all = all && f; } if( all ) return 0; usleep( 20 ); } }
int MPI_Allreduce( void const * a, void * b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c ) {
  std::size_t w = sz( t );
  for( int k = 0; k < n; k += 512 ) {
    int h = n - k < 512 ? n - k : 512;
    std::memcpy( g->red[rk], (char const *) a + k * w, h * w );
    MPI_Barrier( c );
    for( int i = 0; i < h; i++ ) {
#define RED( T ) { T x = ( (T *) g->red[0] )[i]; for( int r = 1; r < nr; r++ ) { T y = ( (T *) g->red[r] )[i]; x = o == MPI_SUM ? (T)( x + y ) : o == MPI_MIN ? ( y < x ? y : x ) : ( y > x ? y : x ); } ( (T *) b )[k + i] = x; }
      if( t == MPI_DOUBLE ) RED( double ) else if( t == MPI_INT ) RED( int ) else if( t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG ) RED( unsigned long long ) else if( t == MPI_FLOAT ) RED( float ) else if( t == MPI_UNSIGNED ) RED( unsigned ) else die( "type" );
    }
    MPI_Barrier( c );
  }
  return 0;
}
}
