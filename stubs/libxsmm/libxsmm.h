// stand-in for LIBXSMM (not installed here): the documented semantics of the kernels EDGE requests, as plain loops.
//  dense:        column-major gemm, C = alpha A B + beta C
//  packed csr:   lda == 0: A is sparse (CSR), B and C are row-major with the fused simulations innermost; ldb == 0: B is sparse
//  packed csc:   ldb == 0: B is sparse (CSC); lda == 0: A is sparse
//  packed ac_rm: A and C are row-major with the fused simulations innermost, B is dense row-major
// values of sparse operands are those passed in the call (non-zeros in storage order).
#ifndef VERIF_LIBXSMM_H
#define VERIF_LIBXSMM_H
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <utility>
#include <vector>
enum libxsmm_gemm_prefetch_type { LIBXSMM_GEMM_PREFETCH_NONE, LIBXSMM_GEMM_PREFETCH_AL2, LIBXSMM_GEMM_PREFETCH_BL2_VIA_C, LIBXSMM_GEMM_PREFETCH_AL2BL2_VIA_C, LIBXSMM_GEMM_PREFETCH_AL2_AHEAD, LIBXSMM_GEMM_PREFETCH_AL2BL2_VIA_C_AHEAD };
enum libxsmm_gemm_precision { LIBXSMM_GEMM_PRECISION_F32, LIBXSMM_GEMM_PRECISION_F64 };
#define LIBXSMM_GEMM_FLAGS( A, B ) 0
#define LIBXSMM_X86_AVX512_KNM 1101
inline int libxsmm_get_target_archid() { return 1006; }
inline void libxsmm_init() {}
inline void libxsmm_finalize() {}
struct libxsmm_gemm_descriptor { int prec; unsigned m, n, k, lda, ldb, ldc; double alpha, beta; };
struct libxsmm_descriptor_blob { libxsmm_gemm_descriptor d; };
struct libxsmm_kernel_info { std::size_t nflops; };
typedef void (*libxsmm_smmfunction)( float const *, float const *, float *, ... );
typedef void (*libxsmm_dmmfunction)( double const *, double const *, double *, ... );
struct libxsmm_xmmfunction { libxsmm_smmfunction smm; libxsmm_dmmfunction dmm; };

namespace vxsmm {
  struct K { int kind; unsigned P; libxsmm_gemm_descriptor d; std::vector< unsigned > ptr, idx; };
  inline std::vector< K > & ks() { static std::vector< K > v; return v; }
  static int const N = 1024;
  template< typename T > void run( K const & k, T const * a, T const * b, T * c ) {
    libxsmm_gemm_descriptor const & d = k.d; T al = d.alpha, be = d.beta; std::size_t P = k.P;
    if( k.kind == 0 ) { for( unsigned j = 0; j < d.n; j++ ) for( unsigned i = 0; i < d.m; i++ ) { T x = 0; for( unsigned l = 0; l < d.k; l++ ) x += a[i+std::size_t(l)*d.lda]*b[l+std::size_t(j)*d.ldb]; T & y = c[i+std::size_t(j)*d.ldc]; y = ( be == 0 ? T(0) : be*y ) + al*x; } return; }
    if( be == 0 ) for( unsigned i = 0; i < d.m; i++ ) for( unsigned j = 0; j < d.n*P; j++ ) c[i*d.ldc*P+j] = 0;
    if( k.kind == 3 ) { for( unsigned i = 0; i < d.m; i++ ) for( unsigned j = 0; j < d.n; j++ ) for( unsigned l = 0; l < d.k; l++ ) for( std::size_t p = 0; p < P; p++ ) c[( i*d.ldc+j )*P+p] += al*a[( i*d.lda+l )*P+p]*b[l*d.ldb+j]; return; }
    bool csr = k.kind == 1, aSp = d.lda == 0; unsigned n = csr ? ( aSp ? d.m : d.k ) : ( aSp ? d.k : d.n );
    for( unsigned o = 0; o < n; o++ ) for( unsigned z = k.ptr[o]; z < k.ptr[o+1]; z++ ) { unsigned r = csr ? o : k.idx[z], q = csr ? k.idx[z] : o;
      if( aSp ) { for( unsigned j = 0; j < d.n; j++ ) for( std::size_t p = 0; p < P; p++ ) c[( r*d.ldc+j )*P+p] += al*a[z]*b[( q*d.ldb+j )*P+p]; }
      else        for( unsigned i = 0; i < d.m; i++ ) for( std::size_t p = 0; p < P; p++ ) c[( i*d.ldc+q )*P+p] += al*a[( i*d.lda+r )*P+p]*b[z]; }
  }
  template< typename T, int I > void tr( T const * a, T const * b, T * c, ... ) { run< T >( ks()[I], a, b, c ); }
  template< typename T, int... I > inline void (*pick( int i, std::integer_sequence< int, I... > ))( T const *, T const *, T *, ... ) { static void (* const t[])( T const *, T const *, T *, ... ) = { tr< T, I >... }; return t[i]; }
  inline libxsmm_xmmfunction mk( K const & k ) {
    std::vector< K > & v = ks(); std::size_t i = 0; // equal kernels share a slot
    for( ; i < v.size(); i++ ) if( v[i].kind == k.kind && v[i].P == k.P && v[i].d.prec == k.d.prec && v[i].d.m == k.d.m && v[i].d.n == k.d.n && v[i].d.k == k.d.k && v[i].d.lda == k.d.lda && v[i].d.ldb == k.d.ldb && v[i].d.ldc == k.d.ldc && v[i].d.alpha == k.d.alpha && v[i].d.beta == k.d.beta && v[i].ptr == k.ptr && v[i].idx == k.idx ) break;
    if( i == v.size() ) v.push_back( k ); if( i >= N ) { std::fprintf( stderr, "libxsmm stand-in: too many kernels\n" ); std::abort(); }
    libxsmm_xmmfunction f; f.smm = pick< float >( i, std::make_integer_sequence< int, N >() ); f.dmm = pick< double >( i, std::make_integer_sequence< int, N >() ); return f;
  }
  inline libxsmm_xmmfunction sp( int kind, libxsmm_gemm_descriptor const * d, unsigned P, unsigned const * ptr, unsigned const * idx ) {
    if( ( d->lda == 0 ) == ( d->ldb == 0 ) ) { std::fprintf( stderr, "libxsmm stand-in: exactly one operand has to be sparse\n" ); std::abort(); }
    bool aSp = d->lda == 0; unsigned n = kind == 1 ? ( aSp ? d->m : d->k ) : ( aSp ? d->k : d->n ); K k; k.kind = kind; k.P = P; k.d = *d; k.ptr.assign( ptr, ptr+n+1 ); k.idx.assign( idx, idx+ptr[n] ); return mk( k );
  }
}
inline libxsmm_gemm_descriptor * libxsmm_gemm_descriptor_dinit( libxsmm_descriptor_blob * b, libxsmm_gemm_precision p, unsigned m, unsigned n, unsigned k, unsigned lda, unsigned ldb, unsigned ldc, double al, double be, int, int ) {
  if( ( al != 1 ) || ( be != 0 && be != 1 ) ) { std::fprintf( stderr, "libxsmm stand-in: unsupported alpha/beta\n" ); std::abort(); }
  libxsmm_gemm_descriptor d; d.prec = p; d.m = m; d.n = n; d.k = k; d.lda = lda; d.ldb = ldb; d.ldc = ldc; d.alpha = al; d.beta = be; b->d = d; return &b->d; }
inline libxsmm_xmmfunction libxsmm_xmmdispatch( libxsmm_gemm_descriptor const * d ) { vxsmm::K k; k.kind = 0; k.P = 1; k.d = *d; return vxsmm::mk( k ); }
inline libxsmm_xmmfunction libxsmm_create_packed_spxgemm_csr( libxsmm_gemm_descriptor const * d, unsigned P, unsigned const * ptr, unsigned const * idx, void const * ) { return vxsmm::sp( 1, d, P, ptr, idx ); }
inline libxsmm_xmmfunction libxsmm_create_packed_spxgemm_csc( libxsmm_gemm_descriptor const * d, unsigned P, unsigned const * ptr, unsigned const * idx, void const * ) { return vxsmm::sp( 2, d, P, ptr, idx ); }
inline libxsmm_xmmfunction libxsmm_create_packed_xgemm_ac_rm( libxsmm_gemm_descriptor const * d, unsigned P ) { vxsmm::K k; k.kind = 3; k.P = P; k.d = *d; return vxsmm::mk( k ); }
inline int libxsmm_get_kernel_info( void const *, libxsmm_kernel_info * i ) { i->nflops = 0; return 0; }
#endif
