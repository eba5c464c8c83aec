// EDGE: dense and sparse matrices, sampled series
#include "pbt.hpp"
#include "constants.hpp"
#include "linalg/Matrix.h"
#include "linalg/Series.hpp"
#include "data/MmVanilla.hpp"
#include <algorithm>
#include <map>
typedef edge::linalg::Matrix Mt;
typedef std::vector< double > VD;

static double detN( int n, VD const & m ) { // Leibniz formula
  std::vector< int > p( n ); for( int k = 0; k < n; k++ ) p[k] = k; double r = 0;
  do { int inv = 0; for( int a = 0; a < n; a++ ) for( int b = a+1; b < n; b++ ) inv += p[a] > p[b]; double t = inv % 2 ? -1 : 1; for( int k = 0; k < n; k++ ) t *= m[k*n+p[k]]; r += t; } while( std::next_permutation( p.begin(), p.end() ) );
  return r;
}
PBT( detinv, 40000, 800000, "random 2x2, 3x3 and 4x4 matrices, also with zero entries; always non-trivial" ) {
  int n = 2 + s.draw( 3 ); VD m( n*n ); for( auto & x : m ) x = s.draw( 5 ) == 0 ? 0 : s.sr( 3 ); double d = detN( n, m );
  c.close( Mt::det( (unsigned short) n, m.data() ), d, 1E-10, 1E-10, "determinant" );
  if( n == 4 ) { c.close( Mt::det( (double const (*)[4]) m.data() ), d, 1E-10, 1E-10, "determinant 4x4" ); }
  if( n < 4 ) {
    if( n == 2 ) c.close( Mt::det( (double const (*)[2]) m.data() ), d, 1E-10, 1E-10, "determinant 2x2" ); else c.close( Mt::det( (double const (*)[3]) m.data() ), d, 1E-10, 1E-10, "determinant 3x3" );
    if( std::fabs( d ) > 1E-2 ) {
      VD i( n*n, 99 ); if( n == 2 ) Mt::inv( (double const (*)[2]) m.data(), (double (*)[2]) i.data() ); else Mt::inv( (double const (*)[3]) m.data(), (double (*)[3]) i.data() );
      for( int a = 0; a < n; a++ ) for( int b = 0; b < n; b++ ) { double x = 0, y = 0; for( int k = 0; k < n; k++ ) { x += m[a*n+k]*i[k*n+b]; y += i[a*n+k]*m[k*n+b]; } c.close( x, a == b, 0, 1E-8, "matrix times inverse" ); c.close( y, a == b, 0, 1E-8, "inverse times matrix" ); }
    }
  }
  c.nontrivial(); std::ostringstream o; o << n << "x" << n << " det " << d; c.sample( o.str() );
}

PBT( matmul, 20000, 400000, "random sizes, leading dimensions, numbers of fused runs, alpha and beta; non-trivial: all sizes at least two" ) {
  int mode = s.draw( 4 ); unsigned m = 1+s.draw( 6 ), n = 1+s.draw( 6 ), k = 1+s.draw( 6 ), R = mode == 0 ? 1 : 1+s.draw( 4 );
  unsigned la = k + ( mode ? s.draw( 3 ) : 0 ), lb = n + ( mode ? s.draw( 3 ) : 0 ), lc = n + ( mode ? s.draw( 3 ) : 0 );
  bool ac = mode == 1, bc = mode == 2; bool van = mode == 3; if( van ) { ac = s.b(); bc = !ac; }
  unsigned ra = ac ? R : 1, rb = bc ? R : 1, rc = mode == 0 ? 1 : R;
  double al = mode ? s.pick( std::vector< double >{ 1, -1, 0.5, 2, 0 } ) : 1, be = mode ? s.pick( std::vector< double >{ 0, 1, -1, 0.25 } ) : 0;
  VD A( m*la*ra ), B( k*lb*rb ), C( m*lc*rc ), E; for( auto & x : A ) x = s.sr( 2 ); for( auto & x : B ) x = s.sr( 2 ); for( auto & x : C ) x = s.sr( 2 );
  if( be == 0 ) for( unsigned i = 0; i < m; i++ ) for( unsigned j = 0; j < n; j++ ) for( unsigned r = 0; r < rc; r++ ) C[(i*lc+j)*rc+r] = std::numeric_limits< double >::quiet_NaN(); // has to be overwritten
  E = C;
  for( unsigned i = 0; i < m; i++ ) for( unsigned j = 0; j < n; j++ ) for( unsigned r = 0; r < rc; r++ ) { double x = 0; for( unsigned q = 0; q < k; q++ ) x += A[(i*la+q)*ra + ( ac ? r : 0 )] * B[(q*lb+j)*rb + ( bc ? r : 0 )]; double & e = E[(i*lc+j)*rc+r]; e = ( be == 0 ? 0 : be*e ) + al*x; }
  if( mode == 0 ) Mt::matMulB0( m, n, k, A.data(), B.data(), C.data() );
  else if( mode == 1 ) Mt::matMulFusedAC( (unsigned short) R, m, n, k, la, lb, lc, al, be, A.data(), B.data(), C.data() );
  else if( mode == 2 ) Mt::matMulFusedBC( (unsigned short) R, m, n, k, la, lb, lc, al, be, A.data(), B.data(), C.data() );
  else {
    edge::data::MmVanilla< double > mm; int ng = 1+s.draw( 3 ), nk = 1+s.draw( 3 ), g = s.draw( ng ), kk = s.draw( nk );
    // kernels of other shapes before and after
    for( int a = 0; a < ng; a++ ) for( int b = 0; b < nk; b++ ) if( a == g && b == kk ) mm.add( a, m, n, k, la, lb, lc, al, be, ac, bc, R ); else mm.add( a, 1, 1, 1, 1, 1, 1, 1., 0., true, false, 1 );
    c.require( (int) mm.m_kernels.size() == ng && (int) mm.m_kernels[g].size() == nk, "number of registered kernels" );
    mm.m_kernels[g][kk]( A.data(), B.data(), C.data() );
  }
  for( size_t e = 0; e < C.size(); e++ ) c.requireF( std::fabs( C[e]-E[e] ) < 1E-10, [&]{ std::ostringstream o; o << "matrix product, mode " << mode << " entry " << e << ": " << C[e] << " expected " << E[e]; return o.str(); } );
  if( m > 1 && n > 1 && k > 1 ) c.nontrivial(); std::ostringstream o; o << "mode " << mode << " m " << m << " n " << n << " k " << k << " ld " << la << "," << lb << "," << lc << " fused " << R << " alpha " << al << " beta " << be; c.sample( o.str() );
}

static void genDense( pbt::Src & s, unsigned nr, unsigned nc, std::vector< real_base > & d, double dens ) { d.assign( nr*nc, 0 ); for( auto & x : d ) if( s.r( 0,1 ) < dens ) { x = s.sr( 4 ); if( std::fabs( x ) < 0.01 ) x = 0.5; if( s.draw( 12 ) == 0 ) x *= 1E-9; } }
PBT( sparse, 20000, 400000, "random dense matrices of random density with values around the tolerance, sub-matrices; non-trivial: at least one zero and one non-zero value" ) {
  unsigned nr = 1+s.draw( 9 ), nc = 1+s.draw( 9 ); std::vector< real_base > D; genDense( s, nr, nc, D, s.r( 0, 1 ) ); real_base tol = s.pick( std::vector< double >{ 1E-6, 1E-6, 0, 1 } );
  t_matCrd crd; crd.nz = { 7 }; crd.ro = { 3 }; crd.co = { 2 }; Mt::denseToCrd< real_base >( nr, nc, D.data(), crd, tol );
  auto nz = [&]( unsigned r, unsigned q ) { return std::fabs( D[r*nc+q] ) > tol; };
  size_t n = 0; for( unsigned r = 0; r < nr; r++ ) for( unsigned q = 0; q < nc; q++ ) if( nz( r, q ) ) { c.require( n < crd.nz.size() && crd.ro[n] == r && crd.co[n] == q && crd.nz[n] == D[r*nc+q], "coordinate format" ); n++; }
  c.require( n == crd.nz.size() && n == crd.ro.size() && n == crd.co.size(), "coordinate format: number of non-zeros" );
  // sub-matrices
  unsigned sr = 1+s.draw( nr+1 ), sc = 1+s.draw( nc+1 ); bool via = s.b(); if( via ) { sr = std::min( sr, nr ); sc = std::min( sc, nc ); }
  bool full = via && s.draw( 3 ) == 0; if( full ) { sr = nr; sc = nc; }
  unsigned const U = std::numeric_limits< unsigned >::max();
  t_matCsr csr; t_matCsc csc; csr.val = { 5,5 }; csr.rowPtr = { 0,1 }; csc.rowIdx = { 9 };
  if( via ) { Mt::denseToCsr< real_base >( nr, nc, D.data(), csr, tol, full ? U : sr, full ? U : sc ); Mt::denseToCsc< real_base >( nr, nc, D.data(), csc, tol, full ? U : sr, full ? U : sc ); }
  else { Mt::crdToCsr( sr, sc, crd, csr ); Mt::crdToCsc( sr, sc, crd, csc ); }
  size_t ns = 0; c.require( csr.rowPtr.size() == sr+1 && csc.colPtr.size() == sc+1, "size of the row or column pointers" );
  for( unsigned r = 0; r < sr; r++ ) { c.require( csr.rowPtr[r] == ns, "csr row pointer" ); for( unsigned q = 0; q < sc; q++ ) if( r < nr && q < nc && nz( r, q ) ) { c.require( ns < csr.val.size() && csr.colIdx[ns] == q && csr.val[ns] == D[r*nc+q], "csr entry" ); ns++; } }
  c.require( csr.rowPtr[sr] == ns && csr.val.size() == ns && csr.colIdx.size() == ns, "csr size" );
  c.require( Mt::getNnzCrd( sr, sc, crd ) == ns, "number of non-zeros of a sub-matrix" ); ns = 0;
  for( unsigned q = 0; q < sc; q++ ) { c.require( csc.colPtr[q] == ns, "csc column pointer" ); for( unsigned r = 0; r < sr; r++ ) if( r < nr && q < nc && nz( r, q ) ) { c.require( ns < csc.val.size() && csc.rowIdx[ns] == r && csc.val[ns] == D[r*nc+q], "csc entry" ); ns++; } }
  c.require( csc.colPtr[sc] == ns && csc.val.size() == ns && csc.rowIdx.size() == ns, "csc size" );
  // transpose: same matrix as the transposed dense matrix in coordinate format
  t_matCrd tr, te; tr.nz = { 1 }; tr.ro = { 1 }; tr.co = { 1 }; std::vector< real_base > T( nr*nc ); for( unsigned r = 0; r < nr; r++ ) for( unsigned q = 0; q < nc; q++ ) T[q*nr+r] = D[r*nc+q];
  Mt::transposeCrd( crd, tr ); Mt::denseToCrd< real_base >( nc, nr, T.data(), te, tol ); c.require( tr.nz == te.nz && tr.ro == te.ro && tr.co == te.co, "transpose in coordinate format" );
  if( nr == nc ) { std::vector< real_base > Q = D; Mt::transposeDense( nr, Q.data() ); c.require( Q == T, "dense transpose" ); }
  // bounding block of the non-zeros
  unsigned bi[2][2], bo[2][2]; for( int a = 0; a < 2; a++ ) for( int b = 0; b < 2; b++ ) bi[a][b] = s.b() ? U : s.draw( 9 );
  Mt::getBlockNz( crd, bi, bo ); unsigned be[2][2] = { { U,U },{ U,U } };
  for( size_t e = 0; e < crd.nz.size(); e++ ) { unsigned v[2] = { crd.ro[e], crd.co[e] }; bool in = true; for( int a = 0; a < 2; a++ ) { if( bi[a][0] != U && v[a] < bi[a][0] ) in = false; if( bi[a][1] != U && v[a] > bi[a][1] ) in = false; }
    if( in ) for( int a = 0; a < 2; a++ ) { be[a][0] = be[a][0] == U ? v[a] : std::min( be[a][0], v[a] ); be[a][1] = be[a][1] == U ? v[a] : std::max( be[a][1], v[a] ); } }
  for( int a = 0; a < 2; a++ ) for( int b = 0; b < 2; b++ ) c.require( bo[a][b] == be[a][b], "bounding block of the non-zeros" );
  if( n && n < nr*nc ) c.nontrivial(); std::ostringstream o; o << nr << "x" << nc << " nnz " << n << " sub " << sr << "x" << sc; c.sample( o.str() );
}
PBT( fillin, 10000, 200000, "random matrices with up to 70 columns filled in for QFMA kernels; non-trivial: at least one fill-in" ) {
  unsigned nr = 1+s.draw( 12 ), nc = 1+s.draw( s.b() ? 70 : 8 ); std::vector< real_base > D; genDense( s, nr, nc, D, s.r( 0, 1 ) ); real_base tol = 1E-6;
  t_matCsc csc; Mt::denseToCsc< real_base >( nr, nc, D.data(), csc, tol, std::numeric_limits< unsigned >::max(), std::numeric_limits< unsigned >::max(), "qfma" );
  c.require( csc.colPtr.size() == nc+1 && csc.colPtr[0] == 0 && csc.colPtr[nc] == csc.val.size(), "fill-in: column pointers" ); size_t fi = 0;
  for( unsigned q = 0; q < nc; q++ ) { std::vector< int > seen( nr, 0 ); for( unsigned e = csc.colPtr[q]; e < csc.colPtr[q+1]; e++ ) { unsigned r = csc.rowIdx[e]; c.require( r < nr && !seen[r], "fill-in: row index" ); seen[r] = 1; bool nzv = std::fabs( D[r*nc+q] ) > tol; fi += !nzv; c.require( nzv ? csc.val[e] == D[r*nc+q] : csc.val[e] == 0, "fill-in changes the matrix" ); }
    for( unsigned r = 0; r < nr; r++ ) c.require( seen[r] || std::fabs( D[r*nc+q] ) <= tol, "fill-in loses a non-zero" ); }
  if( fi ) c.nontrivial(); std::ostringstream o; o << nr << "x" << nc << " nnz " << csc.val.size() << " fill-ins " << fi; c.sample( o.str() );
}

// integral of the piecewise linear interpolant on [x0,x1], value na outside of the samples
template< int N > static void series( pbt::Src & s, pbt::Ctx & c ) {
  size_t np = 1 + s.draw( 9 ); double dx = s.pick( std::vector< double >{ 1, 0.5, 0.1, 2, 0.037 } ), x0 = s.pick( std::vector< double >{ 0, 0, -1.3, 5 } ), na = s.pick( std::vector< double >{ 0, 0, 1, -2.5 } ); std::vector< std::array< double,N > > v( np ); for( auto & a : v ) for( auto & x : a ) x = s.sr( 3 );
  double xe = x0 + (np-1)*dx;
  auto pt = [&]{ int k = s.draw( 4 ); return k == 0 ? x0 + dx*(double) s.i( -2, (int) np+1 ) : x0 + dx*s.r( -2.5, np+1.5 ); };
  double a = pt(), b = pt(); if( s.draw( 4 ) == 0 ) b = a + dx*s.r( 0, 0.5 ); if( a > b ) std::swap( a, b );
  double o[N]; for( auto & x : o ) x = 77; if( na != 0 || s.b() ) edge::linalg::Series< N >::integrate( dx, x0, np, (double const (*)[N]) v.data(), a, b, o, na ); else edge::linalg::Series< N >::integrate( dx, x0, np, (double const (*)[N]) v.data(), a, b, o );
  for( int k = 0; k < N; k++ ) { double e = na*( std::max( 0., std::min( b, x0 ) - a ) + std::max( 0., b - std::max( a, xe ) ) );
    if( np == 1 ) e = na*( b-a );
    for( size_t i = 0; i+1 < np; i++ ) { double l = std::max( a, x0+i*dx ), r = std::min( b, x0+(i+1)*dx ); if( r <= l ) continue; double m = ( 0.5*(l+r) - ( x0+i*dx ) )/dx; e += (r-l)*( v[i][k] + m*( v[i+1][k]-v[i][k] ) ); }
    c.requireF( std::fabs( o[k]-e ) < 1E-4*dx + 1E-6, [&]{ std::ostringstream q; q << "integral of a sampled series over [" << a << "," << b << "], samples [" << x0 << "," << xe << "] dx " << dx << ": " << o[k] << " expected " << e; return q.str(); } ); }
  if( np > 1 && b > a && b > x0 && a < xe ) c.nontrivial(); std::ostringstream q; q << np << " samples in [" << x0 << "," << xe << "], integral over [" << a << "," << b << "]"; c.sample( q.str() );
}
PBT( series, 60000, 1000000, "random series and bounds inside, outside, on samples and within one sampling interval; non-trivial: the interval overlaps the series" ) { if( s.b() ) series< 1 >( s, c ); else series< 3 >( s, c ); }
