// independent DG basis, quadrature and DG matrices (the data which EDGEpre generates)
#ifndef DGDATA_HPP
#define DGDATA_HPP
#include "constants.hpp"
#include <vector>
#include <array>
#include <cmath>

namespace ref {
typedef std::vector< double > VD;
// value with three partial derivatives
struct Du {
  double v, d[3];
  Du( double x = 0 ): v( x ), d{ 0, 0, 0 } {}
};
inline Du operator+( Du a, Du const & b ) { a.v += b.v; for( int k = 0; k < 3; k++ ) a.d[k] += b.d[k]; return a; }
inline Du operator-( Du a, Du const & b ) { a.v -= b.v; for( int k = 0; k < 3; k++ ) a.d[k] -= b.d[k]; return a; }
inline Du operator*( Du const & a, Du const & b ) { Du r; r.v = a.v*b.v; for( int k = 0; k < 3; k++ ) r.d[k] = a.v*b.d[k] + a.d[k]*b.v; return r; }

// t^n P_n^{(a,0)}( x / t )
template< typename T > T jac( int n, double a, T const & x, T const & t ) {
  T p0( 1. ); if( n == 0 ) return p0;
  T p1 = T( (a+2)/2 )*x + T( a/2 )*t;
  for( int k = 1; k < n; k++ ) {
    double c = 2.*k + a, a1 = 2.*(k+1)*(k+a+1)*c, a2 = (c+1)*a*a, a3 = c*(c+1)*(c+2), a4 = 2.*(k+a)*k*(c+2);
    T p2 = ( T( a2/a1 )*t + T( a3/a1 )*x )*p1 - T( a4/a1 )*t*t*p0; p0 = p1; p1 = p2;
  }
  return p1;
}
inline int dim( t_entityType t ) { return t == POINT ? 0 : t == LINE ? 1 : ( t == QUAD4R || t == TRIA3 ) ? 2 : 3; }
inline int nModes( t_entityType t, int o ) { return t == POINT ? 1 : t == LINE ? o : t == QUAD4R ? o*o : t == TRIA3 ? o*(o+1)/2 : t == HEX8R ? o*o*o : o*(o+1)*(o+2)/6; }
inline int nFa( t_entityType t ) { return t == LINE ? 2 : t == TRIA3 ? 3 : t == HEX8R ? 6 : 4; }
inline int nVeOpt( t_entityType t ) { return t == TET4 ? 3 : 1; }
inline t_entityType faType( t_entityType t ) { return t == LINE ? POINT : dim( t ) == 2 ? LINE : t == HEX8R ? QUAD4R : TRIA3; }

template< typename T > T basis( t_entityType t, int o, int b, T const x[3] ) {
  T one( 1. ), two( 2. );
  auto leg = [&]( int n, T const & y ) { return jac( n, 0, two*y - one, one ); };
  if( t == POINT ) return one;
  if( t == LINE ) return leg( b, x[0] );
  if( t == QUAD4R ) return leg( b%o, x[0] )*leg( b/o, x[1] );
  if( t == HEX8R ) return leg( b%o, x[0] )*leg( (b/o)%o, x[1] )*leg( b/(o*o), x[2] );
  int i = 0;
  for( int de = 0;; de++ )
    for( int p = 0; p <= de; p++ ) {
      if( t == TRIA3 ) { if( i++ == b ) return jac( p, 0, two*x[0]+x[1]-one, one-x[1] )*jac( de-p, 2*p+1, two*x[1]-one, one ); }
      else for( int q = 0; p+q <= de; q++ )
        if( i++ == b ) return jac( p, 0, two*x[0]+x[1]+x[2]-one, one-x[1]-x[2] )*jac( q, 2*p+1, two*x[1]+x[2]-one, one-x[2] )*jac( de-p-q, 2*(p+q)+2, two*x[2]-one, one );
    }
}
inline double phi( t_entityType t, int o, int b, double const x[3] ) { return basis< double >( t, o, b, x ); }
inline Du dphi( t_entityType t, int o, int b, double const x[3] ) { Du y[3]; for( int k = 0; k < 3; k++ ) { y[k] = Du( x[k] ); y[k].d[k] = 1; } return basis< Du >( t, o, b, y ); }

struct Qp { double x[3], w; };
inline void gauss( int n, VD & x, VD & w ) { // on [0,1]
  x.resize( n ); w.resize( n );
  for( int k = 0; k < n; k++ ) {
    double z = std::cos( M_PI*( k+0.75 )/( n+0.5 ) ), d = 1;
    for( int it = 0; it < 50; it++ ) { double p0 = 1, p1 = z; for( int j = 1; j < n; j++ ) { double p2 = ( (2*j+1)*z*p1 - j*p0 )/( j+1 ); p0 = p1; p1 = p2; } if( n == 1 ) { p0 = 1; p1 = z; } d = n*( z*p1-p0 )/( z*z-1 ); z -= p1/d; }
    x[k] = 0.5*( 1-z ); w[k] = 1/( ( 1-z*z )*d*d );
  }
}
inline std::vector< Qp > quad( t_entityType t, int n ) {
  VD x, w; gauss( n, x, w ); std::vector< Qp > r;
  if( t == POINT ) { r.push_back( Qp{ { 0, 0, 0 }, 1 } ); return r; }
  for( int a = 0; a < n; a++ ) {
    if( t == LINE ) { r.push_back( Qp{ { x[a], 0, 0 }, w[a] } ); continue; }
    for( int b = 0; b < n; b++ ) {
      if( t == QUAD4R ) { r.push_back( Qp{ { x[a], x[b], 0 }, w[a]*w[b] } ); continue; }
      if( t == TRIA3 ) { r.push_back( Qp{ { x[a]*(1-x[b]), x[b], 0 }, w[a]*w[b]*(1-x[b]) } ); continue; }
      for( int c = 0; c < n; c++ ) {
        if( t == HEX8R ) r.push_back( Qp{ { x[a], x[b], x[c] }, w[a]*w[b]*w[c] } );
        else { double u = x[b]*(1-x[c]); r.push_back( Qp{ { x[a]*(1-u-x[c]), u, x[c] }, w[a]*w[b]*w[c]*(1-u-x[c])*(1-x[c]) } ); }
      }
    }
  }
  return r;
}
// local face coordinates to reference element
inline void faToEl( t_entityType t, int f, double const c[3], double x[3] ) {
  double a = c[0], b = c[1]; x[0] = x[1] = x[2] = 0;
  auto s = [&]( double p, double q, double r ) { x[0] = p; x[1] = q; x[2] = r; };
  if( t == LINE ) s( f, 0, 0 );
  else if( t == TRIA3 ) { if( f == 0 ) s( a, 0, 0 ); else if( f == 1 ) s( 1-a, a, 0 ); else s( 0, 1-a, 0 ); }
  else if( t == QUAD4R ) { if( f == 0 ) s( a, 0, 0 ); else if( f == 1 ) s( 1, a, 0 ); else if( f == 2 ) s( 1-a, 1, 0 ); else s( 0, 1-a, 0 ); }
  else if( t == TET4 ) { if( f == 0 ) s( b, a, 0 ); else if( f == 1 ) s( a, 0, b ); else if( f == 2 ) s( 0, b, a ); else s( 1-a-b, a, b ); }
  else { if( f == 0 ) s( b, a, 0 ); else if( f == 1 ) s( a, 0, b ); else if( f == 2 ) s( 1, a, b ); else if( f == 3 ) s( b, 1, a ); else if( f == 4 ) s( 0, b, a ); else s( a, b, 1 ); }
}
// face coordinates of the neighbor, given those of the local element
inline void faToFa( t_entityType t, int v, double const c[3], double y[3] ) {
  double a = c[0], b = c[1]; y[0] = y[1] = y[2] = 0;
  if( dim( t ) == 2 ) y[0] = 1-a;
  else if( t == HEX8R || ( t == TET4 && v == 0 ) ) { y[0] = b; y[1] = a; }
  else if( v == 1 ) { y[0] = 1-a-b; y[1] = b; }
  else if( t == TET4 ) { y[0] = a; y[1] = 1-a-b; }
}

struct Mats {
  t_entityType t; int o, n, m, d; VD mass, stiffV, stiffT, fluxL, fluxN, fluxT;
  Mats( t_entityType i_t, int i_o ): t( i_t ), o( i_o ) {
    n = nModes( t, o ); d = dim( t ); t_entityType ft = faType( t ); m = nModes( ft, o );
    auto q = quad( t, o+2 ), fq = quad( ft, o+2 );
    VD st( d*n*n, 0. ); mass.assign( n*n, 0. );
    for( auto & p : q ) { std::vector< Du > v( n ); for( int i = 0; i < n; i++ ) v[i] = dphi( t, o, i, p.x );
      for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) { mass[i*n+j] += p.w*v[i].v*v[j].v; for( int k = 0; k < d; k++ ) st[(k*n+i)*n+j] += p.w*v[i].v*v[j].d[k]; } }
    auto snap = []( VD & a ) { for( auto & x : a ) if( std::fabs( x ) < 1E-12 ) x = 0; };
    snap( mass ); snap( st );
    stiffV.resize( d*n*n ); stiffT.resize( d*n*n );
    for( int k = 0; k < d; k++ ) for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) { stiffV[(k*n+i)*n+j] = st[(k*n+i)*n+j]/mass[j*n+j]; stiffT[(k*n+i)*n+j] = st[(k*n+j)*n+i]/mass[j*n+j]; }
    // faces
    VD mf( m*m, 0. ); int nf = nFa( t ), no = nVeOpt( t );
    for( auto & p : fq ) for( int i = 0; i < m; i++ ) for( int j = 0; j < m; j++ ) mf[i*m+j] += p.w*phi( ft, o, i, p.x )*phi( ft, o, j, p.x );
    snap( mf );
    VD prj( nf*n*m, 0. ), ori( no*m*m, 0. );
    for( auto & p : fq ) {
      VD ch( m ); for( int j = 0; j < m; j++ ) ch[j] = phi( ft, o, j, p.x );
      for( int f = 0; f < nf; f++ ) { double x[3]; faToEl( t, f, p.x, x ); for( int i = 0; i < n; i++ ) { double v = phi( t, o, i, x ); for( int j = 0; j < m; j++ ) prj[(f*n+i)*m+j] += p.w*v*ch[j]/mf[j*m+j]; } }
      for( int v = 0; v < no; v++ ) { double y[3] = { 0, 0, 0 }; if( t != LINE ) faToFa( t, v, p.x, y ); for( int i = 0; i < m; i++ ) { double w = phi( ft, o, i, y ); for( int j = 0; j < m; j++ ) ori[(v*m+i)*m+j] += p.w*w*ch[j]; } }
    }
    snap( prj ); snap( ori );
    fluxL.assign( nf*n*m, 0. ); fluxN.assign( no*nf*n*m, 0. ); fluxT.assign( nf*n*m, 0. );
    for( int f = 0; f < nf; f++ ) for( int i = 0; i < n; i++ ) for( int j = 0; j < m; j++ ) {
      fluxL[(f*n+i)*m+j] = prj[(f*n+i)*m+j]*mf[j*m+j];
      fluxT[(f*m+j)*n+i] = prj[(f*n+i)*m+j]/mass[i*n+i];
      for( int v = 0; v < no; v++ ) { double a = 0; for( int k = 0; k < m; k++ ) a += prj[(f*n+i)*m+k]*ori[(v*m+k)*m+j]; fluxN[((v*nf+f)*n+i)*m+j] = a; }
    }
    snap( fluxL ); snap( fluxN ); snap( fluxT );
  }
};
} // namespace ref

#ifdef DGDATA_DEFINE
static ref::Mats const & dgMats() { static ref::Mats m( T_SDISC.ELEMENT, PP_ORDER ); return m; }
namespace edge { namespace pre { namespace dg {
double const * g_massRaw = dgMats().mass.data();      extern std::size_t const g_massSize = dgMats().mass.size();
double const * g_stiffVRaw = dgMats().stiffV.data();  extern std::size_t const g_stiffVSize = dgMats().stiffV.size();
double const * g_stiffTRaw = dgMats().stiffT.data();  extern std::size_t const g_stiffTSize = dgMats().stiffT.size();
double const * g_fluxLRaw = dgMats().fluxL.data();    extern std::size_t const g_fluxLSize = dgMats().fluxL.size();
double const * g_fluxNRaw = dgMats().fluxN.data();    extern std::size_t const g_fluxNSize = dgMats().fluxN.size();
double const * g_fluxTRaw = dgMats().fluxT.data();    extern std::size_t const g_fluxTSize = dgMats().fluxT.size();
} } }
#endif
#endif
