// Stand-in for the (absent) Wykobi submodule: only what EDGE uses, written from Wykobi's interface.
#ifndef VERIF_WYKOBI_STUB
#define VERIF_WYKOBI_STUB
#include <array>
#include <cmath>
#include <cstddef>
namespace wykobi {
  template< typename T > struct point2d { T x = 0, y = 0; T & operator[]( std::size_t i ) { return i == 0 ? x : y; } T const & operator[]( std::size_t i ) const { return i == 0 ? x : y; } };
  template< typename T > struct point3d { T x = 0, y = 0, z = 0; T & operator[]( std::size_t i ) { return i == 0 ? x : ( i == 1 ? y : z ); } T const & operator[]( std::size_t i ) const { return i == 0 ? x : ( i == 1 ? y : z ); } };
  template< typename T, std::size_t D > struct pt_type;
  template< typename T > struct pt_type< T, 2 > { typedef point2d< T > t; };
  template< typename T > struct pt_type< T, 3 > { typedef point3d< T > t; };
  template< typename T, std::size_t D > struct triangle { typename pt_type< T, D >::t p[3]; typename pt_type< T, D >::t & operator[]( std::size_t i ) { return p[i]; } typename pt_type< T, D >::t const & operator[]( std::size_t i ) const { return p[i]; } };

  namespace detail {
    template< typename P > P comb( P const & a, double u, P const & b, double v, P const & c, double w, int D ) { P r; for( int d = 0; d < D; d++ ) r[d] = u*a[d] + v*b[d] + w*c[d]; return r; }
    template< typename P > double dot( P const & a, P const & b, P const & c, P const & d, int D ) { double s = 0; for( int k = 0; k < D; k++ ) s += ( double( b[k] )-a[k] )*( double( d[k] )-c[k] ); return s; }
    // Ericson, Real-Time Collision Detection
    template< typename P > P closest( P const & a, P const & b, P const & c, P const & p, int D ) {
      double d1 = dot( a,b,a,p,D ), d2 = dot( a,c,a,p,D ); if( d1 <= 0 && d2 <= 0 ) return a;
      double d3 = dot( a,b,b,p,D ), d4 = dot( a,c,b,p,D ); if( d3 >= 0 && d4 <= d3 ) return b;
      double vc = d1*d4 - d3*d2; if( vc <= 0 && d1 >= 0 && d3 <= 0 ) { double v = d1/( d1-d3 ); return comb( a,1-v,b,v,c,0,D ); }
      double d5 = dot( a,b,c,p,D ), d6 = dot( a,c,c,p,D ); if( d6 >= 0 && d5 <= d6 ) return c;
      double vb = d5*d2 - d1*d6; if( vb <= 0 && d2 >= 0 && d6 <= 0 ) { double w = d2/( d2-d6 ); return comb( a,1-w,b,0,c,w,D ); }
      double va = d3*d6 - d5*d4; if( va <= 0 && ( d4-d3 ) >= 0 && ( d5-d6 ) >= 0 ) { double w = ( d4-d3 )/( ( d4-d3 )+( d5-d6 ) ); return comb( a,0,b,1-w,c,w,D ); }
      double den = 1/( va+vb+vc ); double v = vb*den, w = vc*den; return comb( a,1-v-w,b,v,c,w,D );
    }
  }
  template< typename T > point2d< T > closest_point_on_triangle_from_point( triangle< T, 2 > const & t, T x, T y ) { point2d< T > p; p.x = x; p.y = y; return detail::closest( t[0], t[1], t[2], p, 2 ); }
  template< typename T > point3d< T > closest_point_on_triangle_from_point( triangle< T, 3 > const & t, point3d< T > const & p ) { return detail::closest( t[0], t[1], t[2], p, 3 ); }
  template< typename T > T distance( point3d< T > const & a, point3d< T > const & b ) { return std::sqrt( (a.x-b.x)*(a.x-b.x) + (a.y-b.y)*(a.y-b.y) + (a.z-b.z)*(a.z-b.z) ); }
  template< typename T > T robust_cartesian_angle( T x, T y ) { T a = std::atan2( y, x ) * T( 180 ) / T( 3.14159265358979323846 ); return a < 0 ? a + T( 360 ) : a; }
}
#endif
