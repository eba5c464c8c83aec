// independent elastic / viscoelastic physics: q_t + sum_d A_d q_{x_d} = sum_l E_l theta_l
#ifndef SEISREF_HPP
#define SEISREF_HPP
#include <vector>
#include <cmath>
namespace sref {
typedef std::vector< double > VD;
struct Mat { double rho, lam, mu; };
// packing of the symmetric tensor
static int const PK2[3][2] = { { 0,0 }, { 1,1 }, { 0,1 } };
static int const PK3[6][2] = { { 0,0 }, { 1,1 }, { 2,2 }, { 0,1 }, { 1,2 }, { 0,2 } };
inline int NS( int D ) { return D == 2 ? 3 : 6; }
inline int const * PK( int D, int k ) { return D == 2 ? PK2[k] : PK3[k]; }
inline void unpack( int D, double const * q, double S[3][3] ) { for( int k = 0; k < NS( D ); k++ ) { int const * p = PK( D, k ); S[p[0]][p[1]] = S[p[1]][p[0]] = q[k]; } }

// A_k of q_t + sum A_k q_{x_k} = 0 from Hooke's law and momentum balance
inline VD jacEl( int D, int k, Mat const & m ) {
  int n = NS( D ) + D; VD A( n*n, 0. );
  for( int v = 0; v < D; v++ ) { // gradient of velocity v in direction k
    for( int r = 0; r < NS( D ); r++ ) { int const * p = PK( D, r ); double g = 0; // sigma_t = lam tr(e) I + 2 mu e
      if( p[0] == p[1] && v == k ) g += m.lam;
      g += m.mu*( ( p[0] == v && p[1] == k ) + ( p[1] == v && p[0] == k ) );
      A[r*n + NS( D )+v] -= g; }
    for( int r = 0; r < NS( D ); r++ ) { int const * p = PK( D, r ); if( ( p[0] == v && p[1] == k ) || ( p[1] == v && p[0] == k ) ) A[(NS( D )+v)*n + r] -= 1/m.rho; }
  }
  return A;
}
// strain rates (anelastic)
inline VD jacAn( int D, int k ) { VD A( NS( D )*D, 0. ); for( int v = 0; v < D; v++ ) for( int r = 0; r < NS( D ); r++ ) { int const * p = PK( D, r ); A[r*D+v] -= 0.5*( ( p[0] == v && p[1] == k ) + ( p[1] == v && p[0] == k ) ); } return A; }

// exact Riemann flux in direction of the first column of R; fa: strain rates only
inline void godunov( int D, double const R[3][3], Mat const & L, Mat const & Ri, double const * qL, double const * qR, bool fsu, double * f, double * fa ) {
  int n = NS( D ); double q[2][9]; double T[2][3][3], V[2][3];
  for( int sd = 0; sd < 2; sd++ ) {
    double const * x = sd ? qR : qL; double S[3][3] = {}; unpack( D, x, S );
    for( int a = 0; a < D; a++ ) { V[sd][a] = 0; for( int i = 0; i < D; i++ ) V[sd][a] += R[i][a]*x[n+i]; for( int b = 0; b < D; b++ ) { T[sd][a][b] = 0; for( int i = 0; i < D; i++ ) for( int j = 0; j < D; j++ ) T[sd][a][b] += R[i][a]*S[i][j]*R[j][b]; } }
  }
  (void) q;
  if( fsu ) for( int a = 0; a < D; a++ ) T[1][0][a] *= -1;
  double vs[3] = {}, ts[3] = {};
  for( int a = 0; a < D; a++ ) {
    double zl = a == 0 ? std::sqrt( L.rho*( L.lam+2*L.mu ) ) : std::sqrt( L.rho*L.mu ), zr = a == 0 ? std::sqrt( Ri.rho*( Ri.lam+2*Ri.mu ) ) : std::sqrt( Ri.rho*Ri.mu );
    if( zl+zr == 0 ) { vs[a] = V[0][a]; ts[a] = T[0][0][a]; continue; } // no shear waves
    vs[a] = ( T[1][0][a] - T[0][0][a] + zl*V[0][a] + zr*V[1][a] )/( zl+zr ); ts[a] = T[0][0][a] + zl*( vs[a]-V[0][a] );
  }
  // flux in the face frame
  double F[3][3] = {}, E[3][3] = {}, G[3] = {};
  for( int a = 0; a < D; a++ ) { F[a][a] -= L.lam*vs[0]; F[0][a] -= L.mu*vs[a]; F[a][0] -= L.mu*vs[a]; E[0][a] -= 0.5*vs[a]; E[a][0] -= 0.5*vs[a]; G[a] = -ts[a]/L.rho; }
  for( int k = 0; k < n; k++ ) { int const * p = PK( D, k ); double a = 0, b = 0; for( int i = 0; i < D; i++ ) for( int j = 0; j < D; j++ ) { a += R[p[0]][i]*F[i][j]*R[p[1]][j]; b += R[p[0]][i]*E[i][j]*R[p[1]][j]; } f[k] = a; fa[k] = b; }
  for( int i = 0; i < D; i++ ) { f[n+i] = 0; for( int a = 0; a < D; a++ ) f[n+i] += R[i][a]*G[a]; }
}

} // namespace sref
using namespace sref;
#endif
