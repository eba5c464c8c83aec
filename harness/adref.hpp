// reference ADER-DG scheme by quadrature in physical space; data of neighboring elements is located geometrically
#ifndef ADREF_HPP
#define ADREF_HPP
#include "dgmesh.hpp"
namespace ref {
struct Dg {
  DMesh const & m; int o, n, D, nQ, nM, nR; std::vector< Qp > q, fq; std::vector< VD > ph; std::vector< std::vector< Du > > dp; VD mass; std::vector< VD > DM;
  // per element
  std::vector< std::vector< VD > > A, An, E; VD om; // A[e][d] nQ x nQ, An[e][d] nM x nQ, E[e][l] nQ x nM
  std::function< void( int, int, double const *, double const *, double *, double * ) > flux; // el, face, in, out, flux E, flux A
  std::function< int( int, int ) > bnd; // 0: no contribution, 1: own data (flux() applies the boundary condition)
  struct Piece { double t0, t1; std::vector< VD > der; };
  struct El { double t = 0; VD u; std::vector< VD > th; std::vector< Piece > pc; VD intQ; std::vector< VD > intTh; };
  std::vector< El > el; double predSign = -1; // sign of the memory variables in their predictor
  Dg( DMesh const & i_m, int i_o, int i_nQ, int i_nM, int i_nR ): m( i_m ), o( i_o ), nQ( i_nQ ), nM( i_nM ), nR( i_nR ) {
    D = m.D; n = nModes( m.t, o ); q = quad( m.t, o+1 ); fq = quad( faType( m.t ), o+1 );
    mass.assign( n, 0. ); DM.assign( D, VD( n*n, 0. ) );
    for( auto & p : q ) { VD v( n ); std::vector< Du > w( n ); for( int i = 0; i < n; i++ ) { w[i] = dphi( m.t, o, i, p.x ); v[i] = w[i].v; } ph.push_back( v ); dp.push_back( w ); for( int i = 0; i < n; i++ ) { mass[i] += p.w*v[i]*v[i]; for( int a = 0; a < D; a++ ) for( int j = 0; j < n; j++ ) DM[a][i*n+j] += p.w*v[i]*w[j].d[a]; } }
    for( int a = 0; a < D; a++ ) for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) DM[a][i*n+j] /= mass[i];
    A.resize( m.nE ); An.resize( m.nE ); E.resize( m.nE ); el.resize( m.nE ); for( auto & e : el ) { e.u.assign( nQ*n, 0. ); e.th.assign( nR, VD( nM*n, 0. ) ); }
  }
  // physical derivative
  VD der( int e, int d, VD const & u, int nq ) const { VD r( nq*n, 0. ); for( int a = 0; a < D; a++ ) { double g = m.Ji[e][d*D+a]; if( g == 0 ) continue; for( int qt = 0; qt < nq; qt++ ) for( int i = 0; i < n; i++ ) { double x = 0; for( int j = 0; j < n; j++ ) x += DM[a][i*n+j]*u[qt*n+j]; r[qt*n+i] += g*x; } } return r; }
  void predict( int e, double dt ) {
    El & l = el[e]; Piece p; p.t0 = l.t; p.t1 = l.t+dt; VD u = l.u; auto th = l.th; l.intQ.assign( nQ*n, 0. ); l.intTh.assign( nR, VD( nM*n, 0. ) ); double f = dt;
    for( int k = 0; k < o; k++ ) {
      p.der.push_back( u ); for( int i = 0; i < nQ*n; i++ ) l.intQ[i] += f*u[i]; for( int r = 0; r < nR; r++ ) for( int i = 0; i < nM*n; i++ ) l.intTh[r][i] += f*th[r][i]; f *= dt/( k+2 );
      VD v( nQ*n, 0. ), sr( nM*n, 0. );
      for( int d = 0; d < D; d++ ) { VD g = der( e, d, u, nQ ); for( int a = 0; a < nQ; a++ ) for( int b = 0; b < nQ; b++ ) { double c = A[e][d][a*nQ+b]; if( c != 0 ) for( int i = 0; i < n; i++ ) v[a*n+i] -= c*g[b*n+i]; }
        if( nR > 0 ) for( int a = 0; a < nM; a++ ) for( int b = 0; b < nQ; b++ ) { double c = An[e][d][a*nQ+b]; if( c != 0 ) for( int i = 0; i < n; i++ ) sr[a*n+i] -= c*g[b*n+i]; } }
      for( int r = 0; r < nR; r++ ) { for( int a = 0; a < nQ; a++ ) for( int b = 0; b < nM; b++ ) { double c = E[e][r][a*nM+b]; if( c != 0 ) for( int i = 0; i < n; i++ ) v[a*n+i] += c*th[r][b*n+i]; } }
      for( int r = 0; r < nR; r++ ) for( int i = 0; i < nM*n; i++ ) th[r][i] = om[r]*( sr[i] + predSign*th[r][i] );
      u = v;
    }
    while( l.pc.size() > 4 ) l.pc.erase( l.pc.begin() );
    l.pc.push_back( p );
  }
  // time integral of the predictors over [a,b]
  VD integ( int e, double a, double b ) const { VD r( nQ*n, 0. ); double eps = 1E-9*( b-a );
    for( auto & p : el[e].pc ) { double x = std::max( a, p.t0 ), y = std::min( b, p.t1 ); if( y-x < eps ) continue; x -= p.t0; y -= p.t0; double fx = x, fy = y; for( size_t k = 0; k < p.der.size(); k++ ) { for( int i = 0; i < nQ*n; i++ ) r[i] += ( fy-fx )*p.der[k][i]; fx *= x/( k+2 ); fy *= y/( k+2 ); } }
    return r; }
  // completes the step of element e
  void correct( int e, double dt ) {
    El & l = el[e]; VD rh( nQ*n, 0. ), ra( nM*n, 0. ); VD const & U = l.intQ;
    for( size_t p = 0; p < q.size(); p++ ) {
      VD u( nQ, 0. ); for( int a = 0; a < nQ; a++ ) for( int i = 0; i < n; i++ ) u[a] += U[a*n+i]*ph[p][i];
      for( int d = 0; d < D; d++ ) { VD f( nQ, 0. ), g( nM, 0. ); for( int a = 0; a < nQ; a++ ) for( int b = 0; b < nQ; b++ ) f[a] += A[e][d][a*nQ+b]*u[b]; if( nR > 0 ) for( int a = 0; a < nM; a++ ) for( int b = 0; b < nQ; b++ ) g[a] += An[e][d][a*nQ+b]*u[b];
        for( int i = 0; i < n; i++ ) { double x = 0; for( int a = 0; a < D; a++ ) x += m.Ji[e][d*D+a]*dp[p][i].d[a]; x *= q[p].w*m.det[e]; for( int a = 0; a < nQ; a++ ) rh[a*n+i] += x*f[a]; if( nR > 0 ) for( int a = 0; a < nM; a++ ) ra[a*n+i] += x*g[a]; } }
    }
    for( int f = 0; f < m.NF; f++ ) {
      int ne = m.elFaEl[e][f]; VD W; if( ne >= 0 ) W = integ( ne, l.t, l.t+dt ); int bc = ne >= 0 ? 1 : bnd( e, f );
      for( auto & p : fq ) {
        double x[3], y[3] = { 0,0,0 }, z[3]; faToEl( m.t, f, p.x, x ); VD in( nQ, 0. ), out( nQ, 0. ), ba( n );
        for( int i = 0; i < n; i++ ) ba[i] = phi( m.t, o, i, x ); for( int a = 0; a < nQ; a++ ) for( int i = 0; i < n; i++ ) in[a] += U[a*n+i]*ba[i];
        if( ne >= 0 ) { m.phy( e, x, y ); for( int d = 0; d < D; d++ ) y[d] += m.shift[e][f][d]; m.rfc( ne, y, z ); for( int i = 0; i < n; i++ ) { double b = phi( m.t, o, i, z ); for( int a = 0; a < nQ; a++ ) out[a] += W[a*n+i]*b; } }
        else if( bc == 1 ) out = in;
        VD fe( nQ, 0. ), fa( std::max( nM, 1 ), 0. ); flux( e, f, in.data(), out.data(), fe.data(), fa.data() );
        double w = p.w*m.fa[m.elFa[e][f]].area*( m.t == TET4 ? 2 : 1 );
        for( int i = 0; i < n; i++ ) { for( int a = 0; a < nQ; a++ ) rh[a*n+i] -= w*ba[i]*fe[a]; if( nR > 0 ) for( int a = 0; a < nM; a++ ) ra[a*n+i] -= w*ba[i]*fa[a]; }
      }
    }
    for( int a = 0; a < nQ; a++ ) for( int i = 0; i < n; i++ ) l.u[a*n+i] += rh[a*n+i]/( m.det[e]*mass[i] );
    for( int r = 0; r < nR; r++ ) { for( int a = 0; a < nQ; a++ ) for( int b = 0; b < nM; b++ ) for( int i = 0; i < n; i++ ) l.u[a*n+i] += E[e][r][a*nM+b]*l.intTh[r][b*n+i];
      for( int a = 0; a < nM; a++ ) for( int i = 0; i < n; i++ ) l.th[r][a*n+i] += om[r]*( ra[a*n+i]/( m.det[e]*mass[i] ) - l.intTh[r][a*n+i] ); }
    l.t += dt;
  }
};
// time groups such that neighboring elements differ by at most one
inline std::vector< int > timeGroups( pbt::Src & s, DMesh const & m, int maxTg ) {
  int G = s.i( 0, maxTg ); std::vector< int > g( m.nE ); for( auto & x : g ) x = G > 0 ? s.i( 0, G ) : 0;
  for( bool ch = true; ch; ) { ch = false; for( int e = 0; e < m.nE; e++ ) for( int f = 0; f < m.NF; f++ ) { int a = m.elFaEl[e][f]; if( a >= 0 && g[e] > g[a]+1 ) { g[e] = g[a]+1; ch = true; } } }
  return g;
}
} // namespace ref
#endif
