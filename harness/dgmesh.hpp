// small random conforming meshes with full connectivity (independent of EDGE-V)
#ifndef DGMESH_HPP
#define DGMESH_HPP
#include "pbt.hpp"
#include "dgdata.hpp"
#include <map>

namespace ref {
inline std::vector< int > faVe( t_entityType t, int f ) {
  static int const Q[4][2] = { {0,1},{1,2},{2,3},{3,0} }, T[3][2] = { {0,1},{1,2},{2,0} }, H[6][4] = { {0,3,2,1},{0,1,5,4},{1,2,6,5},{3,7,6,2},{0,4,7,3},{4,5,6,7} }, E[4][3] = { {0,2,1},{0,1,3},{0,3,2},{1,2,3} };
  if( t == LINE ) return { f }; if( t == QUAD4R ) return { Q[f][0], Q[f][1] }; if( t == TRIA3 ) return { T[f][0], T[f][1] };
  if( t == HEX8R ) return { H[f][0],H[f][1],H[f][2],H[f][3] }; return { E[f][0],E[f][1],E[f][2] };
}
inline int axVe( t_entityType t, int d ) { return t == LINE || t == TRIA3 || t == TET4 ? d+1 : ( t == QUAD4R ? ( d ? 3 : 1 ) : ( d == 0 ? 1 : d == 1 ? 3 : 4 ) ); }
inline double invMat( int D, double const * m, double * o ) {
  if( D == 1 ) { o[0] = 1/m[0]; return m[0]; }
  if( D == 2 ) { double d = m[0]*m[3]-m[1]*m[2]; o[0] = m[3]/d; o[1] = -m[1]/d; o[2] = -m[2]/d; o[3] = m[0]/d; return d; }
  auto C = [&]( int r, int k ) { int a = (r+1)%3, b = (r+2)%3, e = (k+1)%3, f = (k+2)%3; return m[a*3+e]*m[b*3+f] - m[a*3+f]*m[b*3+e]; };
  double d = 0; for( int k = 0; k < 3; k++ ) d += m[k]*C( 0, k ); for( int r = 0; r < 3; r++ ) for( int k = 0; k < 3; k++ ) o[k*3+r] = C( r, k )/d; return d;
}

struct DMesh {
  t_entityType t; int D, NV, NF; int nE = 0, nF = 0;
  std::vector< std::array< double, 3 > > ve; std::vector< std::array< int, 3 > > ix; // coordinates and grid indices
  std::vector< std::vector< int > > elVe, elFa, elFaEl, fId, vId; // -1: not available
  std::vector< std::vector< std::array< double, 3 > > > shift; // from own to neighboring coordinates
  struct Fa { int eL, fL, eR, fR; bool per; double R[3][3]; double area; }; // columns of R: normal, tangents
  std::vector< Fa > fa;
  std::vector< VD > J, Ji; VD det; // J[a*D+d] = dx_d/dxi_a
  bool anyPer = false;
  void phy( int e, double const * xi, double * x ) const { for( int d = 0; d < D; d++ ) { x[d] = ve[elVe[e][0]][d]; for( int a = 0; a < D; a++ ) x[d] += xi[a]*J[e][a*D+d]; } }
  void rfc( int e, double const * x, double * xi ) const { for( int a = 0; a < D; a++ ) { xi[a] = 0; for( int d = 0; d < D; d++ ) xi[a] += ( x[d]-ve[elVe[e][0]][d] )*Ji[e][d*D+a]; } for( int a = D; a < 3; a++ ) xi[a] = 0; }
  // outward normal frame of local face
  void frame( int e, int f, double R[3][3] ) const { Fa const & a = fa[elFa[e][f]]; double sg = a.eL == e && a.fL == f ? 1 : -1; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) R[i][j] = a.R[i][j]*( j == 0 ? sg : 1 ); }

  DMesh( pbt::Src & s, pbt::Ctx & c, t_entityType i_t, int maxEls, bool allowPer ): t( i_t ) {
    D = dim( t ); NV = t == LINE ? 2 : t == TRIA3 ? 3 : t == HEX8R ? 8 : 4; NF = ref::nFa( t );
    int per = allowPer && s.b( 0.3 ) ? 1 : 0; int perCell = t == TRIA3 ? 2 : t == TET4 ? 6 : 1; int n[3] = { 1, 1, 1 };
    { int bud = std::max( 1, maxEls/perCell ); for( int d = 0; d < D; d++ ) { n[d] = s.i( 1, std::max( 1, std::min( D == 1 ? 12 : 4, bud ) ) ); bud /= n[d]; } }
    bool pd[3] = {}; if( per ) for( int d = 0; d < D; d++ ) pd[d] = s.b( 0.6 );
    // vertices
    int m[3]; for( int d = 0; d < 3; d++ ) m[d] = d < D ? n[d]+1 : 1;
    std::vector< double > ax[3]; for( int d = 0; d < D; d++ ) { double x = s.sr( 3 ); for( int k = 0; k < m[d]; k++ ) { ax[d].push_back( x ); x += ( t == TRIA3 || t == TET4 ) ? 1 : s.r( 0.4, 2 ); } }
    for( int d = D; d < 3; d++ ) ax[d].push_back( 0 );
    double A[9] = { 1,0,0,0,1,0,0,0,1 }; if( t == TRIA3 || t == TET4 ) for( int d = 0; d < D; d++ ) for( int e = 0; e < D; e++ ) A[d*3+e] = ( d == e ? s.r( 0.6, 1.6 ) : s.sr( 0.35 ) );
    std::map< std::array< int, 3 >, std::array< double, 3 > > pert;
    for( int k = 0; k < m[2]; k++ ) for( int j = 0; j < m[1]; j++ ) for( int i = 0; i < m[0]; i++ ) {
      std::array< int, 3 > id{ { i, j, k } }, cl{ { pd[0] ? i%n[0] : i, pd[1] ? j%n[1] : j, pd[2] ? k%n[2] : k } };
      double g[3] = { ax[0][i], ax[1][j], ax[2][k] };
      if( t == TRIA3 || t == TET4 ) { if( !pert.count( cl ) ) { std::array< double, 3 > p{ { 0,0,0 } }; for( int d = 0; d < D; d++ ) p[d] = s.sr( 0.18 ); pert[cl] = p; }
        for( int d = 0; d < D; d++ ) { bool fix = pd[d] && ( id[d] == 0 || id[d] == n[d] ); if( !fix ) g[d] += pert[cl][d]; } }
      std::array< double, 3 > x{ { 0,0,0 } }; for( int d = 0; d < D; d++ ) for( int e = 0; e < D; e++ ) x[d] += A[d*3+e]*g[e];
      ve.push_back( x ); ix.push_back( id );
    }
    auto V = [&]( int i, int j, int k ) { return ( k*m[1]+j )*m[0]+i; };
    // elements
    for( int k = 0; k < n[2]; k++ ) for( int j = 0; j < n[1]; j++ ) for( int i = 0; i < n[0]; i++ ) {
      if( t == LINE ) elVe.push_back( { V( i,0,0 ), V( i+1,0,0 ) } );
      else if( t == QUAD4R ) elVe.push_back( { V( i,j,0 ), V( i+1,j,0 ), V( i+1,j+1,0 ), V( i,j+1,0 ) } );
      else if( t == HEX8R ) elVe.push_back( { V( i,j,k ), V( i+1,j,k ), V( i+1,j+1,k ), V( i,j+1,k ), V( i,j,k+1 ), V( i+1,j,k+1 ), V( i+1,j+1,k+1 ), V( i,j+1,k+1 ) } );
      else if( t == TRIA3 ) { if( s.b() ) { elVe.push_back( { V( i,j,0 ), V( i+1,j,0 ), V( i+1,j+1,0 ) } ); elVe.push_back( { V( i,j,0 ), V( i+1,j+1,0 ), V( i,j+1,0 ) } ); } else { elVe.push_back( { V( i,j,0 ), V( i+1,j,0 ), V( i,j+1,0 ) } ); elVe.push_back( { V( i+1,j,0 ), V( i+1,j+1,0 ), V( i,j+1,0 ) } ); } }
      else { int const P[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} }; for( auto & p : P ) { int q[3] = { i, j, k }; std::vector< int > e{ V( q[0],q[1],q[2] ) }; for( int d : p ) { q[d]++; e.push_back( V( q[0],q[1],q[2] ) ); } elVe.push_back( e ); } }
    }
    nE = elVe.size();
    { auto p = s.perm( nE ); auto o = elVe; for( int e = 0; e < nE; e++ ) elVe[p[e]] = o[e]; }
    { auto p = s.perm( ve.size() ); auto o = ve; auto oi = ix; for( size_t v = 0; v < ve.size(); v++ ) { ve[p[v]] = o[v]; ix[p[v]] = oi[v]; } for( auto & e : elVe ) for( int & v : e ) v = p[v]; }
    if( t == TRIA3 || t == TET4 ) for( auto & e : elVe ) { auto p = s.perm( NV ); auto o = e; for( int v = 0; v < NV; v++ ) e[v] = o[p[v]]; }
    J.resize( nE ); Ji.resize( nE ); det.resize( nE );
    for( int e = 0; e < nE; e++ ) for( int k = 0; k < 2; k++ ) {
      J[e].resize( D*D ); Ji[e].resize( D*D ); for( int a = 0; a < D; a++ ) for( int d = 0; d < D; d++ ) J[e][a*D+d] = ve[elVe[e][axVe( t,a )]][d] - ve[elVe[e][0]][d];
      det[e] = invMat( D, J[e].data(), Ji[e].data() ); if( det[e] < 0 ) std::swap( elVe[e][NV-1], elVe[e][NV-2] );
    }
    for( int e = 0; e < nE; e++ ) if( det[e] < 0.05 ) c.discard();
    // faces
    elFa.assign( nE, std::vector< int >( NF, -1 ) ); elFaEl = fId = vId = elFa; shift.assign( nE, std::vector< std::array< double, 3 > >( NF, std::array< double, 3 >{ { 0,0,0 } } ) );
    std::map< std::vector< int >, std::vector< std::pair< int, int > > > fm;
    auto fv = [&]( int e, int f ) { std::vector< int > r; for( int v : faVe( t, f ) ) r.push_back( elVe[e][v] ); return r; };
    for( int e = 0; e < nE; e++ ) for( int f = 0; f < NF; f++ ) { auto k = fv( e, f ); std::sort( k.begin(), k.end() ); fm[k].push_back( { e, f } ); }
    std::vector< std::vector< std::pair< int, int > > > fl; for( auto & x : fm ) fl.push_back( x.second );
    { auto p = s.perm( fl.size() ); auto o = fl; for( size_t f = 0; f < fl.size(); f++ ) fl[p[f]] = o[f]; }
    for( auto & x : fl ) { Fa f; memset( &f, 0, sizeof( f ) ); f.eR = f.fR = -1; int sw = x.size() == 2 && s.b(); f.eL = x[sw].first; f.fL = x[sw].second; if( x.size() == 2 ) { f.eR = x[1-sw].first; f.fR = x[1-sw].second; }
      elFa[f.eL][f.fL] = fa.size(); if( f.eR >= 0 ) { elFa[f.eR][f.fR] = fa.size(); link( f.eL, f.fL, f.eR, f.fR ); }
      // geometry
      auto v = fv( f.eL, f.fL ); double N[3] = { 1, 0, 0 }, T[3] = { 0, 1, 0 }; f.area = 1;
      if( D == 2 ) { T[0] = ve[v[1]][0]-ve[v[0]][0]; T[1] = ve[v[1]][1]-ve[v[0]][1]; f.area = std::hypot( T[0], T[1] ); T[0] /= f.area; T[1] /= f.area; N[0] = T[1]; N[1] = -T[0]; }
      else if( D == 3 ) { double a[3], b[3]; int l = v.size()-1; for( int d = 0; d < 3; d++ ) { a[d] = ve[v[1]][d]-ve[v[0]][d]; b[d] = ve[v[l]][d]-ve[v[0]][d]; } N[0] = a[1]*b[2]-a[2]*b[1]; N[1] = a[2]*b[0]-a[0]*b[2]; N[2] = a[0]*b[1]-a[1]*b[0]; double q = std::sqrt( N[0]*N[0]+N[1]*N[1]+N[2]*N[2] ); f.area = t == TET4 ? q/2 : q; double la = std::sqrt( a[0]*a[0]+a[1]*a[1]+a[2]*a[2] ); for( int d = 0; d < 3; d++ ) { N[d] /= q; T[d] = a[d]/la; } }
      // outward
      double ce[3] = { 0,0,0 }, cf[3] = { 0,0,0 }; for( int w : elVe[f.eL] ) for( int d = 0; d < D; d++ ) ce[d] += ve[w][d]/NV; for( int w : v ) for( int d = 0; d < D; d++ ) cf[d] += ve[w][d]/v.size();
      double dp = 0; for( int d = 0; d < D; d++ ) dp += N[d]*( cf[d]-ce[d] ); if( dp < 0 ) for( int d = 0; d < 3; d++ ) N[d] *= -1;
      if( D == 3 ) { double an = s.r( 0, 6.28 ), B[3] = { N[1]*T[2]-N[2]*T[1], N[2]*T[0]-N[0]*T[2], N[0]*T[1]-N[1]*T[0] }; for( int d = 0; d < 3; d++ ) { f.R[d][0] = N[d]; f.R[d][1] = std::cos( an )*T[d] + std::sin( an )*B[d]; f.R[d][2] = -std::sin( an )*T[d] + std::cos( an )*B[d]; } }
      else { f.R[0][0] = N[0]; f.R[1][0] = N[1]; f.R[0][1] = -N[1]; f.R[1][1] = N[0]; f.R[2][2] = 1; }
      fa.push_back( f );
    }
    nF = fa.size();
    // periodic faces: the two faces keep their ids, each stores its own element as the left one
    for( int d = 0; d < D; d++ ) if( pd[d] ) {
      std::map< std::vector< std::array< int, 3 > >, int > lo;
      auto key = [&]( int f ) { std::vector< std::array< int, 3 > > k; for( int v : fv( fa[f].eL, fa[f].fL ) ) { auto x = ix[v]; x[d] = 0; k.push_back( x ); } std::sort( k.begin(), k.end() ); return k; };
      auto on = [&]( int f, int w ) { if( fa[f].eR >= 0 ) return false; for( int v : fv( fa[f].eL, fa[f].fL ) ) if( ix[v][d] != w ) return false; return true; };
      for( int f = 0; f < nF; f++ ) if( on( f, 0 ) ) lo[key( f )] = f;
      for( int f = 0; f < nF; f++ ) if( on( f, n[d] ) ) { auto k = key( f ); if( !lo.count( k ) ) continue; int g = lo[k]; Fa & a = fa[f]; Fa & b = fa[g]; bool single = a.eL == b.eL; if( single ) continue;
        a.eR = b.eL; b.eR = a.eL; a.per = b.per = true; anyPer = true; link( a.eL, a.fL, b.eL, b.fL, d, n[d] ); }
    }
  }
  void link( int e0, int f0, int e1, int f1, int pd = -1, int n = 0 ) {
    elFaEl[e0][f0] = e1; elFaEl[e1][f1] = e0; fId[e0][f0] = f1; fId[e1][f1] = f0; vId[e0][f0] = vId[e1][f1] = 0;
    auto l0 = faVe( t, f0 ), l1 = faVe( t, f1 );
    auto same = [&]( int a, int b ) { if( pd < 0 ) return a == b; auto x = ix[a], y = ix[b]; x[pd] %= n; y[pd] %= n; return x == y; };
    for( size_t k = 0; k < l1.size(); k++ ) if( same( elVe[e0][l0[0]], elVe[e1][l1[k]] ) ) { if( t == TET4 ) vId[e0][f0] = k; for( int d = 0; d < 3; d++ ) { double x = ve[elVe[e1][l1[k]]][d] - ve[elVe[e0][l0[0]]][d]; shift[e0][f0][d] = pd < 0 ? 0 : x; shift[e1][f1][d] = pd < 0 ? 0 : -x; } }
    for( size_t k = 0; k < l0.size(); k++ ) if( t == TET4 && same( elVe[e1][l1[0]], elVe[e0][l0[k]] ) ) vId[e1][f1] = k;
  }
};
} // namespace ref
#endif
