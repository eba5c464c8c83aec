// EDGE: basis functions, quadrature, projections
#define DGDATA_DEFINE
#include "pbt.hpp"
#include "dgdata.hpp"
#include "dg/Basis.h"
#include "dg/QuadraturePoints.h"
#include "dg/QuadratureEval.hpp"
typedef edge::dg::Basis Ba;
using ref::VD;
static t_entityType const TY[5] = { LINE, TRIA3, QUAD4R, TET4, HEX8R };
static char const * NM[5] = { "line", "tria3", "quad4r", "tet4", "hex8r" };
static const t_entityType EL = T_SDISC.ELEMENT;

PBT( basis, 200000, 4000000, "random element type, order, mode, derivative and point in or near the element; non-trivial: mode of degree at least one" ) {
  int ti = s.draw( 5 ); t_entityType t = TY[ti]; int o = 1 + s.draw( t == TET4 ? 11 : 10 ), nm = ref::nModes( t, o ), b = s.draw( nm );
  double x[3] = { 0, 0, 0 }; for( int k = 0; k < ref::dim( t ); k++ ) x[k] = s.draw( 8 ) == 0 ? s.draw( 3 )*0.5 : s.r( -0.1, 1.1 );
  if( ( t == TRIA3 || t == TET4 ) && s.draw( 6 ) ) { double u = x[0]+x[1]+x[2]; if( u > 1.1 ) for( auto & y : x ) y /= u; }
  // the collapsed vertex/edge is subject of basis_collapsed
  if( t == TRIA3 && std::fabs( 1-x[1] ) < 1E-3 ) c.discard();
  if( t == TET4 && ( std::fabs( 1-x[2] ) < 1E-3 || std::fabs( 1-x[1]-x[2] ) < 1E-3 ) ) c.discard();
  int de = int( s.draw( ref::dim( t )+1 ) ) - 1;
  ref::Du r = ref::dphi( t, o, b, x ); double e = de < 0 ? r.v : r.d[de];
  double v = s.b() ? Ba::evalBasis( b, t, x[0], x[1], x[2], de, o ) : Ba::evalBasis( b, t, x, de, o );
  double sc = 1; for( int k = 0; k < o; k++ ) sc *= 3;
  c.close( v, e, 1E-8, 1E-10*sc, std::string( NM[ti] ) + ( de < 0 ? " value of mode " : " derivative of mode " ) + std::to_string( b ) );
  if( b > 0 ) c.nontrivial(); std::ostringstream q; q << NM[ti] << " order " << o << " mode " << b << " derivative " << de << " at (" << x[0] << "," << x[1] << "," << x[2] << "): " << v; c.sample( q.str() );
}

#ifdef PP_T_ELEMENTS_TET4
PBT( basis_collapsed, 1, 1, "all modes up to order 5 and derivatives at the points of the collapsed vertex and edge; always non-trivial" ) {
  static double const PT[5][3] = { { 0, 1, 0 }, { 0, 0, 1 }, { 0, 0.5, 0.5 }, { 0, 0.25, 0.75 }, { 0, 1, 0 } }; unsigned bad = 0, n = 0;
  for( int k = 0; k < 5; k++ ) { t_entityType t = k == 0 ? TRIA3 : TET4; for( int b = 0; b < ref::nModes( t, 5 ); b++ ) for( int de = -1; de < ref::dim( t ); de++ ) {
    double x[3] = { PT[k][0], PT[k][1], PT[k][2] }; ref::Du r = ref::dphi( t, 5, b, x ); double e = de < 0 ? r.v : r.d[de], v = Ba::evalBasis( b, t, x[0], x[1], x[2], de, 5 ); n++;
    if( v != v ) bad++; else c.close( v, e, 1E-8, 1E-7, "mode " + std::to_string( b ) + " at a collapsed point" ); } }
  c.nontrivial(); c.sample( std::to_string( bad ) + " of " + std::to_string( n ) + " evaluations are not a number" );
  if( bad ) c.fail( "basis functions are not a number at collapsed points" );
}
#endif

PBT( quadrature, 20000, 400000, "random element, number of points and polynomial; non-trivial: at least two points per direction and a polynomial of degree at least two" ) {
  int ti = s.draw( 5 ); t_entityType t = TY[ti]; int d = ref::dim( t ), n = ( t == TET4 ? 2 : 1 ) + s.draw( 8 ), nv = t == LINE ? 2 : t == TRIA3 ? 3 : t == HEX8R ? 8 : 4;
  double A[3][3] = {{0}}, x0[3] = { 0, 0, 0 }; int nd = t == QUAD4R ? 3 : d; for( int k = 0; k < nd; k++ ) x0[k] = s.sr( 3 );
  static double const RV[5][8][3] = { { {0,0,0},{1,0,0} }, { {0,0,0},{1,0,0},{0,1,0} }, { {0,0,0},{1,0,0},{1,1,0},{0,1,0} }, { {0,0,0},{1,0,0},{0,1,0},{0,0,1} },
    { {0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1} } };
  double det = 0;
  if( t == LINE ) { A[0][0] = det = s.r( 0.1, 3 ); }
  else if( t == QUAD4R ) { int fx = s.draw( 3 ), a = fx == 0 ? 1 : 0, b = fx == 2 ? 1 : 2; if( s.b() ) std::swap( a, b ); A[a][0] = s.r( 0.1, 3 ); A[b][1] = s.r( 0.1, 3 ); det = A[a][0]*A[b][1]; }
  else if( t == HEX8R ) { for( int k = 0; k < 3; k++ ) A[k][k] = s.r( 0.1, 3 ); det = A[0][0]*A[1][1]*A[2][2]; }
  else {
    for( int i = 0; i < d; i++ ) for( int j = 0; j < d; j++ ) A[i][j] = s.sr( 2 );
    det = d == 2 ? A[0][0]*A[1][1]-A[0][1]*A[1][0] : A[0][0]*(A[1][1]*A[2][2]-A[1][2]*A[2][1]) - A[0][1]*(A[1][0]*A[2][2]-A[1][2]*A[2][0]) + A[0][2]*(A[1][0]*A[2][1]-A[1][1]*A[2][0]);
    if( det < 0 ) { for( int i = 0; i < d; i++ ) std::swap( A[i][0], A[i][1] ); det = -det; }
    if( det < 1E-2 ) c.discard();
  }
  VD ve( 3*nv, 0. ); for( int v = 0; v < nv; v++ ) for( int i = 0; i < 3; i++ ) { double y = x0[i]; for( int j = 0; j < d; j++ ) y += A[i][j]*RV[ti][v][j]; ve[i*nv+v] = y; }
  std::vector< double > X, Y, Z, W; edge::dg::QuadraturePoints::getQpts( t, n, ve.data(), X, Y, Z, W );
  std::size_t ne = 1; for( int k = 0; k < d; k++ ) ne *= n;
  c.require( X.size() == ne && Y.size() == ne && Z.size() == ne && W.size() == ne, "number of quadrature points" );
  // a polynomial of the exactly integrated degree in the reference coordinates
  int dmax = t == TET4 ? 2*n-3 : t == TRIA3 ? 2*n-2 : 2*n-1; if( dmax < 0 ) dmax = 0; int dg = s.draw( dmax+1 );
  double lin[3][4]; int p[3]; int left = dg; for( int k = 0; k < 3; k++ ) { for( int j = 0; j < 4; j++ ) lin[k][j] = s.sr( 1 ); p[k] = k == 2 ? left : s.draw( left+1 ); left -= p[k]; }
  auto f = [&]( double const y[3] ) { double v = 1; for( int k = 0; k < 3; k++ ) { double l = lin[k][3]; for( int j = 0; j < d; j++ ) l += lin[k][j]*( y[j]-0.3 ); for( int q = 0; q < p[k]; q++ ) v *= l; } return v; };
  // reference coordinates of the points
  auto inv = [&]( double const x[3], double y[3] ) {
    if( t == LINE ) y[0] = ( x[0]-x0[0] )/A[0][0];
    else if( t == QUAD4R || t == HEX8R ) { for( int j = 0; j < d; j++ ) for( int i = 0; i < 3; i++ ) if( A[i][j] != 0 ) y[j] = ( x[i]-x0[i] )/A[i][j]; }
    else { double M[3][3]; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) M[i][j] = ( i < d && j < d ) ? A[i][j] : i == j; 
      for( int j = 0; j < d; j++ ) { double N[3][3]; for( int a = 0; a < 3; a++ ) for( int b = 0; b < 3; b++ ) N[a][b] = b == j ? ( a < d ? x[a]-x0[a] : 0 ) : M[a][b];
        y[j] = ( N[0][0]*(N[1][1]*N[2][2]-N[1][2]*N[2][1]) - N[0][1]*(N[1][0]*N[2][2]-N[1][2]*N[2][0]) + N[0][2]*(N[1][0]*N[2][1]-N[1][1]*N[2][0]) )/det; } }
  };
  double sum = 0, sa = 0;
  for( std::size_t q = 0; q < ne; q++ ) {
    double x[3] = { X[q], Y[q], Z[q] }, y[3] = { 0, 0, 0 }; inv( x, y ); double tot = 0;
    for( int j = 0; j < d; j++ ) { c.require( y[j] > -1E-9 && y[j] < 1+1E-9, "quadrature point outside of the element" ); tot += y[j]; }
    if( t == TRIA3 || t == TET4 ) c.require( tot < 1+1E-9, "quadrature point outside of the simplex" );
    for( int i = 0; i < 3; i++ ) { double z = x0[i]; for( int j = 0; j < d; j++ ) z += A[i][j]*y[j]; c.close( x[i], z, 1E-9, 1E-9, "quadrature point off the element's plane" ); }
    c.require( W[q] > 0, "weight not positive" ); sum += W[q]*f( y ); sa += W[q]*std::fabs( f( y ) );
  }
  double ex = 0; for( auto & q : ref::quad( t, n+2 ) ) ex += q.w*det*f( q.x );
  c.close( sum, ex, 1E-9, 1E-10*( sa + det ), std::string( NM[ti] ) + ": integral of a polynomial" );
  if( n > 1 && dg > 1 ) c.nontrivial(); std::ostringstream q; q << NM[ti] << " " << n << " points per direction, polynomial of degree " << dg << ": " << sum; c.sample( q.str() );
}

#ifdef PP_T_ELEMENTS_TET4
PBT( tet_one_point, 1, 1, "the single-point rule of the reference tetrahedron; always non-trivial" ) {
  std::vector< double > X, Y, Z, W; edge::dg::QuadraturePoints::getQpts( TET4, 1, C_REF_ELEMENT.VE.ENT[TET4], X, Y, Z, W );
  c.require( W.size() == 1, "number of points" ); c.nontrivial(); c.sample( "weight of the single point " + std::to_string( W[0] ) );
  if( std::fabs( W[0]*6-1 ) > 1E-9 ) { std::ostringstream o; o << "single-point rule of tetrahedra integrates one to " << W[0]*6 << " of the volume;"; c.fail( o.str() ); }
}
#endif

static Ba const & base() { static Ba b( EL, PP_ORDER ); return b; }
PBT( projection, 6000, 120000, "random modes of the configured element and order; non-trivial: at least two modes" ) {
  Ba const & b = base(); int n = ref::nModes( EL, PP_ORDER ); VD m( n ); for( auto & x : m ) x = s.sr( 3 );
  // points of the rule which integrates products of basis functions exactly
  int o = PP_ORDER+1; std::vector< double > X, Y, Z, W; edge::dg::QuadraturePoints::getQpts( EL, o, C_REF_ELEMENT.VE.ENT[EL], X, Y, Z, W );
  VD f( X.size() ); for( std::size_t q = 0; q < X.size(); q++ ) { double x[3] = { X[q], Y[q], Z[q] }; f[q] = 0; for( int k = 0; k < n; k++ ) f[q] += m[k]*ref::phi( EL, PP_ORDER, k, x );
    c.close( b.modal2refPtVal( o, q, m.data() ), f[q], 1E-9, 1E-9, "modal2refPtVal" ); c.close( b.modal2ptval( x, m.data() ), f[q], 1E-9, 1E-9, "modal2ptval" ); }
  VD r( n+1, 77 ); b.qpts2modal( f.data(), o, r.data() ); for( int k = 0; k < n; k++ ) c.close( r[k], m[k], 1E-8, 1E-8, "projection does not return the modes" ); c.require( r[n] == 77, "out of bounds" );
  // projection of a polynomial outside of the space: residual is orthogonal to the basis
  { auto q2 = ref::quad( EL, o+2 ); (void) q2; int lo = 1 + s.draw( PP_ORDER ); std::vector< double > x1, y1, z1, w1; edge::dg::QuadraturePoints::getQpts( EL, lo, C_REF_ELEMENT.VE.ENT[EL], x1, y1, z1, w1 );
    VD g( w1.size() ); for( auto & v : g ) v = s.sr( 1 ); b.qpts2modal( g.data(), lo, r.data() );
    for( int k = 0; k < n; k++ ) { double e = 0, mm = 0; for( std::size_t q = 0; q < w1.size(); q++ ) { double x[3] = { x1[q], y1[q], z1[q] }; e += w1[q]*g[q]*ref::phi( EL, PP_ORDER, k, x ); } for( auto & q : ref::quad( EL, PP_ORDER+1 ) ) { double v = ref::phi( EL, PP_ORDER, k, q.x ); mm += q.w*v*v; } c.close( r[k], e/mm, 1E-8, 1E-8, "modes are the weighted sums over the quadrature points" ); } }
  VD mi( n*n, 5 ); b.getMassInvDense( n, mi.data(), s.b() ); for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) { double e = 0; for( int k = 0; k < n; k++ ) e += dgMats().mass[i*n+k]*mi[k*n+j]; c.close( e, i == j, 1E-9, 1E-9, "inverse mass matrix" ); }
  if( n > 1 ) c.nontrivial(); std::ostringstream q; q << "order " << PP_ORDER << " modes " << n << " first " << m[0]; c.sample( q.str() );
}

#ifndef PP_T_ELEMENTS_LINE
template< int OS, int OQ > static void faces( pbt::Src & s, pbt::Ctx & c ) {
  const int nf = C_ENT[EL].N_FACES, no = CE_N_FACE_VERTEX_OPTS( EL ), nq = CE_N_FACE_QUAD_POINTS( EL, OQ ), nm = CE_N_ELEMENT_MODES( EL, OS ); t_entityType ft = C_ENT[EL].TYPE_FACES;
  static double pts[(no+1)*nf][nq][C_ENT[EL].N_DIM], we[nq], be[(no+1)*nf][nq][nm]; 
  edge::dg::QuadratureEval< EL, OS, OQ >::faces( pts, we, be );
  std::vector< double > X, Y, Z, W; edge::dg::QuadraturePoints::getQpts( ft, OQ, C_REF_ELEMENT.VE.ENT[ft], X, Y, Z, W );
  for( int q = 0; q < nq; q++ ) {
    c.close( we[q], W[q], 1E-12, 0, "face weight" ); double ch[3] = { X[q], Y[q], Z[q] };
    for( int f = 0; f < nf; f++ ) for( int v = -1; v < no; v++ ) {
      double cc[3] = { ch[0], ch[1], 0 }, x[3]; if( v >= 0 ) ref::faToFa( EL, v, ch, cc ); ref::faToEl( EL, f, cc, x ); int id = v < 0 ? f : nf + f*no + v;
      for( int k = 0; k < (int) C_ENT[EL].N_DIM; k++ ) c.close( pts[id][q][k], x[k], 1E-10, 1E-10, "face quadrature point" );
      for( int m = 0; m < nm; m++ ) c.close( be[id][q][m], ref::phi( EL, OS, m, x ), 1E-9, 1E-9, "basis at the face's quadrature points" );
    }
  }
  const int ne = CE_N_QUAD_POINTS( EL, OQ ); static double ep[ne][C_ENT[EL].N_DIM], ew[ne], ee[ne][nm]; edge::dg::QuadratureEval< EL, OS, OQ >::element( ep, ew, ee );
  double vol = 0; for( int q = 0; q < ne; q++ ) { vol += ew[q]; double x[3] = { 0, 0, 0 }; for( int k = 0; k < (int) C_ENT[EL].N_DIM; k++ ) x[k] = ep[q][k]; for( int m = 0; m < nm; m++ ) c.close( ee[q][m], ref::phi( EL, OS, m, x ), 1E-9, 1E-9, "basis at the element's quadrature points" ); }
  if( EL != TET4 || OQ > 1 ) c.close( vol, EL == TRIA3 ? 0.5 : EL == TET4 ? 1/6. : 1, 1E-10, 0, "sum of the element's weights" );
  // evaluation from modes, fused
  const int R = 3; static double dofs[nm][R], out[R]; for( int m = 0; m < nm; m++ ) for( int r = 0; r < R; r++ ) dofs[m][r] = s.sr( 2 );
  int q = s.draw( ne ); edge::dg::QuadratureEval< EL, OS, OQ, R >::evalBasis( ee[q], dofs, out );
  for( int r = 0; r < R; r++ ) { double e = 0; for( int m = 0; m < nm; m++ ) e += dofs[m][r]*ee[q][m]; c.close( out[r], e, 1E-10, 1E-10, "evaluation at a quadrature point" ); }
  if( OS > 1 ) c.nontrivial(); std::ostringstream o; o << "order " << OS << " quadrature order " << OQ << " value " << out[0]; c.sample( o.str() );
}
PBT( quadeval, 1000, 20000, "random modes, spatial and quadrature orders; non-trivial: order of at least two" ) {
  switch( s.draw( 6 ) ) { case 0: faces< 1, 1 >( s, c ); break; case 1: faces< 2, 2 >( s, c ); break; case 2: faces< 3, 4 >( s, c ); break; case 3: faces< 4, 3 >( s, c ); break; case 4: faces< 3, 3 >( s, c ); break; default: faces< 2, 5 >( s, c ); }
}
#endif
