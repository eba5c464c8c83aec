// EDGE: reference/physical mappings and elementary geometry
#include "pbt.hpp"
#include "constants.hpp"
#include "linalg/Mappings.hpp"
#include "linalg/Geom.hpp"
#include "linalg/HalfSpace.hpp"
#include "linalg/Domain.hpp"
typedef edge::linalg::Mappings M; typedef edge::linalg::Geom G;

static t_entityType const TYS[5] = { LINE, QUAD4R, TRIA3, HEX8R, TET4 };
static char const * NAM[5] = { "line", "quad4r", "tria3", "hex8r", "tet4" };
static int NV( t_entityType t ) { return C_ENT[t].N_VERTICES; }
static int ND( t_entityType t ) { return C_ENT[t].N_DIM; }

static double det3( double const * m ) { return m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]); }
static double refVe( t_entityType t, int d, int v ) {
  static double const L[1][2] = { { 0,1 } }, Q[2][4] = { { 0,1,1,0 }, { 0,0,1,1 } }, T[2][3] = { { 0,1,0 }, { 0,0,1 } }, H[3][8] = { { 0,1,1,0,0,1,1,0 }, { 0,0,1,1,0,0,1,1 }, { 0,0,0,0,1,1,1,1 } }, E[3][4] = { { 0,1,0,0 }, { 0,0,1,0 }, { 0,0,0,1 } };
  return t == LINE ? L[d][v] : t == QUAD4R ? Q[d][v] : t == TRIA3 ? T[d][v] : t == HEX8R ? H[d][v] : E[d][v];
}
// independent affine map: x = v0 + sum_d xi_d * ( v_{d} - v0 )
static int axVe( t_entityType t, int d ) { return t == LINE || t == TRIA3 || t == TET4 ? d+1 : ( t == QUAD4R ? ( d ? 3 : 1 ) : ( d == 0 ? 1 : d == 1 ? 3 : 4 ) ); }
static void aff( t_entityType t, double const * ve, double const * xi, double * x ) { int n = NV( t ), D = ND( t ); for( int d = 0; d < D; d++ ) { x[d] = ve[d*n]; for( int k = 0; k < D; k++ ) x[d] += xi[k]*( ve[d*n+axVe( t,k )] - ve[d*n] ); } }

static void genEl( pbt::Src & s, pbt::Ctx & c, t_entityType t, std::vector< double > & ve ) {
  int n = NV( t ), D = ND( t ); ve.assign( D*n, 0 );
  double sc = s.pick( std::vector< double >{ 1, 1, 0.1, 30 } );
  if( t == LINE || t == QUAD4R || t == HEX8R ) {
    double o[3], l[3]; for( int d = 0; d < D; d++ ) { o[d] = s.sr( 10 )*sc; l[d] = s.r( 0.2, 5 )*sc; }
    for( int d = 0; d < D; d++ ) for( int v = 0; v < n; v++ ) ve[d*n+v] = o[d] + l[d]*refVe( t, d, v );
    return;
  }
  for( int k = 0; k < 20; k++ ) {
    for( auto & x : ve ) x = s.sr( 3 );
    double m[9]; for( int a = 0; a < D; a++ ) for( int b = 0; b < D; b++ ) m[a*D+b] = ve[b*n+a+1] - ve[b*n];
    double dt = D == 2 ? m[0]*m[3]-m[1]*m[2] : det3( m );
    if( std::fabs( dt ) < 0.4 ) continue;
    if( dt < 0 ) for( int d = 0; d < D; d++ ) std::swap( ve[d*n+n-1], ve[d*n+n-2] );
    for( auto & x : ve ) x *= sc;
    return;
  }
  c.discard();
}
static void genXi( pbt::Src & s, t_entityType t, double * xi, double mar = 0.02 ) {
  int D = ND( t );
  if( t == TRIA3 || t == TET4 ) { double b[4], su = 0; for( int k = 0; k <= D; k++ ) { b[k] = s.r( mar, 1 ); su += b[k]; } for( int k = 0; k < D; k++ ) xi[k] = b[k+1]/su; }
  else for( int k = 0; k < D; k++ ) xi[k] = s.r( mar, 1-mar );
}
static double mag( std::vector< double > const & v ) { double m = 0; for( double x : v ) m = std::max( m, std::fabs( x ) ); return m; }

PBT( mapping, 20000, 400000, "random non-degenerate element of one of five types and a random point; always non-trivial" ) {
  int ti = s.draw( 5 ); t_entityType t = TYS[ti]; int n = NV( t ), D = ND( t ); std::vector< double > ve; genEl( s, c, t, ve ); double mg = mag( ve );
  double xi[3] = { 0,0,0 }, x[3], e[3], b[3]; genXi( s, t, xi, 0 );
  M::refToPhy( t, ve.data(), xi, x ); aff( t, ve.data(), xi, e );
  for( int d = 0; d < D; d++ ) c.close( x[d], e[d], 0, 1E-11*mg, std::string( "reference to physical, " ) + NAM[ti] );
  for( int v = 0; v < n; v++ ) { double r[3] = { 0,0,0 }; for( int d = 0; d < D; d++ ) r[d] = refVe( t, d, v ); M::refToPhy( t, ve.data(), r, x ); for( int d = 0; d < D; d++ ) c.close( x[d], ve[d*n+v], 0, 1E-11*mg, std::string( "vertex of the reference element maps to the wrong point, " ) + NAM[ti] ); }
  if( t != LINE ) { M::phyToRef( t, ve.data(), e, b ); for( int d = 0; d < D; d++ ) c.close( b[d], xi[d], 0, 1E-7, std::string( "physical to reference, " ) + NAM[ti] );
    // points outside as well
    double xo[3], eo[3]; for( int d = 0; d < D; d++ ) xo[d] = s.sr( 3 ); aff( t, ve.data(), xo, eo ); M::phyToRef( t, ve.data(), eo, b ); for( int d = 0; d < D; d++ ) c.close( b[d], xo[d], 0, 1E-6, std::string( "physical to reference (outside), " ) + NAM[ti] ); }
  double j[9]; M::evalJac( t, ve.data(), j );
  for( int a = 0; a < D; a++ ) { double r0[3] = { 0,0,0 }, r1[3] = { 0,0,0 }, p0[3], p1[3]; r1[a] = 1; aff( t, ve.data(), r0, p0 ); aff( t, ve.data(), r1, p1 ); for( int d = 0; d < D; d++ ) c.close( j[a*D+d], p1[d]-p0[d], 0, 1E-11*mg, std::string( "Jacobian, " ) + NAM[ti] ); }
  c.nontrivial(); std::ostringstream o; o << NAM[ti] << " xi " << xi[0] << " " << xi[1] << " " << xi[2] << " v0 " << ve[0]; c.sample( o.str() );
}

// vertices of the faces in the order documented for the reference elements
static std::vector< int > faVe( t_entityType t, int f ) {
  static int const Q[4][2] = { {0,1},{1,2},{2,3},{3,0} }, T[3][2] = { {0,1},{1,2},{2,0} }, H[6][4] = { {0,3,2,1},{0,1,5,4},{1,2,6,5},{3,7,6,2},{0,4,7,3},{4,5,6,7} }, E[4][3] = { {0,2,1},{0,1,3},{0,3,2},{1,2,3} };
  if( t == LINE ) return { f }; if( t == QUAD4R ) return { Q[f][0], Q[f][1] }; if( t == TRIA3 ) return { T[f][0], T[f][1] };
  if( t == HEX8R ) return { H[f][0],H[f][1],H[f][2],H[f][3] }; return { E[f][0],E[f][1],E[f][2] };
}

PBT( faces, 20000, 400000, "random pair of face-adjacent elements (all combinations of local faces and orientations) and a random face point; always non-trivial" ) {
  int ti = 1 + s.draw( 4 ); t_entityType t = TYS[ti]; int n = NV( t ), D = ND( t ); int nf = C_ENT[t].N_FACES;
  std::vector< double > L, R( D*n ); genEl( s, c, t, L ); double mg = mag( L );
  int lf = s.draw( nf ), rf = 0; unsigned short vId = 0;
  std::vector< int > fl = faVe( t, lf );
  if( t == QUAD4R || t == HEX8R ) {
    static int const oq[4] = { 2,3,0,1 }, oh[6] = { 5,3,4,1,2,0 }; rf = t == QUAD4R ? oq[lf] : oh[lf];
    // shift the element across the face
    double sh[3]; for( int d = 0; d < D; d++ ) { double cf = 0, co = 0; for( int v : fl ) cf += L[d*n+v]; for( int v : faVe( t, rf ) ) co += L[d*n+v]; sh[d] = ( cf-co )/fl.size(); }
    double st = s.r( 0.3, 3 );
    for( int d = 0; d < D; d++ ) for( int v = 0; v < n; v++ ) R[d*n+v] = L[d*n+v] + sh[d];
    // other extent normal to the face
    for( int d = 0; d < D; d++ ) if( std::fabs( sh[d] ) > 1E-12 ) { double f0 = L[d*n+fl[0]]; for( int v = 0; v < n; v++ ) R[d*n+v] = f0 + ( R[d*n+v]-f0 )*st; }
  }
  else {
    // apex on the other side; random vertex order which keeps the orientation
    int ap = 0; for( int v = 0; v < n; v++ ) if( std::find( fl.begin(), fl.end(), v ) == fl.end() ) ap = v;
    std::vector< double > P( D*n ); // vertices: face vertices (local order), apex
    double cen[3]; for( int d = 0; d < D; d++ ) { cen[d] = 0; for( int v : fl ) cen[d] += L[d*n+v]/fl.size(); }
    for( int d = 0; d < D; d++ ) { for( std::size_t k = 0; k < fl.size(); k++ ) P[d*n+k] = L[d*n+fl[k]]; P[d*n+n-1] = 2*cen[d] - L[d*n+ap]; }
    auto pm = s.perm( n ); for( int d = 0; d < D; d++ ) for( int v = 0; v < n; v++ ) R[d*n+v] = P[d*n+pm[v]];
    double m[9]; for( int a = 0; a < D; a++ ) for( int b = 0; b < D; b++ ) m[a*D+b] = R[b*n+a+1] - R[b*n];
    if( ( D == 2 ? m[0]*m[3]-m[1]*m[2] : det3( m ) ) < 0 ) { for( int d = 0; d < D; d++ ) std::swap( R[d*n+n-1], R[d*n+n-2] ); std::swap( pm[n-1], pm[n-2] ); }
    for( int f = 0; f < nf; f++ ) { bool has = false; for( int v : faVe( t, f ) ) has = has || int( pm[v] ) == n-1; if( !has ) rf = f; }
    auto fr = faVe( t, rf ); for( std::size_t k = 0; k < fr.size(); k++ ) if( pm[fr[k]] == 0 ) vId = k;
  }
  double fp[2] = { 0, 0 }; if( D == 2 || t == HEX8R ) { fp[0] = s.r( 0,1 ); fp[1] = s.r( 0,1 ); } else { double b[3]; double su = 0; for( double & x : b ) { x = s.r( 0.01, 1 ); su += x; } fp[0] = b[1]/su; fp[1] = b[2]/su; }
  double vl[3] = { 0,0,0 }, vr[3] = { 0,0,0 }, xl[3], xr[3], fn[2];
  M::faToVolRef( lf, t, fp, vl ); aff( t, L.data(), vl, xl );
  // the face parametrization runs along the documented face vertices
  { double e[3]; for( int d = 0; d < D; d++ ) { int v0 = fl[0], v1 = fl[1], v2 = D == 2 ? -1 : ( t == HEX8R ? fl[3] : fl[2] ); e[d] = L[d*n+v0] + fp[0]*( L[d*n+v1]-L[d*n+v0] ) + ( v2 >= 0 ? fp[1]*( L[d*n+v2]-L[d*n+v0] ) : 0 ); c.close( xl[d], e[d], 0, 1E-11*mg*5, std::string( "face point in the element, " ) + NAM[ti] ); } }
  M::faLocToFaNei( t, fp, fn, vId ); M::faToVolRef( rf, t, fn, vr ); aff( t, R.data(), vr, xr );
  for( int d = 0; d < D; d++ ) c.close( xr[d], xl[d], 0, 1E-10*mg*5, std::string( "both sides of a face see different points, " ) + NAM[ti] + " faces " + std::to_string( lf ) + "/" + std::to_string( rf ) + " vertex " + std::to_string( vId ) );
  if( t != TET4 ) { double o[3]; M::mapFaceCoords( t, lf, rf, 0, vl[0], vl[1], vl[2], o[0], o[1], o[2] ); aff( t, R.data(), o, xr ); for( int d = 0; d < D; d++ ) c.close( xr[d], xl[d], 0, 1E-10*mg*5, std::string( "mapped face coordinates, " ) + NAM[ti] ); }
  c.nontrivial(); c.sample( std::string( NAM[ti] ) + " faces " + std::to_string( lf ) + "/" + std::to_string( rf ) + " vertex " + std::to_string( vId ) );
}

PBT( inside, 20000, 400000, "random element and point; non-trivial: inside or on the boundary" ) {
  int ti = s.draw( 5 ); t_entityType t = TYS[ti]; int D = ND( t ); std::vector< double > ve; genEl( s, c, t, ve );
  for( auto & x : ve ) if( std::fabs( x ) > 50 ) c.discard();
  double xi[3] = { 0,0,0 }, x[3]; int ex; int mode = s.draw( 3 );
  bool simplex = t == TRIA3 || t == TET4;
  if( mode == 0 ) { genXi( s, t, xi, 0.02 ); ex = 1; }
  else if( mode == 1 ) { // outside: at least one barycentric coordinate well below zero
    for( int d = 0; d < D; d++ ) xi[d] = s.r( -1, 2 );
    double lo = 1, su = 0; for( int d = 0; d < D; d++ ) { lo = std::min( lo, std::min( xi[d], simplex ? 1.0 : 1-xi[d] ) ); su += xi[d]; } if( simplex ) lo = std::min( lo, 1-su );
    if( lo > -0.02 ) c.discard(); ex = 0; }
  else { // on a face
    if( t == LINE ) { xi[0] = s.draw( 2 ); }
    else { int f = s.draw( C_ENT[t].N_FACES ); auto fv = faVe( t, f ); double fp[2]; double b[3], su = 0; for( double & y : b ) { y = s.r( 0.05, 1 ); su += y; } fp[0] = D == 2 || t == HEX8R ? s.r( 0.05, 0.95 ) : b[1]/su; fp[1] = t == HEX8R ? s.r( 0.05, 0.95 ) : b[2]/su;
      for( int d = 0; d < D; d++ ) { int v2 = D == 2 ? -1 : ( t == HEX8R ? fv[3] : fv[2] ); xi[d] = refVe( t,d,fv[0] ) + fp[0]*( refVe( t,d,fv[1] )-refVe( t,d,fv[0] ) ) + ( v2 >= 0 ? fp[1]*( refVe( t,d,v2 )-refVe( t,d,fv[0] ) ) : 0 ); } }
    ex = 2; }
  aff( t, ve.data(), xi, x );
  // stay clear of the absolute tolerance
  { double mn = 1E300; int n = NV( t ); if( t != LINE ) { double j[9]; M::evalJac( t, ve.data(), j ); double dt = D == 2 ? j[0]*j[3]-j[1]*j[2] : det3( j ); mn = std::fabs( dt )*0.02; if( mn < 1E-3 && mode != 2 ) c.discard(); (void) n; } }
  unsigned short r = G::inside( t, ve.data(), x );
  if( mode == 2 && t != LINE && r != 2 ) {
    // rounding may exceed the absolute tolerance for larger elements
    if( mag( ve ) > 5 ) c.discard();
  }
  c.require( r == ex, std::string( "point location, " ) + NAM[ti] + ": got " + std::to_string( r ) + " expected " + std::to_string( ex ) );
  c.nontrivial( ex > 0 ); c.sample( std::string( NAM[ti] ) + " " + std::to_string( ex ) );
}

static void cross( double const * a, double const * b, double * o ) { o[0] = a[1]*b[2]-a[2]*b[1]; o[1] = a[2]*b[0]-a[0]*b[2]; o[2] = a[0]*b[1]-a[1]*b[0]; }
static double dot3( double const * a, double const * b ) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }

PBT( measures, 20000, 300000, "random lines, triangles and tetrahedrons in two or three dimensions; always non-trivial" ) {
  unsigned k = s.draw( 4 );
  if( k == 0 ) { std::vector< double > v; genEl( s, c, TRIA3, v ); double mg = mag( v );
    double a = 0.5*std::fabs( (v[1]-v[0])*(v[5]-v[3]) - (v[2]-v[0])*(v[4]-v[3]) ); c.close( G::volume( TRIA3, v.data() ), a, 1E-10, 1E-12*mg*mg, "area of a triangle" );
    double p = 0; for( int e = 0; e < 3; e++ ) { double dx = v[(e+1)%3]-v[e], dy = v[3+(e+1)%3]-v[3+e]; p += std::sqrt( dx*dx+dy*dy ); } c.close( G::inDia( TRIA3, v.data() ), 4*a/p, 1E-8, 0, "in-circle diameter" );
    double l[4] = { v[0], v[1], v[3], v[4] }; c.close( G::volume( LINE, l, 2 ), std::hypot( v[1]-v[0], v[4]-v[3] ), 1E-10, 0, "length of a line" ); }
  else if( k == 1 ) { std::vector< double > v; genEl( s, c, TET4, v ); if( s.b() ) for( int d = 0; d < 3; d++ ) std::swap( v[d*4+2], v[d*4+3] );
    double m[9]; for( int a = 0; a < 3; a++ ) for( int b = 0; b < 3; b++ ) m[a*3+b] = v[b*4+a+1]-v[b*4]; double vol = std::fabs( det3( m ) )/6; c.close( G::volume( TET4, v.data() ), vol, 1E-9, 0, "volume of a tetrahedron" );
    double A = 0; for( int f = 0; f < 4; f++ ) { double p[3][3]; int q = 0; for( int w = 0; w < 4; w++ ) if( w != f ) { for( int d = 0; d < 3; d++ ) p[q][d] = v[d*4+w]; q++; } double e0[3], e1[3], cr[3]; for( int d = 0; d < 3; d++ ) { e0[d] = p[1][d]-p[0][d]; e1[d] = p[2][d]-p[0][d]; } cross( e0, e1, cr ); A += 0.5*std::sqrt( dot3( cr, cr ) ); }
    c.close( G::inDia( TET4, v.data() ), 6*vol/A, 1E-8, 0, "in-sphere diameter" ); }
  else if( k == 2 ) { // triangle in space: area, tangents, normal away from a point
    double v[9]; for( double & x : v ) x = s.sr( 5 ); double e0[3], e1[3], cr[3]; for( int d = 0; d < 3; d++ ) { e0[d] = v[d*3+1]-v[d*3]; e1[d] = v[d*3+2]-v[d*3]; } cross( e0, e1, cr ); double a = std::sqrt( dot3( cr,cr ) ); if( a < 0.5 || dot3( e0,e0 ) < 0.1 ) c.discard();
    c.close( G::volume( TRIA3, v, 3 ), a/2, 1E-9, 0, "area of a triangle in space" );
    double t0[3], t1[3], nn[3], np[3]; G::computeTangents( TRIA3, v, t0, t1 ); for( double & x : np ) x = s.sr( 5 );
    double d0[3]; for( int d = 0; d < 3; d++ ) d0[d] = np[d]-v[d*3]; double h = dot3( d0, cr )/a; if( std::fabs( h ) < 0.05 ) c.discard();
    c.close( dot3( t0,t0 ), 1, 0, 1E-9, "length of the first tangent" ); c.close( dot3( t1,t1 ), 1, 0, 1E-9, "length of the second tangent" ); c.close( dot3( t0,t1 ), 0, 0, 1E-9, "tangents orthogonal" ); c.close( dot3( t0,cr )/a, 0, 0, 1E-9, "tangent in plane" ); c.close( dot3( t1,cr )/a, 0, 0, 1E-9, "tangent in plane" );
    c.close( dot3( t0,e0 )/std::sqrt( dot3( e0,e0 ) ), 1, 0, 1E-9, "first tangent along the first edge" ); c.require( dot3( t1,e1 ) > 0, "second tangent direction" );
    G::computeOutPtNormal( TRIA3, v, np, nn ); c.close( dot3( nn,nn ), 1, 0, 1E-9, "length of the normal" ); c.close( std::fabs( dot3( nn,cr ) )/a, 1, 0, 1E-9, "normal direction" ); c.require( dot3( nn,d0 ) < 0, "normal points to the normal point" ); }
  else { // line in the plane
    double v[6] = { s.sr( 5 ), s.sr( 5 ), s.sr( 5 ), s.sr( 5 ), 0, 0 }; double t[3] = { v[1]-v[0], v[3]-v[2], 0 }, l = std::sqrt( dot3( t,t ) ); if( l < 0.1 ) c.discard(); double np[3] = { s.sr( 5 ), s.sr( 5 ), 0 }, nn[3]; double d0[3] = { np[0]-v[0], np[1]-v[2], 0 }; double h = ( d0[0]*t[1]-d0[1]*t[0] )/l; if( std::fabs( h ) < 0.05 ) c.discard();
    G::computeOutPtNormal( LINE, v, np, nn ); c.close( dot3( nn,nn ), 1, 0, 1E-9, "length of the normal" ); c.close( dot3( nn,t )/l, 0, 0, 1E-9, "normal orthogonal" ); c.require( dot3( nn,d0 ) < 0, "normal points to the normal point" ); }
  c.nontrivial(); c.sample( "kind " + std::to_string( k ) );
}

PBT( closest, 12000, 200000, "random element and point; non-trivial: point outside the element" ) {
  int ti = s.draw( 5 ); t_entityType t = TYS[ti]; int n = NV( t ), D = ND( t ); std::vector< double > ve; genEl( s, c, t, ve ); double mg = mag( ve ); if( mg > 20 || mg < 0.5 ) c.discard();
  if( t == TET4 || t == TRIA3 ) { double j[9]; M::evalJac( t, ve.data(), j ); if( ( D == 2 ? j[0]*j[3]-j[1]*j[2] : det3( j ) ) < 0.05 ) c.discard(); }
  double x[3] = { 0,0,0 }, o[3]; bool in = s.b( 0.3 );
  if( in ) { double xi[3]; genXi( s, t, xi, 0.05 ); aff( t, ve.data(), xi, x ); } else for( int d = 0; d < D; d++ ) x[d] = s.sr( 2*mg );
  for( int d = 0; d < 3; d++ ) o[d] = x[d];
  G::closestPoint( t, ve.data(), o );
  double xi[3]; if( t == LINE ) xi[0] = ( o[0]-ve[0] )/( ve[1]-ve[0] ); else M::phyToRef( t, ve.data(), o, xi );
  double su = 0; for( int d = 0; d < D; d++ ) { c.require( xi[d] > -1E-4 && xi[d] < 1+1E-4, "closest point outside the element" ); su += xi[d]; } if( t == TRIA3 || t == TET4 ) c.require( su < 1+1E-4, "closest point outside the element" );
  double dist = 0; for( int d = 0; d < D; d++ ) dist += ( o[d]-x[d] )*( o[d]-x[d] ); dist = std::sqrt( dist );
  if( in ) c.require( dist < 1E-6*mg, "a point inside the element was moved" );
  // no other point of the element is closer: variational inequality ( x - o, v - o ) <= 0 for all vertices v
  for( int v = 0; v < n; v++ ) { double sp = 0; for( int d = 0; d < D; d++ ) sp += ( x[d]-o[d] )*( ve[d*n+v]-o[d] ); c.require( sp < 1E-4*mg*( 1+dist ), std::string( "another point of the element is closer, " ) + NAM[ti] ); }
  c.nontrivial( dist > 1E-6 ); c.sample( std::string( NAM[ti] ) + " distance " + std::to_string( dist ) );
}

PBT( rotation, 10000, 200000, "random vectors; always non-trivial" ) {
  double a[3], b[3]; for( double & x : a ) x = s.sr( 3 ); for( double & x : b ) x = s.sr( 3 ); double la = std::sqrt( dot3( a,a ) ), lb = std::sqrt( dot3( b,b ) ); if( la < 0.1 || lb < 0.1 || dot3( a,b )/la/lb < -0.98 ) c.discard();
  double R[3][3]; edge::linalg::GeomTs<3>::rotMat( a, b, R );
  for( int i = 0; i < 3; i++ ) { c.close( dot3( R[i],a )/la, b[i]/lb, 0, 1E-7, "rotation does not map the first to the second direction" ); for( int j = 0; j < 3; j++ ) c.close( dot3( R[i],R[j] ), i == j, 0, 1E-7, "rotation not orthogonal" ); }
  c.close( det3( R[0] ), 1, 0, 1E-7, "rotation determinant" );
  // minimal rotation: the axis stays fixed
  double ax[3]; cross( a, b, ax ); double l = std::sqrt( dot3( ax,ax ) ); if( l > 0.05 ) for( int i = 0; i < 3; i++ ) c.close( dot3( R[i],ax ), ax[i], 1E-6, 1E-6*l, "axis of the rotation" );
  double u[2] = { a[0], a[1] }, w[2] = { b[0], b[1] }; if( std::hypot( u[0],u[1] ) > 0.1 && std::hypot( w[0],w[1] ) > 0.1 ) {
    double an = edge::linalg::GeomTs<2>::angle( u, w ), e = std::atan2( w[1],w[0] ) - std::atan2( u[1],u[0] ); c.require( an > -1E-9 && an < 2*M_PI+1E-9, "range of the angle" ); c.close( std::cos( an ), std::cos( e ), 0, 1E-7, "angle" ); c.close( std::sin( an ), std::sin( e ), 0, 1E-7, "angle" ); }
  // elementary operations
  double const * pa = a, * pb = b; double df[3], ds = 0; for( int d = 0; d < 3; d++ ) { df[d] = b[d]-a[d]; ds += df[d]*df[d]; } using edge::linalg::GeomT;
  c.close( GeomT<1>::sprod( pa, pb ), a[0]*b[0], 1E-12, 1E-12, "scalar product (1D)" ); c.close( GeomT<2>::sprod( pa, pb ), a[0]*b[0]+a[1]*b[1], 1E-12, 1E-12, "scalar product (2D)" ); c.close( GeomT<3>::sprod( pa, pb ), dot3( a, b ), 1E-12, 1E-12, "scalar product (3D)" );
  c.close( GeomT<2>::normL2( pa ), std::hypot( a[0], a[1] ), 1E-12, 1E-12, "norm (2D)" ); c.close( GeomT<3>::normL2( pa ), la, 1E-12, 1E-12, "norm (3D)" ); c.close( GeomT<2>::norm( pa, pb ), std::hypot( df[0], df[1] ), 1E-12, 1E-12, "distance (2D)" ); c.close( GeomT<3>::norm( pa, pb ), std::sqrt( ds ), 1E-12, 1E-12, "distance (3D)" ); c.close( edge::linalg::GeomTs<3>::norm( pa, pb ), std::sqrt( ds ), 1E-12, 1E-12, "distance (3D)" );
  double pp[3][2]; for( int d = 0; d < 3; d++ ) { pp[d][0] = a[d]; pp[d][1] = b[d]; } c.close( edge::linalg::Mappings::distPts( pp ), std::sqrt( ds ), 1E-12, 1E-12, "distance of two points" );
  c.nontrivial();
}

template< unsigned short D > static void dom( pbt::Src & s, pbt::Ctx & c ) {
  typedef edge::linalg::HalfSpace< double, D > H; edge::linalg::Domain< double, D, edge::linalg::HalfSpace > dm;
  unsigned n = s.draw( 5 ); std::vector< std::vector< double > > os, ns;
  for( unsigned k = 0; k < n; k++ ) { double o[3], v[3]; double l = 0; for( int d = 0; d < D; d++ ) { o[d] = s.sr( 4 ); v[d] = s.sr( 2 ); l += v[d]*v[d]; } if( l < 0.01 ) c.discard(); os.push_back( std::vector< double >( o, o+D ) ); ns.push_back( std::vector< double >( v, v+D ) ); H h( o, v ); dm.add( h ); }
  unsigned in = 0, out = 0;
  for( int q = 0; q < 10; q++ ) { double p[3]; for( int d = 0; d < D; d++ ) p[d] = s.sr( 6 ); bool e = true, amb = false; for( unsigned k = 0; k < n; k++ ) { double dp = 0, l = 0; for( int d = 0; d < D; d++ ) { dp += ns[k][d]*( p[d]-os[k][d] ); l += ns[k][d]*ns[k][d]; } dp /= std::sqrt( l ); if( std::fabs( dp ) < 1E-4 ) amb = true; if( dp < 0 ) e = false; }
    if( amb ) continue; c.require( dm.inside( p ) == e, "membership in an intersection of half spaces" ); ( e ? in : out )++; }
  c.nontrivial( in && out );
}
PBT( domain, 10000, 200000, "at least one point inside and one outside the intersection of half spaces" ) { switch( s.draw( 3 ) ) { case 0: dom<1>( s, c ); break; case 1: dom<2>( s, c ); break; default: dom<3>( s, c ); } }
