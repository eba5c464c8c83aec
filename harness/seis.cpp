// seismic physics: Jacobians, rotations, star matrices, flux solvers, viscoelastic source terms
#include "pbt.hpp"
#include "constants.hpp"
#include "impl/seismic/common.hpp"
#include "impl/seismic/setups/Elasticity.h"
#include "impl/seismic/setups/ViscoElasticity.h"
#include "impl/seismic/solvers/AderDgInit.hpp"
#include <complex>
#include "seisref.hpp"
using namespace edge::seismic;

static void genFrame( pbt::Src & s, int D, double R[3][3] ) {
  for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) R[i][j] = i == j;
  int kind = s.draw( 4 );
  if( D == 2 ) { double a = kind == 0 ? 0.5*M_PI*s.draw( 4 ) : s.r( 0, 2*M_PI ); R[0][0] = std::cos( a ); R[1][0] = std::sin( a ); R[0][1] = -R[1][0]; R[1][1] = R[0][0]; return; }
  double q[4]; if( kind == 0 ) { for( auto & x : q ) x = s.draw( 3 ) - 1.; } else for( auto & x : q ) x = s.sr( 1 );
  double n = std::sqrt( q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3] ); if( n < 1E-2 ) { return; } for( auto & x : q ) x /= n;
  double w = q[0], x = q[1], y = q[2], z = q[3];
  double Q[3][3] = { { 1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y) }, { 2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x) }, { 2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y) } };
  double sg = s.b( 0.3 ) ? -1 : 1; // left-handed frames occur for the right elements of faces
  for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) R[i][j] = Q[i][j]*( j == 0 ? sg : 1 );
}
static Mat genMat( pbt::Src & s, double Ru, double Mu, bool ac = false ) { Mat m; m.rho = Ru*s.r( 0.3, 3 ); m.lam = Mu*s.r( 0.2, 4 ); m.mu = ac ? 0 : Mu*s.r( 0.1, 3 ); return m; }
struct Units { double R, M, U, S; };
static Units genUnits( pbt::Src & s ) { Units u; int k = s.draw( 3 ); u.R = k == 0 ? 1 : 2500; u.M = k == 0 ? 1 : k == 1 ? 2E10 : 3E9; u.U = 1; u.S = std::sqrt( u.R*u.M ); return u; }
static double unit( Units const & u, int D, int q ) { return q < NS( D ) ? u.S : u.U; }
static double funit( Units const & u, int D, int q ) { return q < NS( D ) ? u.M*u.U : u.S/u.R; }

template< int D > struct Ty;
template<> struct Ty< 2 > { static t_entityType const EL = TRIA3; };
template<> struct Ty< 3 > { static t_entityType const EL = TET4; };
static void fsCall( double const R[3][3], Mat const & a, Mat const & b, double * el, double * er, double * al, double * ar, bool f, std::integral_constant< int, 2 > ) { solvers::AderDgInit< TRIA3, false >::setUpFs( a.rho, b.rho, a.lam, b.lam, a.mu, b.mu, R[0][0], R[1][0], el, er, al, ar, f ); }
static void fsCall( double const R[3][3], Mat const & a, Mat const & b, double * el, double * er, double * al, double * ar, bool f, std::integral_constant< int, 3 > ) { solvers::AderDgInit< TET4, false >::setUpFs( a.rho, b.rho, a.lam, b.lam, a.mu, b.mu, R[0][0], R[1][0], R[2][0], R[0][1], R[1][1], R[2][1], R[0][2], R[1][2], R[2][2], el, er, al, ar, f ); }

// compares flux matrices (scaled by sca) to the exact Riemann solution
static void cmpFs( pbt::Ctx & c, int D, Units const & u, double const R[3][3], Mat const & L, Mat const & Ri, bool fsu, double const * el, double const * er, double const * al, double const * ar, double sca, std::string const & w ) {
  int n = NS( D )+D, ns = NS( D );
  for( int sd = 0; sd < 2; sd++ ) for( int j = 0; j < n; j++ ) {
    double q[2][9] = {}; q[sd][j] = 1; double f[9], fa[6]; godunov( D, R, L, Ri, q[0], q[1], fsu, f, fa );
    for( int i = 0; i < n; i++ ) c.close( ( sd ? er : el )[i*n+j]*unit( u, D, j )/funit( u, D, i ), sca*f[i]*unit( u, D, j )/funit( u, D, i ), 1E-9, 1E-9*std::fabs( sca ), w + ( sd ? ": flux of the right state, entry " : ": flux of the left state, entry " ) + std::to_string( i ) + "," + std::to_string( j ) );
    if( al != nullptr ) for( int i = 0; i < ns; i++ ) c.close( ( sd ? ar : al )[i*n+j]*unit( u, D, j )/u.U, sca*fa[i]*unit( u, D, j )/u.U, 1E-9, 1E-9*std::fabs( sca ), w + ( sd ? ": strain rate of the right state, entry " : ": strain rate of the left state, entry " ) + std::to_string( i ) + "," + std::to_string( j ) );
  }
}

template< int D > void riemann( pbt::Src & s, pbt::Ctx & c ) {
  int const n = NS( D )+D; Units u = genUnits( s ); bool ac = D == 2 && s.b( 0.15 ), fsu = s.b( 0.3 );
  Mat L = genMat( s, u.R, u.M, ac ), Ri = fsu || s.b( 0.2 ) ? L : genMat( s, u.R, u.M, ac ); double R[3][3]; genFrame( s, D, R );
  double el[81], er[81], al[54], ar[54]; for( auto & x : el ) x = 1E30; for( auto & x : er ) x = 1E30; bool an = !ac && s.b();
  fsCall( R, L, Ri, el, er, an ? al : nullptr, an ? ar : nullptr, fsu, std::integral_constant< int, D >() );
  cmpFs( c, D, u, R, L, Ri, fsu, el, er, an ? al : nullptr, ar, 1, fsu ? "free surface" : ac ? "acoustic" : "elastic" );
  if( fsu && !ac ) { // no work is done at a free surface: traction of the middle state vanishes
    VD q( n ); for( int i = 0; i < n; i++ ) q[i] = s.sr( 1 )*unit( u, D, i ); double f[9] = {}; for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) f[i] += ( el[i*n+j]+er[i*n+j] )*q[j];
    for( int i = NS( D ); i < n; i++ ) c.close( f[i]/funit( u, D, i ), 0, 0, 1E-8, "traction at the free surface" );
  }
  c.nontrivial( L.rho != Ri.rho || fsu ); std::ostringstream o; o << D << "d rho " << L.rho << "/" << Ri.rho << " lam " << L.lam << "/" << Ri.lam << " mu " << L.mu << "/" << Ri.mu << " n " << R[0][0] << " " << R[1][0] << ( fsu ? " free surface" : "" ) << ( an ? " anelastic" : "" ); c.sample( o.str() );
}
PBT( riemann2d, 6000, 120000, "face with different materials on both sides or a free surface" ) { riemann< 2 >( s, c ); }
PBT( riemann3d, 5000, 100000, "face with different materials on both sides or a free surface" ) { riemann< 3 >( s, c ); }

static void trafo( double const R[3][3], double * t, double * ti, std::integral_constant< int, 2 > ) { common::setupTrafo2d( R[0][0], R[1][0], (double (*)[5]) t ); common::setupTrafoInv2d( R[0][0], R[1][0], (double (*)[5]) ti ); }
static void trafo( double const R[3][3], double * t, double * ti, std::integral_constant< int, 3 > ) {
  common::setupTrafo3d( R[0][0], R[1][0], R[2][0], R[0][1], R[1][1], R[2][1], R[0][2], R[1][2], R[2][2], (double (*)[9]) t ); common::setupTrafoInv3d( R[0][0], R[1][0], R[2][0], R[0][1], R[1][1], R[2][1], R[0][2], R[1][2], R[2][2], (double (*)[9]) ti ); }
template< int D > void rotation( pbt::Src & s, pbt::Ctx & c ) {
  int const n = NS( D )+D; double R[3][3]; genFrame( s, D, R ); double t[81], ti[81]; trafo( R, t, ti, std::integral_constant< int, D >() );
  VD q( n ); for( auto & x : q ) x = s.sr( 5 );
  double S[3][3] = {}, V[9]; unpack( D, q.data(), S );
  for( int dir = 0; dir < 2; dir++ ) { // face to Cartesian, Cartesian to face
    for( int k = 0; k < NS( D ); k++ ) { int const * p = PK( D, k ); double a = 0; for( int i = 0; i < D; i++ ) for( int j = 0; j < D; j++ ) a += ( dir ? R[i][p[0]] : R[p[0]][i] )*S[i][j]*( dir ? R[j][p[1]] : R[p[1]][j] ); V[k] = a; }
    for( int i = 0; i < D; i++ ) { V[NS( D )+i] = 0; for( int a = 0; a < D; a++ ) V[NS( D )+i] += ( dir ? R[a][i] : R[i][a] )*q[NS( D )+a]; }
    for( int i = 0; i < n; i++ ) { double a = 0; for( int j = 0; j < n; j++ ) a += ( dir ? ti : t )[i*n+j]*q[j]; c.close( a, V[i], 0, 1E-11, std::string( dir ? "rotation to face-aligned coordinates" : "rotation to Cartesian coordinates" ) + ", quantity " + std::to_string( i ) ); }
  }
  c.nontrivial( std::fabs( R[0][0] ) < 1-1E-9 ); std::ostringstream o; o << D << "d n " << R[0][0] << " " << R[1][0] << " " << R[2][0]; c.sample( o.str() );
}
PBT( rotation2d, 5000, 100000, "frame not aligned with the axes" ) { rotation< 2 >( s, c ); }
PBT( rotation3d, 5000, 100000, "frame not aligned with the axes" ) { rotation< 3 >( s, c ); }

static void starDe( Mat const & m, double const j[2][2], double * o ) { setups::Elasticity::star( m.rho, m.lam, m.mu, j, (double (*)[25]) o ); }
static void starDe( Mat const & m, double const j[3][3], double * o ) { setups::Elasticity::star( m.rho, m.lam, m.mu, j, (double (*)[81]) o ); }
static void starSp( Mat const & m, double const j[2][2], double * o ) { setups::Elasticity::star( m.rho, m.lam, m.mu, j, (double (*)[10]) o ); }
static void starSp( Mat const & m, double const j[3][3], double * o ) { setups::Elasticity::star( m.rho, m.lam, m.mu, j, (double (*)[24]) o ); }
static void starAd( double const j[2][2], double * o ) { setups::ViscoElasticity::star( j, (double (*)[6]) o ); }
static void starAd( double const j[3][3], double * o ) { setups::ViscoElasticity::star( j, (double (*)[18]) o ); }
static void starAs( double const j[2][2], double * o ) { setups::ViscoElasticity::star( j, (double (*)[4]) o ); }
static void starAs( double const j[3][3], double * o ) { setups::ViscoElasticity::star( j, (double (*)[9]) o ); }
// expected dense star matrix
static VD exStar( int D, Mat const & m, double const * ji, int di ) { int n = NS( D )+D; VD e( n*n, 0. ); for( int k = 0; k < D; k++ ) { VD A = jacEl( D, k, m ); for( int i = 0; i < n*n; i++ ) e[i] += ji[k*D+di]*A[i]; } return e; }
static VD exStarA( int D, double const * ji, int di ) { VD e( NS( D )*D, 0. ); for( int k = 0; k < D; k++ ) { VD A = jacAn( D, k ); for( size_t i = 0; i < A.size(); i++ ) e[i] += ji[k*D+di]*A[i]; } return e; }
static VD gather( int D, VD const & d, bool an ) { // entries of the union of the non-zero patterns, row-major
  VD r; Mat m{ 1, 1, 1 }; for( size_t i = 0; i < d.size(); i++ ) { bool nz = false; for( int k = 0; k < D; k++ ) nz = nz || ( an ? jacAn( D, k ) : jacEl( D, k, m ) )[i] != 0; if( nz ) r.push_back( d[i] ); } return r; }
static void cmpV( pbt::Ctx & c, double const * a, VD const & e, std::string const & w ) { double mg = 0; for( double x : e ) mg = std::max( mg, std::fabs( x ) ); for( size_t i = 0; i < e.size(); i++ ) c.close( a[i], e[i], 1E-10, 1E-14*mg, w + ", entry " + std::to_string( i ) ); }
template< int D > void star( pbt::Src & s, pbt::Ctx & c ) {
  int const n = NS( D )+D; Units u = genUnits( s ); Mat m = genMat( s, u.R, u.M, s.b( 0.1 ) ); double j[D][D]; for( auto & r : j ) for( double & x : r ) x = s.b( 0.15 ) ? 0 : s.sr( 4 );
  double o[3*81]; int const sp = D == 2 ? 10 : 24, sa = D == 2 ? 4 : 9;
  for( auto & x : o ) x = 1E30; starDe( m, j, o ); for( int di = 0; di < D; di++ ) cmpV( c, o+di*n*n, exStar( D, m, j[0], di ), "star matrix" );
  for( auto & x : o ) x = 1E30; starSp( m, j, o ); for( int di = 0; di < D; di++ ) cmpV( c, o+di*sp, gather( D, exStar( D, m, j[0], di ), false ), "sparse star matrix" );
  for( auto & x : o ) x = 1E30; starAd( j, o ); for( int di = 0; di < D; di++ ) cmpV( c, o+di*NS( D )*D, exStarA( D, j[0], di ), "anelastic star matrix" );
  for( auto & x : o ) x = 1E30; starAs( j, o ); for( int di = 0; di < D; di++ ) cmpV( c, o+di*sa, gather( D, exStarA( D, j[0], di ), true ), "sparse anelastic star matrix" );
  double A[D*n*n]; common::getJac( m.rho, m.lam, m.mu, A, D ); for( int k = 0; k < D; k++ ) cmpV( c, A+k*n*n, jacEl( D, k, m ), "Jacobian" );
  c.nontrivial( j[0][0] != 0 && j[1][0] != 0 ); std::ostringstream os; os << D << "d rho " << m.rho << " lam " << m.lam << " mu " << m.mu << " jacInv " << j[0][0] << " " << j[0][1]; c.sample( os.str() );
}
PBT( star2d, 4000, 80000, "inverse Jacobian with non-zero first column" ) { star< 2 >( s, c ); }
PBT( star3d, 4000, 80000, "inverse Jacobian with non-zero first column" ) { star< 3 >( s, c ); }

// set up on meshes
static double refVe( t_entityType t, int d, int v ) {
  static double const Q[2][4] = { { 0,1,1,0 }, { 0,0,1,1 } }, T[2][3] = { { 0,1,0 }, { 0,0,1 } }, H[3][8] = { { 0,1,1,0,0,1,1,0 }, { 0,0,1,1,0,0,1,1 }, { 0,0,0,0,1,1,1,1 } }, E[3][4] = { { 0,1,0,0 }, { 0,0,1,0 }, { 0,0,0,1 } };
  return t == QUAD4R ? Q[d][v] : t == TRIA3 ? T[d][v] : t == HEX8R ? H[d][v] : E[d][v];
}
static double invM( int D, double const * m, double * o ) {
  if( D == 2 ) { double d = m[0]*m[3]-m[1]*m[2]; o[0] = m[3]/d; o[1] = -m[1]/d; o[2] = -m[2]/d; o[3] = m[0]/d; return d; }
  auto C = [&]( int r, int k ) { int a = (r+1)%3, b = (r+2)%3, e = (k+1)%3, f = (k+2)%3; return m[a*3+e]*m[b*3+f] - m[a*3+f]*m[b*3+e]; };
  double d = 0; for( int k = 0; k < 3; k++ ) d += m[k]*C( 0, k ); for( int r = 0; r < 3; r++ ) for( int k = 0; k < 3; k++ ) o[k*3+r] = C( r, k )/d; return d;
}
template< t_entityType T, bool SP > void setup( pbt::Src & s, pbt::Ctx & c ) {
  constexpr int D = C_ENT[T].N_DIM, NV = C_ENT[T].N_VERTICES, NF = C_ENT[T].N_FACES; int const n = NS( D )+D, ns = NS( D ); Units u = genUnits( s );
  std::size_t nIn = s.i( 0, 4 ), nSe = s.i( nIn == 0 ? 1 : 0, 3 ), nE = nIn+nSe;
  // elements
  std::vector< t_vertexChars > ve; std::vector< std::array< std::size_t, NV > > elVe( nE ); std::vector< VD > ji( nE ); VD det( nE );
  for( std::size_t e = 0; e < nE; e++ ) {
    double J[9]; bool ok = false; double Ji[9];
    for( int k = 0; k < 20 && !ok; k++ ) { for( int i = 0; i < D*D; i++ ) J[i] = s.sr( 2 ); if( T == QUAD4R || T == HEX8R ) for( int i = 0; i < D; i++ ) for( int j = 0; j < D; j++ ) if( i != j ) J[i*D+j] = 0; else J[i*D+j] = s.r( 0.3, 4 ); double d = invM( D, J, Ji ); ok = d > 0.2; }
    if( !ok ) c.discard(); double o[3]; for( auto & x : o ) x = s.sr( 5 );
    det[e] = invM( D, J, Ji ); ji[e].assign( Ji, Ji+D*D ); // J[a*D+d] = dx_d/dxi_a
    for( int v = 0; v < NV; v++ ) { t_vertexChars x; memset( &x, 0, sizeof( x ) ); for( int d = 0; d < D; d++ ) { x.coords[d] = o[d]; for( int a = 0; a < D; a++ ) x.coords[d] += refVe( T, a, v )*J[a*D+d]; } elVe[e][v] = ve.size(); ve.push_back( x ); }
  }
  // shuffle vertices
  { auto p = s.perm( ve.size() ); std::vector< t_vertexChars > w( ve.size() ); for( size_t i = 0; i < p.size(); i++ ) w[p[i]] = ve[i]; ve.swap( w ); for( auto & x : elVe ) for( auto & y : x ) y = p[y]; }
  // faces
  std::vector< std::array< std::size_t, NF > > elFa( nE ); std::vector< std::pair< int, int > > sl; for( std::size_t e = 0; e < nE; e++ ) for( int f = 0; f < NF; f++ ) sl.push_back( { (int) e, f } );
  { auto p = s.perm( sl.size() ); auto o = sl; for( size_t i = 0; i < p.size(); i++ ) sl[i] = o[p[i]]; }
  std::size_t const MX = std::numeric_limits< std::size_t >::max();
  struct Fa { int eL, fL, eR, fR; int kind; std::size_t re; double R[3][3]; };
  std::vector< Fa > fas; std::vector< std::array< std::size_t, 2 > > faEl; std::vector< t_faceChars > fc;
  std::vector< unsigned short > recvFa; std::vector< std::size_t > recvEl; std::vector< t_bgPars > bg( nE ), bgR; std::vector< Mat > mE( nE ), mR;
  auto setB = []( t_bgPars & b, Mat const & m ) { b.rho = m.rho; b.lam = m.lam; b.mu = m.mu; b.qp = 100; b.qs = 50; };
  for( std::size_t e = 0; e < nE; e++ ) { mE[e] = genMat( s, u.R, u.M ); setB( bg[e], mE[e] ); }
  for( size_t i = 0; i < sl.size(); ) {
    Fa f; f.eL = sl[i].first; f.fL = sl[i].second; f.eR = f.fR = -1; f.re = 0; genFrame( s, D, f.R ); if( D == 3 ) { double d = f.R[0][0]*( f.R[1][1]*f.R[2][2]-f.R[1][2]*f.R[2][1] ) - f.R[0][1]*( f.R[1][0]*f.R[2][2]-f.R[1][2]*f.R[2][0] ) + f.R[0][2]*( f.R[1][0]*f.R[2][1]-f.R[1][1]*f.R[2][0] ); if( d < 0 ) for( int k = 0; k < 3; k++ ) f.R[k][0] *= -1; }
    f.kind = s.draw( 5 ); // 0/1 interior, 2 free surface, 3 outflow, 4 receive / periodic
    bool per = false;
    if( f.kind <= 1 && i+1 < sl.size() && sl[i+1].first != f.eL ) { f.eR = sl[i+1].first; f.fR = sl[i+1].second; i += 2; }
    else { i++;
      if( f.kind == 4 && f.eL >= (int) nIn ) { f.re = recvEl.size(); recvEl.push_back( f.eL ); recvFa.push_back( f.fL ); mR.push_back( genMat( s, u.R, u.M ) ); t_bgPars b; setB( b, mR.back() ); bgR.push_back( b ); }
      else if( f.kind == 4 && nE > 1 ) { f.eR = ( f.eL + 1 + s.draw( nE-1 ) ) % nE; f.fR = -1; per = true; }
      else f.kind = f.kind == 2 ? 2 : 3; }
    t_faceChars x; memset( &x, 0, sizeof( x ) ); x.area = s.r( 0.3, 3 ); for( int d = 0; d < D; d++ ) { x.outNormal[d] = f.R[d][0]; x.tangent0[d] = f.R[d][1]; x.tangent1[d] = D == 3 ? f.R[d][2] : 0; }
    x.spType = f.eR >= 0 ? ( per ? PERIODIC : 0 ) : f.kind == 2 ? FREE_SURFACE : f.kind == 3 ? OUTFLOW : 0;
    elFa[f.eL][f.fL] = fas.size(); if( f.fR >= 0 ) elFa[f.eR][f.fR] = fas.size();
    faEl.push_back( { { (std::size_t) f.eL, f.eR < 0 ? MX : (std::size_t) f.eR } } ); fc.push_back( x ); fas.push_back( f );
  }
  // shuffle the receive list
  { auto p = s.perm( recvEl.size() ); auto a = recvEl; auto b = recvFa; auto d = bgR; for( size_t i = 0; i < p.size(); i++ ) { recvEl[p[i]] = a[i]; recvFa[p[i]] = b[i]; bgR[p[i]] = d[i]; } }
  bool an = s.b(); std::vector< t_elementChars > ec( nE );
  std::vector< double > E[2], A[2]; for( int k = 0; k < 2; k++ ) { E[k].assign( nE*NF*n*n, 0. ); A[k].assign( nE*NF*ns*n, 0. ); }
  typedef double (*PE)[NF][ D == 2 ? 25 : 81 ]; typedef double (*PA)[NF][ D == 2 ? 15 : 54 ];
  PE pe[2] = { (PE) E[0].data(), (PE) E[1].data() }; PA pa[2] = { an ? (PA) A[0].data() : nullptr, an ? (PA) A[1].data() : nullptr };
  typedef solvers::AderDgInit< T, SP > I;
  I::initFs( nIn, nSe, fas.size(), recvEl.size(), recvFa.data(), recvEl.data(), (std::size_t (*)[2]) faEl.data(), (std::size_t (*)[NV]) elVe.data(), (std::size_t (*)[NF]) elFa.data(), ve.data(), fc.data(), ec.data(), bg.data(), bgR.data(), pe, pa );
  for( size_t k = 0; k < fas.size(); k++ ) { Fa const & f = fas[k];
    Mat const & L = mE[f.eL]; Mat const & Ri = f.eR >= 0 ? mE[f.eR] : ( f.kind == 4 ? mR[f.re] : L ); double sc = -fc[k].area*( T == TET4 ? 2 : 1 );
    std::size_t o = f.eL*NF + f.fL; cmpFs( c, D, u, f.R, L, Ri, fc[k].spType == FREE_SURFACE, &E[0][o*n*n], &E[1][o*n*n], an ? &A[0][o*ns*n] : nullptr, an ? &A[1][o*ns*n] : nullptr, sc/det[f.eL], "left element of a face, kind " + std::to_string( f.kind ) );
    if( f.fR >= 0 ) { double R[3][3]; memcpy( R, f.R, sizeof( R ) ); for( int d = 0; d < 3; d++ ) R[d][0] *= -1; o = f.eR*NF + f.fR;
      cmpFs( c, D, u, R, Ri, L, false, &E[0][o*n*n], &E[1][o*n*n], an ? &A[0][o*ns*n] : nullptr, an ? &A[1][o*ns*n] : nullptr, sc/det[f.eR], "right element of a face" ); } }
  // star matrices
  int const nse = SP ? ( D == 2 ? 10 : 24 ) : n*n, nsa = SP ? ( D == 2 ? 4 : 9 ) : ns*D; VD SE( nE*D*nse, 1E30 ), SA( nE*D*nsa, 1E30 );
  I::initStar( nE, (std::size_t (*)[NV]) elVe.data(), ve.data(), bg.data(), ( double (*)[D][ SP ? ( D == 2 ? 10 : 24 ) : ( D == 2 ? 25 : 81 ) ] ) SE.data(), an ? ( double (*)[D][ SP ? ( D == 2 ? 4 : 9 ) : ( D == 2 ? 6 : 18 ) ] ) SA.data() : nullptr );
  for( std::size_t e = 0; e < nE; e++ ) for( int di = 0; di < D; di++ ) { VD x = exStar( D, mE[e], ji[e].data(), di ), y = exStarA( D, ji[e].data(), di ); auto cm = [&]( double const * a, VD const & b, char const * w ) { double mg = 0; for( double z : b ) mg = std::max( mg, std::fabs( z ) ); for( size_t i = 0; i < b.size(); i++ ) c.close( a[i], b[i], 1E-8, 1E-11*mg, w ); };
    cm( &SE[(e*D+di)*nse], SP ? gather( D, x, false ) : x, "star matrix of an element" ); if( an ) cm( &SA[(e*D+di)*nsa], SP ? gather( D, y, true ) : y, "anelastic star matrix of an element" ); }
  c.nontrivial( nE > 1 && fas.size() > nE ); std::ostringstream o; o << D << "d elements " << nIn << "+" << nSe << " faces " << fas.size() << " receive " << recvEl.size() << ( an ? " anelastic" : "" ); c.sample( o.str() );
}
PBT( setupTria3, 300, 6000, "more than one element, some of the faces shared" ) { if( s.b() ) setup< TRIA3, true >( s, c ); else setup< TRIA3, false >( s, c ); }
PBT( setupTet4, 250, 5000, "more than one element, some of the faces shared" ) { if( s.b() ) setup< TET4, true >( s, c ); else setup< TET4, false >( s, c ); }
PBT( setupQuad4r, 300, 6000, "more than one element, some of the faces shared" ) { setup< QUAD4R, true >( s, c ); }
PBT( setupHex8r, 150, 3000, "more than one element, some of the faces shared" ) { setup< HEX8R, true >( s, c ); }

// viscoelastic attenuation
template< int D, bool SP > void visco( pbt::Src & s, pbt::Ctx & c ) {
  constexpr int ns = D == 2 ? 3 : 6, nz = SP ? ( D == 2 ? 5 : 12 ) : ns*ns; int n = s.i( 1, 5 ); Units u = genUnits( s ); Mat m = genMat( s, u.R, u.M );
  double fc = s.lr( 0.05, 20 ), ra = n == 1 ? s.r( 2, 50 ) : s.lr( 10, 1000 ), qp = s.lr( 15, 800 ), qs = s.lr( 10, 500 );
  std::vector< double > fr( 2*n-1 ); setups::ViscoElasticity::frequencies( n, fc, ra, fr.data() );
  if( n > 1 ) for( int k = 0; k < 2*n-1; k++ ) c.close( fr[k], 2*M_PI*fc*std::pow( ra, -0.5 + double( k )/( 2*n-2 ) ), 1E-10, 0, "relaxation frequencies are log-equidistant around the central frequency" );
  std::vector< double > src( n*nz, 1E30 ); double lam = -1, mu = -1;
  std::size_t nE = s.i( 1, 3 ), el = s.draw( nE );
  if( s.b() ) { setups::ViscoElasticity::src( n, fc, ra, qp, qs, m.lam, m.mu, lam, mu, (double (*)[nz]) src.data() ); }
  else { std::vector< t_bgPars > bg( nE ); for( auto & b : bg ) { Mat o = genMat( s, u.R, u.M ); b.rho = o.rho; b.lam = o.lam; b.mu = o.mu; b.qp = 2*qp; b.qs = 1.5*qs; }
    bg[el].rho = m.rho; bg[el].lam = m.lam; bg[el].mu = m.mu; bg[el].qp = qp; bg[el].qs = qs; std::vector< double > al( nE*n*nz, 1E30 );
    solvers::AderDgInit< Ty< D >::EL, SP >::initSrcA( nE, n, fc, ra, bg.data(), (double (*)[nz]) al.data() );
    lam = bg[el].lam; mu = bg[el].mu; c.require( bg[el].rho == m.rho && bg[el].qp == qp && bg[el].qs == qs, "density or quality factors changed" ); std::copy( &al[el*n*nz], &al[(el+1)*n*nz], src.begin() ); }
  std::vector< double > dp( n ), ds( n );
  for( int l = 0; l < n; l++ ) { // structure of the source matrices: isotropic
    double d[36] = {}; if( SP ) { int k = 0; int nd = D; for( int i = 0; i < nd; i++ ) for( int j = 0; j < nd; j++ ) d[i*ns+j] = src[l*nz+k++]; for( int i = nd; i < ns; i++ ) d[i*ns+i] = src[l*nz+k++]; } else std::copy( &src[l*nz], &src[(l+1)*nz], d );
    dp[l] = d[0]; ds[l] = 0.5*d[D*ns+D]; double off = dp[l] - 2*ds[l];
    for( int i = 0; i < ns; i++ ) for( int j = 0; j < ns; j++ ) c.close( d[i*ns+j]/u.M, ( i == j ? ( i < D ? dp[l] : 2*ds[l] ) : i < D && j < D ? off : 0 )/u.M, 1E-9, 1E-9, "source matrix is not that of an isotropic medium" );
  }
  typedef std::complex< double > C; C I( 0, 1 );
  auto mod = [&]( bool p, double w ) { C r( p ? lam+2*mu : mu, 0 ); for( int l = 0; l < n; l++ ) r += ( p ? dp[l] : ds[l] )*fr[2*l]/( fr[2*l]+I*w ); return r; };
  double w0 = 2*M_PI*fc;
  for( int p = 0; p < 2; p++ ) {
    double vel = 1/( std::sqrt( C( m.rho, 0 )/mod( p, w0 ) ).real() ), ex = std::sqrt( ( p ? m.lam+2*m.mu : m.mu )/m.rho );
    c.close( vel, ex, 1E-8, 0, p ? "P-wave phase velocity at the central frequency" : "S-wave phase velocity at the central frequency" );
    // coefficients are the least squares fit of a constant quality factor
    double Q = p ? qp : qs, mu0 = p ? lam+2*mu : mu; std::vector< double > res( 2*n-1 ); double sc = 0;
    for( int k = 0; k < 2*n-1; k++ ) { res[k] = -1/Q; for( int l = 0; l < n; l++ ) { double Y = -( p ? dp[l] : ds[l] )/mu0, w = fr[k], wl = fr[2*l]; res[k] += Y*( wl*w + wl*wl/Q )/( w*w+wl*wl ); } }
    for( int l = 0; l < n; l++ ) { double g = 0; for( int k = 0; k < 2*n-1; k++ ) { double w = fr[k], wl = fr[2*l]; g += res[k]*( wl*w + wl*wl/Q )/( w*w+wl*wl ); } c.close( g*Q, 0, 0, 1E-8, p ? "fit of the P-wave quality factor is not optimal" : "fit of the S-wave quality factor is not optimal" ); }
    if( n >= 3 && ra <= 100 ) for( int k = 0; k < 9; k++ ) { double w = w0*std::pow( ra, -0.45 + 0.9*k/8 ); C M = mod( p, w ); c.close( M.imag()/M.real()*Q, 1, 0.1, 0, p ? "P-wave quality factor in the frequency band" : "S-wave quality factor in the frequency band" ); }
    (void) sc;
  }
  c.nontrivial( n > 1 ); std::ostringstream o; o << D << "d mechanisms " << n << " fc " << fc << " ratio " << ra << " qp " << qp << " qs " << qs; c.sample( o.str() );
}
PBT( visco2d, 3000, 60000, "more than one relaxation mechanism" ) { if( s.b() ) visco< 2, true >( s, c ); else visco< 2, false >( s, c ); }
PBT( visco3d, 3000, 60000, "more than one relaxation mechanism" ) { if( s.b() ) visco< 3, true >( s, c ); else visco< 3, false >( s, c ); }

PBT( cflSeismic, 3000, 60000, "more than one element" ) {
  int n = s.i( 1, 12 ); Units u = genUnits( s ); std::vector< t_bgPars > bg( n ); std::vector< t_elementChars > ec( n ); double mn = 1E300, mx = 0, av = 0;
  for( int k = 0; k < n; k++ ) { Mat m = genMat( s, u.R, u.M, s.b( 0.1 ) ); bg[k].rho = m.rho; bg[k].lam = m.lam; bg[k].mu = m.mu; ec[k].inDia = s.lr( 0.1, 100 );
    double cp = std::sqrt( ( m.lam+2*m.mu )/m.rho ); c.close( common::getVelP( m.rho, m.lam, m.mu ), cp, 1E-12, 0, "P-wave speed" ); if( m.mu > 0 ) c.close( common::getVelS( m.rho, m.mu ), std::sqrt( m.mu/m.rho ), 1E-12, 0, "S-wave speed" );
    double d = SCALE_CFL*ec[k].inDia/cp/( 2*PP_ORDER-1 ); c.close( common::getTimeStepCFL( m.rho, m.lam, m.mu, ec[k].inDia, SCALE_CFL ), d, 1E-12, 0, "CFL time step" ); mn = std::min( mn, d ); mx = std::max( mx, d ); av += d/n; }
  double a, b, e; common::getTimeStepStatsCFL( n, ec.data(), (t_bgPars (*)[1]) bg.data(), a, b, e ); c.close( a, mn, 1E-12, 0, "minimum time step" ); c.close( b, av, 1E-11, 0, "average time step" ); c.close( e, mx, 1E-12, 0, "maximum time step" );
  c.nontrivial( n > 1 ); c.sample( "elements " + std::to_string( n ) );
}
