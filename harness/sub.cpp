// sub-cell (finite volume) operators: data, kernels, detection, boundary conditions, local Lax-Friedrichs solver
#include "pbt.hpp"
#include "constants.hpp"
#include "data/EntityLayout.type"
#include "data/MmVanilla.hpp"
#include "sc/SubCell.type"
#include "sc/Init.hpp"
#include "sc/Kernels.hpp"
#include "sc/Detections.hpp"
#include "sc/SubGrid.hpp"
#include "sc/Steering.hpp"
#include "sc/ibnd/SuperCell.hpp"
#include "sc/ibnd/Init.hpp"
#include "impl/seismic/sc/Llf.hpp"
#include "impl/seismic/sc/Boundary.hpp"
#include "dgmesh.hpp"
#include "seisref.hpp"
#include <set>
#include <memory>
using namespace edge;
static t_entityType const EL = T_SDISC.ELEMENT;
static int const D = N_DIM, O = ORDER, CR = N_CRUNS, NQ = D == 2 ? 5 : 9, NSF = CE_N_SUB_FACES( EL, O ), NSC = CE_N_SUB_CELLS( EL, O ), NSV = CE_N_SUB_VERTICES( EL, O ), NF = C_ENT[EL].N_FACES, NV = C_ENT[EL].N_VERTICES, FV = C_ENT[EL].N_FACE_VERTICES, MD = CE_N_ELEMENT_MODES( EL, O ), NT = NSC+NF*NSF, NTY = EL == TET4 ? 6 : NF;
typedef real_base R; typedef std::size_t I;
static double const EPS = std::numeric_limits< R >::epsilon();
typedef sc::Init< EL, O, NQ, CR > In; typedef sc::Kernels< EL, O, NQ, CR > Ke; typedef sc::SubGrid< EL, O > Sg; typedef sc::Detections< EL, NQ, CR > De; typedef sc::ibnd::SuperCellInit< EL, O > Si;

struct Fix { sc::t_connect< int, EL, O > c; sc::t_svChars< R, EL > sv[NSV]; sc::t_ops< R, EL, O > op; sc::ibnd::t_SuperCell< EL, O > su; data::MmVanilla< R > mm;
  Fix() { memset( (void *) &c, 0x11, sizeof( c ) ); In::connect( c ); In::svChars( sv ); In::ops( op ); memset( &su, 0x22, sizeof( su ) ); Si::faSt( c.scDgAd, c.scSfSc, su ); unsigned short g = (unsigned short) t_mm::SUB_CELL;
    mm.add( g, NQ, NSC, MD, MD, NSC, NSC, R( 1 ), R( 0 ), true, false, CR ); mm.add( g, NQ, NSF, MD, MD, NSF, NSF, R( 1 ), R( 0 ), true, false, CR ); mm.add( g, NQ, MD, NSC, NSC, MD, MD, R( 1 ), R( 0 ), true, false, CR ); mm.add( g, NQ, MD, NSF, NSF, MD, MD, R( 1 ), R( 0 ), true, false, CR ); mm.add( g, NQ, NSF, NQ, NQ, NSF, NSF, R( 1 ), R( 0 ), false, true, CR ); }
  bool at( int k, int f ) const { for( int j = 0; j < NF; j++ ) { int a = c.scSfSc[k][j]; if( a >= NSC+f*NSF && a < NSC+(f+1)*NSF ) return true; } return false; } };
static Fix & fx() { static Fix * f = new Fix(); return *f; }
static std::string st( std::initializer_list< long > l ) { std::string r; for( long x : l ) r += " " + std::to_string( x ); return r; }

// tables in memory equal the preprocessed ones
PBT( tables, 200, 2000, "all" ) {
  using namespace edge::pre::sc; Fix & f = fx(); c.nontrivial(); int w = s.draw( 9 ); c.sample( "table " + std::to_string( w ) );
  if( w == 0 ) { int k = s.draw( NT ), v = s.draw( NV ); c.require( f.c.scSv[k][v] == g_scsvRaw[k*NV+v], "vertices of sub-cell" + st( { k, v } ) ); }
  if( w == 1 ) { int k = s.draw( NT ), v = s.draw( NF ); c.require( f.c.scSfSc[k][v] == g_scsfscRaw[k*NF+v], "neighbors of sub-cell" + st( { k, v } ) ); }
  if( w == 2 ) { int k = s.draw( NSC ), v = s.draw( NF ); c.require( f.c.scTySf[k][v] == g_sctysfRaw[k*NF+v], "types of sub-cell" + st( { k, v } ) ); }
  if( w == 3 ) { int k = s.draw( D == 3 ? FV : 1 ), v = s.draw( NSF ); c.require( f.c.scDgAd[k][v] == g_scdgadRaw[k*NSF+v], "reordering" + st( { k, v } ) ); }
  if( w == 4 ) { int k = s.draw( NF ), v = s.draw( NSF ), a = f.c.faSfSc[k][v]; c.require( a < NSC, "sub-cell at face" ); bool ok = false; for( int j = 0; j < NF; j++ ) ok = ok || f.c.scSfSc[a][j] == NSC+k*NSF+v; c.require( ok, "sub-cell at sub-face of a DG-face" + st( { k, v } ) ); }
  if( w == 5 ) { int k = s.draw( NSV ), v = s.draw( D ); c.require( f.sv[k].coords[v] == R( g_svcrdsRaw[k*D+v] ), "coordinates of sub-vertex" + st( { k, v } ) ); }
  if( w == 6 ) { int k = s.draw( MD ), v = s.draw( NSC ); c.require( f.op.scatter[k][v] == R( g_scatterRaw[k*NSC+v] ), "scatter" + st( { k, v } ) ); c.require( f.op.gather[v][k] == R( g_gatherRaw[v*MD+k] ), "gather" + st( { v, k } ) ); }
  if( w == 7 ) { int n = D < 3 ? 2*NF : NF+FV*NF, a = s.draw( n ), k = s.draw( MD ), v = s.draw( NSF ); c.require( f.op.scatterSurf[a][k][v] == R( g_scattersurfRaw[( a*MD+k )*NSF+v] ), "scatter of the surface" + st( { a, k, v } ) ); }
  if( w == 8 ) { int a = s.draw( NF ), v = s.draw( NSF ), k = s.draw( MD ); c.require( f.op.sfInt[a][v][k] == R( g_sfintRaw[( a*NSF+v )*MD+k] ), "integration of sub-faces" + st( { a, v, k } ) ); }
}

typedef R Dg[NQ][MD][CR]; typedef R Sc[NQ][NSC][CR]; typedef R Sf[NQ][NSF][CR];
template< typename T > static void rnd( pbt::Src & s, T & t, double a ) { R * p = (R *) &t; for( std::size_t k = 0; k < sizeof( T )/sizeof( R ); k++ ) p[k] = s.sr( a ); }
static double sum( int n, double * mag, std::function< double( int ) > f ) { double r = 0; *mag = 0; for( int k = 0; k < n; k++ ) { double x = f( k ); r += x; *mag += std::fabs( x ); } return r; }

PBT( project, 600, 12000, "admissible and inadmissible runs, or several modes" ) {
  Fix & f = fx(); static Dg dg, d2; static Sc u, v, w; static Sf a, b, g; double sc = s.lr( 1E-3, 1E6 ); rnd( s, dg, sc ); rnd( s, v, sc ); rnd( s, b, sc ); bool adm[CR]; int na = 0; for( int k = 0; k < CR; k++ ) na += adm[k] = s.b(); double m; int what = s.draw( 5 );
  auto want = [&]( int q, int x, int k ) { return sum( MD, &m, [&]( int i ) { return double( dg[q][i][k] )*f.op.scatter[i][x]; } ); };
  if( what == 0 || what == 3 ) { // averages of sub-cells, extrema
    R mi[NQ][CR], ma[NQ][CR]; memset( u, 0x7f, sizeof( u ) ); if( what == 3 ) Ke::dgExtrema( f.mm, dg, f.op.scatter, u, mi, ma ); else Ke::scatter( f.mm, dg, f.op.scatter, u );
    for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NSC; x++ ) for( int k = 0; k < CR; k++ ) { double e = want( q, x, k ); c.close( u[q][x][k], e, 0, 20*EPS*m, "average of sub-cell" + st( { q, x, k } ) ); }
    if( what == 3 ) for( int q = 0; q < NQ; q++ ) for( int k = 0; k < CR; k++ ) { R lo = u[q][0][k], hi = lo; for( int x = 0; x < NSC; x++ ) { lo = std::min( lo, u[q][x][k] ); hi = std::max( hi, u[q][x][k] ); } c.require( mi[q][k] == lo && ma[q][k] == hi, "extrema of the solution" + st( { q, k } ) ); }
    // and back
    Ke::gather( f.mm, u, f.op.gather, d2 ); for( int q = 0; q < NQ; q++ ) for( int i = 0; i < MD; i++ ) for( int k = 0; k < CR; k++ ) c.close( d2[q][i][k], dg[q][i][k], 0, 3000*EPS*sc, "gather inverts scatter" + st( { q, i, k } ) );
  }
  else if( what == 1 ) { // arbitrary sub-cell solution: mean is kept
    Ke::gather( f.mm, v, f.op.gather, d2 ); for( int q = 0; q < NQ; q++ ) for( int k = 0; k < CR; k++ ) { double p = 0, o = 0; for( int x = 0; x < NSC; x++ ) { o += v[q][x][k]; for( int i = 0; i < MD; i++ ) p += double( d2[q][i][k] )*f.op.scatter[i][x]; } c.close( p/NSC, o/NSC, 0, 3000*EPS*sc, "gather keeps the mean" + st( { q, k } ) );
      for( int i = 0; i < MD; i++ ) { double e = sum( NSC, &m, [&]( int x ) { return double( v[q][x][k] )*f.op.gather[x][i]; } ); c.close( d2[q][i][k], e, 0, 20*EPS*m, "gather" + st( { q, i, k } ) ); } } }
  else if( what == 2 ) { // limited runs keep the stored solution
    memset( w, 0x7f, sizeof( w ) ); Ke::scatterReplace( f.mm, dg, f.op.scatter, v, adm, w );
    for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NSC; x++ ) for( int k = 0; k < CR; k++ ) { double e = want( q, x, k ); if( adm[k] ) c.close( w[q][x][k], e, 0, 20*EPS*m, "admissible run is projected" + st( { q, x, k } ) ); else c.require( w[q][x][k] == v[q][x][k], "inadmissible run uses the stored solution" + st( { q, x, k } ) ); } }
  else { // surface
    int n = D < 3 ? 2*NF : NF+FV*NF, o = s.draw( n ); bool nul = s.b( 0.3 ), plain = s.b( 0.2 ); memset( a, 0x7f, sizeof( a ) ); if( plain ) Ke::scatterFa( f.mm, dg, f.op.scatterSurf[o], a ); else Ke::scatterReplaceFa( f.mm, dg, f.op.scatterSurf[o], b, nul ? nullptr : adm, a );
    for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NSF; x++ ) for( int k = 0; k < CR; k++ ) { double e = sum( MD, &m, [&]( int i ) { return double( dg[q][i][k] )*f.op.scatterSurf[o][i][x]; } ); if( nul || plain || adm[k] ) c.close( a[q][x][k], e, 0, 20*EPS*m, "sub-cells at the face" + st( { o, q, x, k } ) ); else c.require( a[q][x][k] == b[q][x][k], "inadmissible run uses the stored solution at the face" + st( { q, x, k } ) ); }
    int fa = s.draw( NF ); memset( d2, 0x7f, sizeof( d2 ) ); Ke::sfInt( f.mm, b, f.op.sfInt[fa], d2 ); for( int q = 0; q < NQ; q++ ) for( int i = 0; i < MD; i++ ) for( int k = 0; k < CR; k++ ) { double e = sum( NSF, &m, [&]( int x ) { return double( b[q][x][k] )*f.op.sfInt[fa][x][i]; } ); c.close( d2[q][i][k], e, 0, 20*EPS*m, "integral over sub-faces" + st( { fa, q, i, k } ) ); } }
  c.nontrivial( ( na > 0 && na < CR ) || MD > 1 ); c.sample( "scale " + std::to_string( sc ) + ", check " + std::to_string( what ) );
}

PBT( surface, 600, 12000, "faces with and without data, reordering, inadmissible runs" ) {
  Fix & f = fx(); static Sc u; rnd( s, u, 10 ); static Sf o[NF], o0[NF]; R (*p[NF])[NQ][NSF][CR]; unsigned short v[NF]; bool adm[CR]; int na = 0, np = 0, nv = 0; for( int k = 0; k < CR; k++ ) na += !( adm[k] = s.b() );
  for( int k = 0; k < NF; k++ ) { rnd( s, o[k], 10 ); p[k] = s.b( 0.8 ) ? &o[k] : nullptr; np += p[k] != nullptr; v[k] = D == 3 ? s.draw( FV ) : 0; nv += v[k] > 0; } memcpy( o0, o, sizeof( o ) );
  Ke::gatherSurfDofs( u, f.c.faSfSc, f.c.scDgAd, v, p, adm );
  for( int k = 0; k < NF; k++ ) for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NSF; x++ ) for( int r = 0; r < CR; r++ ) { int own = edge::pre::sc::g_scsfscRaw[( NSC + k*NSF + edge::pre::sc::g_scdgadRaw[v[k]*NSF+x] )*NF]; c.require( o[k][q][x][r] == ( p[k] && !adm[r] ? u[q][own][r] : o0[k][q][x][r] ), "surface solution for the neighbor at face" + st( { k, q, x, r } ) ); }
  c.nontrivial( na > 0 && np > 0 && ( D == 2 || nv > 0 ) ); c.sample( std::to_string( np ) + " faces, " + std::to_string( na ) + " inadmissible runs" );
}

PBT( detection, 3000, 60000, "admissible and inadmissible decisions" ) {
  int n = s.i( 1, 12 ); struct E { R x[2][NQ][CR]; }; std::vector< E > ad( n ); E cu, ca; double sc = s.lr( 1E-6, 1E3 ); auto ext = [&]( E & e ) { for( int q = 0; q < NQ; q++ ) for( int k = 0; k < CR; k++ ) { R a = s.sr( sc ), b = s.sr( sc ); e.x[0][q][k] = std::min( a, b ); e.x[1][q][k] = std::max( a, b ); } }; for( auto & e : ad ) ext( e ); ext( cu );
  std::vector< I > nb; bool ve = s.b(); int m = ve ? s.draw( 9 ) : NF; for( int k = 0; k < m; k++ ) nb.push_back( !ve && s.b( 0.25 ) ? std::numeric_limits< I >::max() : s.draw( n ) ); nb.push_back( 0 );
  bool want[CR], got[CR]; int nOk = 0, nBad = 0, amb = 0; for( int k = 0; k < CR; k++ ) want[k] = true;
  int bq = s.draw( NQ );
  for( int k = 0; k < CR; k++ ) { bool brk = s.b(); for( int q = 0; q < NQ; q++ ) { double lo = cu.x[0][q][k], hi = cu.x[1][q][k]; for( int j = 0; j < m; j++ ) if( nb[j] != std::numeric_limits< I >::max() ) { lo = std::min( lo, double( ad[nb[j]].x[0][q][k] ) ); hi = std::max( hi, double( ad[nb[j]].x[1][q][k] ) ); }
      double d = std::max( 1E-4, 1E-3*( hi-lo ) ), a = 0, b = 0; // candidate inside, slightly inside or slightly outside of the tolerance
      int kind = brk && q == bq ? 3+s.draw( 2 ) : s.draw( 3 ); double z = s.pick< double >( { 0.1, 0.5, 0.9 } ), y = s.pick< double >( { 1.1, 1.5, 10 } ); a = lo-( kind == 0 ? -0.2*( hi-lo ) : kind == 3 ? y*d : z*d ); b = hi+( kind == 0 ? -0.2*( hi-lo ) : kind == 4 ? y*d : z*d ); ca.x[0][q][k] = a; ca.x[1][q][k] = b; double tol = 100*EPS*( std::fabs( lo )+std::fabs( hi )+d );
      if( std::fabs( lo-d-ca.x[0][q][k] ) < tol || std::fabs( ca.x[1][q][k]-hi-d ) < tol ) amb++; if( ca.x[0][q][k] < lo-d || ca.x[1][q][k] > hi+d ) want[k] = false; } }
  if( amb ) { c.discard(); return; } for( int k = 0; k < CR; k++ ) { got[k] = s.b(); ( want[k] ? nOk : nBad )++; }
  if( ve ) De::dmpVe( cu.x, (R const (*)[2][NQ][CR]) ad.data(), ca.x, (unsigned short) m, nb.data(), got ); else De::dmpFa( cu.x, (R const (*)[2][NQ][CR]) ad.data(), ca.x, nb.data(), got );
  for( int k = 0; k < CR; k++ ) c.require( got[k] == want[k], std::string( "admissibility of run " ) + std::to_string( k ) + ": " + std::to_string( got[k] ) );
  c.nontrivial( CR == 1 || ( nOk && nBad ) ); c.sample( std::string( ve ? "vertex" : "face" ) + " neighborhood of " + std::to_string( m ) + " elements, scale " + std::to_string( sc ) );
}

PBT( boundary, 600, 12000, "free surface and outflow faces" ) {
  Fix & f = fx(); static R u[NQ][NT][CR], o[NQ][NT][CR]; rnd( s, u, 10 ); memcpy( o, u, sizeof( u ) ); long long ty[NF]; int nf = 0, no = 0; for( int k = 0; k < NF; k++ ) { ty[k] = s.pick< long long >( { 0, FREE_SURFACE, OUTFLOW, PERIODIC, FREE_SURFACE|RECEIVER, OUTFLOW|RECEIVER, RECEIVER } ); nf += ( ty[k]&FREE_SURFACE ) == FREE_SURFACE; no += ( ty[k]&OUTFLOW ) == OUTFLOW; }
  seismic::sc::Boundary< EL, O, CR >::apply( f.c.scSfSc, ty, u );
  for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NT; x++ ) for( int k = 0; k < CR; k++ ) { R w = o[q][x][k]; if( x >= NSC ) { int fa = ( x-NSC )/NSF; if( ( ty[fa]&FREE_SURFACE ) == FREE_SURFACE ) w = o[q][edge::pre::sc::g_scsfscRaw[x*NF]][k]; else if( ( ty[fa]&OUTFLOW ) == OUTFLOW ) w = 0; } c.require( u[q][x][k] == w, "ghost sub-cell" + st( { q, x, k } ) ); }
  c.nontrivial( nf && no ); c.sample( std::to_string( nf ) + " free surfaces, " + std::to_string( no ) + " outflows" );
}

// ---- geometry of sub-cells in physical space
struct SubGeo { double n[3]; double a; };
static SubGeo geo( ref::DMesh const & m, int e, int k, int g ) { Fix & f = fx(); std::vector< std::array< double, 3 > > p; double ce[3] = { 0, 0, 0 }; auto X = [&]( int v ) { double xi[3] = { 0, 0, 0 }, x[3] = { 0, 0, 0 }; for( int d = 0; d < D; d++ ) xi[d] = edge::pre::sc::g_svcrdsRaw[v*D+d]; m.phy( e, xi, x ); return std::array< double, 3 >{ { x[0], x[1], x[2] } }; }; (void) f;
  for( int j = 0; j < NV; j++ ) { int v = edge::pre::sc::g_scsvRaw[k*NV+j]; auto x = X( v ); for( int d = 0; d < D; d++ ) ce[d] += x[d]/NV; for( int l = 0; l < NV; l++ ) if( edge::pre::sc::g_scsvRaw[g*NV+l] == v ) { p.push_back( x ); break; } }
  SubGeo r; memset( &r, 0, sizeof( r ) ); if( (int) p.size() != FV ) { r.a = -1; return r; } double cf[3] = { 0, 0, 0 }; for( auto & x : p ) for( int d = 0; d < D; d++ ) cf[d] += x[d]/FV;
  if( D == 2 ) { double t[2] = { p[1][0]-p[0][0], p[1][1]-p[0][1] }; r.a = std::hypot( t[0], t[1] ); r.n[0] = t[1]/r.a; r.n[1] = -t[0]/r.a; }
  else { int far = 0; double fd = 0; if( FV == 4 ) for( int j = 1; j < 4; j++ ) { double q = 0; for( int d = 0; d < 3; d++ ) q += std::pow( p[j][d]-p[0][d], 2 ); if( q > fd ) { fd = q; far = j; } } std::vector< int > o; for( int j = 1; j < FV; j++ ) if( j != far || FV == 3 ) o.push_back( j ); double a[3], b[3], n[3], q = 0; for( int d = 0; d < 3; d++ ) { a[d] = p[o[0]][d]-p[0][d]; b[d] = p[o[1]][d]-p[0][d]; } for( int d = 0; d < 3; d++ ) { n[d] = a[(d+1)%3]*b[(d+2)%3]-a[(d+2)%3]*b[(d+1)%3]; q += n[d]*n[d]; } q = std::sqrt( q ); r.a = FV == 3 ? q/2 : q; for( int d = 0; d < 3; d++ ) r.n[d] = n[d]/q; }
  double dp = 0; for( int d = 0; d < D; d++ ) dp += r.n[d]*( cf[d]-ce[d] ); if( dp < 0 ) for( int d = 0; d < D; d++ ) r.n[d] *= -1; return r; }
static double vp( Mat const & m ) { return std::sqrt( ( m.lam+2*m.mu )/m.rho ); }
static VD jn( double const * n, Mat const & m ) { VD A( NQ*NQ, 0. ); for( int d = 0; d < D; d++ ) { VD B = jacEl( D, d, m ); for( int k = 0; k < NQ*NQ; k++ ) A[k] += n[d]*B[k]; } return A; }

PBT( llf, 400, 10000, "different materials of neighbors" ) {
  Fix & f = fx(); ref::DMesh m( s, c, EL, 12, false ); bool same = s.b( 0.15 ); std::vector< Mat > mat; struct Mp { R rho, lam, mu; }; std::vector< Mp > mp; double U = s.b() ? 1 : 1E10, RU = U == 1 ? 1 : 2500; for( int e = 0; e < m.nE; e++ ) { Mp p; p.rho = RU*s.r( 0.3, 3 ); p.lam = U*s.r( 0.2, 4 ); p.mu = U*s.r( 0.1, 3 ); if( same && e ) p = mp[0]; mp.push_back( p ); mat.push_back( { p.rho, p.lam, p.mu } ); }
  std::vector< t_vertexChars > vc( m.ve.size() ); for( std::size_t v = 0; v < vc.size(); v++ ) { memset( &vc[v], 0, sizeof( vc[v] ) ); for( int d = 0; d < D; d++ ) vc[v].coords[d] = m.ve[v][d]; }
  std::vector< t_faceChars > fc( m.nF ); for( int a = 0; a < m.nF; a++ ) { memset( &fc[a], 0, sizeof( fc[a] ) ); auto & x = m.fa[a]; double sg = x.eR >= 0 && x.eR < x.eL ? -1 : 1; fc[a].area = x.area; for( int d = 0; d < 3; d++ ) { fc[a].outNormal[d] = sg*x.R[d][0]; fc[a].tangent0[d] = x.R[d][1]; fc[a].tangent1[d] = x.R[d][2]; } }
  double rv = EL == TRIA3 ? 0.5 : EL == TET4 ? 1./6 : 1; std::vector< t_elementChars > ec( m.nE ); for( int e = 0; e < m.nE; e++ ) { memset( &ec[e], 0, sizeof( ec[e] ) ); ec[e].volume = m.det[e]*rv; }
  std::vector< std::array< I, NV > > ev( m.nE ); std::vector< std::array< I, NF > > ef( m.nE ), ee( m.nE ); for( int e = 0; e < m.nE; e++ ) { for( int k = 0; k < NV; k++ ) ev[e][k] = m.elVe[e][k]; for( int k = 0; k < NF; k++ ) { ef[e][k] = m.elFa[e][k]; ee[e][k] = m.elFaEl[e][k] < 0 ? std::numeric_limits< I >::max() : m.elFaEl[e][k]; } }
  auto pm = s.perm( m.nE ); I nL = s.i( 1, m.nE ); std::vector< I > lp( pm.begin(), pm.begin()+nL );
  data::Dynamic dyn; seismic::sc::Llf< R, EL, O, CR > ll; ll.alloc( nL, dyn ); I cut = s.draw( nL+1 );
  auto init = [&]( I a, I n ) { ll.init( a, n, lp.data(), (I const (*)[NV]) ev.data(), (I const (*)[NF]) ef.data(), (I const (*)[NF]) ee.data(), vc.data(), fc.data(), ec.data(), mp.data() ); }; if( s.b() ) { init( 0, cut ); init( cut, nL-cut ); } else { init( cut, nL-cut ); init( 0, cut ); }
  I L = s.draw( nL ); int e = lp[L]; static R u[NQ][NT][CR]; static Sc o; int ns = NS( D ); double S = std::sqrt( U*RU ); for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NT; x++ ) for( int k = 0; k < CR; k++ ) u[q][x][k] = s.sr( q < ns ? S : 1 ); if( s.b( 0.2 ) ) for( int q = 0; q < NQ; q++ ) for( int x = 1; x < NT; x++ ) for( int k = 0; k < CR; k++ ) u[q][x][k] = u[q][0][k];
  double h = std::pow( m.det[e], 1./D ), dt = R( s.lr( 0.01, 0.3 )*h/vp( mat[e] ) ); bool nu[NF]; int nn = 0; for( int k = 0; k < NF; k++ ) nn += nu[k] = s.b( 0.25 ); unsigned short ty[NSC][NF]; memcpy( ty, f.c.scTySf, sizeof( ty ) );
  // net-updates at DG-faces
  static R up[NF][NQ][NSF][CR]; for( int fa = 0; fa < NF; fa++ ) { static R z[2][NQ][NSF][CR]; for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NSF; x++ ) for( int k = 0; k < CR; k++ ) { z[0][q][x][k] = u[q][edge::pre::sc::g_scsfscRaw[( NSC+fa*NSF+x )*NF]][k]; z[1][q][x][k] = u[q][NSC+fa*NSF+x][k]; } ll.nuFaSf( R( dt ), L, (unsigned short) fa, z, up[fa] ); }
  static R ui[NQ][NT][CR]; memcpy( ui, u, sizeof( u ) ); for( int fa = 0; fa < NF; fa++ ) if( nu[fa] ) for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NSF; x++ ) for( int k = 0; k < CR; k++ ) ui[q][NSC+fa*NSF+x][k] = up[fa][q][x][k];
  memset( o, 0x7f, sizeof( o ) ); ll.tsSc( R( dt ), L, f.c.scSfSc, f.c.scTySf, nu, ui, o );
  bool het = false; double vol = m.det[e]*rv/NSC;
  for( int x = 0; x < NSC; x++ ) { double w[NQ][CR] = {}, mg[NQ][CR] = {}; for( int q = 0; q < NQ; q++ ) for( int k = 0; k < CR; k++ ) { w[q][k] = u[q][x][k]; mg[q][k] = std::fabs( w[q][k] ); }
    for( int j = 0; j < NF; j++ ) { int a = edge::pre::sc::g_scsfscRaw[x*NF+j]; SubGeo g = geo( m, e, x, a ); c.require( g.a > 0, "sub-cells without common sub-face" + st( { x, a } ) ); int fa = a >= NSC ? ( a-NSC )/NSF : -1, en = fa >= 0 && m.elFaEl[e][fa] >= 0 ? m.elFaEl[e][fa] : e; Mat const & mo = mat[e], & mn = mat[en]; het = het || en != e; VD A = jn( g.n, mo ), B = jn( g.n, mn ); double vi = std::max( vp( mo ), vp( mn ) ), sca = dt*g.a/vol;
      for( int q = 0; q < NQ; q++ ) for( int k = 0; k < CR; k++ ) { double F = 0.5*vi*( double( u[q][x][k] )-u[q][a][k] ), G = 0.5*vi*( std::fabs( u[q][x][k] )+std::fabs( u[q][a][k] ) ); for( int p = 0; p < NQ; p++ ) { F += 0.5*( A[q*NQ+p]*u[p][x][k] + B[q*NQ+p]*u[p][a][k] ); G += std::fabs( A[q*NQ+p]*u[p][x][k] )+std::fabs( B[q*NQ+p]*u[p][a][k] ); } 
        // rotations mix all components of a tensor
        double fl = ( q < ns ? ( mo.lam+2*mo.mu+mn.lam+2*mn.mu ) : S/mo.rho+S/mn.rho ); w[q][k] -= sca*F; mg[q][k] += sca*( G+fl ); if( fa >= 0 ) c.close( up[fa][q][a-NSC-fa*NSF][k], -sca*F, 0, 100*EPS*sca*( G+fl ), "net-update at DG-face" + st( { fa, a-NSC-fa*NSF, q, k } ) ); } }
    for( int q = 0; q < NQ; q++ ) for( int k = 0; k < CR; k++ ) c.close( o[q][x][k], w[q][k], 0, 100*EPS*mg[q][k], "time step of sub-cell" + st( { x, q, k } ) ); }
  // conservation: only fluxes over the surface of the element change the sums
  c.nontrivial( het && !same ); std::ostringstream os; os << m.nE << " elements, " << nL << " limited plus, net-updates at " << nn << " faces, dt " << dt; c.sample( os.str() );
}

PBT( steering, 2000, 40000, "several synchronizations with odd numbers of steps" ) {
  // buffers are identified by their position in memory
  static bool ab[4][1]; bool (*adm[4])[1] = { &ab[0], &ab[1], &ab[2], &ab[3] }; static R eb[2][2][NQ][CR]; R (*ex[2])[2][NQ][CR] = { &eb[0], &eb[1] }; typedef R (*Pd)[NF]; static R (*db[2][1][NF])[NQ][NSF][CR]; R (*(*dd[2])[NF])[NQ][NSF][CR] = { db[0], db[1] };
  int rounds = s.i( 1, 6 ), odd = 0; void *pa[2] = { adm[0], adm[1] }, *pe = ex[0], *pd = dd[0]; std::string tr;
  for( int r = 0; r < rounds; r++ ) { int n = s.i( 0, 7 ); tr += std::to_string( n ) + " "; odd += n%2;
    for( int t = 0; t <= n; t++ ) { unsigned short a[4] = { 9,9,9,9 }, e[2] = { 9,9 }, d[2] = { 9,9 }; if( s.b() ) { sc::Steering::getAdmIds( (unsigned int) t, a ); sc::Steering::getExtIds( (unsigned int) t, e ); sc::Steering::getDofsIds( (unsigned int) t, d ); } else { sc::Steering::getAdmIds( (std::size_t) t, a ); sc::Steering::getExtIds( (std::size_t) t, e ); sc::Steering::getDofsIds( (std::size_t) t, d ); } std::set< int > u( a, a+4 ); c.require( u.size() == 4 && *u.rbegin() == 3, "admissibility ids are no permutation" ); c.require( e[0]+e[1] == 1 && d[0]+d[1] == 1, "ids of extrema and dofs" );
      c.require( adm[a[0]] == pa[0] && adm[a[1]] == pa[1], "admissibility of the previous step is the limited one of the step before" ); c.require( ex[e[0]] == pe && dd[d[0]] == pd, "extrema or dofs of the previous step" ); if( t < n ) { pa[0] = adm[a[2]]; pa[1] = adm[a[3]]; pe = ex[e[1]]; pd = dd[d[1]]; } }
    sc::Steering::resetAdm( (unsigned int) n, adm ); sc::Steering::resetExt( (unsigned int) n, ex ); sc::Steering::resetDofs( (unsigned int) n, dd ); c.require( adm[0] == pa[0] && adm[1] == pa[1] && ex[0] == pe && dd[0] == pd, "reset moves the current solution to the first position" ); std::set< void * > u; for( int k = 0; k < 4; k++ ) u.insert( adm[k] ); c.require( u.size() == 4 && ex[0] != ex[1] && dd[0] != dd[1], "reset loses buffers" ); }
  int nP = s.i( 1, 10 ), nL = s.i( 1, 8 ); I mx = std::numeric_limits< I >::max(); std::vector< I > li( nP, mx ); for( auto & x : li ) if( s.b() ) x = s.draw( nL ); typedef unsigned int U[CR]; std::vector< unsigned int > sy( nL*CR ), w; for( auto & x : sy ) x = 1+s.draw( 9 ); w = sy; I f0 = s.draw( nP ), sz = s.draw( nP-f0+1 ); for( I k = f0; k < f0+sz; k++ ) if( li[k] != mx ) for( int r = 0; r < CR; r++ ) w[li[k]*CR+r] = 0; sc::Steering::resetLimSync( f0, sz, li.data(), (U *) sy.data() ); c.require( sy == w, "reset of the limiting counter" );
  c.nontrivial( rounds > 1 && odd ); c.sample( "steps between synchronizations: " + tr ); (void) sizeof( Pd );
}

PBT( supercells, 200, 4000, "tetrahedral elements" ) {
  Fix & f = fx(); int fa = s.draw( NF ); typedef sc::ibnd::t_stCol< EL, O > Co; std::set< std::pair< int, int > > want, got; if( EL == TET4 ) { for( int k = 0; k < NSC; k++ ) if( f.at( k, fa ) ) for( int j = 0; j < NF; j++ ) { int a = edge::pre::sc::g_scsfscRaw[k*NF+j]; if( a < NSC && f.at( a, fa ) ) want.insert( { std::min( k, a ), std::max( k, a ) } ); } for( int k = 0; k < Co::TL_N_ST; k++ ) got.insert( { f.su.col[fa].sc[k][0], f.su.col[fa].sc[k][1] } ); c.require( want == got, "super-cells are the pairs of sub-cells at face " + std::to_string( fa ) + " which share a sub-face" ); }
  static Sc u, o; rnd( s, u, 10 ); memcpy( o, u, sizeof( u ) ); sc::ibnd::SuperCell< EL, O, NQ, CR >::applyFa( f.su.col[fa], u ); std::vector< int > mate( NSC, -1 ); for( auto & p : want ) { mate[p.first] = p.second; mate[p.second] = p.first; }
  for( int q = 0; q < NQ; q++ ) for( int x = 0; x < NSC; x++ ) for( int k = 0; k < CR; k++ ) c.close( u[q][x][k], mate[x] < 0 ? o[q][x][k] : 0.5*( double( o[q][x][k] )+o[q][mate[x]][k] ), 2*EPS, 2*EPS, "average of super-cell" + st( { fa, x, q, k } ) );
  // sub-grid of the faces
  static unsigned short lo[NF][NSF][FV], re[NF][C_ENT[EL].N_DIM == 2 ? CE_N_SUB_VERTICES( LINE, ORDER ) : CE_N_SUB_VERTICES( C_ENT[EL].TYPE_FACES, ORDER )]; int const NR = sizeof( re[0] )/sizeof( re[0][0] ); memset( lo, 0x33, sizeof( lo ) ); Sg::faSg( f.c.scSv, lo, re );
  std::set< int > us; for( int x = 0; x < NSF; x++ ) { std::set< int > a, b; for( int v = 0; v < FV; v++ ) { c.require( lo[fa][x][v] < NR, "local id of sub-vertex" ); a.insert( re[fa][lo[fa][x][v]] ); us.insert( lo[fa][x][v] ); b.insert( edge::pre::sc::g_scsvRaw[( NSC+fa*NSF+x )*NV+v] ); } c.require( a == b, "vertices of sub-face" + st( { fa, x } ) );
    if( EL == HEX8R ) { auto P = [&]( int v, int d ) { return edge::pre::sc::g_svcrdsRaw[re[fa][lo[fa][x][v]]*D+d]; }; for( int v = 0; v < 4; v++ ) { double q = 0; for( int d = 0; d < D; d++ ) q += std::pow( P( v, d )-P( (v+1)%4, d ), 2 ); c.close( std::sqrt( q ), 1./( 2*O-1 ), 1E-6, 0, "quadrilateral sub-face is not traversed along its edges" ); } } }
  c.require( (int) us.size() == NR, "not all sub-vertices of the face are used" ); std::set< int > gl; for( int v = 0; v < NR; v++ ) gl.insert( re[fa][v] ); c.require( (int) gl.size() == NR, "duplicated sub-vertices" );
  // closest sub-cell
  R p[3]; for( int d = 0; d < D; d++ ) p[d] = s.r( -0.1, 1.1 ); int in = -1; if( s.b() ) { in = s.draw( NSC ); double w[8], t = 0; for( int v = 0; v < NV; v++ ) t += w[v] = s.r( 0.1, 1 ); for( int d = 0; d < D; d++ ) { double q = 0; for( int v = 0; v < NV; v++ ) q += w[v]/t*edge::pre::sc::g_svcrdsRaw[edge::pre::sc::g_scsvRaw[in*NV+v]*D+d]; p[d] = q; } }
  unsigned short (*sv)[NV] = f.c.scSv; typedef unsigned short Us; Us g = Sg::ptSc( p, (Us const (*)[NV]) sv, f.sv ); c.require( g < NSC, "closest sub-cell" ); auto ds = [&]( int k ) { double r = 0; for( int v = 0; v < NV; v++ ) for( int d = 0; d < D; d++ ) r += std::pow( edge::pre::sc::g_svcrdsRaw[edge::pre::sc::g_scsvRaw[k*NV+v]*D+d]-p[d], 2 ); return r; }; for( int k = 0; k < NSC; k++ ) c.require( ds( g ) <= ds( k )*( 1+100*EPS )+100*EPS, "closest sub-cell" + st( { g, k } ) );
  if( in >= 0 && ( EL == QUAD4R || EL == HEX8R ) ) c.require( g == in, "sub-cell which holds the point" + st( { g, in } ) );
  c.nontrivial( EL == TET4 || in >= 0 ); c.sample( "face " + std::to_string( fa ) + ", " + std::to_string( want.size() ) + " super-cells" );
}

PBT( links, 3000, 60000, "several internal boundary faces and limited elements" ) {
  int nE = s.i( 1, 12 ), nF = s.i( 1, 16 ); long long IB = 32, LI = 64; struct Ch { long long spType; }; std::vector< Ch > cf( nF ), ce( nE ); typedef std::size_t T; T mx = std::numeric_limits< T >::max(), un = 777; for( auto & x : cf ) x.spType = s.b() ? IB|( s.b( 0.3 ) ? 1024 : 0 ) : s.pick< long long >( { 0, 1024, LI } ); 
  std::vector< std::array< T, 2 > > fe( nF ); std::vector< std::array< T, NF > > ef( nE ); for( auto & x : ef ) for( auto & y : x ) y = s.draw( nF ); std::vector< bool > be( nE, false );
  for( int e = 0; e < nE; e++ ) { for( T a : ef[e] ) if( ( cf[a].spType&IB ) == IB ) be[e] = true; ce[e].spType = ( be[e] ? IB : 0 )|( s.b() ? LI : 0 )|( s.b( 0.2 ) ? 2048 : 0 ); } for( auto & x : fe ) for( auto & y : x ) y = s.b( 0.15 ) ? mx : s.draw( nE );
  std::vector< T > ib( nE, mx ), il( nE, mx ), jb( nF, mx ); T nb = 0, nl = 0, nf = 0; for( int e = 0; e < nE; e++ ) { if( ce[e].spType&IB ) ib[e] = nb++; if( ce[e].spType&LI ) il[e] = nl++; } for( int f = 0; f < nF; f++ ) if( cf[f].spType&IB ) jb[f] = nf++;
  std::vector< T > bl( 2*nf+1, un ), bb( 2*nf+1, un ), eb( NF*nb+1, un ), de( nb+1, un ); sc::ibnd::t_connect< T, EL > cn; cn.bfLe = (T (*)[2]) bl.data(); cn.bfBe = (T (*)[2]) bb.data(); cn.beBf = (T (*)[NF]) eb.data(); cn.beEl = de.data();
  sc::ibnd::Init< EL >::connect( (T) nF, (T) nE, IB, LI, (T (*)[2]) fe.data(), (T const (*)[NF]) ef.data(), cf.data(), ce.data(), cn );
  for( int f = 0; f < nF; f++ ) if( jb[f] != mx ) for( int k = 0; k < 2; k++ ) { T e = fe[f][k]; c.require( bb[2*jb[f]+k] == ( e == mx ? mx : ib[e] ) && bl[2*jb[f]+k] == ( e == mx ? mx : il[e] ), "elements of internal boundary face" + st( { f, k } ) ); }
  for( int e = 0; e < nE; e++ ) if( ib[e] != mx ) { c.require( de[ib[e]] == (T) e, "dense element" ); for( int k = 0; k < NF; k++ ) c.require( eb[ib[e]*NF+k] == jb[ef[e][k]], "faces of internal boundary element" + st( { e, k } ) ); }
  c.require( bl[2*nf] == un && bb[2*nf] == un && eb[NF*nb] == un && de[nb] == un, "writes behind the last entity" );
  // dominant and duplicated limited elements: dense elements of the communication layer which represent the same mesh element
  { int nM = s.i( 1, 8 ); std::vector< T > daMe, meDa( nM, mx ); int nIn = s.draw( 4 ), nSe = s.i( 0, 10 ); std::vector< int > cnt( nM, 0 ); std::vector< T > pool; for( int k = 0; k < nSe; k++ ) { int t = s.draw( nM ); if( cnt[t] < NF ) { cnt[t]++; pool.push_back( t ); } } nSe = pool.size();
    for( int k = 0; k < nIn; k++ ) { daMe.push_back( nM+k ); meDa.push_back( k ); } for( T t : pool ) { if( meDa[t] == mx ) meDa[t] = daMe.size(); daMe.push_back( t ); }
    std::vector< T > lp, lpEl; std::vector< int > of; for( T d = 0; d < daMe.size(); d++ ) { if( s.b( 0.2 ) ) lpEl.push_back( 5000+d ); lp.push_back( lpEl.size() ); lpEl.push_back( d ); } t_enLayout la; la.nEnts = daMe.size(); la.timeGroups.resize( 1 ); la.timeGroups[0].inner.first = 0; la.timeGroups[0].inner.size = nIn; la.timeGroups[0].nEntsOwn = daMe.size(); std::vector< T > o( NF*la.nEnts+1, un ); In::liDoLiDu( la, lp.data(), lpEl.data(), daMe.data(), meDa.data(), (T (*)[NF]) o.data() );
    for( T d = 0; d < daMe.size(); d++ ) { std::vector< T > w; if( meDa[daMe[d]] == d ) for( T x = 0; x < daMe.size(); x++ ) if( x != d && daMe[x] == daMe[d] ) w.push_back( x ); w.resize( NF, mx ); for( int k = 0; k < NF; k++ ) c.require( o[d*NF+k] == w[k], "duplicates of limited element" + st( { (long) d, k } ) ); } c.require( o[NF*la.nEnts] == un, "writes behind the limited elements" ); }
  // initial values
  { int n = s.i( 0, 3 ), p = s.i( n, 5 ), x = s.i( 0, 4 ); std::vector< R > d( n*NQ*NSC*CR+1, 5 ), t[2], e[2]; for( int b = 0; b < 2; b++ ) { t[b].assign( p*NF*NQ*NSF*CR+1, 5 ); e[b].assign( x*2*NQ*CR+1, 5 ); } std::unique_ptr< bool[] > ad[4], lk( new bool[n*CR+1] ); for( auto & y : ad ) { y.reset( new bool[n*CR+1] ); std::fill( y.get(), y.get()+n*CR+1, false ); } std::fill( lk.get(), lk.get()+n*CR+1, true ); std::vector< unsigned int > ls( n*CR+1, 5 );
    R (*tp[2])[NQ][NSF][CR] = { (R (*)[NQ][NSF][CR]) t[0].data(), (R (*)[NQ][NSF][CR]) t[1].data() }; R (*ep[2])[2][NQ][CR] = { (R (*)[2][NQ][CR]) e[0].data(), (R (*)[2][NQ][CR]) e[1].data() }; bool (*ap[4])[CR] = { (bool (*)[CR]) ad[0].get(), (bool (*)[CR]) ad[1].get(), (bool (*)[CR]) ad[2].get(), (bool (*)[CR]) ad[3].get() };
    In::data( n, p, x, (R (*)[NQ][NSC][CR]) d.data(), tp, ep, ap, (bool (*)[CR]) lk.get(), (unsigned int (*)[CR]) ls.data() ); auto z = [&]( std::vector< R > const & v, char const * w ) { for( std::size_t k = 0; k+1 < v.size(); k++ ) c.require( v[k] == 0, w ); c.require( v.back() == 5, w ); }; z( d, "initial sub-cell solution" ); for( int b = 0; b < 2; b++ ) { z( t[b], "initial surface solution" ); z( e[b], "initial extrema" ); } for( int k = 0; k < n*CR; k++ ) c.require( ad[0][k] && ad[1][k] && ad[2][k] && ad[3][k] && !lk[k] && ls[k] == 0, "initial admissibility, locks and counters" ); }
  c.nontrivial( nf > 1 && nl > 1 ); c.sample( std::to_string( nf ) + " internal boundary faces, " + std::to_string( nl ) + " limited elements" );
}
