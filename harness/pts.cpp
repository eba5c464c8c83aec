// kinematic point sources: assignment to elements and runs, projection to the DG basis, time integration
#define DGDATA_DEFINE
#include "pbt.hpp"
#include "constants.hpp"
#include "impl/seismic/setups/PointSources.hpp"
#include "dgmesh.hpp"
#include "logcap.hpp"
#include <fcntl.h>
#include <array>
#include <memory>
typedef real_base RB; static t_entityType const EL = T_SDISC.ELEMENT; static int const D = N_DIM, NQ = D == 2 ? 5 : 9, CR = N_CRUNS, O = ORDER; static int const MD = CE_N_ELEMENT_MODES( EL, O ); typedef std::size_t I;
static std::string tmpFile( std::string const & ext ) { char const * t = std::getenv( "TMPDIR" ); return std::string( t ? t : "/tmp" ) + "/pts_" + std::to_string( getpid() ) + ext; }
struct Rm { std::vector< std::string > f; ~Rm() { for( auto & x : f ) unlink( x.c_str() ); } };
struct Pt { int el; double x[3], xi[3]; float sc[NQ]; float on, dt; std::vector< float > v; };
struct Src_ { std::vector< Pt > p; };

static void ds( hid_t f, char const * n, hid_t ty, hid_t mem, std::vector< hsize_t > const & d, void const * x ) { hid_t sp = H5Screate_simple( d.size(), d.data(), nullptr ), z = H5Dcreate( f, n, ty, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT ); hsize_t a = 1; for( auto i : d ) a *= i; if( a ) H5Dwrite( z, mem, H5S_ALL, H5S_ALL, H5P_DEFAULT, x ); H5Dclose( z ); H5Sclose( sp ); }
static void write( pbt::Src & s, std::string const & path, Src_ const & S ) {
  hid_t f = H5Fcreate( path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT ); auto fl = [&]{ int k = s.draw( 3 ); return k == 0 ? H5T_IEEE_F32LE : k == 1 ? H5T_IEEE_F64LE : H5T_IEEE_F32BE; }; auto in = [&]{ int k = s.draw( 3 ); return k == 0 ? H5T_STD_U64LE : k == 1 ? H5T_STD_U32LE : H5T_STD_I64LE; };
  hsize_t n = S.p.size(); std::vector< float > x, sc, tp, ts; std::vector< uint64_t > pt; int lead = s.b( 0.2 ) ? s.i( 1, 3 ) : 0; for( int k = 0; k < lead; k++ ) ts.push_back( 1E6 );
  for( auto & p : S.p ) { for( int d = 0; d < D; d++ ) x.push_back( p.x[d] ); for( float v : p.sc ) sc.push_back( v ); tp.push_back( p.on ); tp.push_back( p.dt ); pt.push_back( ts.size() ); for( float v : p.v ) ts.push_back( v ); } pt.push_back( ts.size() ); if( s.b( 0.2 ) ) ts.push_back( 1E6 );
  ds( f, "points", fl(), H5T_NATIVE_FLOAT, { n, (hsize_t) D }, x.data() ); ds( f, "scalings", fl(), H5T_NATIVE_FLOAT, { n, (hsize_t) NQ }, sc.data() ); ds( f, "time_parameters", fl(), H5T_NATIVE_FLOAT, { n, 2 }, tp.data() ); ds( f, "time_pointers", in(), H5T_NATIVE_UINT64, { n+1 }, pt.data() ); ds( f, "time_series", fl(), H5T_NATIVE_FLOAT, { (hsize_t) ts.size() }, ts.data() ); H5Fclose( f );
}
static double integ( Pt const & p, double a, double b ) { double e = 0; for( size_t i = 0; i+1 < p.v.size(); i++ ) { double t0 = p.on + i*(double) p.dt, l = std::max( a, t0 ), r = std::min( b, t0+p.dt ); if( r <= l ) continue; double m = ( 0.5*( l+r )-t0 )/p.dt; e += ( r-l )*( p.v[i] + m*( (double) p.v[i+1]-p.v[i] ) ); } return e; }

PBT( sources, 6000, 120000, "several sources in one element, an element with sources of some runs only, intervals split" ) {
  ref::DMesh m( s, c, EL, 14, false ); constexpr int NV = C_ENT[EL].N_VERTICES; std::vector< std::array< I, NV > > ev( m.nE ); for( int e = 0; e < m.nE; e++ ) for( int v = 0; v < NV; v++ ) ev[e][v] = m.elVe[e][v];
  std::vector< t_vertexChars > vc( m.ve.size() ); for( size_t v = 0; v < vc.size(); v++ ) { memset( &vc[v], 0, sizeof( vc[v] ) ); for( int d = 0; d < 3; d++ ) vc[v].coords[d] = m.ve[v][d]; }
  long long SP = s.pick( std::vector< long long >{ 65536, 1LL<<33, 32768|2, 7 } ); while( ( SP & LIMIT ) == LIMIT || ( SP & LIMIT ) ) SP = 65536; std::vector< t_elementChars > ec( m.nE ); for( auto & x : ec ) { memset( &x, 0, sizeof( x ) ); x.spType = s.b( 0.1 ) ? SP : s.pick< long long >( { 0, 1, 4096, 1<<20 } ); } auto ecO = ec; std::vector< bool > isSrc( m.nE ); for( int e = 0; e < m.nE; e++ ) isSrc[e] = ( ec[e].spType & SP ) == SP;
  RB mi[MD]; for( auto & x : mi ) x = s.r( 0.3, 3 ); double smp = ( EL == TRIA3 || EL == TET4 );
  std::vector< Src_ > S( CR ); std::string path[CR]; Rm rm; int empty = s.b( 0.05 ) ? s.draw( CR ) : -1, hot = s.draw( m.nE ), outside = 0; bool shared = s.b( 0.15 );
  for( int r = 0; r < CR; r++ ) { int n = s.b( 0.05 ) ? s.i( 9, 50 ) : s.i( 1, 8 ); if( shared && r ) { S[r] = S[0]; path[r] = path[0]; continue; }
    for( int k = 0; k < n; k++ ) { Pt p; p.el = s.b( 0.4 ) ? hot : s.draw( m.nE ); double sum = 0; for( int d = 0; d < D; d++ ) { p.xi[d] = s.r( 0.04, 0.96 ); sum += p.xi[d]; } if( smp && sum > 0.96 ) for( int d = 0; d < D; d++ ) p.xi[d] *= 0.95/sum; for( int d = D; d < 3; d++ ) p.xi[d] = 0; double x[3] = {}; m.phy( p.el, p.xi, x );
      bool out = s.b( 0.1 ); if( out && !smp ) { int f = -1; for( int j = 0; j < m.NF; j++ ) if( m.elFaEl[p.el][j] < 0 ) f = j; if( f >= 0 ) { auto l = ref::faVe( EL, f ); double R[3][3], q = 0; m.frame( p.el, f, R ); for( int d = 0; d < D; d++ ) q += R[d][0]*( m.ve[m.elVe[p.el][l[0]]][d]-x[d] ); for( int d = 0; d < D; d++ ) x[d] += R[d][0]*( q+0.003 ); outside++; } else out = false; } else out = false;
      for( int d = 0; d < 3; d++ ) p.x[d] = float( x[d] ); if( out ) { int f = -1; for( int j = 0; j < m.NF; j++ ) if( m.elFaEl[p.el][j] < 0 ) f = j; auto l = ref::faVe( EL, f ); double R[3][3], q = 0, y[3]; m.frame( p.el, f, R ); for( int d = 0; d < D; d++ ) q += R[d][0]*( m.ve[m.elVe[p.el][l[0]]][d]-p.x[d] ); for( int d = 0; d < 3; d++ ) y[d] = p.x[d]+R[d][0]*q; m.rfc( p.el, y, p.xi ); } else m.rfc( p.el, p.x, p.xi );
      for( auto & v : p.sc ) v = s.b( 0.2 ) ? 0 : s.sr( 3 ); p.on = s.b( 0.3 ) ? 0 : s.sr( 3 ); p.dt = s.pick( std::vector< double >{ 1, 0.5, 0.1, 0.037 } ); int nv = s.i( 1, 12 ); bool lng = sizeof( RB ) == 8 && s.b( 0.001 ); if( lng ) { nv = s.i( 60000, 90000 ); p.dt = 0.0009765625f; p.on = -60 - s.r( 0, 10 ); unsigned x = s.draw( 100000 ); for( int i = 0; i < nv; i++ ) { x = x*1664525u+1013904223u; p.v.push_back( float( x>>8 )/float( 1<<22 ) ); } } else for( int i = 0; i < nv; i++ ) p.v.push_back( s.sr( 3 ) ); S[r].p.push_back( p ); }
    path[r] = tmpFile( "_" + std::to_string( r ) + ".h5" ); rm.f.push_back( path[r] ); write( s, path[r], S[r] ); }
  if( empty >= 0 ) path[empty] = "";
  edge::data::Dynamic dm; typedef edge::seismic::setups::PointSources< RB, I, EL, O, CR > Ps; Ps ps; bool ok = ps.init( path, SP, (I) m.nE, (I const (*)[NV]) ev.data(), vc.data(), mi, ec.data(), dm ); c.require( ok == ( empty < 0 ), "sources are active iff all fused runs have a description" );
  std::vector< RB > q( m.nE*NQ*MD*CR ), q0; for( auto & x : q ) x = s.sr( 1 ); q0 = q; typedef RB (*Q)[NQ][MD][CR];
  if( empty >= 0 ) { ps.apply( 0, 5, 0, 1, (Q) q.data() ); for( int e = 0; e < m.nE; e++ ) c.require( ec[e].spType == ecO[e].spType, "inactive sources change the sparse types" ); c.require( q == q0, "inactive sources change the solution" ); return; }
  std::vector< int > se; std::vector< int > cnt( m.nE, 0 ), runs( m.nE, 0 ); for( int r = 0; r < CR; r++ ) { std::vector< bool > h( m.nE, false ); for( auto & p : S[r].p ) { isSrc[p.el] = true; cnt[p.el]++; h[p.el] = true; } for( int e = 0; e < m.nE; e++ ) runs[e] += h[e]; }
  bool multi = false, part = false; for( int e = 0; e < m.nE; e++ ) { if( isSrc[e] ) se.push_back( e ); long long w = ecO[e].spType | ( cnt[e] ? SP : 0 ); c.require( ec[e].spType == w, "sparse type of element " + std::to_string( e ) ); multi = multi || cnt[e] > CR; part = part || ( runs[e] && runs[e] < CR ); }
  // a history of source applications
  double T = s.sr( 3 ), tEnd = T+s.lr( 0.05, 8 ), split = s.i( 1, 4 ); std::vector< double > ts{ T }; for( int k = 1; k < split; k++ ) ts.push_back( s.r( T, tEnd ) ); ts.push_back( tEnd ); std::sort( ts.begin(), ts.end() ); for( auto & t : ts ) t = (RB) t; std::vector< std::pair< double, double > > cov( se.size(), { 0, 0 } ); std::vector< bool > on( se.size(), true );
  int first = 0, size = se.size(); if( s.b( 0.4 ) ) { first = s.draw( se.size() ); size = s.i( 0, (int) se.size()-first ); } for( size_t k = 0; k < se.size(); k++ ) on[k] = (int) k >= first && (int) k < first+size;
  for( size_t t = 0; t+1 < ts.size(); t++ ) { int a = first; while( a < first+size ) { int b = s.b( 0.3 ) ? s.i( 1, first+size-a ) : first+size-a; ps.apply( (I) a, (I) b, (RB) ts[t], (RB) ts[t+1], (Q) q.data() ); a += b; } if( !size ) ps.apply( (I) first, (I) 0, (RB) ts[t], (RB) ts[t+1], (Q) q.data() ); }
  std::vector< double > w( q0.begin(), q0.end() ), tol( q.size(), sizeof( RB ) == 8 ? 1E-12 : 1E-6 ); int eff = 0;
  for( size_t k = 0; k < se.size(); k++ ) if( on[k] ) for( int r = 0; r < CR; r++ ) for( auto & p : S[r].p ) if( p.el == se[k] ) { double g = integ( p, ts.front(), ts.back() ); if( g != 0 ) eff++; for( int b = 0; b < MD; b++ ) { double f = ref::phi( EL, O, b, p.xi )*mi[b]/m.det[p.el]; for( int j = 0; j < NQ; j++ ) { size_t z = ( ( (size_t) p.el*NQ+j )*MD+b )*CR+r; double h = std::fabs( p.sc[j]*mi[b]/m.det[p.el] ); w[z] += g*p.sc[j]*f; tol[z] += h*( 3E-4*p.dt*( ts.size()-1 ) + ( sizeof( RB ) == 8 ? 1E-9 : 2E-4 )*( 1+std::fabs( g ) )*10 ); } } }
  for( size_t z = 0; z < q.size(); z++ ) { int r = z%CR, b = z/CR%MD, j = z/CR/MD%NQ, e = z/CR/MD/NQ; if( !isSrc[e] || !cnt[e] ) c.require( q[z] == q0[z], "element without sources changes" ); else c.requireF( std::fabs( q[z]-w[z] ) <= tol[z], [&]{ std::ostringstream o; o.precision( 12 ); o << "element " << e << " quantity " << j << " mode " << b << " run " << r << ": " << q[z] << " expected " << w[z] << " (initially " << q0[z] << ", tolerance " << tol[z] << ")"; return o.str(); } ); }
  if( multi && ( part || CR == 1 ) && ts.size() > 2 && eff ) c.nontrivial(); std::ostringstream os; os << m.nE << " elements, " << se.size() << " with sources, runs " << CR << " active sources " << eff << " outside " << outside << " intervals " << ts.size()-1 << " sparse elements [" << first << "," << first+size << ")"; c.sample( os.str() );
}
