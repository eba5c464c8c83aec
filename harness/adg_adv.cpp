// advection ADER-DG solver (GTS, LTS, partitioned) vs. reference scheme
#define DGDATA_DEFINE
#include "pbt.hpp"
#include "constants.hpp"
#include "dgdata.hpp"
#include "adref.hpp"
#include "data/Dynamic.h"
#include "mesh/common.hpp"
#define PP_USE_MPI
#include "impl/advection/solvers/AderDg.hpp"
#undef PP_USE_MPI
#include "impl/advection/solvers/common.hpp"
#include <memory>

using ref::VD;
static constexpr t_entityType T = T_SDISC.ELEMENT; static int const O = ORDER, CR = N_CRUNS;
static constexpr int D = C_ENT[T].N_DIM, NF = C_ENT[T].N_FACES, NV = C_ENT[T].N_VERTICES, MD = N_ELEMENT_MODES;
typedef real_base R_;
typedef edge::advection::solvers::AderDg< R_, T, ORDER, ORDER, N_CRUNS > Solver;
typedef edge::advection::solvers::common Com;
typedef std::size_t S_; static S_ const MX = std::numeric_limits< S_ >::max();
#if PP_PRECISION == 64
static double const TOLR = 2E-10;
#else
static double const TOLR = 2E-4;
#endif
template< typename X > struct Al { X * p; size_t n; Al(): p( nullptr ), n( 0 ) {} void alloc( size_t i_n ) { n = std::max< size_t >( i_n, 1 ); void * v; if( posix_memalign( &v, 4096, n*sizeof( X ) ) ) abort(); p = (X*) v; memset( (void*) p, 0, n*sizeof( X ) ); } ~Al() { free( p ); } Al( Al const & ) = delete; };
static void setSp( t_bgPars & b, double const * v ) {
  b.a = v[0];
#if PP_N_DIM > 1
  b.b = v[1];
#endif
#if PP_N_DIM > 2
  b.c = v[2];
#endif
}

struct Rank {
  S_ nIn = 0, nSe = 0, nFa = 0; std::vector< int > gl;
  std::vector< std::array< S_, NV > > elVe; std::vector< std::array< S_, NF > > elFa, elFaEl; std::vector< std::array< unsigned short, NF > > fId, vId; std::vector< std::array< S_, 2 > > faEl;
  std::vector< t_faceChars > fc; std::vector< t_elementChars > ec; std::vector< std::array< t_bgPars, 1 > > bg; std::vector< t_bgPars > bgR; std::vector< unsigned short > reFa; std::vector< S_ > reEl;
  std::vector< std::pair< S_, S_ > > rg; std::vector< int > rgTg;
  Al< R_ [1][MD][CR] > dE, td[3]; typedef R_ (*P)[MD][CR]; std::vector< P > tp[3]; std::vector< P > se; std::vector< R_ const (*)[MD][CR] > re; std::vector< std::unique_ptr< Al< R_ [MD][CR] > > > buf;
  Al< R_ [D] > star; Al< R_ [NF*2] > fs;
  edge::data::Dynamic dyn; std::unique_ptr< Solver > sol; std::vector< std::array< int, 2 > > ghost;
};

// speeds: random or (for conservation) constant
static void run( pbt::Src & s, pbt::Ctx & c ) {
  ref::DMesh m( s, c, T, D == 1 ? 10 : 14, true ); int nRk = m.nE > 1 ? s.i( 1, 2 ) : 1; auto tg = ref::timeGroups( s, m, 2 ); int G = *std::max_element( tg.begin(), tg.end() );
  std::vector< std::array< double, 3 > > sp( m.nE ); bool homog = s.b( 0.4 ); double Vu = s.b( 0.3 ) ? 1E3 : 1;
  for( int e = 0; e < m.nE; e++ ) for( int d = 0; d < 3; d++ ) sp[e][d] = homog && e > 0 ? sp[0][d] : (R_)( s.b( 0.15 ) ? 0 : Vu*s.sr( 1.5 ) );
  std::vector< int > rk( m.nE ); for( auto & r : rk ) r = nRk > 1 ? s.draw( 2 ) : 0;
  Rank rs[2]; std::vector< int > loc( m.nE );
  for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r];
    for( int se = 0; se < 2; se++ ) for( int g = 0; g <= G; g++ ) { S_ b = k.gl.size(); for( int e = 0; e < m.nE; e++ ) if( rk[e] == r && tg[e] == g ) { bool x = false; for( int f = 0; f < NF; f++ ) x = x || ( m.elFaEl[e][f] >= 0 && rk[m.elFaEl[e][f]] != r ); if( x == ( se == 1 ) ) { loc[e] = k.gl.size(); k.gl.push_back( e ); ( se ? k.nSe : k.nIn )++; } } k.rg.push_back( { b, k.gl.size()-b } ); k.rgTg.push_back( g ); } }
  std::vector< t_vertexChars > vc( m.ve.size() ); for( size_t v = 0; v < vc.size(); v++ ) { memset( &vc[v], 0, sizeof( vc[v] ) ); for( int d = 0; d < 3; d++ ) vc[v].coords[d] = m.ve[v][d]; }
  for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r]; S_ n = k.gl.size(); std::map< int, S_ > fm; std::vector< int > fl;
    for( int f = 0; f < m.nF; f++ ) { bool u = rk[m.fa[f].eL] == r || ( m.fa[f].eR >= 0 && !m.fa[f].per && rk[m.fa[f].eR] == r ); if( u ) { fm[f] = fl.size(); fl.push_back( f ); } }
    k.nFa = fl.size(); k.elVe.resize( n ); k.elFa.resize( n ); k.elFaEl.resize( n ); k.fId.resize( n ); k.vId.resize( n ); k.ec.resize( n ); k.bg.resize( n ); k.faEl.resize( k.nFa ); k.fc.resize( k.nFa );
    for( S_ f = 0; f < k.nFa; f++ ) { auto & F = m.fa[fl[f]]; bool own = rk[F.eL] == r; S_ l = own ? loc[F.eL] : loc[F.eR]; S_ o = own ? ( F.eR >= 0 && rk[F.eR] == r ? (S_) loc[F.eR] : MX ) : MX; k.faEl[f] = { { l, o } }; t_faceChars & x = k.fc[f]; memset( &x, 0, sizeof( x ) ); x.area = F.area;
      for( int d = 0; d < 3; d++ ) { x.outNormal[d] = own ? F.R[d][0] : -F.R[d][0]; x.tangent0[d] = F.R[d][1]; x.tangent1[d] = F.R[d][2]; } x.spType = F.per ? PERIODIC : F.eR < 0 ? OUTFLOW : 0; }
    for( S_ e = 0; e < n; e++ ) { int ge = k.gl[e]; memset( &k.ec[e], 0, sizeof( t_elementChars ) ); for( int v = 0; v < NV; v++ ) k.elVe[e][v] = m.elVe[ge][v];
      for( int f = 0; f < NF; f++ ) { int a = m.elFaEl[ge][f]; k.elFa[e][f] = fm[m.elFa[ge][f]]; bool lo = a >= 0 && rk[a] == r; k.elFaEl[e][f] = lo ? loc[a] : MX; k.fId[e][f] = a >= 0 ? m.fId[ge][f] : std::numeric_limits< unsigned short >::max(); k.vId[e][f] = a >= 0 ? m.vId[ge][f] : std::numeric_limits< unsigned short >::max();
        int rel = a < 0 || tg[a] == tg[ge] ? AD_EQ : tg[ge] < tg[a] ? AD_LT : AD_GT; k.ec[e].spType |= C_LTS_AD[f][rel]; k.ec[e].spType |= C_LTS_EL[rel];
        if( a >= 0 && !lo ) { k.reEl.push_back( e ); k.reFa.push_back( f ); t_bgPars b; setSp( b, sp[a].data() ); k.bgR.push_back( b ); k.ghost.push_back( { { a, m.fId[ge][f] } } ); } }
      setSp( k.bg[e][0], sp[ge].data() ); }
    k.dE.alloc( n ); k.star.alloc( n ); k.fs.alloc( n ); for( int i = 0; i < 3; i++ ) { k.td[i].alloc( n ); k.tp[i].resize( n+1 ); for( S_ e = 0; e < n; e++ ) k.tp[i][e] = i == 0 || ( i == 1 && ( k.ec[e].spType & C_LTS_EL[EL_INT_LT] ) ) || ( i == 2 && ( k.ec[e].spType & C_LTS_EL[EL_INT_GT] ) ) ? k.td[i].p[e] : nullptr; }
    k.se.assign( n*NF+1, nullptr ); k.re.assign( n*NF+1, nullptr ); k.sol.reset( new Solver( k.dyn ) ); if( n == 0 ) continue;
    Solver::setupStarM( n, vc.data(), (S_ (*)[NV]) k.elVe.data(), (t_bgPars (*)[1]) k.bg.data(), k.star.p );
    Com::setupSolvers( k.nIn, k.nSe, k.nFa, (S_) k.reEl.size(), k.reFa.data(), k.reEl.data(), (S_ (*)[NV]) k.elVe.data(), (S_ (*)[2]) k.faEl.data(), (S_ (*)[NF]) k.elFa.data(), (S_ (*)[NF]) k.elFaEl.data(), vc.data(), k.fc.data(), (t_bgPars (*)[1]) k.bg.data(), k.bgR.data(), k.fs.p );
  }
  for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r]; for( size_t i = 0; i < k.reEl.size(); i++ ) { auto g = k.ghost[i]; Rank & o = rs[1-r]; std::unique_ptr< Al< R_ [MD][CR] > > b( new Al< R_ [MD][CR] > ); b->alloc( 2 ); for( size_t x = 0; x < (size_t) 2*MD*CR; x++ ) ( (R_*) b->p )[x] = 1E6; o.se[loc[g[0]]*NF+g[1]] = b->p; k.re[k.reEl[i]*NF+k.reFa[i]] = b->p; o.buf.push_back( std::move( b ) ); } }
  // reference
  std::vector< std::unique_ptr< ref::Dg > > rf;
  auto nsp = [&]( int e, double R[3][3] ) { double x = 0; for( int d = 0; d < D; d++ ) x += sp[e][d]*R[d][0]; return x; };
  for( int cr = 0; cr < CR; cr++ ) { rf.emplace_back( new ref::Dg( m, O, 1, 1, 0 ) ); ref::Dg & g = *rf.back();
    for( int e = 0; e < m.nE; e++ ) for( int d = 0; d < D; d++ ) g.A[e].push_back( VD( 1, sp[e][d] ) );
    g.flux = [&]( int e, int f, double const * in, double const * out, double * fe, double * ) { double R[3][3]; m.frame( e, f, R ); int a = m.elFaEl[e][f]; double l = nsp( e, R ), x = 0; if( l > 0 ) x += l*in[0]; if( a >= 0 ) { double q = nsp( a, R ); if( q < 0 ) x += q*out[0]; } fe[0] = x; };
    g.bnd = [&]( int, int ) { return 1; };
    for( int e = 0; e < m.nE; e++ ) for( int i = 0; i < MD; i++ ) { R_ x = s.sr( 1 )/( 1+i ); rs[rk[e]].dE.p[loc[e]][0][i][cr] = x; g.el[e].u[i] = x; } }
  double dt0 = 1E30; for( int e = 0; e < m.nE; e++ ) { double h = 1E30, v = 1E-3*Vu; for( int d = 0; d < D; d++ ) v += std::fabs( sp[e][d] ); for( int f = 0; f < NF; f++ ) h = std::min( h, m.det[e]/m.fa[m.elFa[e][f]].area ); dt0 = std::min( dt0, 0.3*h/v/( 2*O-1 )/( 1 << tg[e] ) ); }
  dt0 = dt0*s.r( 0.3, 1 ); int cyc = 1 << G, nSt = cyc*s.i( 1, G == 0 ? 3 : 2 ); double mx = 0; bool closed = true; for( int f = 0; f < m.nF; f++ ) closed = closed && m.fa[f].eR >= 0;
  double mass[2][CR] = {}; auto msum = [&]( int w ) { for( int cr = 0; cr < CR; cr++ ) for( int e = 0; e < m.nE; e++ ) mass[w][cr] += m.det[e]*rf[cr]->mass[0]*rs[rk[e]].dE.p[loc[e]][0][0][cr]; }; msum( 0 );
  auto scale = [&]() { for( auto & g : rf ) for( auto & e : g->el ) for( double x : e.u ) mx = std::max( mx, std::fabs( x ) ); }; scale();
  for( int st = 0; st < nSt; st++ ) {
    for( int pass = 0; pass < 2; pass++ ) for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r]; R_ (* const * tp[3])[MD][CR] = { k.tp[0].data(), k.tp[1].data(), k.tp[2].data() };
      auto ord = s.perm( k.rg.size() );
      for( auto oi : ord ) { int g = k.rgTg[oi], len = 1 << g; S_ a = k.rg[oi].first, n = k.rg[oi].second; if( n == 0 ) continue; bool act = pass == 0 ? st % len == 0 : ( st+1 ) % len == 0; if( !act ) continue; bool first = ( st/len ) % 2 == 0; S_ n0 = s.i( 0, n ); S_ pp[2][2] = { { a, n0 }, { a+n0, n-n0 } };
        for( auto & p : pp ) { if( p[1] == 0 ) continue;
          if( pass == 0 ) k.sol->local( p[0], p[1], first, len*dt0, k.ec.data(), k.star.p, k.fs.p, k.dE.p, tp, k.se.data() );
          else k.sol->neigh( p[0], p[1], first, k.fc.data(), k.ec.data(), k.fs.p, (S_ (*)[NF]) k.elFa.data(), (S_ (*)[NF]) k.elFaEl.data(), (unsigned short (*)[NF]) k.fId.data(), (unsigned short (*)[NF]) k.vId.data(), tp, k.dE.p, k.re.data() ); } } }
    for( auto & g : rf ) { for( int e = 0; e < m.nE; e++ ) if( st % ( 1 << tg[e] ) == 0 ) g->predict( e, dt0*( 1 << tg[e] ) ); for( int e = 0; e < m.nE; e++ ) if( ( st+1 ) % ( 1 << tg[e] ) == 0 ) g->correct( e, dt0*( 1 << tg[e] ) ); }
    scale();
  }
  msum( 1 ); double vol = 0; for( double d : m.det ) vol += d;
  for( int cr = 0; cr < CR; cr++ ) { for( int e = 0; e < m.nE; e++ ) for( int i = 0; i < MD; i++ ) c.close( rs[rk[e]].dE.p[loc[e]][0][i][cr], rf[cr]->el[e].u[i], 0, TOLR*nSt*mx, "element after the last step differs from the scheme, mode " + std::to_string( i ) + " run " + std::to_string( cr ) + " group " + std::to_string( tg[e] ) );
    if( closed ) c.close( mass[1][cr], mass[0][cr], 0, 10*TOLR*nSt*mx*vol, "mass is not conserved in a periodic domain" ); }
  c.nontrivial( m.nE > 1 ); std::ostringstream os; os << "elements " << m.nE << " ranks " << nRk << " time groups " << G+1 << " steps " << nSt << ( closed ? " closed" : m.anyPer ? " periodic" : "" ); c.sample( os.str() );
}
PBT( scheme, 1500, 30000, "mesh with more than one element" ) { run( s, c ); }

// time steps: proportional to in-diameter over speed, independent of the direction, below the stability limit
PBT( timestep, 2000, 50000, "more than one element" ) {
  int n = s.i( 1, 8 ); std::vector< t_elementChars > ec( n ); std::vector< std::array< t_bgPars, 1 > > bg( n ), ax( n ); std::vector< double > st( n ); double k = -1;
  double U = s.lr( 1E-3, 1E4 ); auto stat = [&]( int f, int nn, std::vector< std::array< t_bgPars, 1 > > & b, double * o ) { Com::getTimeStepStatistics( (S_) nn, ec.data()+f, (t_bgPars (*)[1])( b.data()+f ), o[0], o[1], o[2] ); };
  double mi = 1E300, ma = 0, av = 0, o[3];
  for( int e = 0; e < n; e++ ) { memset( &ec[e], 0, sizeof( ec[e] ) ); double L = s.lr( 1E-2, 1E3 ); ec[e].inDia = L; double v[3] = { 0,0,0 }, l = 0; for( int d = 0; d < D; d++ ) { v[d] = (R_)( s.b( 0.2 ) ? 0 : s.sr( U ) ); l += v[d]*v[d]; } if( l == 0 ) { v[D-1] = -(R_) U; l = v[D-1]*v[D-1]; } l = std::sqrt( l ); setSp( bg[e][0], v ); double w[3] = { (R_) l,0,0 }; setSp( ax[e][0], w );
    stat( e, 1, bg, o ); double x = o[0]; c.require( x > 0, "positive time step" ); c.close( o[1], x, 1E-12, 0, "average of a single element" ); c.close( o[2], x, 1E-12, 0, "maximum of a single element" );
    c.require( x <= 1.0001*ec[e].inDia/l/( 2*O-1 ), "time step below in-diameter / speed / (2*order-1)" ); double cfl = x*l/ec[e].inDia; if( k < 0 ) k = cfl; c.close( cfl, k, 1E-5, 0, "time step is proportional to the in-diameter over the absolute speed" ); stat( e, 1, ax, o ); c.close( o[0], x, 1E-5, 0, "time step does not depend on the direction" ); mi = std::min( mi, x ); ma = std::max( ma, x ); av += x/n; }
  stat( 0, n, bg, o ); c.close( o[0], mi, 1E-12, 0, "minimum" ); c.close( o[1], av, 1E-10, 0, "average" ); c.close( o[2], ma, 1E-12, 0, "maximum" );
  c.nontrivial( n > 1 ); std::ostringstream os; os << "elements " << n << " dt " << mi; c.sample( os.str() );
}
