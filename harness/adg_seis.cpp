// seismic ADER-DG solver (GTS, LTS, partitioned) vs. reference scheme
#define DGDATA_DEFINE
#include "pbt.hpp"
#include "constants.hpp"
#include "dgdata.hpp"
#include "adref.hpp"
#include "seisref.hpp"
#include "io/Receivers.h"
#include "data/Dynamic.h"
#include "parallel/global.h"
#include "impl/seismic/kernels/Kernels.hpp"
#include "impl/seismic/solvers/AderDgInit.hpp"
#define PP_USE_MPI
#include "impl/seismic/solvers/AderDg.hpp"
#undef PP_USE_MPI
#include <memory>

// receivers: requested samples (relative to the steps) and recorded predictions
struct RecStub { std::vector< std::vector< double > > due; std::vector< size_t > pos; struct W { int sp; double t; std::vector< double > v; }; std::vector< W > wr; double last = -1; };
static RecStub * g_rec = nullptr;
void edge::io::Receivers::flushAll() {} void edge::io::Receivers::flushIf( unsigned int ) {}
double edge::io::Receivers::getRecvTimeRel( int_el i_sp, double i_time, double i_dt ) { RecStub & r = *g_rec; if( i_sp < 0 || (size_t) i_sp >= r.due.size() ) { r.last = -1; return -1; } size_t k = r.pos[i_sp]; if( k >= r.due[i_sp].size() || r.due[i_sp][k] >= i_time+i_dt || r.due[i_sp][k] < i_time ) return -1; r.last = r.due[i_sp][k]; return r.last - i_time; }
void edge::io::Receivers::writeRecvAll( int_el i_sp, real_base const i_d[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS] ) { RecStub & r = *g_rec; if( i_sp < 0 || (size_t) i_sp >= r.due.size() ) return; r.pos[i_sp]++; RecStub::W w; w.sp = i_sp; w.t = r.last; real_base const * p = i_d[0][0]; for( int i = 0; i < N_QUANTITIES*N_ELEMENT_MODES*N_CRUNS; i++ ) w.v.push_back( p[i] ); r.wr.push_back( w ); }

static t_entityType const T = T_SDISC.ELEMENT; static int const O = ORDER, CR = N_CRUNS, RM = N_RELAXATION_MECHANISMS;
static constexpr int D = C_ENT[T_SDISC.ELEMENT].N_DIM, NF = C_ENT[T_SDISC.ELEMENT].N_FACES, NV = C_ENT[T_SDISC.ELEMENT].N_VERTICES, NQ = D == 2 ? 5 : 9, NM = D == 2 ? 3 : 6, MD = N_ELEMENT_MODES, MF = N_FACE_MODES;
typedef real_base R_;
typedef edge::seismic::solvers::AderDg< R_, N_RELAXATION_MECHANISMS, T_SDISC.ELEMENT, ORDER, ORDER, N_CRUNS, MM_KERNELS_SPARSE > Solver;
typedef std::size_t S_; static S_ const MX = std::numeric_limits< S_ >::max();
#if PP_PRECISION == 64
static double const TOLR = 2E-10;
#else
static double const TOLR = 2E-4;
#endif
template< typename X > struct Al { X * p; size_t n; Al(): p( nullptr ), n( 0 ) {} void alloc( size_t i_n ) { n = std::max< size_t >( i_n, 1 ); void * v; if( posix_memalign( &v, 4096, n*sizeof( X ) ) ) abort(); p = (X*) v; memset( (void*) p, 0, n*sizeof( X ) ); } ~Al() { free( p ); } Al( Al const & ) = delete; };

struct Rank {
  S_ nIn = 0, nSe = 0, nFa = 0; std::vector< int > gl; // global ids of the elements
  std::vector< std::array< S_, NV > > elVe; std::vector< std::array< S_, NF > > elFa, elFaEl; std::vector< std::array< unsigned short, NF > > fId, vId; std::vector< std::array< S_, 2 > > faEl;
  std::vector< t_faceChars > fc; std::vector< t_elementChars > ec; std::vector< t_bgPars > bg, bgR; std::vector< unsigned short > reFa; std::vector< S_ > reEl;
  std::vector< std::pair< S_, S_ > > rg; std::vector< int > rgTg; // ranges of the time groups
  Al< R_ [NQ][MD][CR] > dE, td[3]; Al< R_ [MD][CR] > dA; typedef R_ (*P)[MD][CR]; typedef R_ (*PF)[MF][CR]; std::vector< P > tp[3]; std::vector< PF > se; std::vector< R_ const (*)[MF][CR] > re; std::vector< std::unique_ptr< Al< R_ [MF][CR] > > > buf;
  edge::data::Dynamic dyn; std::unique_ptr< Solver > sol; std::vector< std::array< int, 2 > > ghost;
};

// memory variables of a body at rest; returns the relative change over the time step
static double decay( double dt, double om[std::max( int( N_RELAXATION_MECHANISMS ), 1 )], double res[std::max( int( N_RELAXATION_MECHANISMS ), 1 )] ) {
#if PP_N_RELAXATION_MECHANISMS > 0
  VD fr( 2*RM-1 ); edge::seismic::setups::ViscoElasticity::frequencies( RM, 0.7, 25, fr.data() ); R_ rf[RM]; for( int l = 0; l < RM; l++ ) { rf[l] = fr[2*l]; om[l] = fr[2*l]; }
  edge::data::Dynamic dyn; edge::seismic::kernels::Kernels< R_, RM, T, O, O, CR > k( rf, dyn );
  static Al< R_ [NQ][MD][CR] > e, ti, scr; static Al< R_ [O][NQ][MD][CR] > de; static Al< R_ [RM][NM][MD][CR] > a, ta; static Al< R_ [RM][O][NM][MD][CR] > da; if( e.p == nullptr ) { e.alloc( 1 ); ti.alloc( 1 ); scr.alloc( 1 ); de.alloc( 1 ); a.alloc( 1 ); ta.alloc( 1 ); da.alloc( 1 ); }
  memset( e.p, 0, sizeof( *e.p ) ); for( int l = 0; l < RM; l++ ) for( int q = 0; q < NM; q++ ) for( int i = 0; i < MD; i++ ) for( int c = 0; c < CR; c++ ) a.p[0][l][q][i][c] = 1;
  bool const SP = MM_KERNELS_SPARSE; static R_ sE[D][SP ? CE_N_ENS_STAR_E_SP( D ) : CE_N_ENS_STAR_E_DE( D )], sA[D][SP ? CE_N_ENS_STAR_A_SP( D ) : CE_N_ENS_STAR_A_DE( D )], src[RM][SP ? CE_N_ENS_SRC_A_SP( D ) : CE_N_ENS_SRC_A_DE( D )]; // zero: no coupling
  k.m_time.ck( dt, sE, sA, src, *e.p, *a.p, *scr.p, *de.p, *da.p, *ti.p, *ta.p ); k.m_volInt.apply( sE, sA, src, *ti.p, *ta.p, *e.p, *a.p, *scr.p );
  for( int l = 0; l < RM; l++ ) res[l] = a.p[0][l][0][0][0];
#endif
  return dt;
}
// the predictor of the memory variables has the sign of the equations (see the check decay)
static bool predOk() {
  if( RM == 0 ) return true; double om[8], r[8]; decay( 1E-3, om, r ); double w = om[RM-1]*1E-3;
  return std::fabs( r[RM-1] - ( 1 - w + w*w/2 ) ) < std::fabs( r[RM-1] - ( 1 - w - w*w/2 ) );
}

static void run( pbt::Src & s, pbt::Ctx & c, bool poly ) {
  ref::DMesh m( s, c, T, T == TET4 ? 12 : 12, !poly ); int nRk = m.nE > 1 ? s.i( 1, 2 ) : 1; auto tg = ref::timeGroups( s, m, 2 ); int G = *std::max_element( tg.begin(), tg.end() );
  double Ru = s.b( 0.3 ) ? 2500 : 1, Mu = Ru == 1 ? 1 : 3E10, Su = std::sqrt( Ru*Mu ); bool homog = poly || s.b( 0.2 );
  std::vector< Mat > mat( m.nE ); std::vector< double > qp( m.nE ), qs( m.nE );
  for( int e = 0; e < m.nE; e++ ) { if( homog && e > 0 ) { mat[e] = mat[0]; qp[e] = qp[0]; qs[e] = qs[0]; continue; } mat[e].rho = (R_)( Ru*s.r( 0.5, 2 ) ); mat[e].lam = (R_)( Mu*s.r( 0.3, 2 ) ); mat[e].mu = (R_)( Mu*s.r( 0.3, 2 ) ); qp[e] = s.r( 30, 200 ); qs[e] = s.r( 20, 100 ); }
  std::vector< int > bc( m.nF ); for( auto & b : bc ) b = s.b() ? FREE_SURFACE : OUTFLOW;
  std::vector< int > rk( m.nE ); for( auto & r : rk ) r = nRk > 1 ? s.draw( 2 ) : 0;
  double fcen = 0.7, frat = 25;
  // ranks
  Rank rs[2]; std::vector< int > loc( m.nE );
  for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r];
    for( int se = 0; se < 2; se++ ) for( int g = 0; g <= G; g++ ) { S_ b = k.gl.size(); for( int e = 0; e < m.nE; e++ ) if( rk[e] == r && tg[e] == g ) { bool x = false; for( int f = 0; f < NF; f++ ) x = x || ( m.elFaEl[e][f] >= 0 && rk[m.elFaEl[e][f]] != r ); if( x == ( se == 1 ) ) { loc[e] = k.gl.size(); k.gl.push_back( e ); ( se ? k.nSe : k.nIn )++; } } k.rg.push_back( { b, k.gl.size()-b } ); k.rgTg.push_back( g ); }
  }
  std::vector< t_vertexChars > vc( m.ve.size() ); for( size_t v = 0; v < vc.size(); v++ ) { memset( &vc[v], 0, sizeof( vc[v] ) ); for( int d = 0; d < 3; d++ ) vc[v].coords[d] = m.ve[v][d]; }
  // exact geometry as seen by the solver
  for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r]; S_ n = k.gl.size(); std::map< int, S_ > fm; std::vector< int > fl;
    for( int f = 0; f < m.nF; f++ ) { bool u = rk[m.fa[f].eL] == r || ( m.fa[f].eR >= 0 && !m.fa[f].per && rk[m.fa[f].eR] == r ); if( u ) { fm[f] = fl.size(); fl.push_back( f ); } }
    k.nFa = fl.size(); k.elVe.resize( n ); k.elFa.resize( n ); k.elFaEl.resize( n ); k.fId.resize( n ); k.vId.resize( n ); k.ec.resize( n ); k.bg.resize( n ); k.faEl.resize( k.nFa ); k.fc.resize( k.nFa );
    for( S_ f = 0; f < k.nFa; f++ ) { auto & F = m.fa[fl[f]]; bool own = rk[F.eL] == r; S_ l = own ? loc[F.eL] : loc[F.eR]; S_ o = own ? ( F.eR >= 0 && rk[F.eR] == r ? (S_) loc[F.eR] : MX ) : MX; k.faEl[f] = { { l, o } }; t_faceChars & x = k.fc[f]; memset( &x, 0, sizeof( x ) ); x.area = F.area; for( int d = 0; d < 3; d++ ) { x.outNormal[d] = own ? F.R[d][0] : -F.R[d][0]; x.tangent0[d] = F.R[d][1]; x.tangent1[d] = F.R[d][2]; } x.spType = F.per ? PERIODIC : F.eR < 0 ? bc[fl[f]] : 0; }
    for( S_ e = 0; e < n; e++ ) { int ge = k.gl[e]; memset( &k.ec[e], 0, sizeof( t_elementChars ) ); for( int v = 0; v < NV; v++ ) k.elVe[e][v] = m.elVe[ge][v]; bool lt = false, gt = false;
      for( int f = 0; f < NF; f++ ) { int a = m.elFaEl[ge][f]; k.elFa[e][f] = fm[m.elFa[ge][f]]; bool lo = a >= 0 && rk[a] == r; k.elFaEl[e][f] = lo ? loc[a] : MX; k.fId[e][f] = a >= 0 ? m.fId[ge][f] : std::numeric_limits< unsigned short >::max(); k.vId[e][f] = a >= 0 ? m.vId[ge][f] : std::numeric_limits< unsigned short >::max();
        int rel = a < 0 || tg[a] == tg[ge] ? AD_EQ : tg[ge] < tg[a] ? AD_LT : AD_GT; k.ec[e].spType |= C_LTS_AD[f][rel]; k.ec[e].spType |= C_LTS_EL[rel]; lt = lt || rel == AD_LT; gt = gt || rel == AD_GT;
        if( a >= 0 && !lo ) { k.reEl.push_back( e ); k.reFa.push_back( f ); t_bgPars b; b.rho = mat[a].rho; b.lam = mat[a].lam; b.mu = mat[a].mu; b.qp = qp[a]; b.qs = qs[a]; k.bgR.push_back( b ); k.ghost.push_back( { { a, m.fId[ge][f] } } ); } }
      k.bg[e].rho = mat[ge].rho; k.bg[e].lam = mat[ge].lam; k.bg[e].mu = mat[ge].mu; k.bg[e].qp = qp[ge]; k.bg[e].qs = qs[ge]; }
    k.dE.alloc( n ); k.dA.alloc( n*std::max( RM*NM, 1 ) ); for( int i = 0; i < 3; i++ ) { k.td[i].alloc( n ); k.tp[i].resize( n+1 ); for( S_ e = 0; e < n; e++ ) k.tp[i][e] = i == 0 || ( i == 1 && ( k.ec[e].spType & C_LTS_EL[EL_INT_LT] ) ) || ( i == 2 && ( k.ec[e].spType & C_LTS_EL[EL_INT_GT] ) ) ? k.td[i].p[e] : nullptr; }
    k.se.assign( n*NF+1, nullptr ); k.re.assign( n*NF+1, nullptr );
    k.sol.reset( new Solver( k.nIn, k.nSe, k.nFa, (S_) k.reEl.size(), k.reFa.data(), k.reEl.data(), (S_ (*)[2]) k.faEl.data(), (S_ (*)[NV]) k.elVe.data(), (S_ (*)[NF]) k.elFa.data(), vc.data(), k.fc.data(), k.ec.data(), k.bg.data(), k.bgR.data(), fcen, frat, k.dyn ) );
  }
  for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r]; for( size_t i = 0; i < k.reEl.size(); i++ ) { auto g = k.ghost[i]; Rank & o = rs[1-r]; std::unique_ptr< Al< R_ [MF][CR] > > b( new Al< R_ [MF][CR] > ); b->alloc( 2*NQ ); for( size_t x = 0; x < 2*NQ*MF*CR; x++ ) ( (R_*) b->p )[x] = 1E6; o.se[loc[g[0]]*NF+g[1]] = b->p; k.re[k.reEl[i]*NF+k.reFa[i]] = b->p; o.buf.push_back( std::move( b ) ); } }
  // reference
  std::vector< std::unique_ptr< ref::Dg > > rf; std::vector< Mat > mu = mat;
  for( int cr = 0; cr < CR; cr++ ) { rf.emplace_back( new ref::Dg( m, O, NQ, NM, RM ) ); ref::Dg & g = *rf.back(); g.predSign = predOk() ? -1 : 1;
    for( int e = 0; e < m.nE; e++ ) {
      if( RM > 0 ) { double sr[std::max( RM,1 )][NM*NM], la, mm; edge::seismic::setups::ViscoElasticity::src( RM, fcen, frat, (R_) qp[e], (R_) qs[e], mat[e].lam, mat[e].mu, la, mm, sr ); mu[e].lam = la; mu[e].mu = mm; for( int l = 0; l < RM; l++ ) { VD E( NQ*NM, 0. ); for( int a = 0; a < NM; a++ ) for( int b = 0; b < NM; b++ ) E[a*NM+b] = sr[l][a*NM+b]; g.E[e].push_back( E ); } }
      for( int d = 0; d < D; d++ ) { g.A[e].push_back( jacEl( D, d, mu[e] ) ); VD a = jacAn( D, d ), b( NM*NQ, 0. ); for( int i = 0; i < NM; i++ ) for( int v = 0; v < D; v++ ) b[i*NQ+NM+v] = a[i*D+v]; g.An[e].push_back( b ); } }
    if( RM > 0 ) { VD fr( 2*RM-1 ); edge::seismic::setups::ViscoElasticity::frequencies( RM, fcen, frat, fr.data() ); for( int l = 0; l < RM; l++ ) g.om.push_back( fr[2*l] ); }
    g.flux = [&]( int e, int f, double const * in, double const * out, double * fe, double * fa ) { double R[3][3]; m.frame( e, f, R ); int a = m.elFaEl[e][f]; godunov( D, R, mu[e], a >= 0 ? mu[a] : mu[e], in, out, a < 0 && bc[m.elFa[e][f]] == FREE_SURFACE, fe, fa ); };
    g.bnd = [&]( int e, int f ) { return bc[m.elFa[e][f]] == FREE_SURFACE ? 1 : 0; };
  }
  // initial values: random or a global polynomial
  auto un = [&]( int q ) { return q < NM ? Su : 1.; };
  std::vector< std::array< double, 40 > > pc; std::vector< std::array< int, 3 > > mo; for( int i = 0; i < O; i++ ) for( int j = 0; j < ( D > 1 ? O : 1 ); j++ ) for( int k = 0; k < ( D > 2 ? O : 1 ); k++ ) if( i+j+k < O ) mo.push_back( { { i, j, k } } );
  for( int cr = 0; cr < CR; cr++ ) { ref::Dg & g = *rf[cr]; std::vector< VD > co; if( poly ) for( int q = 0; q < NQ; q++ ) { VD x; for( size_t k = 0; k < mo.size(); k++ ) x.push_back( s.sr( 1 )*un( q ) ); co.push_back( x ); }
    for( int e = 0; e < m.nE; e++ ) { Rank & k = rs[rk[e]];
      for( int q = 0; q < NQ; q++ ) {
        VD v( MD, 0. );
        if( poly ) { for( auto & p : g.q ) { double x[3] = { 0,0,0 }; m.phy( e, p.x, x ); double y = 0; for( size_t z = 0; z < mo.size(); z++ ) y += co[q][z]*std::pow( x[0], mo[z][0] )*std::pow( x[1], mo[z][1] )*std::pow( x[2], mo[z][2] )*std::pow( 0.3, mo[z][0]+mo[z][1]+mo[z][2] ); size_t ip = &p - &g.q[0]; for( int i = 0; i < MD; i++ ) v[i] += p.w*g.ph[ip][i]*y/g.mass[i]; } }
        else for( int i = 0; i < MD; i++ ) v[i] = s.sr( 1 )*un( q )/( 1+i );
        for( int i = 0; i < MD; i++ ) { R_ x = v[i]; k.dE.p[loc[e]][q][i][cr] = x; g.el[e].u[q*MD+i] = x; } }
      for( int l = 0; l < RM; l++ ) for( int q = 0; q < NM; q++ ) for( int i = 0; i < MD; i++ ) { R_ x = poly ? 0 : s.sr( 1 )/( 1+i ); k.dA.p[( loc[e]*RM+l )*NM+q][i][cr] = x; g.el[e].th[l][q*MD+i] = x; }
    } }
  // time stepping
  double dt0 = 1E30; for( int e = 0; e < m.nE; e++ ) { double h = 1E30; for( int f = 0; f < NF; f++ ) h = std::min( h, m.det[e]/m.fa[m.elFa[e][f]].area ); dt0 = std::min( dt0, 0.3*h/std::sqrt( ( mu[e].lam+2*mu[e].mu )/mu[e].rho )/( 2*O-1 )/( 1 << tg[e] ) ); }
  dt0 = dt0*s.r( 0.3, 1 ); int cyc = 1 << G, nSt = cyc*s.i( 1, G == 0 ? 3 : 2 );
  edge::io::Receivers recv; static Al< t_scratchMem > scr; if( scr.p == nullptr ) scr.alloc( 1 ); edge::parallel::g_scratchMem = scr.p;
  // receivers in some of the elements, sampled at times of their own
  RecStub rst[2]; std::vector< int > reGl[2]; std::vector< S_ > reFi[2]; size_t nDue = 0, nWr = 0; bool anyRe = s.b( 0.6 );
  for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r]; for( size_t e = 0; e < k.gl.size(); e++ ) { reFi[r].push_back( reGl[r].size() ); if( anyRe && s.b( 0.4 ) ) { k.ec[e].spType |= RECEIVER; reGl[r].push_back( k.gl[e] ); std::vector< double > du; double iv = dt0*( 1 << G )*s.lr( 0.15, 2 ), t = s.b() ? 0 : dt0*s.r( 0, 2 ); for( ; t < nSt*dt0 && du.size() < 12; t += iv ) { double y = t/dt0; if( std::fabs( y-std::round( y ) ) < 1E-6 && y > 0.5 ) continue; du.push_back( t ); } nDue += du.size(); rst[r].due.push_back( du ); rst[r].pos.push_back( 0 ); } } }
  double mx[2] = { 0, 0 };
  auto scale = [&]() { for( auto & g : rf ) for( auto & e : g->el ) for( int i = 0; i < NQ*MD; i++ ) { double & x = mx[i/MD < NM ? 0 : 1]; x = std::max( x, std::fabs( e.u[i] ) ); } }; scale();
  for( int st = 0; st < nSt; st++ ) {
    for( int pass = 0; pass < 2; pass++ ) for( int r = 0; r < nRk; r++ ) { Rank & k = rs[r]; R_ (* const * tp[3])[MD][CR] = { k.tp[0].data(), k.tp[1].data(), k.tp[2].data() }; g_rec = rst+r;
      auto ord = s.perm( k.rg.size() );
      for( auto oi : ord ) { int g = k.rgTg[oi], len = 1 << g; S_ a = k.rg[oi].first, n = k.rg[oi].second; if( n == 0 ) continue; bool act = pass == 0 ? st % len == 0 : ( st+1 ) % len == 0; if( !act ) continue; bool first = ( st/len ) % 2 == 0; S_ n0 = s.i( 0, n ); S_ pp[2][2] = { { a, n0 }, { a+n0, n-n0 } };
        for( auto & p : pp ) { if( p[1] == 0 ) continue;
          if( pass == 0 ) k.sol->local( p[0], p[1], first, st*dt0, len*dt0, reFi[r][p[0]], k.ec.data(), (unsigned short (*)[NF]) k.vId.data(), k.dE.p, k.dA.p, tp, k.se.data(), recv );
          else k.sol->neigh( p[0], p[1], first, k.fc.data(), k.ec.data(), (S_ (*)[NF]) k.elFa.data(), (S_ (*)[NF]) k.elFaEl.data(), (unsigned short (*)[NF]) k.fId.data(), (unsigned short (*)[NF]) k.vId.data(), tp, k.dE.p, k.dA.p, k.re.data() ); } } }
    for( auto & g : rf ) { for( int e = 0; e < m.nE; e++ ) if( st % ( 1 << tg[e] ) == 0 ) g->predict( e, dt0*( 1 << tg[e] ) ); }
    for( int r = 0; r < nRk; r++ ) { for( auto & w : rst[r].wr ) { int e = reGl[r][w.sp]; nWr++; for( int cr = 0; cr < CR; cr++ ) { auto & pc = rf[cr]->el[e].pc.back(); double x = w.t - pc.t0; c.require( x > -1E-9*dt0 && x < ( pc.t1-pc.t0 )*( 1+1E-9 ), "receiver is written outside of the time step" ); for( int q = 0; q < NQ; q++ ) for( int i = 0; i < MD; i++ ) { double y = 0, f = 1; for( size_t k = 0; k < pc.der.size(); k++ ) { y += f*pc.der[k][q*MD+i]; f *= x/( k+1 ); } c.close( w.v[( q*MD+i )*CR+cr]/un( q ), y/un( q ), 0, 10*TOLR*nSt*std::max( mx[0]/Su, mx[1] ), "receiver does not get the prediction at its sampling time, quantity " + std::to_string( q ) + " mode " + std::to_string( i ) ); } } } rst[r].wr.clear(); }
    for( auto & g : rf ) { for( int e = 0; e < m.nE; e++ ) if( ( st+1 ) % ( 1 << tg[e] ) == 0 ) g->correct( e, dt0*( 1 << tg[e] ) ); }
    scale();
  }
  double ms = std::max( mx[0]/Su, mx[1] ); c.requireF( nDue == nWr, [&]{ return "receivers: " + std::to_string( nDue ) + " samples are due, " + std::to_string( nWr ) + " were written"; } );
  for( int cr = 0; cr < CR; cr++ ) for( int e = 0; e < m.nE; e++ ) { Rank & k = rs[rk[e]]; auto & g = rf[cr]->el[e];
    for( int q = 0; q < NQ; q++ ) for( int i = 0; i < MD; i++ ) c.close( k.dE.p[loc[e]][q][i][cr]/un( q ), g.u[q*MD+i]/un( q ), 0, TOLR*nSt*ms, std::string( "element after the last step differs from the scheme, quantity " ) + std::to_string( q ) + " mode " + std::to_string( i ) + " run " + std::to_string( cr ) + " group " + std::to_string( tg[e] ) );
    for( int l = 0; l < RM; l++ ) for( int q = 0; q < NM; q++ ) for( int i = 0; i < MD; i++ ) c.close( k.dA.p[( loc[e]*RM+l )*NM+q][i][cr], g.th[l][q*MD+i], 0, 10*TOLR*nSt*std::max( ms, 1. ), "memory variable differs from the scheme, mechanism " + std::to_string( l ) ); }
  // exactness: elements outside of the boundary's influence follow the exact (polynomial) solution
  int exact = 0;
  if( poly && RM == 0 ) { int need = nSt; std::vector< int > dist( m.nE, 99 ); for( int e = 0; e < m.nE; e++ ) for( int f = 0; f < NF; f++ ) if( m.elFaEl[e][f] < 0 ) dist[e] = 0;
    for( int it = 0; it < 20; it++ ) for( int e = 0; e < m.nE; e++ ) for( int f = 0; f < NF; f++ ) if( m.elFaEl[e][f] >= 0 ) dist[e] = std::min( dist[e], dist[m.elFaEl[e][f]]+1 ); (void) need;
    for( int d : dist ) exact += d >= nSt; }
  c.nontrivial( m.nE > 1 ); std::ostringstream os; os << "elements " << m.nE << " ranks " << nRk << " time groups " << G+1 << " steps " << nSt << ( m.anyPer ? " periodic" : "" ) << ( poly ? " polynomial" : "" ); c.sample( os.str() );
}
PBT( scheme, 400, 3000, "mesh with more than one element" ) { run( s, c, false ); }

// the reference itself and the solver follow the exact solution of the PDE for polynomial data
PBT( exact, 150, 2000, "the mesh has elements with a full set of neighbors" ) {
  ref::DMesh m( s, c, T, T == TET4 ? 48 : 25, false ); std::vector< int > in; for( int e = 0; e < m.nE; e++ ) { bool b = true; for( int f = 0; f < NF; f++ ) b = b && m.elFaEl[e][f] >= 0; if( b ) in.push_back( e ); }
  if( in.empty() || RM > 0 ) c.discard();
  Mat mt{ s.r( 0.5, 2 ), s.r( 0.3, 2 ), s.r( 0.3, 2 ) };
  ref::Dg g( m, O, NQ, NM, 0 ); for( int e = 0; e < m.nE; e++ ) for( int d = 0; d < D; d++ ) g.A[e].push_back( jacEl( D, d, mt ) );
  // global polynomial: derivatives in time by the Cauchy-Kowalevski procedure on monomials
  typedef std::map< std::array< int, 3 >, VD > Po; Po p; for( int i = 0; i < O; i++ ) for( int j = 0; i+j < O; j++ ) for( int k = 0; i+j+k < O; k++ ) { if( D < 3 && k > 0 ) continue; VD v( NQ ); for( auto & x : v ) x = s.sr( 1 ); p[{ { i,j,k } }] = v; }
  double dt = 0.02*s.r( 0.2, 1 ); Po sol, cur = p; double f = 1;
  for( int k = 0; k < O; k++ ) { for( auto & t : cur ) { VD & v = sol[t.first]; v.resize( NQ, 0. ); for( int q = 0; q < NQ; q++ ) v[q] += f*t.second[q]; } f *= dt/( k+1 ); Po nx; for( auto & t : cur ) for( int d = 0; d < D; d++ ) if( t.first[d] > 0 ) { auto e = t.first; e[d]--; VD & v = nx[e]; v.resize( NQ, 0. ); VD A = jacEl( D, d, mt ); for( int a = 0; a < NQ; a++ ) for( int b = 0; b < NQ; b++ ) v[a] -= t.first[d]*A[a*NQ+b]*t.second[b]; } cur = nx; }
  auto ev = [&]( Po const & P, int q, double const * x ) { double y = 0; for( auto & t : P ) y += t.second[q]*std::pow( x[0], t.first[0] )*std::pow( x[1], t.first[1] )*std::pow( x[2], t.first[2] ); return y; };
  auto prj = [&]( Po const & P, int e ) { VD u( NQ*MD, 0. ); for( size_t ip = 0; ip < g.q.size(); ip++ ) { double x[3] = { 0,0,0 }; m.phy( e, g.q[ip].x, x ); for( int q = 0; q < NQ; q++ ) { double y = ev( P, q, x ); for( int i = 0; i < MD; i++ ) u[q*MD+i] += g.q[ip].w*y*g.ph[ip][i]/g.mass[i]; } } return u; };
  // solver on a single rank
  int el = in[s.draw( in.size() )]; std::vector< t_vertexChars > vc( m.ve.size() ); for( size_t v = 0; v < vc.size(); v++ ) { memset( &vc[v], 0, sizeof( vc[v] ) ); for( int d = 0; d < 3; d++ ) vc[v].coords[d] = m.ve[v][d]; }
  S_ n = m.nE; std::vector< std::array< S_, NV > > elVe( n ); std::vector< std::array< S_, NF > > elFa( n ), elFaEl( n ); std::vector< std::array< unsigned short, NF > > fI( n ), vI( n ); std::vector< std::array< S_, 2 > > faEl( m.nF ); std::vector< t_faceChars > fc( m.nF ); std::vector< t_elementChars > ec( n ); std::vector< t_bgPars > bg( n );
  for( int f2 = 0; f2 < m.nF; f2++ ) { auto & F = m.fa[f2]; faEl[f2] = { { (S_) F.eL, F.eR < 0 ? MX : (S_) F.eR } }; memset( &fc[f2], 0, sizeof( fc[f2] ) ); fc[f2].area = F.area; for( int d = 0; d < 3; d++ ) { fc[f2].outNormal[d] = F.R[d][0]; fc[f2].tangent0[d] = F.R[d][1]; fc[f2].tangent1[d] = F.R[d][2]; } fc[f2].spType = F.eR < 0 ? OUTFLOW : 0; }
  double mg = 0; Al< R_ [NQ][MD][CR] > dE, td; dE.alloc( n ); td.alloc( n ); std::vector< R_ (*)[MD][CR] > tp( n ); std::vector< R_ (*)[MF][CR] > se( n*NF, nullptr );
  for( S_ e = 0; e < n; e++ ) { memset( &ec[e], 0, sizeof( ec[e] ) ); for( int v = 0; v < NV; v++ ) elVe[e][v] = m.elVe[e][v]; for( int f2 = 0; f2 < NF; f2++ ) { elFa[e][f2] = m.elFa[e][f2]; int a = m.elFaEl[e][f2]; elFaEl[e][f2] = a < 0 ? MX : a; fI[e][f2] = m.fId[e][f2]; vI[e][f2] = m.vId[e][f2]; ec[e].spType |= C_LTS_AD[f2][AD_EQ] | C_LTS_EL[EL_INT_EQ]; } bg[e].rho = mt.rho; bg[e].lam = mt.lam; bg[e].mu = mt.mu; bg[e].qp = bg[e].qs = 100;
    VD u = prj( p, e ); tp[e] = td.p[e]; for( int q = 0; q < NQ; q++ ) for( int i = 0; i < MD; i++ ) for( int cr = 0; cr < CR; cr++ ) { dE.p[e][q][i][cr] = u[q*MD+i]*( 1+cr ); mg = std::max( mg, std::fabs( u[q*MD+i] ) ); } }
  edge::data::Dynamic dyn; Solver sol2( n, (S_) 0, (S_) m.nF, (S_) 0, (unsigned short*) nullptr, (S_*) nullptr, (S_ (*)[2]) faEl.data(), (S_ (*)[NV]) elVe.data(), (S_ (*)[NF]) elFa.data(), vc.data(), fc.data(), ec.data(), bg.data(), (t_bgPars*) nullptr, 1., 10., dyn );
  static Al< t_scratchMem > scr; if( scr.p == nullptr ) scr.alloc( 1 ); edge::parallel::g_scratchMem = scr.p; edge::io::Receivers recv; R_ (* const * t3[3])[MD][CR] = { tp.data(), nullptr, nullptr };
  sol2.local( (S_) 0, n, true, 0., dt, (S_) 0, ec.data(), (unsigned short (*)[NF]) vI.data(), dE.p, (R_ (*)[MD][CR]) nullptr, t3, se.data(), recv );
  sol2.neigh( (S_) 0, n, true, fc.data(), ec.data(), (S_ (*)[NF]) elFa.data(), (S_ (*)[NF]) elFaEl.data(), (unsigned short (*)[NF]) fI.data(), (unsigned short (*)[NF]) vI.data(), t3, dE.p, (R_ (*)[MD][CR]) nullptr, (R_ const (* const *)[MF][CR]) nullptr );
  for( int e : in ) { VD u = prj( sol, e ); for( int q = 0; q < NQ; q++ ) for( int i = 0; i < MD; i++ ) for( int cr = 0; cr < CR; cr++ ) c.close( dE.p[e][q][i][cr]/( 1+cr ), u[q*MD+i], 0, 100*TOLR*mg, "interior element does not follow the exact solution, quantity " + std::to_string( q ) + " mode " + std::to_string( i ) ); }
  (void) el; c.nontrivial(); std::ostringstream os; os << "elements " << m.nE << " interior " << in.size() << " dt " << dt; c.sample( os.str() );
}

// memory variables of a body at rest decay exponentially with the relaxation frequencies
#if PP_N_RELAXATION_MECHANISMS > 0
PBT( decayRest, 50, 1000, "always" ) {
  double om[8], r[8], dt = s.lr( 1E-4, 1E-2 ); decay( dt, om, r );
  for( int l = 0; l < RM; l++ ) { double w = om[l]*dt, e = 0, f = 1, g = 1, b = 1; for( int k = 0; k <= O; k++ ) { e += f; f *= -w/( k+1 ); } for( int k = 0; k < O; k++ ) { g *= w/( k+1 ); b -= g; }
    if( std::fabs( r[l]-e ) > 1E-12 && std::fabs( r[l]-b ) < 1E-12 ) c.fail( "memory variables at rest do not decay exponentially: sign of the predictor" );
    c.close( r[l], e, 1E-12, 0, "decay of the memory variables, mechanism " + std::to_string( l ) ); }
  c.nontrivial(); c.sample( "dt " + std::to_string( dt ) );
}
#endif
