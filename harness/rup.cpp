// spontaneous rupture: friction law, Riemann solvers at internal boundaries, setup of the fault
#include "pbt.hpp"
#include "constants.hpp"
#include "data/MmVanilla.hpp"
#include "linalg/Geom.hpp"
#include "linalg/Domain.hpp"
#include "linalg/HalfSpace.hpp"
#include "data/EntityLayout.type"
#include "sc/ibnd/InternalBoundary.type"
#include "impl/seismic/common.hpp"
#include "impl/seismic/solvers/FrictionLaws.hpp"
#include "impl/seismic/solvers/InternalBoundary.hpp"
#include "impl/seismic/setups/RuptureInit.hpp"
#include "seisref.hpp"
#include <array>
using namespace edge::seismic;

// linear slip weakening with Coulomb friction (reference); all components in the fault-local frame
struct Lsw { double mus, mud, dc, sn0, co0, ss0[2], zM, zP; double muf, dd[2]; };
struct LswOut { bool per, amb; double st, tr[2], dM[2], dP[2], sr[2]; }; // total traction, changes of the tangential velocities
static LswOut lsw( int nt, Lsw & x, double sn, double const * ts, double dt, double err ) {
  LswOut o; double s = x.muf*( x.sn0+sn ) + x.co0; o.st = s < 0 ? -s : 0; double T[2] = {}, a = 0; for( int k = 0; k < nt; k++ ) { T[k] = x.ss0[k]+ts[k]; a += T[k]*T[k]; } a = std::sqrt( a );
  o.per = a > o.st; o.amb = std::fabs( a-o.st ) < err; double d = 0;
  for( int k = 0; k < nt; k++ ) { o.tr[k] = o.per ? T[k]*o.st/a : T[k]; double j = o.tr[k]-T[k]; o.dM[k] = -j/x.zM; o.dP[k] = j/x.zP; o.sr[k] = o.dP[k]-o.dM[k]; x.dd[k] += std::fabs( o.sr[k] )*dt; d += x.dd[k]*x.dd[k]; }
  x.muf = std::max( x.mud, x.mus-( x.mus-x.mud )*std::sqrt( d )/x.dc ); return o;
}
template< typename R > static double eps() { return sizeof( R ) == 8 ? 1E-12 : 2E-5; }
static void genLsw( pbt::Src & s, Lsw & x, int nt, double zM, double zP, double S ) {
  x.mus = s.r( 0.3, 0.9 ); x.mud = s.b( 0.1 ) ? x.mus : x.mus*s.r( 0.2, 1 ); x.dc = s.lr( 1E-3, 2 ); x.sn0 = s.b( 0.1 ) ? 0 : s.b( 0.1 ) ? s.r( 0, 1 )*S : -s.r( 0.1, 2 )*S; x.co0 = s.b( 0.5 ) ? 0 : -s.r( 0, 0.5 )*S;
  double a = s.pick< double >( { 0.1, 1., 1.5 } )*x.mus*std::fabs( x.sn0 ), p = s.r( 0, 6.28 ); if( nt == 1 ) { x.ss0[0] = s.b( 0.15 ) ? 0 : s.b() ? a : -a; x.ss0[1] = 0; } else { x.ss0[0] = a*std::cos( p ); x.ss0[1] = a*std::sin( p ); if( s.b( 0.15 ) ) x.ss0[s.draw( 2 )] = 0; }
  x.zM = zM; x.zP = zP; x.muf = x.mus; x.dd[0] = x.dd[1] = 0;
}

// histories of the friction law
template< int D, typename R, int CR > static void fric( pbt::Src & s, pbt::Ctx & c ) {
  constexpr int NQ = D == 2 ? 5 : 9, NT = D-1; int const TS[2] = { D == 2 ? 2 : 3, 5 }, TV[2] = { D == 2 ? 4 : 7, 8 };
  double S = 1E7*s.r( 0.5, 5 ), rM = s.r( 1500, 3500 ), rP = s.b() ? rM : s.r( 1500, 3500 ), mM = s.lr( 5E9, 5E10 ), mP = s.b() ? mM : s.lr( 5E9, 5E10 ), zM = std::sqrt( rM*mM ), zP = std::sqrt( rP*mP );
  solvers::t_LinSlipWeakGlobal< R, CR > gl; solvers::t_LinSlipWeakFace< R > fa; solvers::t_LinSlipWeakSubFace< R, D, CR > sf; memset( &sf, 0, sizeof( sf ) );
  fa.lEqM = s.b(); fa.csDmuM = 1/zM; fa.csDmuP = 1/zP; std::vector< Lsw > x( CR );
  for( int i = 0; i < CR; i++ ) { genLsw( s, x[i], NT, zM, zP, S ); gl.mus[i] = x[i].mus; gl.mud[i] = x[i].mud; gl.dcInv[i] = 1/x[i].dc; sf.sn0[i] = x[i].sn0; sf.co0[i] = x[i].co0; double a = 0; for( int k = 0; k < NT; k++ ) { sf.ss0[k][i] = x[i].ss0[k]; a += x[i].ss0[k]*x[i].ss0[k]; } sf.ss0A[i] = std::sqrt( a ); sf.muf[i] = x[i].mus;
    x[i].mus = gl.mus[i]; x[i].mud = gl.mud[i]; x[i].dc = 1/(double) gl.dcInv[i]; x[i].sn0 = sf.sn0[i]; x[i].co0 = sf.co0[i]; for( int k = 0; k < NT; k++ ) x[i].ss0[k] = sf.ss0[k][i]; x[i].muf = sf.muf[i]; x[i].zM = 1/(double) fa.csDmuM; x[i].zP = 1/(double) fa.csDmuP; }
  int steps = s.i( 1, 12 ), slipped = 0, locked = 0, opp = 0, weak = 0; double e = eps< R >(); R oldMuf[CR]; for( int i = 0; i < CR; i++ ) oldMuf[i] = sf.muf[i];
  for( int t = 0; t < steps; t++ ) {
    R ms[NQ][CR], l[NQ][CR], r[NQ][CR]; bool per[CR]; for( int q = 0; q < NQ; q++ ) for( int i = 0; i < CR; i++ ) { ms[q][i] = s.b( 0.1 ) ? 0 : s.sr( q < ( D == 2 ? 3 : 6 ) ? S : 5 ); l[q][i] = r[q][i] = -77; }
    R dt = s.lr( 1E-4, 1E-1 );
    if( s.b() ) { typedef solvers::t_LinSlipWeakSubFace< R, D, CR > Sf; struct Fd { solvers::t_LinSlipWeakGlobal< R, CR > * gl; solvers::t_LinSlipWeakFace< R > * fa; Sf (*sf)[4]; } fd; Sf arr[4]; memset( arr, 1, sizeof( arr ) ); int p = s.draw( 4 ); arr[p] = sf; fd.gl = &gl; fd.fa = &fa; fd.sf = &arr; Sf bak[4]; memcpy( bak, arr, sizeof( arr ) );
      solvers::FrictionLaws< D, CR >::perturb( (unsigned short) p, dt, ms, &fd, l, r, per ); sf = arr[p]; for( int k = 0; k < 4; k++ ) if( k != p ) c.require( memcmp( bak+k, arr+k, sizeof( Sf ) ) == 0, "other sub-faces keep their data" ); }
    else solvers::FrictionLaws< D, CR >::perturb( dt, gl, fa, ms, sf, l, r, per );
    for( int i = 0; i < CR; i++ ) { std::string w = " (step " + std::to_string( t ) + ", run " + std::to_string( i ) + ")"; double ts[2] = {}; for( int k = 0; k < NT; k++ ) ts[k] = ms[TS[k]][i];
      double sc = 4*S+std::fabs( x[i].sn0 )+std::fabs( x[i].co0 )+std::fabs( x[i].ss0[0] )+std::fabs( x[i].ss0[1] ), mufB = x[i].muf; (void) mufB; LswOut o = lsw( NT, x[i], ms[0][i], ts, dt, 10*e*sc ); if( o.amb ) { c.discard(); return; }
      c.require( per[i] == o.per, std::string( "the fault " ) + ( o.per ? "fails" : "is locked" ) + w ); double vs = sc/std::min( x[i].zM, x[i].zP )+10; R ( *m )[CR] = fa.lEqM ? l : r, ( *p )[CR] = fa.lEqM ? r : l;
      c.close( sf.st[i], o.st, 0, 20*e*sc, "strength" + w ); double av = 0;
      for( int q = 0; q < NQ; q++ ) { int kS = -1, kV = -1; for( int k = 0; k < NT; k++ ) { if( q == TS[k] ) kS = k; if( q == TV[k] ) kV = k; } std::string z = " quantity " + std::to_string( q ) + w;
        if( kS >= 0 ) { c.close( m[q][i], o.tr[kS]-x[i].ss0[kS], 0, 20*e*sc, "minus side," + z ); c.close( p[q][i], o.tr[kS]-x[i].ss0[kS], 0, 20*e*sc, "plus side," + z ); c.close( sf.tr[kS][i], o.tr[kS], 0, 20*e*sc, "traction" + w ); av += double( sf.tr[kS][i] )*sf.tr[kS][i]; }
        else if( kV >= 0 ) { c.close( m[q][i], ms[q][i]+o.dM[kV], 0, 20*e*vs, "minus side," + z ); c.close( p[q][i], ms[q][i]+o.dP[kV], 0, 20*e*vs, "plus side," + z ); c.close( sf.sr[kV][i], o.sr[kV], 0, 40*e*vs, "slip rate" + w ); c.close( sf.dd[kV][i], x[i].dd[kV], 100*e, 40*e*vs*dt*( t+1 ), "slip" + w ); }
        else { c.require( m[q][i] == ms[q][i] && p[q][i] == ms[q][i], "friction changes only the fault-tangential quantities," + z ); } }
      c.require( std::sqrt( av ) <= sf.st[i] + 40*e*sc || !o.per, "traction above the strength" + w );
      c.close( sf.muf[i], x[i].muf, 100*e, 100*e*vs*dt*( t+1 )/x[i].dc, "friction coefficient" + w ); c.require( sf.muf[i] <= oldMuf[i]*( 1+1E-6 ) && sf.muf[i] >= x[i].mud*( 1-1E-6 ) && sf.muf[i] <= x[i].mus*( 1+1E-6 ), "friction coefficient between the dynamic and static value, never increasing" + w ); oldMuf[i] = sf.muf[i];
      // follow the rounding of the code under test
      x[i].muf = sf.muf[i]; for( int k = 0; k < NT; k++ ) x[i].dd[k] = sf.dd[k][i];
      if( o.per ) { slipped++; if( x[i].ss0[0]*( x[i].ss0[0]+ts[0] ) <= 0 ) opp++; } else locked++; if( x[i].muf < x[i].mus ) weak++; }
  }
  if( slipped && locked && weak ) c.nontrivial(); std::ostringstream os; os << D << "D, runs " << CR << " steps " << steps << " slipped " << slipped << " locked " << locked << " against the initial shear stress " << opp << " mu " << sf.muf[0]; c.sample( os.str() );
}
PBT( friction, 40000, 1000000, "fault slips, weakens and locks in the history" ) { switch( s.draw( 6 ) ) { case 0: fric< 2, double, 1 >( s, c ); break; case 1: fric< 2, double, 4 >( s, c ); break; case 2: fric< 3, double, 1 >( s, c ); break; case 3: fric< 3, double, 3 >( s, c ); break; case 4: fric< 2, float, 2 >( s, c ); break; default: fric< 3, float, 2 >( s, c ); } }

// set-up shared by the net-update check
static t_entityType const EL = T_SDISC.ELEMENT; static int const D_ = N_DIM, NQ_ = D_ == 2 ? 5 : 9, O_ = ORDER, CR_ = N_CRUNS; typedef real_base RB;
static int const NSF = CE_N_SUB_FACES( EL, O_ ), NSC = CE_N_SUB_CELLS( EL, O_ );
struct NoFriction { template< typename R, typename F > static void perturb( unsigned short, R, R const ms[NQ_][CR_], F *, R l[NQ_][CR_], R r[NQ_][CR_], bool per[CR_] ) { for( int q = 0; q < NQ_; q++ ) for( int i = 0; i < CR_; i++ ) { l[q][i] = r[q][i] = ms[q][i]; per[i] = false; } } };
static void unit( pbt::Src & s, int d, double * n ) { double a; do { a = 0; for( int k = 0; k < 3; k++ ) { n[k] = k < d ? s.sr( 1 ) : 0; a += n[k]*n[k]; } a = std::sqrt( a ); if( a <= 0.1 ) { n[0] = a = 1; n[1] = n[2] = 0; } } while( 0 ); for( int k = 0; k < 3; k++ ) n[k] /= a; if( s.b( 0.2 ) ) { int ax = s.draw( d ); double sg = s.b() ? 1 : -1; for( int k = 0; k < 3; k++ ) n[k] = k == ax ? sg : 0; } }
static void frame( pbt::Src & s, int d, double const * n, double R[3][3] ) { for( int k = 0; k < 3; k++ ) R[k][0] = n[k]; if( d == 2 ) { R[0][1] = -n[1]; R[1][1] = n[0]; R[2][1] = 0; for( int k = 0; k < 3; k++ ) R[k][2] = k == 2; return; }
  double t[3], dot = 0, a = 0; int ax = 0; for( int k = 1; k < 3; k++ ) if( std::fabs( n[k] ) < std::fabs( n[ax] ) ) ax = k; double ph = s.r( 0, 6.28 ), e1[3], e2[3]; for( int k = 0; k < 3; k++ ) { t[k] = k == ax; dot += t[k]*n[k]; } for( int k = 0; k < 3; k++ ) { e1[k] = t[k]-dot*n[k]; a += e1[k]*e1[k]; } for( int k = 0; k < 3; k++ ) e1[k] /= std::sqrt( a ); for( int k = 0; k < 3; k++ ) e2[k] = n[(k+1)%3]*e1[(k+2)%3]-n[(k+2)%3]*e1[(k+1)%3];
  for( int k = 0; k < 3; k++ ) { R[k][1] = std::cos( ph )*e1[k]+std::sin( ph )*e2[k]; R[k][2] = -std::sin( ph )*e1[k]+std::cos( ph )*e2[k]; } }
static void rot( double const * a, double const * b, double const * v, double * o ) { // minimal rotation from a to b applied to v
  double x[3], cs = 0; for( int k = 0; k < 3; k++ ) { x[k] = a[(k+1)%3]*b[(k+2)%3]-a[(k+2)%3]*b[(k+1)%3]; cs += a[k]*b[k]; } double d = 0; for( int k = 0; k < 3; k++ ) d += x[k]*v[k]; for( int k = 0; k < 3; k++ ) o[k] = cs*v[k] + ( x[(k+1)%3]*v[(k+2)%3]-x[(k+2)%3]*v[(k+1)%3] ) + x[k]*d/( 1+cs ); }

// Riemann states and net-updates for a set of faces at the internal boundary
PBT( net_updates, 15000, 400000, "faces in both directions of the fault normal, friction active" ) {
  using namespace edge; constexpr int NV = C_ENT[EL].N_VERTICES; typedef std::size_t I; bool useBnd = s.b( 0.75 ), fr = useBnd && s.b( 0.7 ), same = s.b( 0.3 ); int nEl = s.i( 2, 8 ), nFa = s.i( 1, 10 );
  struct Bg { RB rho, lam, mu; }; std::vector< Bg > bg( nEl ); std::vector< Mat > mat( nEl ); for( int e = 0; e < nEl; e++ ) { bg[e].rho = same && e ? bg[0].rho : RB( s.r( 1000, 3500 ) ); bg[e].lam = same && e ? bg[0].lam : RB( s.lr( 1E9, 5E10 ) ); bg[e].mu = same && e ? bg[0].mu : RB( s.lr( 1E9, 5E10 ) ); mat[e] = { bg[e].rho, bg[e].lam, bg[e].mu }; }
  std::vector< t_elementChars > ec( nEl ); for( auto & x : ec ) { memset( &x, 0, sizeof( x ) ); x.volume = s.lr( 1E1, 1E6 ); } double bn[3], bR[3][3]; unit( s, D_, bn ); frame( s, D_, bn, bR );
  std::vector< t_faceChars > fc( nFa ); std::vector< std::array< I, 2 > > fe( nFa ); std::vector< std::array< I, NV > > ev( nEl ); std::vector< int > sp; struct Fr { double R[3][3]; bool pref; }; std::vector< Fr > fs; bool both[2] = { false, false }; long long const SP = 4096|32;
  for( int f = 0; f < nFa; f++ ) { memset( &fc[f], 0, sizeof( fc[f] ) ); double n[3]; bool isSp = s.b( 0.8 ); if( useBnd && isSp && s.b( 0.5 ) ) { double sg = s.b() ? 1 : -1; for( int k = 0; k < 3; k++ ) n[k] = sg*bn[k]; } else unit( s, D_, n );
    double dot = 0; for( int k = 0; k < 3; k++ ) dot += n[k]*bn[k]; if( useBnd && std::fabs( dot ) < 0.05 ) { for( int k = 0; k < 3; k++ ) n[k] = bn[k]; dot = 1; } Fr F; F.pref = !useBnd || dot > 0; double fR[3][3]; frame( s, D_, n, fR ); double m[3]; for( int k = 0; k < 3; k++ ) m[k] = F.pref ? n[k] : -n[k];
    for( int k = 0; k < 3; k++ ) { fc[f].outNormal[k] = n[k]; fc[f].tangent0[k] = fR[k][1]; fc[f].tangent1[k] = fR[k][2]; F.R[k][0] = m[k]; F.R[k][1] = fR[k][1]; F.R[k][2] = fR[k][2]; } fc[f].area = s.lr( 1, 1E4 );
    if( D_ == 2 ) { F.R[0][1] = -m[1]; F.R[1][1] = m[0]; } else if( useBnd ) for( int j = 1; j < 3; j++ ) { double v[3], o[3]; for( int k = 0; k < 3; k++ ) v[k] = bR[k][j]; rot( bn, m, v, o ); for( int k = 0; k < 3; k++ ) F.R[k][j] = o[k]; }
    fc[f].spType = isSp ? SP : s.pick< long long >( { 0, 32, 4096, 101 } ); if( ( fc[f].spType & SP ) == SP ) { sp.push_back( f ); fs.push_back( F ); both[F.pref] = true; } I a = s.draw( nEl ), b = s.draw( nEl-1 ); if( b >= a ) b++; fe[f] = { { a, b } }; }
  std::vector< std::array< std::array< std::array< RB, NQ_ >, NQ_ >, 4 > > so( sp.size() ); for( auto & x : so ) for( auto & y : x ) for( auto & z : y ) for( auto & w : z ) w = 99; typedef RB (*Ps)[4][NQ_][NQ_]; double bc[D_][D_]; for( int i = 0; i < D_; i++ ) for( int k = 0; k < D_; k++ ) bc[i][k] = bR[k][i];
  seismic::solvers::InternalBoundarySolvers< EL, O_, D_ >::init( (I) nFa, SP, (I const (*)[2]) fe.data(), (I const (*)[NV]) ev.data(), fc.data(), ec.data(), bg.data(), (Ps) so.data(), useBnd ? bc : (double (*)[D_]) nullptr );
  data::MmVanilla< RB > mm; for( int k = 0; k < 5; k++ ) mm.add( (unsigned short) t_mm::SUB_CELL, NQ_, NSF, NQ_, NQ_, NSF, NSF, 1, 0, false, true, CR_ ); int NS_ = NS( D_ ); double e = eps< RB >(); int nPer = 0, nLock = 0;
  for( std::size_t q0 = 0; q0 < sp.size(); q0++ ) { int f = sp[q0]; Fr & F = fs[q0]; int L = fe[f][0], R = fe[f][1]; Mat const & mL = mat[L], & mR = mat[R]; double S = 1E6; auto zs = []( Mat const & m ) { return std::sqrt( m.rho*m.mu ); }; auto zp = []( Mat const & m ) { return std::sqrt( m.rho*( m.lam+2*m.mu ) ); };
    static RB dl[NQ_][NSF][CR_], dr[NQ_][NSF][CR_], nl[NQ_][NSF][CR_], nr[NQ_][NSF][CR_]; static bool per[NSF][CR_]; for( int q = 0; q < NQ_; q++ ) for( int i = 0; i < NSF; i++ ) for( int k = 0; k < CR_; k++ ) { dl[q][i][k] = s.sr( q < NS_ ? S : 0.2 ); dr[q][i][k] = s.b( 0.1 ) ? dl[q][i][k] : RB( s.sr( q < NS_ ? S : 0.2 ) ); nl[q][i][k] = nr[q][i][k] = 55; }
    RB dt = s.lr( 1E-4, 1E-2 ); typedef seismic::solvers::t_LinSlipWeakSubFace< RB, D_, CR_ > Sf; static Sf sf[NSF]; memset( sf, 0, sizeof( sf ) ); seismic::solvers::t_LinSlipWeakGlobal< RB, CR_ > gl; seismic::solvers::t_LinSlipWeakFace< RB > fa; fa.lEqM = !F.pref; int mi = F.pref ? R : L, pl = F.pref ? L : R; fa.csDmuM = 1/zs( mat[mi] ); fa.csDmuP = 1/zs( mat[pl] ); std::vector< Lsw > x( NSF*CR_ );
    if( fr ) { Lsw y; for( int k = 0; k < CR_; k++ ) { genLsw( s, y, D_-1, 1, 1, S ); gl.mus[k] = y.mus; gl.mud[k] = y.mud; gl.dcInv[k] = 1/y.dc; for( int i = 0; i < NSF; i++ ) { Lsw & w = x[i*CR_+k]; genLsw( s, w, D_-1, zs( mat[mi] ), zs( mat[pl] ), S ); sf[i].sn0[k] = w.sn0; sf[i].co0[k] = w.co0; for( int t = 0; t < D_-1; t++ ) sf[i].ss0[t][k] = w.ss0[t]; sf[i].ss0A[k] = std::hypot( w.ss0[0], w.ss0[1] ); sf[i].muf[k] = gl.mus[k]; w.mus = w.muf = gl.mus[k]; w.mud = gl.mud[k]; w.dc = y.dc; } } }
    typedef seismic::solvers::InternalBoundary< EL, NQ_, O_, CR_ > Ib; typedef RB const (*Pc)[NQ_]; Ps z = (Ps) so.data(); struct Fd { seismic::solvers::t_LinSlipWeakGlobal< RB, CR_ > * gl; seismic::solvers::t_LinSlipWeakFace< RB > * fa; Sf (*sf)[NSF]; } fd = { &gl, &fa, &sf };
    if( fr ) Ib::netUpdates< RB, data::MmVanilla< RB >, seismic::solvers::FrictionLaws< D_, CR_ >, Fd >( (Pc) z[q0][0], (Pc) z[q0][1], (Pc) z[q0][2], (Pc) z[q0][3], dl, dr, nl, nr, per, mm, dt, &fd );
    else Ib::netUpdates< RB, data::MmVanilla< RB >, NoFriction, void >( (Pc) z[q0][0], (Pc) z[q0][1], (Pc) z[q0][2], (Pc) z[q0][3], dl, dr, nl, nr, per, mm, dt, nullptr );
    for( int i = 0; i < NSF; i++ ) for( int k = 0; k < CR_; k++ ) { // physics in the fault-local frame, P: plus (left of the frame's normal), M: minus
      double vs[2][3], ts[2][3], V[2][3], T[2][3]; int P = F.pref ? 0 : 1, M = 1-P; Mat const * mt[2] = { &mL, &mR }; double sc = 0;
      for( int sd = 0; sd < 2; sd++ ) { double q[9], Sg[3][3] = {}; for( int j = 0; j < NQ_; j++ ) q[j] = sd ? dr[j][i][k] : dl[j][i][k]; unpack( D_, q, Sg ); for( int a = 0; a < D_; a++ ) { V[sd][a] = T[sd][a] = 0; for( int j = 0; j < D_; j++ ) { V[sd][a] += F.R[j][a]*q[NS_+j]; for( int j2 = 0; j2 < D_; j2++ ) T[sd][a] += F.R[j][0]*Sg[j][j2]*F.R[j2][a]; } } }
      for( int a = 0; a < D_; a++ ) { double zP = a ? zs( *mt[P] ) : zp( *mt[P] ), zM = a ? zs( *mt[M] ) : zp( *mt[M] ); double v = ( zP*V[P][a]+zM*V[M][a]+T[M][a]-T[P][a] )/( zP+zM ); for( int sd = 0; sd < 2; sd++ ) { vs[sd][a] = v; ts[sd][a] = T[P][a]+zP*( v-V[P][a] ); } }
      double tsc = 10*S + 0.4*( zp( mL )+zp( mR ) ) + ( fr ? 10*S : 0 ), vsc = tsc/std::min( zs( mL ), zs( mR ) ) + 1; (void) sc; bool was = false; std::string w = " (face " + std::to_string( f ) + ( F.pref ? "" : ", against the fault normal" ) + ", sub-face " + std::to_string( i ) + ", run " + std::to_string( k ) + ")";
      if( fr ) { double tt[2] = {}; for( int a = 1; a < D_; a++ ) tt[a-1] = ts[0][a]; Lsw & y = x[i*CR_+k]; LswOut o = lsw( D_-1, y, ts[0][0], tt, dt, 20*e*tsc ); if( o.amb ) continue; was = o.per; if( was ) nPer++; else nLock++; for( int a = 1; a < D_; a++ ) { ts[0][a] = ts[1][a] = o.tr[a-1]-y.ss0[a-1]; vs[M][a] += o.dM[a-1]; vs[P][a] += o.dP[a-1]; c.close( sf[i].sr[a-1][k], o.sr[a-1], 0, 100*e*vsc, "slip rate" + w ); c.close( sf[i].tr[a-1][k], o.tr[a-1], 0, 100*e*tsc, "traction" + w ); } c.close( sf[i].muf[k], y.muf, 0, 100*e*( 1+vsc*dt/y.dc ), "friction coefficient" + w ); }
      c.require( per[i][k] == was, "reported perturbation" + w );
      for( int sd = 0; sd < 2; sd++ ) { Mat const & m = *mt[sd]; double Ff[3][3] = {}, G[3]; for( int a = 0; a < D_; a++ ) { Ff[a][a] -= m.lam*vs[sd][0]; Ff[0][a] -= m.mu*vs[sd][a]; Ff[a][0] -= m.mu*vs[sd][a]; G[a] = -ts[sd][a]/m.rho; }
        // A_n in direction of the frame's normal; outward of the left element iff the face is in the preferred direction
        double sg = ( F.pref ? 1 : -1 )*( sd == 0 ? -1 : 1 ), sca = sg*dt*( fc[f].area/NSF )/( ec[sd ? R : L].volume/NSC ); auto & n = sd ? nr : nl;
        for( int q = 0; q < NS_; q++ ) { int const * p = PK( D_, q ); double v = 0; for( int a = 0; a < D_; a++ ) for( int b = 0; b < D_; b++ ) v += F.R[p[0]][a]*Ff[a][b]*F.R[p[1]][b]; c.close( n[q][i][k], sca*v, 0, 100*e*std::fabs( sca )*( m.lam+2*m.mu )*vsc, std::string( sd ? "right" : "left" ) + " net-update, stress " + std::to_string( q ) + w ); }
        for( int j = 0; j < D_; j++ ) { double v = 0; for( int a = 0; a < D_; a++ ) v += F.R[j][a]*G[a]; c.close( n[NS_+j][i][k], sca*v, 0, 100*e*std::fabs( sca )*tsc/m.rho, std::string( sd ? "right" : "left" ) + " net-update, velocity " + std::to_string( j ) + w ); } } }
  }
  if( ( fr && nPer && nLock ) || ( !fr && both[0] ) || ( !useBnd && sp.size() ) ) c.nontrivial(); std::ostringstream os; os << sp.size() << " of " << nFa << " faces, fault frame " << useBnd << " both directions " << ( both[0] && both[1] ) << " slipping " << nPer << " locked " << nLock; c.sample( os.str() );
}

// initial conditions of the fault
PBT( setup, 8000, 200000, "several domains, faces on both sides of the fault" ) {
  using namespace edge; constexpr int NV = C_ENT[EL].N_VERTICES, NF = C_ENT[EL].N_FACES, FV = C_ENT[EL].N_FACE_VERTICES; typedef std::size_t I; typedef seismic::setups::RuptureInit< EL, O_, CR_ > Ru;
  int nV = s.i( NV, 30 ), nEl = s.i( 2, 8 ), nFa = s.i( 1, 8 ); std::vector< t_vertexChars > vc( nV ); for( auto & v : vc ) { memset( &v, 0, sizeof( v ) ); for( int k = 0; k < D_; k++ ) v.coords[k] = s.sr( 10 ); }
  double bn[3], bR[3][3], bc[D_][D_]; unit( s, D_, bn ); frame( s, D_, bn, bR ); for( int i = 0; i < D_; i++ ) for( int k = 0; k < D_; k++ ) bc[i][k] = bR[k][i]; struct Bg { RB rho, lam, mu; }; std::vector< Bg > bg( nEl ); for( auto & b : bg ) { b.rho = s.r( 1000, 3500 ); b.lam = b.mu = s.lr( 1E9, 5E10 ); }
  std::vector< std::array< I, NV > > ev( nEl ); std::vector< std::array< I, NF > > ef( nEl ); for( auto & x : ef ) for( auto & y : x ) y = 1000; std::vector< std::array< I, 2 > > fe( nFa ); std::vector< std::array< I, FV > > fv( nFa ); std::vector< t_faceChars > fc( nFa ); std::vector< int > sp; bool both[2] = { false, false }; long long const SP = 4096|32; std::vector< bool > used( nEl, false ), reo( nFa, false );
  for( int f = 0; f < nFa; f++ ) { memset( &fc[f], 0, sizeof( fc[f] ) ); double n[3], dot = 0; unit( s, D_, n ); for( int k = 0; k < 3; k++ ) dot += n[k]*bn[k]; if( std::fabs( dot ) < 0.05 ) { for( int k = 0; k < 3; k++ ) n[k] = -bn[k]; dot = -1; } for( int k = 0; k < 3; k++ ) fc[f].outNormal[k] = n[k];
    I a = nEl; for( int t = 0; t < nEl; t++ ) if( !used[t] ) { a = t; break; } if( a == (I) nEl ) { fc[f].spType = 0; fe[f] = { { 0, 1 } }; continue; } used[a] = true; I b = s.draw( nEl-1 ); if( b >= a ) b++; fe[f] = { { a, b } }; bool isSp = s.b( 0.85 ); fc[f].spType = isSp ? SP : s.pick< long long >( { 0, 32, 4096 } );
    // left element: random face with the smallest vertex at its first position in 3d
    int lf = s.draw( NF ); ef[a][lf] = f; auto pv = s.perm( nV ); for( int k = 0; k < NV; k++ ) ev[a][k] = pv[k]; unsigned short const * fl = C_REF_ELEMENT.FA_VE_CC.ENT[EL] + lf*FV; if( D_ == 3 ) { int mi = 0; for( int k = 1; k < FV; k++ ) if( ev[a][fl[k]] < ev[a][fl[mi]] ) mi = k; std::swap( ev[a][fl[0]], ev[a][fl[mi]] ); }
    if( EL == HEX8R && s.b( 0.9 ) ) { // ids in cyclic order
      if( ev[a][fl[1]] > ev[a][fl[3]] ) {} }
    for( int k = 0; k < FV; k++ ) fv[f][k] = ev[a][fl[k]]; if( D_ == 2 ) { std::sort( fv[f].begin(), fv[f].end() ); reo[f] = ev[a][fl[1]] < ev[a][fl[0]]; } else if( FV == 3 ) { reo[f] = ev[a][fl[1]] > ev[a][fl[2]]; } if( isSp ) { sp.push_back( f ); both[dot > 0] = true; } }
  RB pars[CR_][3]; typedef linalg::Domain< double, D_, linalg::HalfSpace > Dom; std::vector< Dom > dom[CR_]; std::vector< std::array< RB, D_ > > st[CR_]; struct Hs { double o[3], n[3]; }; std::vector< std::vector< Hs > > hs[CR_]; int nd = 0;
  for( int i = 0; i < CR_; i++ ) { for( int k = 0; k < 3; k++ ) pars[i][k] = s.r( 0.05, 1 ); int m = s.i( 0, 3 ); nd = std::max( nd, m ); for( int d = 0; d <= m; d++ ) { Dom x; std::vector< Hs > h; if( d < m ) { int g = s.i( 1, 3 ); for( int j = 0; j < g; j++ ) { Hs y; unit( s, D_, y.n ); for( int k = 0; k < 3; k++ ) { y.o[k] = k < D_ ? s.sr( 5 ) : 0; y.n[k] *= s.r( 0.5, 3 ); } double o[D_], n[D_]; for( int k = 0; k < D_; k++ ) { o[k] = y.o[k]; n[k] = y.n[k]; } x.add( linalg::HalfSpace< double, D_ >( o, n ) ); h.push_back( y ); } } std::array< RB, D_ > t; for( auto & v : t ) v = s.sr( 1E7 ); dom[i].push_back( x ); hs[i].push_back( h ); st[i].push_back( t ); } }
  static unsigned short ad[FV][NSF]; for( int v = 0; v < FV; v++ ) { auto p = s.perm( NSF ); for( int k = 0; k < NSF; k++ ) ad[v][k] = p[k]; }
  typedef seismic::solvers::t_LinSlipWeak< RB, EL, O_, CR_ > Lw; std::unique_ptr< Lw > lw( new Lw() ); std::vector< seismic::solvers::t_LinSlipWeakFace< RB > > lfa( sp.size()+1 ); typedef std::array< seismic::solvers::t_LinSlipWeakSubFace< RB, D_, CR_ >, NSF > Sfs; std::vector< Sfs > lsf( sp.size()+1 ); memset( (void *) lsf.data(), 7, lsf.size()*sizeof( Sfs ) ); lw->fa = lfa.data(); lw->sf = (seismic::solvers::t_LinSlipWeakSubFace< RB, D_, CR_ > (*)[NSF]) lsf.data(); Sfs guard = lsf.back();
  struct Fdat { double sn0[NSF][CR_], co0[NSF][CR_], ss0[D_-1][NSF][CR_]; }; std::vector< Fdat > fd( sp.size()+1 ); for( auto & x : fd ) for( int i = 0; i < NSF; i++ ) for( int k = 0; k < CR_; k++ ) { x.sn0[i][k] = s.sr( 1E7 ); x.co0[i][k] = s.sr( 1E7 ); for( int t = 0; t < D_-1; t++ ) x.ss0[t][i][k] = s.sr( 1E7 ); }
  bool useFd = s.b( 0.4 ) && EL != HEX8R; if( useFd ) for( int i = 0; i < CR_; i++ ) if( s.b( 0.7 ) ) { dom[i].pop_back(); hs[i].pop_back(); st[i].pop_back(); }
  Ru::linSlipWeak( (I) nFa, SP, ad, (I const (*)[FV]) fv.data(), (I const (*)[2]) fe.data(), (I const (*)[NV]) ev.data(), (I const (*)[NF]) ef.data(), vc.data(), fc.data(), bg.data(), bc, pars, dom, st, *lw, useFd ? fd.data() : (Fdat const *) nullptr );
  c.require( memcmp( &guard, &lsf.back(), sizeof( Sfs ) ) == 0, "writes behind the rupture faces" ); double e = eps< RB >(); bool amb = false;
  for( int i = 0; i < CR_; i++ ) { c.close( lw->gl.mus[i], pars[i][0], e, 0, "static friction" ); c.close( lw->gl.mud[i], pars[i][1], e, 0, "dynamic friction" ); c.close( lw->gl.dcInv[i]*pars[i][2], 1, 10*e, 0, "critical slip distance" ); }
  for( std::size_t q = 0; q < sp.size(); q++ ) { int f = sp[q]; std::string w = " (face " + std::to_string( f ) + ")"; double dot = 0, pt[3] = {}; for( int k = 0; k < 3; k++ ) dot += fc[f].outNormal[k]*bn[k]; for( int k = 0; k < D_; k++ ) for( int v = 0; v < FV; v++ ) pt[k] += vc[fv[f][v]].coords[k]/FV;
    c.require( lfa[q].lEqM == ( dot < 0 ), "left element is on the minus side iff the face normal is opposed to the fault normal" + w ); for( int m = 0; m < 2; m++ ) { int el = ( m == 0 ) == lfa[q].lEqM ? fe[f][0] : fe[f][1]; double z = std::sqrt( double( bg[el].rho )*bg[el].mu ); c.close( double( m == 0 ? lfa[q].csDmuM : lfa[q].csDmuP )*z, 1, 10*e, 0, std::string( "shear impedance, " ) + ( m ? "plus" : "minus" ) + " side" + w ); }
    for( int i = 0; i < CR_; i++ ) { int d = -1; for( int k = 0; k < (int) hs[i].size() && d < 0; k++ ) { bool in = true; for( auto & h : hs[i][k] ) { double x = 0, nn = 0; for( int j = 0; j < D_; j++ ) { x += h.n[j]*( pt[j]-h.o[j] ); nn += h.n[j]*h.n[j]; } x /= std::sqrt( nn ); if( std::fabs( x ) < 1E-5 ) amb = true; if( x <= 0 ) in = false; } if( in ) d = k; } if( amb ) { c.discard(); return; }
      for( int sfi = 0; sfi < NSF; sfi++ ) { auto & o = lsf[q][sfi]; std::string z = w + " sub-face " + std::to_string( sfi ) + " run " + std::to_string( i ); int r = reo[f] ? ad[0][sfi] : sfi; for( int t = 0; t < D_-1; t++ ) { c.require( o.dd[t][i] == 0 && o.sr[t][i] == 0 && o.tr[t][i] == 0, "no initial slip" + z ); }
        if( d >= 0 ) { c.close( o.sn0[i], st[i][d][0], e, 0, "initial normal stress of the first matching domain" + z ); for( int t = 0; t < D_-1; t++ ) c.close( o.ss0[t][i], st[i][d][1+t], e, 0, "initial shear stress" + z ); c.close( o.muf[i], pars[i][0], e, 0, "initial friction coefficient" + z ); }
        else if( useFd ) { c.close( o.sn0[i], fd[q].sn0[r][i], 1E-6, 0, "initial normal stress of the fault data" + z ); for( int t = 0; t < D_-1; t++ ) c.close( o.ss0[t][i], fd[q].ss0[t][r][i], 1E-6, 0, "initial shear stress of the fault data" + z ); }
        if( useFd ) c.close( o.co0[i], fd[q].co0[r][i], 1E-6, 0, "cohesion of the fault data" + z ); else c.require( o.co0[i] == 0, "no cohesion" + z ); } } }
  // the names of the written quantities follow the memory layout of a sub-face
  { auto & o = lsf[0][0]; auto nm = [&]( RB const * p, std::string const & want ) { std::size_t at = p - (RB const *) &o; c.require( at < sizeof( lw->sfQtNaPtr )/sizeof( lw->sfQtNaPtr[0] ) && lw->sfQtNaPtr[at] != nullptr && want == lw->sfQtNaPtr[at], "name of value " + std::to_string( at ) + " of a sub-face is not " + want ); };
    for( int i = 0; i < CR_; i++ ) { std::string r = "_" + std::to_string( i ); nm( &o.sn0[i], "sn0" + r ); nm( &o.co0[i], "co0" + r ); nm( &o.ss0A[i], "ss0A" + r ); nm( &o.muf[i], "muf" + r ); nm( &o.st[i], "st" + r ); for( int t = 0; t < D_-1; t++ ) { std::string q = "_" + std::to_string( t ) + r; nm( &o.ss0[t][i], "ss0" + q ); nm( &o.tr[t][i], "tr" + q ); nm( &o.sr[t][i], "sr" + q ); nm( &o.dd[t][i], "dd" + q ); } } }
  if( nd >= 2 && both[0] && both[1] ) c.nontrivial(); std::ostringstream os; os << sp.size() << " rupture faces, runs " << CR_ << " fault data " << useFd << " domains " << nd; c.sample( os.str() );
}
