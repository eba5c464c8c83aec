// shallow water equations: f-wave solver and finite volume scheme
#include "pbt.hpp"
#include "constants.hpp"
#include "dgmesh.hpp"
#include "impl/swe/solvers/Fwave.hpp"
#include "impl/swe/solvers/FiniteVolume.hpp"
typedef std::size_t S_; static S_ const MX = std::numeric_limits< S_ >::max();

// f-wave decomposition with Einfeldt speeds (reference)
struct Nu { double l[2], r[2], lam[2], sc[2]; };
static Nu fwave( double hL, double hR, double mL, double mR, double bL, double bR, double g ) {
  double uL = mL/hL, uR = mR/hR, c = std::sqrt( g*0.5*( hL+hR ) ), u = ( uL*std::sqrt( hL ) + uR*std::sqrt( hR ) )/( std::sqrt( hL )+std::sqrt( hR ) );
  Nu n; n.lam[0] = std::min( uL-std::sqrt( g*hL ), u-c ); n.lam[1] = std::max( uR+std::sqrt( g*hR ), u+c );
  double d0 = mR-mL, d1 = mR*mR/hR - mL*mL/hL + 0.5*g*( hR*hR-hL*hL ) + 0.5*g*( hL+hR )*( bR-bL );
  // d = z0*(1,lam0) + z1*(1,lam1)
  double z1 = ( d1-n.lam[0]*d0 )/( n.lam[1]-n.lam[0] ), z0 = d0-z1; double z[2] = { z0, z1 }; n.l[0] = n.l[1] = n.r[0] = n.r[1] = 0;
  for( int i = 0; i < 2; i++ ) { double * o = ( i == 0 ? n.lam[0] < 0 : n.lam[1] <= 0 ) ? n.l : n.r; o[0] += z[i]; o[1] += z[i]*n.lam[i]; }
  double la = std::max( std::fabs( n.lam[0] ), std::fabs( n.lam[1] ) ), fl = std::fabs( mR*mR/hR ) + std::fabs( mL*mL/hL ) + g*( hR*hR+hL*hL ) + g*( hL+hR )*( std::fabs( bR )+std::fabs( bL ) );
  n.sc[0] = ( fl+la*( std::fabs( mR )+std::fabs( mL ) ) )/( n.lam[1]-n.lam[0] ) + std::fabs( mR ) + std::fabs( mL ); n.sc[1] = n.sc[0]*la + fl; return n;
}
template< typename R > static double eps() { return sizeof( R ) == 8 ? 1E-13 : 1E-5; }

template< typename R, int CR > static void fw( pbt::Src & s, pbt::Ctx & c ) {
  R hL[CR], hR[CR], mL[CR], mR[CR]; double H = s.lr( 1E-3, 5E3 ); bool rest = s.b( 0.25 ), dg = s.b( 0.5 ); R g = dg ? R( 9.80665 ) : R( s.lr( 0.5, 30 ) ); R bL, bR, nl[2][CR], nr[2][CR];
  bL = -s.r( 0.2, 2 )*H; bR = s.b( 0.3 ) ? (double) bL : -s.r( 0.2, 2 )*H;
  for( int i = 0; i < CR; i++ ) { hL[i] = s.r( 0.05, 2 )*H; hR[i] = s.b( 0.2 ) ? (double) hL[i] : s.r( 0.05, 2 )*H; double F = s.pick< double >( { 0., 0.5, 3. } ); mL[i] = F*hL[i]*s.sr( 1 )*std::sqrt( g*hL[i] ); mR[i] = F*hR[i]*s.sr( 1 )*std::sqrt( g*hR[i] );
    if( rest ) { double w = std::max( bL, bR ) + s.r( 0.1, 1 )*H; hL[i] = w-bL; hR[i] = w-bR; mL[i] = mR[i] = 0; } for( int q = 0; q < 2; q++ ) nl[q][i] = nr[q][i] = 77; }
  typedef edge::swe::solvers::Fwave< CR > F; if( dg && s.b() ) F::nusN( hL, hR, mL, mR, bL, bR, nl, nr ); else F::nusN( hL, hR, mL, mR, bL, bR, nl, nr, g );
  for( int i = 0; i < CR; i++ ) { Nu n = fwave( hL[i], hR[i], mL[i], mR[i], bL, bR, g ); std::string r = " run " + std::to_string( i ) + ( dg ? "" : " (gravity given)" );
    bool amb = std::fabs( n.lam[0] ) < 1E-4*n.lam[1] || std::fabs( n.lam[1] ) < 1E-4*std::fabs( n.lam[0] ); double e = eps< R >();
    double j[2] = { n.l[0]+n.r[0], n.l[1]+n.r[1] };
    for( int q = 0; q < 2; q++ ) { c.close( double( nl[q][i] )+nr[q][i], j[q], 0, 20*e*n.sc[q], "net-updates add up to the jump in the fluxes, quantity " + std::to_string( q ) + r ); if( !amb ) { c.close( nl[q][i], n.l[q], 0, 20*e*n.sc[q], "left net-update, quantity " + std::to_string( q ) + r ); c.close( nr[q][i], n.r[q], 0, 20*e*n.sc[q], "right net-update, quantity " + std::to_string( q ) + r ); } }
    if( rest ) for( int q = 0; q < 2; q++ ) { c.close( nl[q][i], 0, 0, 50*e*n.sc[q], "lake at rest, left" + r ); c.close( nr[q][i], 0, 0, 50*e*n.sc[q], "lake at rest, right" + r ); } }
  c.nontrivial(); std::ostringstream os; os << "h " << hL[0] << " | " << hR[0] << " m " << mL[0] << " | " << mR[0] << " b " << bL << " | " << bR; c.sample( os.str() );
}
PBT( fwave_solver, 100000, 3000000, "always" ) { switch( s.draw( 4 ) ) { case 0: fw< double, 1 >( s, c ); break; case 1: fw< double, 4 >( s, c ); break; case 2: fw< float, 1 >( s, c ); break; default: fw< float, 3 >( s, c ); } }

template< t_entityType T, typename R, int CR > static void fv( pbt::Src & s, pbt::Ctx & c ) {
  constexpr int D = C_ENT[T].N_DIM, NF = C_ENT[T].N_FACES, NQ = D+1; ref::DMesh m( s, c, T, D == 1 ? 12 : 24, true ); int n = m.nE; double const G = 9.80665, e0 = eps< R >();
  double H = s.lr( 0.1, 3000 ); bool dry = s.b( 0.4 ), rest = s.b( 0.3 ), flat = s.b( 0.2 ); int bm = s.draw( 3 ); // 0: reflecting, 1: outflow, 2: mixed
  std::vector< R > bath( n ); std::vector< std::array< std::array< std::array< R, CR >, 1 >, NQ > > dofs( n ), d0; double lake = 0;
  for( int e = 0; e < n; e++ ) { bool dr = dry && s.b( 0.3 ); bath[e] = dr ? ( s.b( 0.2 ) ? 0. : s.r( 0, 1 )*H ) : flat ? -H : -s.r( 0.5, 1.5 )*H;
    for( int i = 0; i < CR; i++ ) { double h = dr ? 0 : rest ? lake-bath[e] : s.r( 0.3, 1.5 )*H; dofs[e][0][0][i] = h; for( int d = 0; d < D; d++ ) dofs[e][1+d][0][i] = dr || rest ? 0 : h*s.sr( 0.6 )*std::sqrt( G*h ); } }
  std::vector< std::array< S_, 2 > > faEl( m.nF ); std::vector< std::array< S_, NF > > elFa( n ); std::vector< t_faceChars > fc( m.nF ); std::vector< t_elementChars > ec( n ); bool closed = true;
  for( int f = 0; f < m.nF; f++ ) { auto & F = m.fa[f]; faEl[f] = { { (S_) F.eL, F.eR < 0 ? MX : (S_) F.eR } }; memset( &fc[f], 0, sizeof( fc[f] ) ); fc[f].area = F.area; for( int d = 0; d < 3; d++ ) fc[f].outNormal[d] = F.R[d][0]; int b = bm == 2 ? s.draw( 2 ) : bm; fc[f].spType = F.eR >= 0 ? 0 : b == 0 ? REFLECTING : OUTFLOW; if( F.eR < 0 && b == 1 ) closed = false; }
  double fac = T == TRIA3 ? 0.5 : 1;
  for( int e = 0; e < n; e++ ) { memset( &ec[e], 0, sizeof( ec[e] ) ); ec[e].volume = fac*m.det[e]; double h = 1E300; for( int f = 0; f < NF; f++ ) { elFa[e][f] = m.elFa[e][f]; h = std::min( h, ec[e].volume/m.fa[m.elFa[e][f]].area ); } ec[e].inDia = h; }
  // time step statistics
  typedef edge::swe::solvers::FiniteVolume< T, CR > Fv; typedef R (*Pd)[NQ][1][CR]; double mi, av, ma, wm = 1E300, wa = 0, wx = 0; bool anyDry = false; Fv::getTimeStepStatistics( (S_) n, ec.data(), (Pd) dofs.data(), mi, av, ma );
  for( int e = 0; e < n; e++ ) { double x = 1E300; for( int i = 0; i < CR; i++ ) { double h = dofs[e][0][0][i]; if( h <= 0 ) { anyDry = true; continue; } double u = 0; for( int d = 0; d < D; d++ ) u += std::pow( dofs[e][1+d][0][i]/h, 2 ); x = std::min( x, ec[e].inDia/( std::sqrt( u )+std::sqrt( G*h ) ) ); } wm = std::min( wm, x ); wa += x/n; wx = std::max( wx, x ); }
  if( wm < 1E299 ) { double k = mi/wm; c.require( k > 0 && k <= 1.0001, "time step " + std::to_string( mi ) + " above the CFL limit " + std::to_string( wm ) ); static std::map< int, double > K; auto & x = K[D]; if( x == 0 ) { x = 1; R q[1][NQ][1][CR]; for( int i = 0; i < CR; i++ ) { q[0][0][0][i] = 1; for( int d = 0; d < D; d++ ) q[0][1+d][0][i] = 0; } t_elementChars w; memset( &w, 0, sizeof( w ) ); w.inDia = 1; double a2, a3; Fv::getTimeStepStatistics( (S_) 1, &w, (Pd) q, x, a2, a3 ); x *= std::sqrt( G ); } c.close( k, x, 1E-5, 0, "time step is proportional to in-diameter over the maximum wave speed" );
    if( !anyDry ) { c.close( av, x*wa, 1E-5, 0, "average time step" ); c.close( ma, x*wx, 1E-5, 0, "maximum time step" ); } }
  double dt = ( wm < 1E299 ? wm : 1 )*s.r( 0.02, 0.3 ); int st = s.i( 1, 3 ); d0 = dofs; double mass0[CR] = {}; for( int i = 0; i < CR; i++ ) for( int e = 0; e < n; e++ ) mass0[i] += ec[e].volume*dofs[e][0][0][i];
  std::vector< std::array< std::array< std::array< R, CR >, 2 >, 2 > > nu( m.nF ); typedef R (*Pn)[2][2][CR]; typedef R const (*Pb)[1][1];
  bool pos = true;
  for( int t = 0; t < st && pos; t++ ) {
    std::vector< std::array< std::array< double, CR >, 3 > > w( n ), sc( n ); for( int e = 0; e < n; e++ ) for( int q = 0; q < NQ; q++ ) for( int i = 0; i < CR; i++ ) { w[e][q][i] = dofs[e][q][0][i]; sc[e][q][i] = std::fabs( w[e][q][i] ); }
    for( auto & x : nu ) for( auto & y : x ) for( auto & z : y ) for( auto & v : z ) v = 55;
    S_ cut = s.i( 0, m.nF ); Fv::nusN( (S_) 0, cut, (S_ (*)[2]) faEl.data(), fc.data(), (Pd) dofs.data(), (Pb) bath.data(), (Pn) nu.data() ); Fv::nusN( cut, (S_) m.nF-cut, (S_ (*)[2]) faEl.data(), fc.data(), (Pd) dofs.data(), (Pb) bath.data(), (Pn) nu.data() );
    for( int e = 0; e < n; e++ ) for( int f = 0; f < NF; f++ ) { // reference update in element-local orientation
      int a = m.elFaEl[e][f]; int ff = m.elFa[e][f]; double sg = m.fa[ff].eL == e && m.fa[ff].fL == f ? 1 : -1, b1 = bath[e]; if( b1 >= 0 ) continue; double nn[3]; for( int d = 0; d < 3; d++ ) nn[d] = sg*m.fa[ff].R[d][0];
      for( int i = 0; i < CR; i++ ) { double h1 = dofs[e][0][0][i], m1 = 0, h2 = h1, m2, b2 = b1; for( int d = 0; d < D; d++ ) m1 += nn[d]*dofs[e][1+d][0][i]; m2 = m1; if( a < 0 ) { if( fc[ff].spType == REFLECTING ) m2 = -m1; } else if( bath[a] >= 0 ) m2 = -m1; else { h2 = dofs[a][0][0][i]; b2 = bath[a]; m2 = 0; for( int d = 0; d < D; d++ ) m2 += nn[d]*dofs[a][1+d][0][i]; }
        Nu x = fwave( h1, h2, m1, m2, b1, b2, G ); double k = dt/ec[e].volume*fc[ff].area; w[e][0][i] -= k*x.l[0]; sc[e][0][i] += k*x.sc[0]; for( int d = 0; d < D; d++ ) { w[e][1+d][i] -= k*nn[d]*x.l[1]; sc[e][1+d][i] += k*x.sc[1]; } } }
    S_ ce = s.i( 0, n ); for( int p = 0; p < 2; p++ ) Fv::update( p ? ce : (S_) 0, p ? n-ce : ce, (R) dt, (S_ (*)[2]) faEl.data(), (S_ (*)[NF]) elFa.data(), fc.data(), ec.data(), (Pn) nu.data(), (Pd) dofs.data() );
    for( int e = 0; e < n; e++ ) for( int i = 0; i < CR; i++ ) { for( int q = 0; q < NQ; q++ ) { c.close( dofs[e][q][0][i], w[e][q][i], 0, 40*e0*sc[e][q][i], "element " + std::to_string( e ) + " quantity " + std::to_string( q ) + " run " + std::to_string( i ) + ( bath[e] >= 0 ? " (dry)" : "" ) ); } if( bath[e] < 0 && !( dofs[e][0][0][i] > 0.05*H ) ) pos = false; }
  }
  for( int i = 0; i < CR; i++ ) { double ms = 0, ab = 0, dr = 0; for( int e = 0; e < n; e++ ) { ms += ec[e].volume*dofs[e][0][0][i]; ab += ec[e].volume*H; if( bath[e] >= 0 ) for( int q = 0; q < NQ; q++ ) dr += std::fabs( dofs[e][q][0][i]-d0[e][q][0][i] );
      if( rest ) { c.close( dofs[e][0][0][i], d0[e][0][0][i], 0, 1E3*e0*H, "lake at rest changes its water height" ); for( int d = 0; d < D; d++ ) c.close( dofs[e][1+d][0][i], 0, 0, 1E3*e0*H*std::sqrt( G*H ), "lake at rest starts moving" ); } }
    if( closed ) c.close( ms, mass0[i], 0, 1E3*e0*ab, "water is not conserved in a closed basin" ); c.require( dr == 0, "dry elements change" ); }
  c.nontrivial( n > 1 ); std::ostringstream os; os << "type " << T << " elements " << n << " steps " << st << ( closed ? " closed" : "" ) << ( dry ? " dry" : "" ) << ( rest ? " rest" : "" ) << ( m.anyPer ? " periodic" : "" ); c.sample( os.str() );
}
PBT( finite_volume, 20000, 400000, "more than one element" ) {
  switch( s.draw( 6 ) ) { case 0: fv< QUAD4R, double, 1 >( s, c ); break; case 1: fv< TRIA3, double, 2 >( s, c ); break; case 2: fv< LINE, double, 1 >( s, c ); break; case 3: fv< QUAD4R, float, 3 >( s, c ); break; case 4: fv< TRIA3, float, 1 >( s, c ); break; default: fv< QUAD4R, double, 4 >( s, c ); }
}
