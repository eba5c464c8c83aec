// EDGE-V: CFL time steps, time groups, partitions, element order, communication structure.
#define private public
#include "mesh/Mesh.h"
#include "mesh/Partition.h"
#include "mesh/Communication.h"
#include "time/Cfl.h"
#include "time/Groups.h"
#undef private
#include "models/Model.h"
#include "ev_meshgen.hpp"
#include <fcntl.h>
#include <memory>
#include "logcap.hpp"
#include <metis.h>
#include <queue>
using namespace mg;

// ---- face graph of a raw mesh in the raw element order
static std::vector< idx > rawAdj( Raw const & r ) {
  auto fm = faceMap( r ); auto gf = gmshFaces( r.ty );
  std::vector< idx > a( r.els.size()*r.nElFas, NONE );
  for( idx e = 0; e < r.els.size(); e++ ) for( unsigned f = 0; f < r.nElFas; f++ ) {
    std::vector< idx > k; for( unsigned p : gf[f] ) k.push_back( r.els[e][p] );
    auto & o = fm[ sorted( k ) ];
    if( o.size() == 2 ) a[e*r.nElFas+f] = o[0] == e ? o[1] : o[0];
  }
  return a;
}
struct Graph { edge_v::t_entityType ty; unsigned nFa; idx n; std::vector< idx > ad; };
// random symmetric face graph, at most one shared face per element pair
static Graph rndGraph( pbt::Src & s, idx maxN ) {
  Graph g;
  if( s.b( 0.5 ) ) { Raw r = gen( s, maxN > 60 ? 60 : 20, 0, false ); g.ty = r.ty; g.nFa = r.nElFas; g.n = r.els.size(); g.ad = rawAdj( r ); return g; }
  g.ty = s.pick< edge_v::t_entityType >( { edge_v::TRIA3, edge_v::QUAD4R, edge_v::TET4, edge_v::HEX8R } );
  g.nFa = CE_N_FAS( g.ty ); g.n = s.i( 1, maxN );
  g.ad.assign( g.n*g.nFa, NONE );
  std::set< std::pair< idx, idx > > have;
  idx tries = s.i( 0, g.n*g.nFa/2+1 );
  bool chain = s.b( 0.5 ); // long chains need many normalization steps
  for( idx t = 0; t < tries; t++ ) {
    idx a = chain && t+1 < g.n ? t : s.i( 0, g.n-1 ), b = chain && t+1 < g.n ? t+1 : s.i( 0, g.n-1 );
    if( a == b || have.count( { std::min(a,b), std::max(a,b) } ) ) continue;
    std::vector< unsigned > fa, fb;
    for( unsigned f = 0; f < g.nFa; f++ ) { if( g.ad[a*g.nFa+f] == NONE ) fa.push_back( f ); if( g.ad[b*g.nFa+f] == NONE ) fb.push_back( f ); }
    if( fa.empty() || fb.empty() ) continue;
    g.ad[a*g.nFa+s.pick( fa )] = b; g.ad[b*g.nFa+s.pick( fb )] = a;
    have.insert( { std::min(a,b), std::max(a,b) } );
  }
  if( s.b( 0.7 ) ) { // relabel
    auto p = s.perm( g.n ); auto t = g.ad;
    for( idx e = 0; e < g.n; e++ ) for( unsigned f = 0; f < g.nFa; f++ ) { idx x = t[e*g.nFa+f]; g.ad[p[e]*g.nFa+f] = x == NONE ? NONE : p[x]; }
  }
  return g;
}

struct VecModel : edge_v::models::Model {
  std::vector< double > mx; mutable std::vector< int > hit;
  void init( edge_v::t_idx, double const (*)[3] ) {}
  void free() {}
  double getMinSpeed( edge_v::t_idx i ) const { return mx.at( i ) * 0.3; }
  double getMaxSpeed( edge_v::t_idx i ) const { return mx.at( i ); }
};

PBT( cfl, 12000, 400000, "random elements, vertex or element speeds over 6 orders of magnitude; non-trivial: at least two different time steps" ) {
  edge_v::t_entityType ty = s.pick< edge_v::t_entityType >( { edge_v::TRIA3, edge_v::QUAD4R, edge_v::TET4, edge_v::HEX8R } );
  unsigned nv = CE_N_VES( ty ); idx nEls = s.i( 1, 40 ), nVes = s.i( nv, 60 );
  std::vector< idx > elVe( nEls*nv ); for( auto & v : elVe ) v = s.i( 0, nVes-1 );
  std::vector< double > dia( nEls ); for( auto & d : dia ) d = s.lr( 1e-3, 1e3 );
  bool el = s.b( 0.4 );
  VecModel m; m.mx.resize( el ? nEls : nVes ); for( auto & x : m.mx ) x = s.lr( 1e-2, 1e4 );
  std::vector< double > cr( nVes*3, 0.0 );
  edge_v::time::Cfl cf( ty, nVes, nEls, elVe.data(), (double (*)[3]) cr.data(), dia.data(), el, m );
  std::vector< double > want( nEls ); double mn = 1e300;
  for( idx e = 0; e < nEls; e++ ) {
    double c0 = 0; if( el ) c0 = m.mx[e]; else { for( unsigned k = 0; k < nv; k++ ) c0 += m.mx[ elVe[e*nv+k] ]; c0 /= nv; }
    want[e] = dia[e]/c0; mn = std::min( mn, want[e] );
  }
  bool one = false, diff = false;
  for( idx e = 0; e < nEls; e++ ) {
    c.close( cf.getTimeSteps()[e], want[e]/mn, 1e-12, 0, "relative CFL time step" );
    if( std::fabs( cf.getTimeSteps()[e]-1 ) < 1e-14 ) one = true;
    if( want[e] > mn*1.0001 ) diff = true;
    c.require( cf.getTimeSteps()[e] > 1-1e-12, "no relative time step below 1" );
  }
  c.require( one, "smallest relative time step is 1" );
  double absMin = -1; std::vector< double > ts( nEls );
  edge_v::time::Cfl::setTimeSteps( ty, nVes, nEls, elVe.data(), (double (*)[3]) cr.data(), dia.data(), el, m, absMin, ts.data() );
  c.close( absMin, mn, 1e-13, 0, "minimum absolute time step" );
  if( s.b( 0.1 ) ) { double me = 0, ma = 0; for( double w : want ) { me += w/mn/nEls; ma = std::max( ma, w/mn ); } pbt::LogCap lc; cf.printStats(); double w[3] = { 1, me, ma }; char const * key[3] = { "min:", "mean:", "max:" };
    for( int k = 0; k < 3; k++ ) { auto v = pbt::logNums( key[k] ); if( v.size() == 2 ) { c.close( v[0], w[k]*mn, 1e-5, 0, std::string( "reported time step, " ) + key[k] ); c.close( v[1], w[k], 1e-5, 0, std::string( "reported relative time step, " ) + key[k] ); } } }
  c.nontrivial( diff );
}

PBT( groups, 16000, 500000, "random face graphs (meshes, chains, random) with random CFL steps, rates in ]1,2], fundamental step in ]0,1]; non-trivial: neighbor rule lowers at least one element" ) {
  Graph g = rndGraph( s, s.b( 0.3 ) ? 150 : 30 );
  unsigned short nr = s.b( 0.15 ) ? s.i( 8, 40 ) : s.i( 0, 7 ); bool steep = s.b( 0.25 ); std::vector< double > rates( nr + 1, 2.0 );
  bool std2 = s.b( 0.4 );
  for( unsigned k = 0; k < nr; k++ ) rates[k] = std2 ? 2.0 : s.pick< double >( { 2.0, 1.5, 1.01, s.r( 1.001, 2.0 ) } );
  double fdt = s.b( 0.4 ) ? 1.0 : s.r( 0.51, 1.0 );
  std::vector< double > iv( 1, fdt ); for( unsigned k = 0; k < nr; k++ ) iv.push_back( iv.back()*rates[k] );
  std::vector< double > ts( g.n );
  double pMin = steep ? 0.02 : s.r( 0, 0.3 );
  for( idx e = 0; e < g.n; e++ ) {
    if( steep && s.b( 0.9 ) ) { ts[e] = iv.back()*2; continue; }
    if( s.b( pMin ) ) ts[e] = 1; else if( s.b( 0.15 ) ) ts[e] = std::max( 1.0, iv[ s.i( 0, nr ) ] ); // exactly at an interval boundary
    else ts[e] = s.lr( 1, iv.back()*4 );
  }
  ts[ s.i( 0, g.n-1 ) ] = 1;
  // invalid rates and fundamental time steps are rejected
  if( s.b( 0.01 ) ) { auto r2 = rates; double f2 = fdt; unsigned k = s.draw( nr+1 ); bool up = s.b(); if( k < nr ) r2[k] = up ? s.r( 2.001, 4 ) : s.r( -1, 1 ); else f2 = up ? s.r( 1.001, 3 ) : -s.r( 0, 1 ); c.require( pbt::dies( [&]() { edge_v::time::Groups x( g.ty, g.n, g.ad.data(), nr, r2.data(), f2, ts.data() ); } ), "invalid rates are accepted" ); }
  // objects in dirty memory
  std::unique_ptr< char[] > mem( new char[sizeof( edge_v::time::Groups )] ); memset( mem.get(), 0x7b, sizeof( edge_v::time::Groups ) ); struct Del { void operator()( edge_v::time::Groups * p ) { p->~Groups(); } };
  std::unique_ptr< edge_v::time::Groups, Del > gp( new( mem.get() ) edge_v::time::Groups( g.ty, g.n, g.ad.data(), nr, rates.data(), fdt, ts.data() ) ); edge_v::time::Groups & gr = *gp;
  c.require( gr.nGroups() == nr+1, "number of groups" );
  for( unsigned k = 0; k <= nr; k++ ) c.close( gr.getTsIntervals()[k], iv[k], 1e-13, 0, "group time step" );
  // largest assignment which respects the CFL steps and the neighbor rule: multi-source relaxation
  std::vector< unsigned > want( g.n ); std::vector< unsigned > ini( g.n );
  for( idx e = 0; e < g.n; e++ ) { unsigned k = 0; while( k < nr && gr.getTsIntervals()[k+1] <= ts[e] ) k++; want[e] = ini[e] = k; }
  std::vector< std::vector< idx > > bk( nr+1 ); for( idx e = 0; e < g.n; e++ ) bk[want[e]].push_back( e );
  for( unsigned k = 0; k <= nr; k++ ) for( idx q = 0; q < bk[k].size(); q++ ) {
    idx e = bk[k][q]; if( want[e] != k ) continue;
    for( unsigned f = 0; f < g.nFa; f++ ) { idx a = g.ad[e*g.nFa+f]; if( a != NONE && want[a] > k+1 ) { want[a] = k+1; bk[k+1].push_back( a ); } }
  }
  std::vector< idx > cnt( nr+1, 0 ); bool low = false; double load0 = 0, load1 = 0;
  for( idx e = 0; e < g.n; e++ ) {
    unsigned t = gr.getElTg()[e];
    c.require( t <= nr, "time group out of range" );
    c.require( gr.getTsIntervals()[t] <= ts[e], "element steps with more than its CFL time step" );
    for( unsigned f = 0; f < g.nFa; f++ ) { idx a = g.ad[e*g.nFa+f]; if( a != NONE ) c.require( std::abs( int( t ) - int( gr.getElTg()[a] ) ) <= 1, "face neighbors differ by more than one time group" ); }
    c.require( t == want[e], "time group smaller than necessary or not monotone" );
    cnt[t]++; low = low || want[e] != ini[e];
    load0 += 1/iv[want[e]]; load1 += 1/ts[e];
  }
  for( unsigned k = 0; k <= nr; k++ ) c.require( gr.nGroupEls()[k] == cnt[k], "elements per group" );
  c.close( gr.getSpeedUp(), g.n/load0, 1e-10, 0, "theoretical speedup" );
  if( s.b( 0.1 ) ) { double lg = 0; for( idx e = 0; e < g.n; e++ ) lg += 1/iv[ini[e]]; pbt::LogCap lc; gr.printStats(); std::pair< char const *, double > w[5] = { { "grouped over GTS:", g.n/lg }, { "grouped (normalized) over GTS:", g.n/load0 }, { "per-element over GTS:", g.n/load1 }, { "per-element over grouped:", lg/load1 }, { "per-element over grouped (normalized):", load0/load1 } };
    for( auto & x : w ) { auto v = pbt::logNums( x.first ); if( v.size() == 1 ) c.close( v[0], x.second, 1e-5, 0, std::string( "reported speedup, " ) + x.first ); }
    for( unsigned k = 0; k <= nr; k++ ) { auto v = pbt::logNums( std::to_string( k ) + " " ); if( v.size() == 3 ) { c.require( v[0] == cnt[k], "reported number of elements of a time group" ); c.close( v[1], iv[k], 1e-5, 0, "reported time step of a group" ); if( k < nr ) c.close( v[2], iv[k+1], 1e-5, 0, "reported range of a group" ); } } }
  // sub-ranges
  idx f0 = s.i( 0, g.n-1 ), nn = s.i( 0, g.n-f0 ); std::vector< idx > sub( nr+1, 777 ), ws( nr+1, 0 );
  gr.nGroupEls( f0, nn, sub.data() );
  for( idx e = f0; e < f0+nn; e++ ) ws[ want[e] ]++;
  c.require( sub == ws, "elements per group of a range" );
  c.nontrivial( low );
  std::ostringstream o; o << "n " << g.n << " rates " << nr << " funDt " << fdt << " groups:"; for( idx k : cnt ) o << " " << k; c.sample( o.str() );
}

PBT( priorities, 12000, 300000, "random face graphs, partitions, time groups; non-trivial: at least two partitions" ) {
  Graph g = rndGraph( s, 60 );
  idx np = s.i( 1, 6 ); unsigned ntg = s.i( 1, 5 );
  std::vector< idx > pa( g.n ), pr( g.n, 12345 ); std::vector< unsigned short > tg( g.n );
  for( idx e = 0; e < g.n; e++ ) { pa[e] = s.i( 0, np-1 ); tg[e] = s.i( 0, ntg-1 ); }
  edge_v::mesh::Partition::getElPr( g.ty, g.n, g.ad.data(), pa.data(), tg.data(), pr.data() );
  typedef std::tuple< idx, int, int > K;
  std::vector< K > ks( g.n );
  for( idx e = 0; e < g.n; e++ ) {
    bool se = false; for( unsigned f = 0; f < g.nFa; f++ ) { idx a = g.ad[e*g.nFa+f]; if( a != NONE && pa[a] != pa[e] ) se = true; }
    ks[e] = K( pa[e], se, tg[e] );
  }
  for( idx a = 0; a < g.n; a++ ) for( idx b = 0; b < g.n; b++ ) {
    c.require( ( pr[a] < pr[b] ) == ( ks[a] < ks[b] ), "priority order is not (partition, inner before send, time group)" );
  }
  std::set< idx > dis( pa.begin(), pa.end() );
  c.nontrivial( dis.size() > 1 );
}

// ---- graph handed to METIS
struct Cap { std::vector< idx_t > xadj, adj, vw, aw; idx_t np; bool vwNull, awNull; } g_cap;
extern "C" int __real_METIS_PartGraphKway( idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, real_t *, real_t *, idx_t *, idx_t *, idx_t * );
extern "C" int __wrap_METIS_PartGraphKway( idx_t * nv, idx_t * nc, idx_t * xadj, idx_t * adj, idx_t * vw, idx_t * vs, idx_t * aw, idx_t * np, real_t * tp, real_t * ub, idx_t * op, idx_t * ob, idx_t * pa ) {
  g_cap.xadj.assign( xadj, xadj+*nv+1 ); g_cap.adj.assign( adj, adj+xadj[*nv] );
  g_cap.vwNull = vw == nullptr; g_cap.awNull = aw == nullptr;
  if( vw ) g_cap.vw.assign( vw, vw+*nv ); if( aw ) g_cap.aw.assign( aw, aw+xadj[*nv] ); g_cap.np = *np;
  return __real_METIS_PartGraphKway( nv, nc, xadj, adj, vw, vs, aw, np, tp, ub, op, ob, pa );
}

static bool connected( idx n, unsigned nFa, idx const * ad ) {
  std::vector< int > seen( n, 0 ); std::vector< idx > st( 1, 0 ); seen[0] = 1; idx k = 1;
  while( st.size() ) { idx e = st.back(); st.pop_back(); for( unsigned f = 0; f < nFa; f++ ) { idx a = ad[e*nFa+f]; if( a != NONE && !seen[a] ) { seen[a] = 1; k++; st.push_back( a ); } } }
  return k == n;
}

// contents of a communication structure against the face graph
static void checkComm( pbt::Ctx & c, edge_v::t_entityType ty, idx nEls, unsigned nFa, idx const * ad, idx nPas, idx const * nPaEls, unsigned nTgs, unsigned short const * tg ) {
  edge_v::mesh::Communication co( nTgs, ty, nEls, ad, nPas, nPaEls, tg );
  std::vector< idx > pa( nEls ), first( nPas+1, 0 );
  for( idx p = 0; p < nPas; p++ ) { first[p+1] = first[p]+nPaEls[p]; for( idx e = first[p]; e < first[p+1]; e++ ) pa[e] = p; }
  // counts of inner and send elements
  std::vector< idx > in( nPas*nTgs, 0 ), se( nPas*nTgs, 0 ), nf( nPas, 0 );
  for( idx e = 0; e < nEls; e++ ) {
    unsigned k = 0; for( unsigned f = 0; f < nFa; f++ ) { idx a = ad[e*nFa+f]; if( a != NONE && pa[a] != pa[e] ) k++; }
    nf[pa[e]] += k; ( k ? se : in )[ pa[e]*nTgs+tg[e] ]++;
  }
  typedef std::pair< idx, unsigned > EF; typedef std::tuple< idx, unsigned, idx, unsigned > Ch;
  std::map< Ch, std::vector< EF > > send, recv;
  for( idx p = 0; p < nPas; p++ ) {
    for( unsigned t = 0; t < nTgs; t++ ) {
      c.require( co.nGroupElsIn( p )[t] == in[p*nTgs+t], "number of inner elements of a partition and time group" );
      c.require( co.nGroupElsSe( p )[t] == se[p*nTgs+t], "number of send elements of a partition and time group" );
    }
    c.require( co.nSeRe( p ) == nf[p], "number of communicating faces of a partition" );
    idx const * st = co.getStruct( p ); idx pos = 0;
    std::set< EF > ss, rs; Ch last;
    for( idx k = 0; k < st[0]; k++ ) {
      Ch ch( p, st[1+4*k], st[2+4*k], st[3+4*k] ); idx n = st[4+4*k];
      c.require( !send.count( ch ), "duplicate communication channel" );
      c.require( n > 0, "empty communication channel" );
      c.require( pos+n <= nf[p], "channels hold more faces than the partition communicates" );
      for( idx q = pos; q < pos+n; q++ ) {
        EF s0( co.getSendEl( p )[q]+first[p], co.getSendFa( p )[q] ), r0( co.getRecvEl( p )[q]+first[p], co.getRecvFa( p )[q] );
        for( EF x : { s0, r0 } ) {
          c.require( x.first >= first[p] && x.first < first[p+1] && x.second < nFa, "communicating face outside of the partition" );
          idx a = ad[x.first*nFa+x.second];
          c.require( a != NONE && pa[a] == std::get<2>( ch ) && tg[a] == std::get<3>( ch ) && tg[x.first] == std::get<1>( ch ), "face in the wrong channel" );
        }
        c.require( ss.insert( s0 ).second, "face sent twice" ); c.require( rs.insert( r0 ).second, "face received twice" );
        send[ch].push_back( s0 ); recv[ch].push_back( r0 );
      }
      pos += n;
    }
    c.require( pos == nf[p], "partition-crossing face missing in the channels" );
  }
  // i-th datum sent is the i-th datum expected
  for( auto & k : send ) {
    Ch rev( std::get<2>( k.first ), std::get<3>( k.first ), std::get<0>( k.first ), std::get<1>( k.first ) );
    c.require( recv.count( rev ) && recv[rev].size() == k.second.size(), "no matching channel in the remote partition" );
    for( idx q = 0; q < k.second.size(); q++ ) {
      EF s0 = k.second[q], r0 = recv[rev][q];
      c.require( ad[s0.first*nFa+s0.second] == r0.first && ad[r0.first*nFa+r0.second] == s0.first, "order of sent faces does not match the order of received faces" );
    }
  }
}

PBT( communication, 12000, 300000, "random connected face graphs sorted by (partition, inner/send, time group), 2..6 partitions, 1..4 time groups; non-trivial: at least two channels" ) {
  Graph g = rndGraph( s, 70 );
  idx np = s.i( 1, 6 ); unsigned ntg = s.i( 1, 4 );
  if( g.n < np || !connected( g.n, g.nFa, g.ad.data() ) ) c.discard();
  std::vector< idx > pa( g.n ); std::vector< unsigned short > tg( g.n );
  bool blocks = s.b( 0.5 );
  for( idx e = 0; e < g.n; e++ ) { pa[e] = blocks ? e*np/g.n : ( e < np ? e : s.i( 0, np-1 ) ); tg[e] = s.i( 0, ntg-1 ); }
  // order of the elements as established by the reordering
  std::vector< int > se( g.n, 0 );
  for( idx e = 0; e < g.n; e++ ) for( unsigned f = 0; f < g.nFa; f++ ) { idx a = g.ad[e*g.nFa+f]; if( a != NONE && pa[a] != pa[e] ) se[e] = 1; }
  std::vector< idx > o( g.n ), inv( g.n ); for( idx e = 0; e < g.n; e++ ) o[e] = e;
  std::stable_sort( o.begin(), o.end(), [&]( idx a, idx b ) { return std::make_tuple( pa[a], se[a], tg[a] ) < std::make_tuple( pa[b], se[b], tg[b] ); } );
  for( idx k = 0; k < g.n; k++ ) inv[o[k]] = k;
  std::vector< idx > ad( g.n*g.nFa ), npe( np, 0 ); std::vector< unsigned short > t2( g.n );
  for( idx k = 0; k < g.n; k++ ) { t2[k] = tg[o[k]]; npe[ pa[o[k]] ]++; for( unsigned f = 0; f < g.nFa; f++ ) { idx a = g.ad[o[k]*g.nFa+f]; ad[k*g.nFa+f] = a == NONE ? NONE : inv[a]; } }
  checkComm( c, g.ty, g.n, g.nFa, ad.data(), np, npe.data(), ntg, t2.data() );
  c.nontrivial( np > 1 );
  std::ostringstream os; os << "n " << g.n << " partitions " << np << " tgs " << ntg; c.sample( os.str() );
}

PBT( pipeline, 1500, 30000, "random mesh -> CFL -> groups -> METIS partition -> reorder -> re-read -> communication; non-trivial: at least two partitions" ) {
  Raw r = gen( s, s.b( 0.5 ) ? 60 : 20, 1 );
  load( r, s, false );
  edge_v::mesh::Mesh * m = mesh( r );
  idx n = m->nEls();
  VecModel mo; mo.mx.resize( m->nVes() ); for( auto & x : mo.mx ) x = s.lr( 1, 40 );
  edge_v::time::Cfl cf( r.ty, m->nVes(), n, m->getElVe(), m->getVeCrds(), m->getInDiasEl(), false, mo );
  unsigned short nr = s.i( 0, 4 ); std::vector< double > ra( nr+1, 2.0 );
  edge_v::time::Groups gr( r.ty, n, m->getElFaEl(), nr, ra.data(), 1.0, cf.getTimeSteps() );
  edge_v::mesh::Partition pt( *m, gr.getElTg() );
  c.require( pt.nPas() == 1 && pt.nPaEls()[0] == n, "single partition by default" );
  for( idx a = 0; a < n; a++ ) for( idx b = 0; b < n; b += 7 ) c.require( ( pt.getElPr()[a] < pt.getElPr()[b] ) == ( gr.getElTg()[a] < gr.getElTg()[b] ), "default priorities sort by time group" );
  idx np = 1;
  if( n >= 6 && connected( n, r.nElFas, m->getElFaEl() ) && s.b( 0.9 ) ) {
    np = s.i( 2, std::min< idx >( 6, n/3 ) );
    pt.kWay( np, s.i( 1, 3 ) );
    c.require( pt.nPas() == np, "number of partitions" );
    // graph given to METIS
    c.require( g_cap.xadj.size() == n+1 && g_cap.np == idx_t( np ), "size of the dual graph" );
    unsigned tmx = 0; for( idx e = 0; e < n; e++ ) tmx = std::max< unsigned >( tmx, gr.getElTg()[e] );
    for( idx e = 0; e < n; e++ ) {
      std::multiset< idx > a, b;
      for( unsigned f = 0; f < r.nElFas; f++ ) if( m->getElFaEl()[e*r.nElFas+f] != NONE ) a.insert( m->getElFaEl()[e*r.nElFas+f] );
      for( idx_t k = g_cap.xadj[e]; k < g_cap.xadj[e+1]; k++ ) {
        b.insert( g_cap.adj[k] );
        if( !g_cap.awNull ) {
          unsigned mt = std::min( gr.getElTg()[e], gr.getElTg()[g_cap.adj[k]] );
          c.require( g_cap.aw[k] == idx_t( 1 ) << ( tmx-mt ), "edge weight of the dual graph belongs to another edge" );
        }
      }
      c.require( a == b, "dual graph differs from the face adjacency" );
      if( !g_cap.vwNull ) c.require( g_cap.vw[e] == idx_t( 1 ) << ( tmx-gr.getElTg()[e] ), "vertex weight of the dual graph" );
    }
  }
  std::vector< idx > cnt( np, 0 );
  for( idx e = 0; e < n; e++ ) { c.require( pt.getElPa()[e] < np, "partition out of range" ); cnt[ pt.getElPa()[e] ]++; }
  for( idx p = 0; p < np; p++ ) c.require( pt.nPaEls()[p] == cnt[p], "elements per partition" );
  for( idx p = 0; p < np; p++ ) if( cnt[p] == 0 ) c.discard();
  // reorder and re-read
  std::map< std::vector< idx >, std::tuple< idx, idx, unsigned > > info;
  for( idx e = 0; e < n; e++ ) { std::vector< idx > k( m->getElVe()+e*r.nElVes, m->getElVe()+(e+1)*r.nElVes ); info[ sorted( k ) ] = std::make_tuple( pt.getElPr()[e], pt.getElPa()[e], gr.getElTg()[e] ); }
  gm().reorder( pt.getElPr() );
  gm().readMesh();
  edge_v::mesh::Mesh * m2 = mesh( r );
  c.require( m2->nEls() == n && m2->nVes() == r.crds.size() && m2->nFas() == m->nFas(), "sizes after reordering" );
  std::vector< unsigned short > tg( n ); idx last = 0;
  std::set< std::vector< idx > > once;
  for( idx e = 0; e < n; e++ ) {
    std::vector< idx > k( m2->getElVe()+e*r.nElVes, m2->getElVe()+(e+1)*r.nElVes ); k = sorted( k );
    c.require( info.count( k ) && once.insert( k ).second, "reordering changed the set of elements" );
    c.require( std::get<0>( info[k] ) >= last, "elements not ordered by priority" ); last = std::get<0>( info[k] );
    tg[e] = std::get<2>( info[k] );
    idx p = 0, acc = cnt[0]; while( e >= acc ) acc += cnt[++p];
    c.require( std::get<1>( info[k] ) == p, "partitions not contiguous after reordering" );
  }
  checkComm( c, r.ty, n, r.nElFas, m2->getElFaEl(), np, cnt.data(), nr+1, tg.data() );
  c.nontrivial( np > 1 );
  std::ostringstream os; os << r.desc().substr( 0, 60 ) << " partitions " << np << " rates " << nr; c.sample( os.str() );
  delete m; delete m2;
}
