// EDGE-V meshes: topology, boundary markers, periodicity, geometry.
#define private public
#include "mesh/Mesh.h"
#undef private
#include "ev_meshgen.hpp"
#include "geom/Geom.h"
#include "geom/Generic.h"
using namespace mg;

struct Loaded { Raw r; edge_v::mesh::Mesh * m; std::vector< idx > rawOf, idOf; ~Loaded() { delete m; } };

static void loadCase( pbt::Src & s, pbt::Ctx & c, Loaded & l, unsigned cells, int per ) {
  l.m = nullptr;
  l.r = gen( s, cells, per );
  load( l.r, s );
  l.m = mesh( l.r );
  Raw & r = l.r; auto & m = *l.m;
  c.sample( r.desc() );
  // elements and vertices are those of the input
  c.require( m.getTypeEl() == r.ty, "element type" );
  c.require( m.nEls() == r.els.size(), "number of elements" );
  c.require( m.nVes() == r.crds.size(), "number of vertices" );
  for( idx v = 0; v < r.crds.size(); v++ ) for( int d = 0; d < 3; d++ )
    c.require( m.getVeCrds()[v][d] == r.crds[v][d], "vertex coordinates" );
  std::map< std::vector< idx >, idx > mp;
  for( idx e = 0; e < r.els.size(); e++ ) mp[ sorted( r.els[e] ) ] = e;
  l.rawOf.resize( r.els.size() ); l.idOf.assign( r.els.size(), NONE );
  for( idx e = 0; e < r.els.size(); e++ ) {
    std::vector< idx > k( m.getElVe() + e*r.nElVes, m.getElVe() + (e+1)*r.nElVes );
    auto it = mp.find( sorted( k ) );
    c.require( it != mp.end(), "mesh element which is not an element of the input" );
    c.require( l.idOf[it->second] == NONE, "element appears twice" );
    l.rawOf[e] = it->second; l.idOf[it->second] = e;
  }
}

static std::vector< idx > elFaVe( Raw const & r, edge_v::mesh::Mesh const & m, idx e, unsigned f ) {
  auto rf = refFaces( r.ty ); std::vector< idx > k;
  for( unsigned p : rf[f] ) k.push_back( m.getElVe()[e*r.nElVes+p] );
  return k;
}

// partner of a periodic boundary face: vertices shifted by the period in one dimension
static bool perMatch( Raw const & r, std::vector< idx > const & a, std::vector< idx > const & b, int & dim, std::map< idx, idx > & pairing ) {
  for( unsigned d = 0; d < r.nDis; d++ ) {
    bool all = true; pairing.clear();
    for( idx va : a ) {
      bool hit = false;
      for( idx vb : b ) {
        bool eq = true;
        for( unsigned q = 0; q < r.nDis; q++ ) {
          double df = std::fabs( r.crds[va][q]-r.crds[vb][q] );
          double want = q == d ? r.per[d] : 0;
          if( std::fabs( df-want ) > 1e-9 * ( 1 + std::fabs( r.crds[va][q] ) + r.per[d] ) ) eq = false;
        }
        if( eq ) { hit = true; pairing[va] = vb; }
      }
      all = all && hit;
    }
    if( all ) { dim = d; return true; }
  }
  return false;
}

static void topology( pbt::Src & s, pbt::Ctx & c, int per ) {
  Loaded l; loadCase( s, c, l, s.b( 0.3 ) ? 60 : 20, per );
  Raw & r = l.r; auto & m = *l.m;
  auto fm = faceMap( r ); // sorted vertices -> raw elements
  c.nontrivial( r.els.size() > 1 );
  c.require( m.nFas() == fm.size(), "number of faces: " + std::to_string( m.nFas() ) + " vs " + std::to_string( fm.size() ) );
  std::map< std::vector< idx >, idx > fid;
  std::vector< std::vector< idx > > fs( m.nFas() );
  for( idx f = 0; f < m.nFas(); f++ ) {
    std::vector< idx > k( m.getFaVe() + f*r.nFaVes, m.getFaVe() + (f+1)*r.nFaVes );
    c.require( std::is_sorted( k.begin(), k.end() ), "face vertices ascending" );
    c.require( fm.count( k ) == 1, "face which is no face of an element" );
    c.require( fid.count( k ) == 0, "face appears twice" );
    fid[k] = f; fs[f] = k;
  }
  // periodic partners
  std::vector< idx > partner( m.nFas(), NONE );
  std::vector< std::map< idx, idx > > pairing( m.nFas() );
  if( r.periodic ) {
    std::vector< idx > bf; for( idx f = 0; f < m.nFas(); f++ ) if( fm[fs[f]].size() == 1 ) bf.push_back( f );
    for( idx a : bf ) for( idx b : bf ) if( a != b ) {
      int d; std::map< idx, idx > pr;
      if( perMatch( r, fs[a], fs[b], d, pr ) ) { partner[a] = b; pairing[a] = pr; }
    }
    c.nontrivial();
  }
  // face -> element
  for( idx f = 0; f < m.nFas(); f++ ) {
    std::vector< idx > want; for( idx e : fm[fs[f]] ) want.push_back( l.idOf[e] );
    idx g0 = m.getFaEl()[f*2], g1 = m.getFaEl()[f*2+1];
    if( want.size() == 2 ) {
      std::sort( want.begin(), want.end() );
      c.require( g0 == want[0] && g1 == want[1], "elements of an inner face" );
    }
    else if( partner[f] != NONE ) {
      c.require( g0 == want[0], "periodic face: the element touching the face comes first" );
      c.require( g1 == l.idOf[ fm[fs[partner[f]]][0] ], "periodic face: element behind the periodic boundary" );
    }
    else {
      c.require( g0 == want[0], "element of a boundary face" );
      c.require( g1 == NONE, "boundary face has a second element" );
    }
  }
  // element -> vertex, face, element
  for( idx e = 0; e < m.nEls(); e++ ) {
    idx const * ve = m.getElVe() + e*r.nElVes;
    std::vector< idx > vv( ve, ve+r.nElVes );
    if( r.ty == edge_v::TRIA3 ) { c.require( triA2( r, vv ) > 0, "triangle not counter-clockwise" ); c.require( vv[0] < vv[1] && vv[0] < vv[2], "smallest vertex not first" ); }
    else if( r.ty == edge_v::TET4 ) { c.require( tetVol6( r, vv ) > 0, "tet with negative orientation" ); c.require( vv[0] == *std::min_element( vv.begin(), vv.end() ), "smallest vertex not first" ); }
    else {
      // reference position of the vertices
      static const int P[8][3] = { {0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1} };
      double mn[3], mx[3];
      for( int d = 0; d < 3; d++ ) { mn[d] = 1e300; mx[d] = -1e300; for( idx v : vv ) { mn[d] = std::min( mn[d], r.crds[v][d] ); mx[d] = std::max( mx[d], r.crds[v][d] ); } }
      for( unsigned k = 0; k < r.nElVes; k++ ) for( unsigned d = 0; d < r.nDis; d++ )
        c.require( r.crds[vv[k]][d] == ( P[k][d] ? mx[d] : mn[d] ), "rectangular element: vertex at wrong reference position" );
    }
    for( unsigned f = 0; f < r.nElFas; f++ ) {
      std::vector< idx > k = sorted( elFaVe( r, m, e, f ) );
      idx id = m.getElFa()[e*r.nElFas+f];
      c.require( id < m.nFas(), "element face out of range" );
      c.require( fs[id] == k, "element's local face does not match the reference element's face" );
      idx ad = m.getElFaEl()[e*r.nElFas+f];
      auto & own = fm[k]; idx want = NONE;
      if( own.size() == 2 ) want = l.idOf[ own[0] ] == e ? l.idOf[ own[1] ] : l.idOf[ own[0] ];
      else if( partner[id] != NONE ) want = l.idOf[ fm[fs[partner[id]]][0] ];
      c.require( ad == want, "element behind the local face" );
    }
  }
  // boundary markers
  for( idx f = 0; f < m.nFas(); f++ ) {
    int want = 0;
    for( auto & g : r.groups ) for( auto & k : g.second ) if( k == fs[f] ) want |= g.first;
    c.require( m.getSpTypeFa()[f] == want, "marker of a face: " + std::to_string( m.getSpTypeFa()[f] ) + " vs " + std::to_string( want ) );
  }
  // views from the neighbors
  std::vector< std::pair< idx, unsigned > > qs;
  for( idx e = 0; e < m.nEls(); e++ ) for( unsigned f = 0; f < r.nElFas; f++ ) if( m.getElFaEl()[e*r.nElFas+f] != NONE ) qs.push_back( { e, f } );
  if( qs.empty() ) return;
  idx off = 0;
  idx mn = NONE; for( auto & q : qs ) mn = std::min( mn, q.first );
  off = s.i( 0, mn );
  std::vector< idx > qe; std::vector< unsigned short > qf; for( auto & q : qs ) { qe.push_back( q.first-off ); qf.push_back( q.second ); }
  std::vector< unsigned short > fa( qs.size(), 99 ), ve( qs.size(), 99 );
  m.getFaIdsAd( qs.size(), off, qe.data(), qf.data(), fa.data() );
  m.getVeIdsAd( qs.size(), off, qe.data(), qf.data(), ve.data() );
  for( idx k = 0; k < qs.size(); k++ ) {
    idx e = qs[k].first; unsigned f = qs[k].second;
    idx ad = m.getElFaEl()[e*r.nElFas+f];
    // unique shared face expected
    c.require( fa[k] < r.nElFas, "face id of the neighbor out of range" );
    std::vector< idx > mine = elFaVe( r, m, e, f ), other = elFaVe( r, m, ad, fa[k] );
    idx id = m.getElFa()[e*r.nElFas+f];
    idx v0 = mine[0];
    if( partner[id] != NONE ) {
      c.require( m.getElFa()[ad*r.nElFas+fa[k]] == partner[id], "face id of the periodic neighbor" );
      v0 = pairing[id][mine[0]];
    }
    else c.require( sorted( mine ) == sorted( other ), "face id of the neighbor" );
    if( r.ty == edge_v::TET4 ) {
      unsigned pos = std::find( other.begin(), other.end(), v0 ) - other.begin();
      c.require( ve[k] == pos, "vertex id of the neighbor: " + std::to_string( ve[k] ) + " vs " + std::to_string( pos ) );
    }
    else c.require( ve[k] == 0, "vertex id of the neighbor (non-tet)" );
  }
}

PBT( topology, 9000, 150000, "random conforming mesh (tria3/quad4r/tet4/hex8r; jittered, locally refined, holes, permuted vertex/element ids, random markers); non-trivial: more than one element" ) { topology( s, c, 0 ); }
PBT( periodic, 1600, 30000, "as topology, on fully periodic boxes with at least three cells per dimension" ) { topology( s, c, 2 ); }

typedef std::array< double, 3 > V3;
static V3 sub( V3 a, V3 b ) { return {{ a[0]-b[0], a[1]-b[1], a[2]-b[2] }}; }
static double dot( V3 a, V3 b ) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static V3 cross( V3 a, V3 b ) { return {{ a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0] }}; }
static double norm( V3 a ) { return std::sqrt( dot( a, a ) ); }

PBT( geometry, 6000, 100000, "same meshes, partly periodic; every face and element; non-trivial: more than one element" ) {
  Loaded l; loadCase( s, c, l, s.b( 0.3 ) ? 60 : 20, 1 );
  Raw & r = l.r; auto & m = *l.m;
  c.nontrivial( r.els.size() > 1 );
  // query in random order, and repeatedly
  unsigned first = s.i( 0, 4 );
  for( unsigned k = 0; k < 5; k++ ) { unsigned q = (first+k)%5; if( q == 0 ) m.getAreasFa(); if( q == 1 ) m.getVolumesEl(); if( q == 2 ) m.getCentroidsEl(); if( q == 3 ) m.getNormalsFa(); if( q == 4 ) m.getTangentsFa(); }
  double const * ar = m.getAreasFa(); double const * vo = m.getVolumesEl();
  double const (*ce)[3] = m.getCentroidsEl(); double const (*no)[3] = m.getNormalsFa(); double const (*ta)[2][3] = m.getTangentsFa();
  double L = 0; for( auto & x : r.crds ) for( double y : x ) L = std::max( L, std::fabs( y ) );
  std::vector< double > vol( m.nEls() );
  for( idx e = 0; e < m.nEls(); e++ ) {
    std::vector< V3 > p; for( unsigned k = 0; k < r.nElVes; k++ ) p.push_back( r.crds[ m.getElVe()[e*r.nElVes+k] ] );
    V3 cen = {{0,0,0}}; for( auto & q : p ) for( int d = 0; d < 3; d++ ) cen[d] += q[d]/r.nElVes;
    double v = 0, ind = 0;
    double h = 0; for( auto & q : p ) h = std::max( h, norm( sub( q, p[0] ) ) );
    if( r.ty == edge_v::TRIA3 ) {
      v = norm( cross( sub( p[1], p[0] ), sub( p[2], p[0] ) ) ) / 2;
      double pe = norm( sub( p[1], p[0] ) ) + norm( sub( p[2], p[1] ) ) + norm( sub( p[0], p[2] ) );
      ind = 2 * ( 2*v/pe );
    }
    else if( r.ty == edge_v::TET4 ) {
      v = std::fabs( dot( sub( p[1], p[0] ), cross( sub( p[2], p[0] ), sub( p[3], p[0] ) ) ) ) / 6;
      auto A = [&]( int a, int b, int d ) { return norm( cross( sub( p[b], p[a] ), sub( p[d], p[a] ) ) ) / 2; };
      ind = 2 * 3*v / ( A(0,1,2) + A(0,1,3) + A(0,2,3) + A(1,2,3) );
    }
    else {
      double e0 = norm( sub( p[1], p[0] ) ), e1 = norm( sub( p[3], p[0] ) ), e2 = r.nDis == 3 ? norm( sub( p[4], p[0] ) ) : 1e300;
      v = e0*e1*( r.nDis == 3 ? e2 : 1 ); ind = std::min( e0, std::min( e1, e2 ) );
    }
    vol[e] = v;
    double cond = 1e-11 * ( 1 + std::pow( L/h, r.nDis ) );
    c.close( vo[e], v, 1e-9 + cond, 0, "element volume" );
    c.close( m.getInDiasEl()[e], ind, 1e-8 + 10*cond, 0, "element in-diameter" );
    for( int d = 0; d < 3; d++ ) c.close( ce[e][d], cen[d], 1e-11, 1e-11*L, "element centroid" );
  }
  for( idx f = 0; f < m.nFas(); f++ ) {
    std::vector< idx > id; for( unsigned k = 0; k < r.nFaVes; k++ ) id.push_back( m.getFaVe()[f*r.nFaVes+k] );
    std::vector< idx > pe = facePerimeter( r, id );
    std::vector< V3 > p; for( idx v : pe ) p.push_back( r.crds[v] );
    double a; if( p.size() == 2 ) a = norm( sub( p[1], p[0] ) ); else { a = norm( cross( sub( p[1], p[0] ), sub( p[2], p[0] ) ) ) / 2; if( p.size() == 4 ) a *= 2; }
    c.close( ar[f], a, 1e-9, 0, "face area" );
    V3 n = {{ no[f][0], no[f][1], no[f][2] }}, t0 = {{ ta[f][0][0], ta[f][0][1], ta[f][0][2] }}, t1 = {{ ta[f][1][0], ta[f][1][1], ta[f][1][2] }};
    c.close( norm( n ), 1, 0, 1e-9, "length of the normal" );
    c.close( norm( t0 ), 1, 0, 1e-9, "length of the first tangent" );
    c.close( dot( n, t0 ), 0, 0, 1e-8, "normal orthogonal to first tangent" );
    for( unsigned k = 1; k < p.size(); k++ ) c.close( dot( n, sub( p[k], p[0] ) ) / norm( sub( p[k], p[0] ) ), 0, 0, 1e-6, "normal orthogonal to the face" );
    if( r.nDis == 3 ) {
      c.close( norm( t1 ), 1, 0, 1e-9, "length of the second tangent" );
      c.close( dot( n, t1 ), 0, 0, 1e-8, "normal orthogonal to second tangent" );
      c.close( dot( t0, t1 ), 0, 0, 1e-8, "tangents orthogonal" );
      c.close( dot( n, cross( t0, t1 ) ), 1, 0, 1e-7, "face-aligned system right-handed" );
    }
    else {
      c.require( norm( t1 ) == 0, "second tangent zero in 2D" );
      c.close( n[0]*t0[1]-n[1]*t0[0], 1, 0, 1e-8, "face-aligned system right-handed" );
      c.require( n[2] == 0 && t0[2] == 0, "in-plane" );
    }
    // the normal points away from the first element
    idx e0 = m.getFaEl()[f*2];
    V3 cen = {{0,0,0}}; for( unsigned k = 0; k < r.nElVes; k++ ) for( int d = 0; d < 3; d++ ) cen[d] += r.crds[ m.getElVe()[e0*r.nElVes+k] ][d]/r.nElVes;
    c.require( dot( n, sub( p[0], cen ) ) > 0, "normal points away from the face's first element" );
  }
  // closed surfaces: sum of area-weighted outward normals vanishes; divergence theorem gives the volume
  for( idx e = 0; e < m.nEls(); e++ ) {
    V3 sm = {{0,0,0}}; double dv = 0, sa = 0;
    V3 o = r.crds[ m.getElVe()[e*r.nElVes] ];
    for( unsigned k = 0; k < r.nElFas; k++ ) {
      idx f = m.getElFa()[e*r.nElFas+k];
      double sg = m.getFaEl()[f*2] == e ? 1 : -1;
      V3 n = {{ no[f][0], no[f][1], no[f][2] }};
      for( int d = 0; d < 3; d++ ) sm[d] += sg*ar[f]*n[d];
      dv += sg * ar[f] * dot( n, sub( r.crds[ m.getFaVe()[f*r.nFaVes] ], o ) ) / r.nDis;
      sa += ar[f];
    }
    for( int d = 0; d < 3; d++ ) c.close( sm[d], 0, 0, 1e-6*sa, "closed surface" );
    c.close( dv, vol[e], 1e-6, 0, "divergence theorem" );
  }
}

PBT( sortlex, 4000, 200000, "random integer tables with repeated rows; non-trivial: at least two rows" ) {
  idx n0 = s.i( 1, 40 ), n1 = s.i( 1, 5 ), mx = s.i( 1, 6 );
  std::vector< idx > d( n0*n1 ); for( auto & x : d ) x = s.i( 0, mx );
  auto o = d; std::vector< idx > pe( n0, NONE ); bool wp = s.b( 0.7 );
  edge_v::geom::Generic::sortLex( n0, n1, d.data(), wp ? pe.data() : nullptr );
  std::vector< std::vector< idx > > a, b;
  for( idx k = 0; k < n0; k++ ) { a.push_back( { o.begin()+k*n1, o.begin()+(k+1)*n1 } ); b.push_back( { d.begin()+k*n1, d.begin()+(k+1)*n1 } ); }
  if( wp ) {
    std::vector< int > seen( n0, 0 );
    for( idx k = 0; k < n0; k++ ) { c.require( pe[k] < n0 && !seen[pe[k]], "permutation" ); seen[pe[k]] = 1; c.require( a[pe[k]] == b[k], "permutation matches rows" ); }
  }
  std::sort( a.begin(), a.end() );
  c.require( a == b, "lexicographic order" );
  c.nontrivial( n0 > 1 );
}
