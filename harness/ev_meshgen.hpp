// Random conforming meshes for EDGE-V, kept as plain element/vertex lists (the oracle's view) and handed to
// EDGE-V through the gmsh API.
#ifndef VERIF_EV_MESHGEN_HPP
#define VERIF_EV_MESHGEN_HPP
#include "pbt.hpp"
#include <array>
#include <map>
#include <gmsh.h>
#include "io/Gmsh.h"
#include "mesh/Mesh.h"

namespace mg {
typedef std::size_t idx;
const idx NONE = std::numeric_limits< idx >::max();

struct Raw {
  edge_v::t_entityType ty;
  unsigned nDis, nElVes, nElFas, nFaVes;
  std::vector< std::array< double, 3 > > crds;      // vertex coordinates, by vertex id
  std::vector< std::size_t > tags;                  // gmsh tags, ascending
  std::vector< std::vector< idx > > els;            // vertices in gmsh order
  std::map< int, std::vector< std::vector< idx > > > groups; // physical groups of faces: list of face-vertices
  bool periodic = false;
  double per[3] = {0,0,0};                          // periods
  int perGroup = 0;
  std::string desc() const {
    std::ostringstream o; o << "ty" << int( ty ) << " nEls " << els.size() << " nVes " << crds.size() << " groups " << groups.size()
                            << " periodic " << periodic << " el0";
    for( idx v : els[0] ) o << " " << v << "(" << crds[v][0] << "," << crds[v][1] << "," << crds[v][2] << ")";
    return o.str();
  }
};

// faces of the gmsh element as position lists (any vertex order)
inline std::vector< std::vector< unsigned > > gmshFaces( edge_v::t_entityType t ) {
  if( t == edge_v::TRIA3 ) return { {0,1},{1,2},{2,0} };
  if( t == edge_v::QUAD4R ) return { {0,1},{1,2},{2,3},{3,0} };
  if( t == edge_v::TET4 ) return { {0,2,1},{0,1,3},{0,3,2},{1,2,3} };
  return { {0,3,2,1},{0,1,5,4},{1,2,6,5},{3,7,6,2},{0,4,7,3},{4,5,6,7} };
}
// faces of EDGE's reference elements
inline std::vector< std::vector< unsigned > > refFaces( edge_v::t_entityType t ) { return gmshFaces( t ); }

inline std::vector< idx > sorted( std::vector< idx > v ) { std::sort( v.begin(), v.end() ); return v; }

// face -> (element, local gmsh face)
inline std::map< std::vector< idx >, std::vector< idx > > faceMap( Raw const & r ) {
  std::map< std::vector< idx >, std::vector< idx > > m;
  auto gf = gmshFaces( r.ty );
  for( idx e = 0; e < r.els.size(); e++ ) for( auto & f : gf ) {
    std::vector< idx > k; for( unsigned p : f ) k.push_back( r.els[e][p] );
    m[ sorted( k ) ].push_back( e );
  }
  return m;
}

inline double det3( double const * a, double const * b, double const * c ) {
  return a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0]);
}
inline double tetVol6( Raw const & r, std::vector< idx > const & e ) {
  double d[3][3];
  for( int k = 0; k < 3; k++ ) for( int i = 0; i < 3; i++ ) d[k][i] = r.crds[e[k+1]][i] - r.crds[e[0]][i];
  return det3( d[0], d[1], d[2] );
}
inline double triA2( Raw const & r, std::vector< idx > const & e ) {
  double ax = r.crds[e[1]][0]-r.crds[e[0]][0], ay = r.crds[e[1]][1]-r.crds[e[0]][1];
  double bx = r.crds[e[2]][0]-r.crds[e[0]][0], by = r.crds[e[2]][1]-r.crds[e[0]][1];
  return ax*by-ay*bx;
}

// periodic: 0 never, 1 maybe, 2 always
inline Raw gen( pbt::Src & s, unsigned maxCells, int periodicMode = 0, bool groups = true ) {
  Raw r;
  r.ty = s.pick< edge_v::t_entityType >( { edge_v::TRIA3, edge_v::QUAD4R, edge_v::TET4, edge_v::HEX8R } );
  r.nDis = CE_N_DIS( r.ty ); r.nElVes = CE_N_VES( r.ty ); r.nElFas = CE_N_FAS( r.ty ); r.nFaVes = CE_N_VES( CE_T_FA( r.ty ) );
  bool d3 = r.nDis == 3;
  r.periodic = periodicMode == 2 || ( periodicMode == 1 && s.b( 0.35 ) );
  unsigned lo = r.periodic ? 3 : 1;
  unsigned n[3];
  unsigned cap = d3 ? ( maxCells < 12 ? 2 : ( maxCells < 40 ? 3 : 4 ) ) : ( maxCells < 12 ? 3 : ( maxCells < 40 ? 6 : 9 ) );
  if( cap < lo ) cap = lo;
  for( int d = 0; d < 3; d++ ) n[d] = s.i( lo, cap );
  if( !d3 ) n[2] = 1;
  double sc = s.pick< double >( { 1, 1, 0.05, 100, 25000, 0.0005 } );
  if( d3 && sc < 1 && r.ty == edge_v::TET4 ) sc = 0.5;
  bool rect = r.ty == edge_v::QUAD4R || r.ty == edge_v::HEX8R;
  // grid lines
  std::vector< double > ln[3];
  double off[3];
  for( int d = 0; d < 3; d++ ) {
    off[d] = s.b( 0.5 ) ? s.sr( 20 ) * sc : 0;
    double x = off[d];
    bool uni = s.b( 0.3 );
    for( unsigned k = 0; k <= n[d]; k++ ) { ln[d].push_back( x ); x += ( uni ? 1.0 : rect && s.b( 0.1 ) ? 0.05 : s.r( 0.4, 1.6 ) ) * sc; }
    r.per[d] = ln[d].back() - ln[d].front();
  }
  unsigned nz = d3 ? n[2] : 0;
  auto vid = [&]( unsigned i, unsigned j, unsigned k ) { return idx( i + (n[0]+1)*( j + (n[1]+1)*k ) ); };
  std::vector< std::array< double, 3 > > cr( (n[0]+1)*(n[1]+1)*(nz+1) );
  double jit = rect ? 0 : ( s.b( 0.7 ) ? 0.1 : 0 );
  for( unsigned k = 0; k <= nz; k++ ) for( unsigned j = 0; j <= n[1]; j++ ) for( unsigned i = 0; i <= n[0]; i++ ) {
    auto & c = cr[ vid(i,j,k) ];
    c = {{ ln[0][i], ln[1][j], d3 ? ln[2][k] : 0.0 }};
    bool inner[3] = { i > 0 && i < n[0], j > 0 && j < n[1], k > 0 && k < nz };
    if( jit > 0 ) for( unsigned d = 0; d < r.nDis; d++ ) {
      // periodic boxes stay axis aligned: only fully interior vertices move
      if( r.periodic && !( inner[0] && inner[1] && ( !d3 || inner[2] ) ) ) continue;
      c[d] += s.sr( jit ) * sc;
    }
  }
  std::vector< std::vector< idx > > els;
  for( unsigned k = 0; k < ( d3 ? n[2] : 1 ); k++ ) for( unsigned j = 0; j < n[1]; j++ ) for( unsigned i = 0; i < n[0]; i++ ) {
    idx a = vid(i,j,k), b = vid(i+1,j,k), c = vid(i+1,j+1,k), d = vid(i,j+1,k);
    if( r.ty == edge_v::QUAD4R ) els.push_back( {a,b,c,d} );
    else if( r.ty == edge_v::TRIA3 ) {
      if( s.b() ) { els.push_back( {a,b,c} ); els.push_back( {a,c,d} ); }
      else { els.push_back( {a,b,d} ); els.push_back( {b,c,d} ); }
    }
    else {
      idx e = vid(i,j,k+1), f = vid(i+1,j,k+1), g = vid(i+1,j+1,k+1), h = vid(i,j+1,k+1);
      if( r.ty == edge_v::HEX8R ) els.push_back( {a,b,c,d,e,f,g,h} );
      else {
        idx p[3][2] = { {b,0},{d,0},{e,0} }; (void) p;
        // Kuhn: paths from a to g
        els.push_back( {a,b,c,g} ); els.push_back( {a,c,d,g} ); els.push_back( {a,d,h,g} );
        els.push_back( {a,h,e,g} ); els.push_back( {a,e,f,g} ); els.push_back( {a,f,b,g} );
      }
    }
  }
  // local refinement: split simplices at an interior point
  if( !rect ) {
    idx n0 = els.size();
    double p = s.b( 0.5 ) ? 0.15 : 0;
    for( idx e = 0; e < n0; e++ ) if( p > 0 && s.b( p ) ) {
      std::vector< idx > v = els[e];
      std::array< double, 3 > m = {{0,0,0}}; double w[4], ws = 0;
      for( idx q = 0; q < v.size(); q++ ) { w[q] = s.r( 0.7, 1.3 ); ws += w[q]; }
      for( idx q = 0; q < v.size(); q++ ) for( int d = 0; d < 3; d++ ) m[d] += cr[v[q]][d] * w[q]/ws;
      if( r.nDis == 2 ) m[2] = 0;
      idx nv = cr.size(); cr.push_back( m );
      els[e][0] = nv;
      for( idx q = 1; q < v.size(); q++ ) { auto t = v; t[q] = nv; els.push_back( t ); }
    }
  }
  // removal of elements
  if( !r.periodic && els.size() > 2 && s.b( 0.4 ) ) {
    std::vector< std::vector< idx > > keep;
    for( auto & e : els ) if( !s.b( 0.15 ) ) keep.push_back( e );
    if( keep.size() > 0 ) els = keep;
  }
  // random element order and local vertex order
  if( s.b( 0.8 ) ) { auto p = s.perm( els.size() ); auto t = els; for( idx k = 0; k < t.size(); k++ ) els[k] = t[p[k]]; }
  for( auto & e : els ) {
    if( !rect ) { auto p = s.perm( e.size() ); auto t = e; for( idx k = 0; k < t.size(); k++ ) e[k] = t[p[k]]; }
    else if( r.ty == edge_v::QUAD4R ) {
      unsigned ro = s.i( 0, 3 ); auto t = e; for( idx k = 0; k < 4; k++ ) e[k] = t[(k+ro)%4];
      if( s.b() ) std::swap( e[1], e[3] );
    }
    else {
      unsigned ro = s.i( 0, 3 ); auto t = e; for( idx k = 0; k < 4; k++ ) { e[k] = t[(k+ro)%4]; e[4+k] = t[4+(k+ro)%4]; }
      if( s.b( 0.3 ) ) for( int k = 0; k < 4; k++ ) std::swap( e[k], e[4+k] );
      if( s.b( 0.3 ) ) { t = e; e = { t[0], t[4], t[5], t[1], t[3], t[7], t[6], t[2] }; }
    }
  }
  // used vertices, random ids
  std::vector< idx > used( cr.size(), 0 ), map( cr.size(), NONE );
  for( auto & e : els ) for( idx v : e ) used[v] = 1;
  std::vector< idx > list; for( idx v = 0; v < cr.size(); v++ ) if( used[v] ) list.push_back( v );
  if( s.b( 0.8 ) ) { auto p = s.perm( list.size() ); auto t = list; for( idx k = 0; k < t.size(); k++ ) list[k] = t[p[k]]; }
  std::size_t tag = 0; bool gaps = s.b( 0.3 );
  for( idx k = 0; k < list.size(); k++ ) { map[list[k]] = k; r.crds.push_back( cr[list[k]] ); tag += 1 + ( gaps ? s.i( 0, 3 ) : 0 ); r.tags.push_back( tag ); }
  for( auto & e : els ) { for( idx & v : e ) v = map[v]; }
  r.els = els;
  // physical groups
  auto fm = faceMap( r );
  if( r.periodic ) {
    r.perGroup = s.pick< int >( { 106, 8 } );
    for( auto & f : fm ) if( f.second.size() == 1 ) r.groups[r.perGroup].push_back( f.first );
  }
  if( groups && s.b( 0.7 ) ) {
    std::vector< int > gs = { 101, 105, 201, 1, 2, 4 };
    unsigned nGr = s.i( 1, 3 );
    auto gp = s.perm( gs.size() );
    for( unsigned g = 0; g < nGr; g++ ) {
      std::vector< std::vector< idx > > fl;
      for( auto & f : fm ) {
        if( r.periodic && f.second.size() == 1 ) continue;
        if( s.b( f.second.size() == 1 ? 0.4 : 0.08 ) ) fl.push_back( f.first );
      }
      if( fl.size() ) r.groups[ gs[gp[g]] ] = fl;
    }
  }
  return r;
}

// orders the vertices of a face such that consecutive ones share an edge (rectangles); any order for others
inline std::vector< idx > facePerimeter( Raw const & r, std::vector< idx > f ) {
  if( f.size() != 4 ) return f;
  // find the diagonal of f[0]: the farthest vertex
  double dm = -1; unsigned far = 1;
  for( unsigned k = 1; k < 4; k++ ) {
    double d = 0; for( int q = 0; q < 3; q++ ) { double t = r.crds[f[k]][q]-r.crds[f[0]][q]; d += t*t; }
    if( d > dm ) { dm = d; far = k; }
  }
  std::swap( f[2], f[far] );
  return f;
}

inline edge_v::io::Gmsh & gm() { static edge_v::io::Gmsh * g = new edge_v::io::Gmsh(); return *g; }

// loads the mesh into gmsh through its API and lets EDGE-V read it
inline void load( Raw const & r, pbt::Src & s, bool multiEntity = true ) {
  edge_v::io::Gmsh & g = gm();
  gmsh::clear();
  gmsh::model::add( "rnd" );
  int dim = r.nDis;
  int gty = r.ty == edge_v::TRIA3 ? 2 : r.ty == edge_v::QUAD4R ? 3 : r.ty == edge_v::TET4 ? 4 : 5;
  int fty = r.nDis == 2 ? 1 : ( r.ty == edge_v::TET4 ? 2 : 3 );
  gmsh::model::addDiscreteEntity( dim, 1 );
  std::vector< double > cs; for( auto & c : r.crds ) for( double x : c ) cs.push_back( x );
  // hand over the nodes in random order
  std::vector< std::size_t > tg = r.tags;
  if( s.b( 0.5 ) ) {
    auto p = s.perm( tg.size() );
    for( idx k = 0; k < tg.size(); k++ ) { tg[k] = r.tags[p[k]]; for( int d = 0; d < 3; d++ ) cs[k*3+d] = r.crds[p[k]][d]; }
  }
  gmsh::model::mesh::addNodes( dim, 1, tg, cs );
  std::vector< std::size_t > et, ev;
  std::size_t et0 = 1;
  for( idx e = 0; e < r.els.size(); e++ ) { et.push_back( et0++ ); for( idx v : r.els[e] ) ev.push_back( r.tags[v] ); }
  if( multiEntity && r.els.size() > 3 && s.b( 0.2 ) ) {
    std::size_t h = s.i( 1, r.els.size()-1 );
    gmsh::model::addDiscreteEntity( dim, 2 );
    gmsh::model::mesh::addElementsByType( 1, gty, std::vector< std::size_t >( et.begin(), et.begin()+h ), std::vector< std::size_t >( ev.begin(), ev.begin()+h*r.nElVes ) );
    gmsh::model::mesh::addElementsByType( 2, gty, std::vector< std::size_t >( et.begin()+h, et.end() ), std::vector< std::size_t >( ev.begin()+h*r.nElVes, ev.end() ) );
  }
  else gmsh::model::mesh::addElementsByType( 1, gty, et, ev );
  int ftag = 1;
  for( auto & gr : r.groups ) {
    std::vector< int > ents;
    idx pos = 0;
    while( pos < gr.second.size() ) {
      idx cnt = gr.second.size() - pos;
      if( cnt > 2 && s.b( 0.3 ) ) cnt = s.i( 1, cnt );
      gmsh::model::addDiscreteEntity( dim-1, ftag );
      std::vector< std::size_t > ft, fv;
      for( idx k = pos; k < pos+cnt; k++ ) { ft.push_back( et0++ ); for( idx v : facePerimeter( r, gr.second[k] ) ) fv.push_back( r.tags[v] ); }
      gmsh::model::mesh::addElementsByType( ftag, fty, ft, fv );
      ents.push_back( ftag ); ftag++; pos += cnt;
    }
    gmsh::model::addPhysicalGroup( dim-1, ents, gr.first );
  }
  g.readMesh();
}

inline edge_v::mesh::Mesh * mesh( Raw const & r ) {
  return r.periodic ? new edge_v::mesh::Mesh( gm(), r.perGroup ) : new edge_v::mesh::Mesh( gm() );
}
} // namespace mg
#endif
