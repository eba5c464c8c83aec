// Stand-in for the plugin "EdgePartition" of EDGE's version of Gmsh (not available here): the mesh is written to one
// file per partition, the number of elements per partition comes from the view the plugin is given (values + 0.5).
#include <gmsh.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <map>
#include <set>
namespace {
std::map< int, std::vector< double > > views; int opt = -1; std::vector< std::size_t > parts;
void die( char const * m ) { std::fprintf( stderr, "ERROR: partitioning: %s\n", m ); std::exit( 78 ); }
}
namespace gmsh {
namespace plugin {
void setNumber( const std::string & n, const std::string & o, const double v ) { if( n != "EdgePartition" || o != "nPaEls" ) die( "unknown option" ); opt = (int) std::floor( v ); }
int run( const std::string & n ) {
  if( n != "EdgePartition" || !views.count( opt ) ) die( "no sizes of the partitions" );
  for( double v : views[opt] ) parts.push_back( (std::size_t) v );
  return 0;
}
}
namespace view {
void addListData( const int t, const std::string & ty, const int n, const std::vector< double > & d ) { if( ty != "SP" || (std::size_t) n != d.size() ) die( "invalid view" ); views[t] = d; }
}
void write( const std::string & fn ) {
  if( parts.empty() ) { typedef void (*T)( const std::string & ); T f = (T) dlsym( RTLD_NEXT, "_ZN4gmsh5writeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" ); if( !f ) die( "no write" ); f( fn ); return; }
  int D = model::getDimension();
  std::vector< int > ty; std::vector< std::vector< std::size_t > > tg, nd;
  model::mesh::getElements( ty, tg, nd, D );
  if( ty.size() != 1 ) die( "elements" );
  std::string nm; int di, od, nn, np; std::vector< double > lc;
  model::mesh::getElementProperties( ty[0], nm, di, od, nn, lc, np );
  // faces with physical groups
  struct F { int ty, ph; std::vector< std::size_t > v; };
  std::vector< F > fs;
  std::vector< std::pair< int, int > > pg; model::getPhysicalGroups( pg, D-1 );
  for( auto & p : pg ) {
    std::vector< int > en; model::getEntitiesForPhysicalGroup( p.first, p.second, en );
    for( int e : en ) {
      std::vector< int > t2; std::vector< std::vector< std::size_t > > g2, n2; model::mesh::getElements( t2, g2, n2, D-1, e );
      for( std::size_t k = 0; k < t2.size(); k++ ) { std::size_t m = n2[k].size() / g2[k].size(); for( std::size_t i = 0; i < g2[k].size(); i++ ) fs.push_back( { t2[k], p.second, std::vector< std::size_t >( n2[k].begin() + i*m, n2[k].begin() + (i+1)*m ) } ); }
    }
  }
  std::size_t first = 0, dot = fn.rfind( '.' );
  for( std::size_t p = 0; p < parts.size(); p++ ) {
    if( ( first + parts[p] ) * nn > nd[0].size() ) die( "too many elements" );
    std::set< std::size_t > vs( nd[0].begin() + first*nn, nd[0].begin() + ( first + parts[p] )*nn );
    std::set< std::set< std::size_t > > own;
    std::FILE * h = std::fopen( ( fn.substr( 0, dot ) + "_" + std::to_string( p+1 ) + fn.substr( dot ) ).c_str(), "w" );
    std::fprintf( h, "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%zu\n", vs.size() );
    for( std::size_t v : vs ) { std::vector< double > c, pc; int a, b; model::mesh::getNode( v, c, pc, a, b ); std::fprintf( h, "%zu %.17g %.17g %.17g\n", v, c[0], c[1], c[2] ); }
    // boundary faces of this partition: all their vertices belong to one of its elements
    std::map< std::size_t, std::set< std::size_t > > ve; for( std::size_t e = first; e < first + parts[p]; e++ ) for( int k = 0; k < nn; k++ ) ve[nd[0][e*nn+k]].insert( e );
    std::vector< F const * > mine;
    for( auto & f : fs ) { bool ok = false; auto i = ve.find( f.v[0] ); if( i != ve.end() ) for( std::size_t e : i->second ) { bool all = true; for( std::size_t v : f.v ) all = all && ve.count( v ) && ve[v].count( e ); ok = ok || all; } if( ok ) mine.push_back( &f ); }
    std::fprintf( h, "$EndNodes\n$Elements\n%zu\n", mine.size() + parts[p] );
    std::size_t id = 1;
    for( F const * f : mine ) { std::fprintf( h, "%zu %d 2 %d %d", id++, f->ty, f->ph, f->ph ); for( std::size_t v : f->v ) std::fprintf( h, " %zu", v ); std::fprintf( h, "\n" ); }
    for( std::size_t e = first; e < first + parts[p]; e++ ) { std::fprintf( h, "%zu %d 2 1 1", id++, ty[0] ); for( int k = 0; k < nn; k++ ) std::fprintf( h, " %zu", nd[0][e*nn+k] ); std::fprintf( h, "\n" ); }
    std::fprintf( h, "$EndElements\n" ); std::fclose( h );
    first += parts[p];
  }
  if( first * nn != nd[0].size() ) die( "elements without partition" );
}
}
