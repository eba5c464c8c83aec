// EDGE-V file interfaces: HDF5, CSV, msh4 background mesh, regular grids, XML configuration
#include "pbt.hpp"
#include <map>
#include <limits>
#include "io/Hdf5.h"
#include "io/Csv.h"
#include "io/BgMeshMsh4.h"
#include "io/Grid.h"
#include "io/Config.h"
#include "models/Constant.h"
#include <pugixml.hpp>

using edge_v::t_idx;

static std::string tmpFile( std::string const & ext ) {
  char const * t = std::getenv( "VERIF_SCRATCH" );
  return std::string( t ? t : "/tmp" ) + "/ev_io_" + std::to_string( getpid() ) + ext;
}
struct Rm { std::string f; ~Rm() { unlink( f.c_str() ); } };

static double genD( pbt::Src & s ) {
  switch( s.draw( 6 ) ) {
    case 0: return double( s.i( -20, 20 ) );
    case 1: return s.sr( 1 );
    case 2: return ( s.b() ? -1 : 1 ) * s.lr( 1E-300, 1E300 );
    case 3: return s.sr( 1 ) * 1E6;
    case 4: { uint64_t b = s.draw( 1ull<<62 ); double d; std::memcpy( &d, &b, 8 ); return std::isfinite( d ) ? d : 1.5; }
    default: return s.pick( std::vector< double >{ 0, std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), 1.0/3 } );
  }
}
static float genF( pbt::Src & s ) {
  switch( s.draw( 4 ) ) {
    case 0: return float( s.i( -20, 20 ) );
    case 1: return float( s.sr( 1 ) );
    case 2: { uint32_t b = uint32_t( s.draw( 1ull<<32 ) ); float d; std::memcpy( &d, &b, 4 ); return std::isfinite( d ) ? d : 1.5f; }
    default: return s.pick( std::vector< float >{ 0, std::numeric_limits<float>::max(), std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::max(), 1.0f/3 } );
  }
}
static t_idx genI( pbt::Src & s ) {
  switch( s.draw( 4 ) ) {
    case 0: return s.draw( 100 );
    case 1: return s.draw( 1ull<<32 );
    case 2: return s.draw( 1ull<<63 );
    default: return s.pick( std::vector< t_idx >{ 0, (1ull<<31)-1, 1ull<<31, (1ull<<32)-1, 1ull<<32, (1ull<<63)-1 } );
  }
}
static unsigned short genU( pbt::Src & s ) {
  return s.b() ? s.draw( 65536 ) : s.pick( std::vector< unsigned short >{ 0, 65535, 32767, 32768, 255, 256 } );
}

struct Ds { int ty; std::vector< unsigned short > u; std::vector< t_idx > i; std::vector< float > f; std::vector< double > d; };
static std::size_t dsN( Ds const & x ) { return x.ty == 0 ? x.u.size() : x.ty == 1 ? x.i.size() : x.ty == 2 ? x.f.size() : x.d.size(); }

template< typename T > static void cmpGet( pbt::Ctx & c, edge_v::io::Hdf5 const & h, std::string const & n, std::vector< T > const & e ) {
  std::vector< T > g( e.size() + 1 );
  std::memset( (void*) g.data(), 0x5a, g.size()*sizeof(T) );
  T guard = g.back();
  h.get( n, g.data() );
  c.require( std::memcmp( &guard, &g.back(), sizeof(T) ) == 0, "get wrote past the data set " + n );
  for( std::size_t k = 0; k < e.size(); k++ )
    c.require( std::memcmp( &g[k], &e[k], sizeof(T) ) == 0, "data set " + n + " differs at position " + std::to_string( k ) + ": wrote " + std::to_string( e[k] ) + " read " + std::to_string( g[k] ) );
}
static void verify( pbt::Ctx & c, edge_v::io::Hdf5 const & h, std::map< std::string, Ds > const & m, std::set< std::string > const & groups, std::string const & n ) {
  Ds const & x = m.at( n );
  c.require( h.exists( n ), "existing data set not reported: " + n );
  c.require( h.nVas( n ) == dsN( x ), "number of values of " + n + ": " + std::to_string( h.nVas( n ) ) + " expected " + std::to_string( dsN( x ) ) );
  if( x.ty == 0 ) cmpGet( c, h, n, x.u ); else if( x.ty == 1 ) cmpGet( c, h, n, x.i );
  else if( x.ty == 2 ) cmpGet( c, h, n, x.f ); else cmpGet( c, h, n, x.d );
  // widening reads
  if( x.ty == 0 ) cmpGet( c, h, n, std::vector< t_idx >( x.u.begin(), x.u.end() ) );
  if( x.ty == 2 ) cmpGet( c, h, n, std::vector< double >( x.f.begin(), x.f.end() ) );
}

PBT( hdf5, 1500, 30000, "at least two data sets were written to the container and re-read (histories of group creation, writes of four value types, overwriting re-creation, read-only reopening)" ) {
  std::string f = tmpFile( ".h5" ); Rm rm{ f };
  std::map< std::string, Ds > m; std::set< std::string > gr;
  std::ostringstream hist; unsigned nW = 0, nR = 0;
  unsigned nSess = 1 + s.draw( 3 );
  for( unsigned se = 0; se < nSess; se++ ) {
    bool ro = se > 0 && s.b( 0.7 );
    if( !ro ) { m.clear(); gr.clear(); }
    hist << ( ro ? "reopen " : "create " );
    edge_v::io::Hdf5 h( f, ro );
    unsigned nOp = 1 + s.draw( 10 );
    for( unsigned o = 0; o < nOp; o++ ) {
      unsigned k = s.draw( 5 );
      if( !ro && k == 0 ) {
        std::string g = "/g" + std::to_string( s.draw( 3 ) );
        h.createGroup( g ); gr.insert( g ); hist << "group" << g << " ";
        c.require( h.exists( g ), "created group does not exist: " + g );
      }
      else if( !ro && k <= 2 ) {
        std::string g = "";
        if( !gr.empty() && s.b( 0.7 ) ) { std::vector< std::string > v( gr.begin(), gr.end() ); g = s.pick( v ); }
        std::string n = g + "/d" + std::to_string( s.draw( 12 ) );
        if( m.count( n ) ) continue;
        c.require( !h.exists( n ), "absent data set reported as present: " + n );
        Ds x; x.ty = s.draw( 4 );
        std::size_t nv = s.b( 0.1 ) ? 1000 + s.draw( 5000 ) : s.draw( 20 );
        bool big = nv > 100;
        for( std::size_t v = 0; v < nv; v++ ) {
          if( big ) { uint64_t z = pbt::mix( v * 77 + nv ); if( x.ty == 0 ) x.u.push_back( z ); else if( x.ty == 1 ) x.i.push_back( z >> 1 ); else if( x.ty == 2 ) x.f.push_back( float( z ) * 1E-5f ); else x.d.push_back( double( z ) * 1E-7 ); }
          else { if( x.ty == 0 ) x.u.push_back( genU( s ) ); else if( x.ty == 1 ) x.i.push_back( genI( s ) ); else if( x.ty == 2 ) x.f.push_back( genF( s ) ); else x.d.push_back( genD( s ) ); }
        }
        if( x.ty == 0 ) h.set( n, nv, x.u.data() ); else if( x.ty == 1 ) h.set( n, nv, x.i.data() );
        else if( x.ty == 2 ) h.set( n, nv, x.f.data() ); else h.set( n, nv, x.d.data() );
        m[n] = x; nW++; hist << "set" << n << ":" << "UIFD"[x.ty] << nv << " ";
      }
      else if( !m.empty() ) {
        auto it = m.begin(); std::advance( it, s.draw( m.size() ) );
        verify( c, h, m, gr, it->first ); nR++; hist << "get" << it->first << " ";
      }
    }
  }
  edge_v::io::Hdf5 h( f );
  for( auto & kv : m ) verify( c, h, m, gr, kv.first );
  for( auto & g : gr ) c.require( h.exists( g ), "group lost after reopening" );
  for( unsigned k = 0; k < 12; k++ ) {
    std::string n = "/d" + std::to_string( k );
    c.require( h.exists( n ) == ( m.count( n ) > 0 ), "existence of " + n + " wrong after reopening" );
  }
  c.nontrivial( nW >= 2 && m.size() >= 1 );
  c.sample( hist.str() );
}

static std::vector< std::string > split( std::string const & l, char d ) {
  std::vector< std::string > o; std::string cur; for( char ch : l ) { if( ch == d ) { o.push_back( cur ); cur.clear(); } else cur += ch; } o.push_back( cur ); return o;
}

PBT( csv, 3000, 60000, "at least two rows and two columns" ) {
  std::string f = tmpFile( ".csv" ); Rm rm{ f };
  unsigned short nc = 1 + s.draw( 6 ); std::size_t nr = s.draw( 12 ); unsigned short prec = 1 + s.draw( 17 );
  std::vector< std::string > cols( nc ); std::vector< std::vector< double > > d( nc );
  for( unsigned k = 0; k < nc; k++ ) {
    cols[k] = "col_" + std::to_string( s.draw( 100 ) );
    for( std::size_t r = 0; r < nr; r++ ) d[k].push_back( genD( s ) );
    d[k].push_back( 0 );
  }
  std::vector< double const * > p; for( auto & v : d ) p.push_back( v.data() );
  edge_v::io::Csv::write( f, nc, nr, cols.data(), prec, p.data() );
  std::ifstream in( f ); std::string l; std::vector< std::string > lines;
  while( std::getline( in, l ) ) if( l.empty() || l[0] != '#' ) lines.push_back( l );
  c.require( lines.size() == nr+1, "number of non-comment lines " + std::to_string( lines.size() ) + " expected " + std::to_string( nr+1 ) );
  c.require( split( lines[0], ',' ) == cols, "column names: " + lines[0] );
  for( std::size_t r = 0; r < nr; r++ ) {
    auto v = split( lines[r+1], ',' );
    c.require( v.size() == nc, "number of values in row " + std::to_string( r ) );
    for( unsigned k = 0; k < nc; k++ ) {
      char buf[64]; std::snprintf( buf, 64, "%.*g", prec, d[k][r] );
      double e = std::strtod( buf, 0 ), g = std::strtod( v[k].c_str(), 0 );
      if( g == e ) continue;
      c.close( g, e, std::pow( 10.0, -double( prec ) + 1 ) * 1E-3 + 1E-15, 0, "value at row " + std::to_string( r ) + " column " + std::to_string( k ) + " (" + v[k] + ")" );
    }
  }
  c.nontrivial( nr > 1 && nc > 1 );
  if( nr ) c.sample( "precision " + std::to_string( prec ) + " row: " + lines[1] );
}

PBT( bgmesh, 2000, 40000, "at least two elements and non-constant target lengths" ) {
  bool tet = s.b(); unsigned nv = tet ? 4 : 3;
  t_idx nVes = nv + s.draw( 10 ), nEls = 1 + s.draw( 12 );
  std::vector< t_idx > elVe;
  for( t_idx e = 0; e < nEls; e++ ) { auto p = s.perm( nVes ); for( unsigned k = 0; k < nv; k++ ) elVe.push_back( p[k] ); }
  std::vector< double > crds( nVes*3 ); std::vector< float > tl( nVes );
  for( auto & x : crds ) x = s.sr( 1E5 );
  for( auto & x : tl ) x = s.lr( 1E-3, 1E5 );
  std::ostringstream os; os.precision( 17 );
  edge_v::io::BgMeshMsh4::write( tet ? edge_v::TET4 : edge_v::TRIA3, nVes, nEls, elVe.data(), (double (*)[3]) crds.data(), tl.data(), os );
  // parse
  std::istringstream is( os.str() ); std::string l; std::map< std::string, std::vector< std::string > > sec; std::string cur;
  while( std::getline( is, l ) ) {
    if( l.size() && l[0] == '$' ) { if( l.compare( 0, 4, "$End" ) == 0 ) { c.require( l.substr( 4 ) == cur, "section " + cur + " closed by " + l ); cur = ""; } else { c.require( cur.empty(), "unterminated section" ); cur = l.substr( 1 ); c.require( !sec.count( cur ), "duplicate section" ); sec[cur]; } }
    else sec[cur].push_back( l );
  }
  c.require( cur.empty(), "unterminated section at the end" );
  for( std::string n : { "MeshFormat", "Nodes", "Elements", "NodeData" } ) c.require( sec.count( n ) == 1, "missing section " + n );
  auto nums = [&]( std::string const & x ) { std::vector< double > o; std::istringstream q( x ); double v; while( q >> v ) o.push_back( v ); c.require( q.eof(), "unparsable: " + x ); return o; };
  auto & N = sec["Nodes"];
  c.require( N.size() == 2 + 2*nVes, "size of the node section" );
  unsigned dim = tet ? 3 : 2;
  { auto h = nums( N[0] ); c.require( h == std::vector< double >{ 1, double( nVes ), 0, double( nVes-1 ) }, "node header " + N[0] ); }
  { auto h = nums( N[1] ); c.require( h.size() == 4 && h[0] == dim && h[2] == 0 && h[3] == nVes, "node entity " + N[1] ); }
  std::vector< double > tags; std::map< long, unsigned > tagPos;
  for( t_idx v = 0; v < nVes; v++ ) { auto t = nums( N[2+v] ); c.require( t.size() == 1, "node tag" ); tagPos[ long( t[0] ) ] = v; tags.push_back( t[0] ); }
  c.require( tagPos.size() == nVes, "node tags not unique" );
  std::vector< std::vector< double > > pc;
  for( t_idx v = 0; v < nVes; v++ ) { auto t = nums( N[2+nVes+v] ); c.require( t.size() == 3, "node coordinates" ); for( unsigned d = 0; d < 3; d++ ) c.require( t[d] == crds[v*3+d], "coordinate of node " + std::to_string( v ) ); }
  auto & E = sec["Elements"];
  c.require( E.size() == 2 + nEls, "size of the element section" );
  { auto h = nums( E[0] ); c.require( h == std::vector< double >{ 1, double( nEls ), 0, double( nEls-1 ) }, "element header " + E[0] ); }
  { auto h = nums( E[1] ); c.require( h.size() == 4 && h[0] == dim && h[2] == ( tet ? 4 : 2 ) && h[3] == nEls, "element entity " + E[1] ); }
  std::set< double > et;
  for( t_idx e = 0; e < nEls; e++ ) {
    auto t = nums( E[2+e] ); c.require( t.size() == nv+1, "element line " + E[2+e] ); et.insert( t[0] );
    for( unsigned k = 0; k < nv; k++ ) { c.require( tagPos.count( long( t[k+1] ) ) == 1, "element refers to unknown node" ); c.require( tagPos[ long( t[k+1] ) ] == elVe[e*nv+k], "connectivity of element " + std::to_string( e ) ); }
  }
  c.require( et.size() == nEls, "element tags not unique" );
  auto & D = sec["NodeData"];
  // string tags, real tags, integer tags
  std::size_t p = 0; auto one = [&]() { auto t = nums( D.at( p++ ) ); c.require( t.size() == 1, "node data header" ); return t[0]; };
  unsigned nst = one(); p += nst; unsigned nrt = one(); p += nrt; unsigned nit = one(); c.require( nit >= 3, "number of integer tags" );
  std::vector< double > it; for( unsigned k = 0; k < nit; k++ ) it.push_back( one() );
  c.require( it[1] == 1 && it[2] == nVes, "node data integer tags" );
  c.require( D.size() == p + nVes, "number of node data lines" );
  std::set< long > seen;
  for( t_idx v = 0; v < nVes; v++ ) {
    auto t = nums( D[p+v] ); c.require( t.size() == 2 && tagPos.count( long( t[0] ) ), "node data line" );
    seen.insert( long( t[0] ) );
    c.require( float( t[1] ) == tl[ tagPos[ long( t[0] ) ] ], "target length of node " + std::to_string( t[0] ) );
  }
  c.require( seen.size() == nVes, "node data misses nodes" );
  c.nontrivial( nEls > 1 );
  c.sample( os.str().substr( 0, 400 ) );
}

PBT( grid, 1500, 30000, "at least 2x2 nodes and two query points; x and y extents differ" ) {
  std::string f = tmpFile( "_grid.h5" ); Rm rm{ f };
  std::size_t nx = 2 + s.draw( 8 ), ny = 2 + s.draw( 8 );
  auto mono = [&]( std::size_t n ) { std::vector< double > x( n ); x[0] = s.sr( 100 ); for( std::size_t k = 1; k < n; k++ ) x[k] = x[k-1] + s.r( 0.5, 10 ); return x; };
  auto x = mono( nx ), y = mono( ny );
  std::vector< float > z( nx*ny ); for( auto & v : z ) v = genF( s );
  { edge_v::io::Hdf5 h( f, false ); h.set( "/x", nx, x.data() ); h.set( "/y", ny, y.data() ); h.set( "/z", nx*ny, z.data() ); }
  edge_v::io::Hdf5 h( f ); edge_v::io::Grid g( &h );
  unsigned rounds = 1 + s.draw( 2 ); std::size_t np = 0;
  for( unsigned r = 0; r < rounds; r++ ) {
    np = 1 + s.draw( 12 ); std::vector< double > p( np*3 ); std::vector< std::size_t > ix( np ), iy( np );
    for( std::size_t k = 0; k < np; k++ ) {
      // strictly inside a grid cell
      ix[k] = 1 + s.draw( nx-1 ); iy[k] = 1 + s.draw( ny-1 );
      p[k*3+0] = x[ix[k]-1] + ( x[ix[k]] - x[ix[k]-1] ) * s.r( 0.001, 0.999 );
      p[k*3+1] = y[iy[k]-1] + ( y[iy[k]] - y[iy[k]-1] ) * s.r( 0.001, 0.999 );
      p[k*3+2] = s.sr( 1000 );
    }
    g.init( np, (double (*)[3]) p.data() );
    for( std::size_t k = 0; k < np; k++ ) {
      // the value is one of the nodes of the cell holding the point: the upper one
      float e = z[ iy[k]*nx + ix[k] ];
      c.require( g.getData()[k] == e, "grid value of point " + std::to_string( k ) + ": " + std::to_string( g.getData()[k] ) + " expected " + std::to_string( e ) );
    }
  }
  c.nontrivial( np > 1 && nx != ny );
  c.sample( std::to_string( nx ) + "x" + std::to_string( ny ) + " nodes, " + std::to_string( np ) + " points" );
}

PBT( elave, 3000, 60000, "at least two elements with non-constant vertex values" ) {
  unsigned short nv = s.pick( std::vector< unsigned short >{ 2, 3, 4, 8 } );
  t_idx nVes = nv + s.draw( 12 ), nEls = 1 + s.draw( 10 );
  std::vector< t_idx > ev; for( t_idx e = 0; e < nEls; e++ ) { auto p = s.perm( nVes ); for( unsigned k = 0; k < nv; k++ ) ev.push_back( p[k] ); }
  std::vector< float > vv( nVes ), ve( nEls+1, -7 ); for( auto & v : vv ) v = s.sr( 1E4 );
  edge_v::models::Constant m( 1 );
  m.getElAve( nv, nEls, ev.data(), vv.data(), ve.data() );
  for( t_idx e = 0; e < nEls; e++ ) {
    double a = 0, mx = 0; for( unsigned k = 0; k < nv; k++ ) { double v = vv[ ev[e*nv+k] ]; a += v; mx = std::max( mx, std::fabs( v ) ); }
    c.close( ve[e], a/nv, 0, 1E-5*mx*nv, "average of element " + std::to_string( e ) );
  }
  c.require( ve[nEls] == -7, "write past the elements" );
  c.nontrivial( nEls > 1 );
}

PBT( config, 4000, 80000, "at least six settings present" ) {
  std::string f = tmpFile( ".xml" ); Rm rm{ f };
  pugi::xml_document d; pugi::xml_node root = d.append_child( "edge_v" );
  auto str = [&]() { std::string o; unsigned n = 1 + s.draw( 12 ); std::string al = "abcXYZ019_./:-+*<>&\"'=,;() "; for( unsigned k = 0; k < n; k++ ) { char ch = al[ s.draw( al.size() ) ]; if( ( k == 0 || k == n-1 ) && ch == ' ' ) ch = 'q'; o += ch; } return o; };
  auto num = [&]( double v ) { char b[40]; std::snprintf( b, 40, "%.17g", v ); return std::string( b ); };
  unsigned nSet = 0;
  std::function< pugi::xml_node( std::vector< std::string > const & ) > node = [&]( std::vector< std::string > const & p ) {
    pugi::xml_node n = root; for( auto & q : p ) { pugi::xml_node ch = n.child( q.c_str() ); if( !ch ) ch = s.b( 0.2 ) ? n.prepend_child( q.c_str() ) : n.append_child( q.c_str() ); n = ch; } return n; };
  auto put = [&]( std::vector< std::string > const & p, std::string const & v ) { node( p ).text().set( v.c_str() ); nSet++; };
  auto optStr = [&]( std::vector< std::string > const & p ) { if( !s.b( 0.6 ) ) return std::string( "" ); std::string v = str(); put( p, v ); return v; };
  auto optBool = [&]( std::vector< std::string > const & p ) { if( !s.b( 0.6 ) ) return false; bool v = s.b(); put( p, v ? s.pick( std::vector< std::string >{ "true", "1" } ) : s.pick( std::vector< std::string >{ "false", "0" } ) ); return v; };
  std::string in = optStr( { "mesh", "files", "in" } ), base = optStr( { "mesh", "files", "out", "base" } ), ext = optStr( { "mesh", "files", "out", "extension" } );
  bool elAn = optBool( { "mesh", "write_element_annotations" } );
  int per = std::numeric_limits< int >::max();
  if( s.b( 0.5 ) ) { int v = int( s.i( -3, 200 ) ); put( { "mesh", "periodic" }, std::to_string( v ) ); if( v > 0 ) per = v; }
  bool reo = optBool( { "mesh", "reorder_only" } );
  std::size_t np = 1; if( s.b( 0.6 ) ) { np = s.draw( 2 ) ? s.draw( 10 ) : s.draw( 1ull<<40 ); put( { "mesh", "n_partitions" }, std::to_string( np ) ); if( np < 1 ) np = 1; }
  std::string se = optStr( { "velocity_model", "seismic_expression" } );
  double tr[3][3] = { { 1,0,0 }, { 0,1,0 }, { 0,0,1 } };
  if( s.b( 0.4 ) ) for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { tr[i][j] = s.sr( 10 ); put( { "velocity_model", "ucvm", "source_transformation", std::string( 1, "xyz"[i] ) + "_" + std::to_string( j ) }, num( tr[i][j] ) ); }
  std::string ps = optStr( { "velocity_model", "ucvm", "projections", "source" } ), pd = optStr( { "velocity_model", "ucvm", "projections", "destination" } );
  std::string um = optStr( { "velocity_model", "ucvm", "models" } ), ut = optStr( { "velocity_model", "ucvm", "model_type" } ), uc = optStr( { "velocity_model", "ucvm", "coordinate_mode" } ), ur = optStr( { "velocity_model", "ucvm", "normalization_rule" } );
  bool ul = optBool( { "velocity_model", "ucvm", "lower_to_surface" } );
  bool hasTol = s.b( 0.6 ); float tol = 0; if( hasTol ) { tol = float( -s.r( 0, 100 ) ); put( { "velocity_model", "tsunami", "dry_tolerance" }, num( tol ) ); }
  std::string tb = optStr( { "velocity_model", "tsunami", "bathymetry" } ), te = optStr( { "velocity_model", "tsunami", "expression" } );
  std::vector< std::string > td; unsigned nd = s.draw( 4 );
  for( unsigned k = 0; k < nd; k++ ) { std::string v = str(); node( { "velocity_model", "tsunami" } ).append_child( "displacements" ).text().set( v.c_str() ); td.push_back( v ); }
  std::string re = optStr( { "refinement", "expression" } ), ro = optStr( { "refinement", "out" } );
  unsigned short ng = 1; if( s.b( 0.6 ) ) { ng = s.draw( 50 ); put( { "time", "n_groups" }, std::to_string( ng ) ); if( ng < 1 ) ng = 1; }
  double fd = 0; if( s.b( 0.6 ) ) { fd = s.r( 0.4, 1 ); put( { "time", "fundamental_time_step" }, num( fd ) ); }
  bool cc = optBool( { "time", "centroid_based_cfl" } );
  std::string to = optStr( { "time", "files", "out", "time_steps" } );
  d.save_file( f.c_str() );
  edge_v::io::Config g( f );
  auto eqS = [&]( std::string const & a, std::string const & b, char const * n ) { c.require( a == b, std::string( n ) + ": read '" + a + "' wrote '" + b + "'" ); };
  eqS( g.getMeshIn(), in, "input mesh" ); eqS( g.getMeshOutBase(), base, "output base" ); eqS( g.getMeshOutExt(), ext, "output extension" );
  c.require( g.getWriteElAn() == elAn, "element annotations" ); c.require( g.getPeriodic() == per, "periodic" ); c.require( g.getReorderOnly() == reo, "reorder only" );
  c.require( g.nPartitions() == np, "number of partitions " + std::to_string( g.nPartitions() ) + " expected " + std::to_string( np ) );
  eqS( g.getVelModSeismicExpr(), se, "seismic expression" );
  for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) c.close( g.getVelModUcvmTrafoSrc()[i][j], tr[i][j], 1E-12, 1E-300, "source transformation" );
  eqS( g.getVelModUcvmProjSrc(), ps, "source projection" ); eqS( g.getVelModUcvmProjDes(), pd, "destination projection" ); eqS( g.getVelModUcvmModels(), um, "models" );
  eqS( g.getVelModUcvmModelType(), ut, "model type" ); eqS( g.getVelModUcvmCrdMode(), uc, "coordinate mode" ); eqS( g.getVelModUcvmRule(), ur, "rule" );
  c.require( g.getLowerToSurf() == ul, "lower to surface" );
  if( hasTol ) c.close( g.getModTsunamiDryTol(), tol, 1E-6, 1E-30, "dry tolerance" );
  eqS( g.getModTsunamiBath(), tb, "bathymetry" ); eqS( g.getModTsunamiExpr(), te, "tsunami expression" ); c.require( g.getModTsunamiDisp() == td, "displacement grids" );
  eqS( g.getRefExpr(), re, "refinement expression" ); eqS( g.getRefOut(), ro, "refinement output" );
  c.require( g.nTsGroups() == ng, "time step groups" ); c.close( g.getFunDt(), fd, 1E-12, 0, "fundamental time step" ); c.require( g.getCenCfl() == cc, "centroid based CFL" ); eqS( g.getTsOut(), to, "time step output" );
  c.nontrivial( nSet > 5 );
  std::ostringstream o; d.save( o ); c.sample( o.str().substr( 0, 700 ) );
}
