// EDGEcut: extrusion of a topography grid to a closed surface
#include "pbt.hpp"
#include <map>
#include <array>
#include <sstream>
#include "mesh/Extrude.h"

typedef std::array< double, 3 > P3;
struct Off { std::vector< P3 > ve; std::vector< std::array< std::size_t, 3 > > tr; };

static Off parseOff( pbt::Ctx & c, std::string const & txt, std::string const & name ) {
  std::istringstream is( txt ); std::string l; std::vector< std::string > ls;
  while( std::getline( is, l ) ) if( !l.empty() && l[0] != '#' ) ls.push_back( l );
  c.require( ls.size() >= 2 && ls[0] == "OFF", name + ": not an OFF file" );
  std::size_t nv, nt, ne; std::istringstream h( ls[1] ); h >> nv >> nt >> ne; c.require( !h.fail(), name + ": bad counts" );
  c.require( ls.size() == 2 + nv + nt, name + ": header announces " + std::to_string( nv ) + " vertices and " + std::to_string( nt ) + " triangles, file has " + std::to_string( ls.size()-2 ) + " lines" );
  Off o;
  for( std::size_t k = 0; k < nv; k++ ) { std::istringstream q( ls[2+k] ); P3 p; q >> p[0] >> p[1] >> p[2]; c.require( !q.fail(), name + ": bad vertex " + ls[2+k] ); std::string r; c.require( !( q >> r ), name + ": trailing data" ); o.ve.push_back( p ); }
  for( std::size_t k = 0; k < nt; k++ ) {
    std::istringstream q( ls[2+nv+k] ); std::size_t n; std::array< std::size_t, 3 > t; q >> n >> t[0] >> t[1] >> t[2];
    c.require( !q.fail() && n == 3, name + ": bad triangle " + ls[2+nv+k] );
    for( auto v : t ) c.require( v < nv, name + ": triangle refers to vertex " + std::to_string( v ) + " of " + std::to_string( nv ) );
    o.tr.push_back( t );
  }
  return o;
}

struct Topo { std::vector< double > x, y; std::vector< P3 > pts; std::vector< P3 > shuffled; double zT; unsigned short lv; double zMin, zMax; };

static Topo gen( pbt::Src & s, bool tool ) {
  Topo t; t.lv = s.pick( std::vector< unsigned short >{ 0, 0, 1, 1, 2, 3 } );
  std::size_t r = std::size_t( 1 ) << t.lv, buf = 2*( 2*r - 2 );
  auto cells = [&]() { std::size_t m = std::max< std::size_t >( r, buf ); m = ( m + r - 1 ) / r * r; return m + r * s.draw( t.lv > 1 ? 3 : 6 ); };
  std::size_t nx = cells()+1, ny = cells()+1;
  bool uni = s.b( 0.3 ); bool utm = s.b( 0.4 ); double scale = utm ? s.r( 5, 200 ) : s.pick( std::vector< double >{ 1, 0.5, 2 } );
  auto mono = [&]( std::size_t n, double off ) { std::vector< double > v( n ); v[0] = off; double d = 1; for( std::size_t k = 1; k < n; k++ ) { if( !uni ) d = double( 1 + s.draw( 8 ) ); v[k] = v[k-1] + d*scale; } return v; };
  t.x = mono( nx, utm ? s.r( 3E5, 7E5 ) : double( s.i( -10, 10 ) ) );
  t.y = mono( ny, utm ? s.r( 3.5E6, 4.2E6 ) : double( s.i( -10, 10 ) ) );
  bool flat = s.b( 0.15 ); double zA = s.i( -3, 3 );
  t.zMin = 1E300; t.zMax = -1E300;
  for( double a : t.x ) for( double b : t.y ) { double z = flat ? zA : ( utm ? s.sr( 1000 ) : double( s.i( -5, 5 ) ) ); t.pts.push_back( { a, b, z } ); t.zMin = std::min( t.zMin, z ); t.zMax = std::max( t.zMax, z ); }
  t.zT = t.zMin - ( s.b( 0.5 ) ? double( 1 + s.draw( 20 ) ) : s.r( 0.1, 30 )*scale );
  if( s.b( 0.6 ) ) { auto p = s.perm( t.pts.size() ); for( auto k : p ) t.shuffled.push_back( t.pts[k] ); } else t.shuffled = t.pts;
  return t;
}

static std::string show( P3 const & p ) { std::ostringstream o; o.precision( 17 ); o << "(" << p[0] << "," << p[1] << "," << p[2] << ")"; return o.str(); }

static void judge( pbt::Ctx & c, Topo const & t, std::vector< std::string > const & txt ) {
  // order: left right front back bottom top
  char const * nm[6] = { "left", "right", "front", "back", "bottom", "top" };
  Off o[6]; for( int k = 0; k < 6; k++ ) o[k] = parseOff( c, txt[k], nm[k] );
  double x0 = t.x.front(), x1 = t.x.back(), y0 = t.y.front(), y1 = t.y.back();
  // location of the panels
  for( int k = 0; k < 5; k++ ) for( auto & p : o[k].ve ) {
    bool ok = k == 0 ? p[0] == x0 : k == 1 ? p[0] == x1 : k == 2 ? p[1] == y0 : k == 3 ? p[1] == y1 : p[2] == t.zT;
    c.require( ok, std::string( nm[k] ) + " panel has a vertex off its plane: " + show( p ) );
  }
  // the top holds the input grid
  std::set< P3 > in( t.pts.begin(), t.pts.end() ), top( o[5].ve.begin(), o[5].ve.end() );
  c.require( o[5].ve.size() == t.pts.size(), "number of vertices of the top" );
  for( auto & p : t.pts ) c.requireF( top.count( p ), [&]{ return "grid point missing in the top: " + show( p ); } );
  // watertight: same edge once in each direction (up to rounding of the interpolated side heights)
  double tol = 1E-9 * ( std::fabs( t.zT ) + std::fabs( t.zMax ) + std::fabs( t.zMin ) + 1 );
  std::map< std::pair< double, double >, std::vector< std::pair< double, std::size_t > > > vs; std::vector< P3 > gv;
  auto id = [&]( P3 const & p ) {
    auto & v = vs[ { p[0], p[1] } ];
    for( auto & q : v ) if( std::fabs( q.first - p[2] ) < tol ) return q.second;
    v.push_back( { p[2], gv.size() } ); gv.push_back( p ); return gv.size()-1; };
  std::map< std::pair< std::size_t, std::size_t >, int > ed; double vol = 0;
  for( int k = 0; k < 6; k++ ) for( auto & tr : o[k].tr ) {
    std::size_t g[3]; for( int v = 0; v < 3; v++ ) g[v] = id( o[k].ve[tr[v]] );
    c.require( g[0] != g[1] && g[1] != g[2] && g[0] != g[2], std::string( "degenerate triangle in " ) + nm[k] );
    for( int v = 0; v < 3; v++ ) ed[ { g[v], g[(v+1)%3] } ]++;
    P3 a = gv[g[0]], b = gv[g[1]], d = gv[g[2]];
    for( P3 * q : { &a, &b, &d } ) { (*q)[0] -= x0; (*q)[1] -= y0; (*q)[2] -= t.zT; }
    vol += ( a[0]*( b[1]*d[2] - b[2]*d[1] ) - a[1]*( b[0]*d[2] - b[2]*d[0] ) + a[2]*( b[0]*d[1] - b[1]*d[0] ) ) / 6;
    double nrm[3]; { double u[3], w[3]; for( int e = 0; e < 3; e++ ) { u[e] = b[e]-a[e]; w[e] = d[e]-a[e]; } nrm[0] = u[1]*w[2]-u[2]*w[1]; nrm[1] = u[2]*w[0]-u[0]*w[2]; nrm[2] = u[0]*w[1]-u[1]*w[0]; }
    double out[6] = { -nrm[0], nrm[0], -nrm[1], nrm[1], -nrm[2], nrm[2] };
    c.require( out[k] > 0, std::string( "normal of a triangle does not point outward: " ) + nm[k] + " " + show( gv[g[0]] ) + show( gv[g[1]] ) + show( gv[g[2]] ) );
  }
  for( auto & e : ed ) {
    c.requireF( e.second == 1, [&]{ return "edge used more than once in the same direction: " + show( gv[e.first.first] ) + show( gv[e.first.second] ); } );
    c.requireF( ed.count( { e.first.second, e.first.first } ), [&]{ return "open edge: " + show( gv[e.first.first] ) + show( gv[e.first.second] ); } );
  }
  // projection of the top covers the grid once
  double ar = 0; for( auto & tr : o[5].tr ) { P3 a = o[5].ve[tr[0]], b = o[5].ve[tr[1]], d = o[5].ve[tr[2]]; ar += 0.5*( (b[0]-a[0])*(d[1]-a[1]) - (b[1]-a[1])*(d[0]-a[0]) ); }
  c.close( ar, (x1-x0)*(y1-y0), 1E-9, 0, "projected area of the top" );
  c.require( vol > 0, "surface is inside out" );
  if( t.lv == 0 ) {
    std::set< std::size_t > used; for( auto & tr : o[5].tr ) for( auto v : tr ) used.insert( v );
    c.require( used.size() == t.pts.size(), "not every grid point is meshed" );
  }
  // coarsening: the outermost cells are coarse, the sides use every 2^levels-th grid line
  std::size_t r = std::size_t( 1 ) << t.lv; std::size_t cx = ( t.x.size()-1 )/r, cy = ( t.y.size()-1 )/r;
  double dMin = 1E300;
  for( std::size_t k = 0; k < cx; k++ ) dMin = std::min( dMin, t.x[(k+1)*r] - t.x[k*r] );
  for( std::size_t k = 0; k < cy; k++ ) dMin = std::min( dMin, t.y[(k+1)*r] - t.y[k*r] );
  for( int k = 0; k < 4; k++ ) {
    std::map< std::pair< double, double >, std::vector< double > > col;
    for( auto & p : o[k].ve ) col[ { p[0], p[1] } ].push_back( p[2] );
    c.require( col.size() == ( k < 2 ? cy : cx ) + 1, std::string( "number of columns of the panel " ) + nm[k] );
    for( auto & q : col ) {
      auto & z = q.second; std::sort( z.begin(), z.end() );
      c.close( z.front(), t.zT, 0, tol, "bottom of a side column" );
      for( std::size_t e = 0; e+1 < z.size(); e++ ) c.require( z[e+1]-z[e] <= dMin*( 1+1E-9 ) + tol, std::string( "vertical step of the panel " ) + nm[k] + " larger than the smallest spacing of the coarse grid: " + std::to_string( z[e+1]-z[e] ) + " > " + std::to_string( dMin ) );
    }
  }
  c.require( o[4].ve.size() == ( cx+1 )*( cy+1 ), "number of vertices of the bottom" );
}

static std::string desc( Topo const & t ) { return std::to_string( t.x.size() ) + "x" + std::to_string( t.y.size() ) + " grid, levels " + std::to_string( t.lv ) + ", target " + std::to_string( t.zT ) + ", x0 " + std::to_string( t.x[0] ); }

PBT( extrude, 4000, 60000, "non-flat grid with at least 3x3 points, or at least one coarsening level" ) {
  Topo t = gen( s, false );
  edge_cut::mesh::Extrude e( t.shuffled.size(), (double const (*)[3]) t.shuffled.data(), t.zT, t.lv );
  std::ostringstream o[6]; for( auto & q : o ) q.precision( 17 );
  e.writeOff( o[0], o[1], o[2], o[3], o[4], o[5] );
  std::vector< std::string > txt; for( auto & q : o ) txt.push_back( q.str() );
  judge( c, t, txt );
  c.nontrivial( t.lv > 0 || ( t.x.size() > 2 && t.y.size() > 2 && t.zMin < t.zMax ) );
  c.sample( desc( t ) );
}

PBT( tool, 400, 4000, "non-flat grid with at least 3x3 points, or at least one coarsening level" ) {
  Topo t = gen( s, true );
  char const * exe = std::getenv( "EDGE_CUT_EXE" ); char const * sc = std::getenv( "VERIF_SCRATCH" );
  std::string d = std::string( sc ) + "/cut_" + std::to_string( getpid() );
  std::system( ( "mkdir -p " + d ).c_str() );
  { std::ofstream g( d + "/grid" ); g.precision( 17 ); for( auto & p : t.shuffled ) g << p[0] << " " << p[1] << " " << p[2] << "\n"; }
  { std::ofstream g( d + "/c.xml" ); g.precision( 17 );
    g << "<edge_cut><mesh><files><out>"; for( char const * n : { "left", "right", "front", "back", "bottom", "top" } ) g << "<" << n << ">" << d << "/" << n << ".off</" << n << ">";
    g << "</out></files></mesh><extrude><in>" << d << "/grid</in><target_z>" << t.zT << "</target_z><n_levels>" << t.lv << "</n_levels></extrude></edge_cut>\n"; }
  int rc = std::system( ( "cd " + d + " && " + exe + " -x c.xml > log 2>&1" ).c_str() );
  std::vector< std::string > txt;
  for( char const * n : { "left", "right", "front", "back", "bottom", "top" } ) { std::ifstream f( d + "/" + n + ".off" ); txt.push_back( std::string( (std::istreambuf_iterator<char>( f )), std::istreambuf_iterator<char>() ) ); }
  std::string log; { std::ifstream f( d + "/log" ); log.assign( (std::istreambuf_iterator<char>( f )), std::istreambuf_iterator<char>() ); }
  for( char const * n : { "left.off", "right.off", "front.off", "back.off", "bottom.off", "top.off", "grid", "c.xml", "log" } ) unlink( ( d + "/" + n ).c_str() );
  rmdir( d.c_str() );
  c.require( rc == 0, "the tool failed: " + log.substr( log.size() > 500 ? log.size()-500 : 0 ) );
  judge( c, t, txt );
  c.nontrivial( t.lv > 0 || ( t.x.size() > 2 && t.y.size() > 2 && t.zMin < t.zMax ) );
  c.sample( desc( t ) );
}
