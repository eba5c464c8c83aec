// configuration, receivers, wave field output, error norms, paths, command line
#include "pbt.hpp"
#include "constants.hpp"
#include "logcap.hpp"
#include <fcntl.h>
#include "parallel/global.h"
#include "io/Config.h"
#include "io/FileSystem.hpp"
#include "io/Receivers.h"
#include "io/WaveField.h"
#include "io/ErrorNorms.h"
#include "io/OptionParser.h"
#ifdef PP_T_EQUATIONS_SEISMIC
#include "impl/seismic/io/Config.h"
#endif
#define DGDATA_DEFINE
#include "dgmesh.hpp"
#include <array>
#include <fstream>
#include <memory>
#include <set>
#include <ftw.h>
typedef real_base RB; static t_entityType const EL = T_SDISC.ELEMENT; static int const D = N_DIM, NQ = N_QUANTITIES, CR = N_CRUNS, O = ORDER, MD = N_ELEMENT_MODES; typedef std::size_t I;
static int rmOne( char const * p, struct stat const *, int, struct FTW * ) { return remove( p ); }
struct Dir { std::string d; Dir() { char const * t = std::getenv( "TMPDIR" ); d = std::string( t ? t : "/tmp" ) + "/io_" + std::to_string( getpid() ); mkdir( d.c_str(), 0700 ); } ~Dir() { nftw( d.c_str(), rmOne, 16, FTW_DEPTH|FTW_PHYS ); } };
static std::string slurp( std::string const & f ) { std::ifstream i( f, std::ios::binary ); if( !i ) return "<missing>"; std::stringstream b; b << i.rdbuf(); return b.str(); }
static bool isDir( std::string const & d ) { struct stat st; return stat( d.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ); }
static std::string word( pbt::Src & s, int lo = 1 ) { std::string r; int n = s.i( lo, 8 ); for( int k = 0; k < n; k++ ) r += s.pick( std::vector< char >{ 'a', 'b', 'Z', '7', '_', '-', '.', 'x' } ); if( r[0] == '.' || r[0] == '-' ) r[0] = 'q'; return r; }
static std::string num( double v ) { char b[64]; snprintf( b, sizeof b, "%.17g", v ); return b; }

// nested directories
PBT( paths, 4000, 60000, "path with empty components or an existing prefix" ) {
  Dir dir; int n = s.i( 1, 5 ); std::string p = dir.d, clean = dir.d; bool odd = false, exists = false; std::vector< std::string > made;
  for( int k = 0; k < n; k++ ) { std::string w = word( s ), sep = s.b( 0.2 ) ? "//" : s.b( 0.1 ) ? "/./" : "/"; odd = odd || sep != "/"; p += sep + w; clean += "/" + w; made.push_back( clean ); if( k == 0 && s.b( 0.3 ) ) { mkdir( clean.c_str(), 0755 ); std::ofstream( clean + "/keep_" ) << "x"; exists = true; } } if( s.b( 0.3 ) ) { p += s.b() ? "/" : "//"; odd = true; }
  edge::io::FileSystem::createDir( p ); for( auto & m : made ) c.require( isDir( m ), "directory " + m.substr( dir.d.size() ) + " of " + p.substr( dir.d.size() ) + " is missing" ); edge::io::FileSystem::createDir( p ); if( exists ) c.require( slurp( made[0] + "/keep_" ) == "x", "existing content is kept" );
  // writable by the user
  std::ofstream( clean + "/f" ) << "ok"; c.require( slurp( clean + "/f" ) == "ok", "created directory is usable" );
  // paths
  std::string q = p + "/" + word( s ), a, b; edge::io::FileSystem::splitPathLast( q, a, b ); c.require( a + "/" + b == q && b.find( '/' ) == std::string::npos, "split of the last component" ); edge::io::FileSystem::splitPathFirst( q, a, b ); c.require( a + "/" + b == q && a.find( '/' ) == std::string::npos, "split of the first component" );
  q = word( s ); edge::io::FileSystem::splitPathFirst( q, a, b ); c.require( a == "" && b == q, "split of a single component" );
  c.nontrivial( odd || exists ); c.sample( p.substr( dir.d.size() ) );
}

// receivers: every due sample is recorded exactly once, interpolated at the receiver's position
PBT( receivers, 2500, 40000, "several receivers in one element, several samples per step and steps without samples" ) {
  ref::DMesh m( s, c, EL, 14, false ); constexpr int NV = C_ENT[EL].N_VERTICES; std::vector< std::array< I, NV > > ev( m.nE ); for( int e = 0; e < m.nE; e++ ) for( int v = 0; v < NV; v++ ) ev[e][v] = m.elVe[e][v];
  std::vector< t_vertexChars > vc( m.ve.size() ); for( size_t v = 0; v < vc.size(); v++ ) { memset( &vc[v], 0, sizeof( vc[v] ) ); for( int d = 0; d < 3; d++ ) vc[v].coords[d] = m.ve[v][d]; }
  // inner and send elements of the time groups, the remaining elements are ghost elements
  int nTg = s.i( 1, 3 ), own = s.i( 1, m.nE ); std::vector< I > in( nTg, 0 ), se( nTg, 0 ); for( int e = 0; e < own; e++ ) ( s.b( 0.6 ) ? in : se )[s.draw( nTg )]++;
  int nR = s.i( 0, 6 ), hot = s.draw( own ); struct Re { int el; double xi[3]; std::string name; }; std::vector< Re > re( nR ); std::vector< std::array< double, 3 > > x( nR ); std::vector< std::string > names; std::set< int > els; std::map< int, int > cnt; bool smp = EL == TRIA3 || EL == TET4; int outside = 0;
  for( int k = 0; k < nR; k++ ) { Re & r = re[k]; r.el = s.b( 0.4 ) ? hot : s.draw( own ); double sum = 0; for( int d = 0; d < 3; d++ ) { r.xi[d] = d < D ? s.r( 0.04, 0.96 ) : 0; sum += r.xi[d]; } if( smp && sum > 0.96 ) for( int d = 0; d < D; d++ ) r.xi[d] *= 0.95/sum; double y[3] = { 0,0,0 }; m.phy( r.el, r.xi, y );
    if( s.b( 0.15 ) && !smp && D > 1 ) { int f = -1; for( int j = 0; j < m.NF; j++ ) if( m.elFaEl[r.el][j] < 0 ) f = j; if( f >= 0 ) { auto l = ref::faVe( EL, f ); double R[3][3], q = 0, z[3] = {}; m.frame( r.el, f, R ); for( int d = 0; d < D; d++ ) q += R[d][0]*( m.ve[m.elVe[r.el][l[0]]][d]-y[d] ); for( int d = 0; d < D; d++ ) { z[d] = y[d] + R[d][0]*q; y[d] += R[d][0]*( q+0.003 ); } m.rfc( r.el, z, r.xi ); outside++; } }
    for( int d = 0; d < 3; d++ ) x[k][d] = y[d]; r.name = "r" + std::to_string( k ) + word( s ); names.push_back( r.name ); els.insert( r.el ); cnt[r.el]++; }
  Dir dir; std::string out = dir.d + ( s.b( 0.2 ) ? "//" : "/" ) + word( s ); if( s.b() ) out += "/" + word( s ); std::string outC = out; if( s.b( 0.2 ) ) out += "/"; double freq = s.pick( std::vector< double >{ 0.1, 0.25, 1, 0.003, 0.3333333333 } ), t0 = s.b() ? 0 : s.r( 0, 5 ), dt = freq*( s.b( 0.3 ) ? s.pick( std::vector< double >{ 1, 2, 0.5, 0.25 } ) : s.lr( 0.1, 8 ) ); int buf = s.i( 20, 60 ), thr = 12;
  if( s.b( 0.2 ) && nR ) { edge::io::FileSystem::createDir( outC + "/0" ); std::ofstream( outC + "/0/" + names[0] + ".csv" ) << "old\n1,2,3\n"; }
  int steps = s.i( 0, 12 ); std::vector< std::vector< std::array< double, 2 > > > due; std::vector< std::vector< std::vector< RB > > > smpl; int many = 0, none = 0; double tEnd = t0; std::vector< int > enr;
  { edge::io::Receivers rc; rc.init( EL, nTg, in.data(), se.data(), nR, out, names.data(), (double (*)[3]) x.data(), freq, ev[0].data(), vc.data(), buf, t0 );
    std::vector< int_el > en; rc.getEnRecv( en ); enr.assign( en.begin(), en.end() ); c.require( enr == std::vector< int >( els.begin(), els.end() ), "elements with receivers" ); if( enr.size() != els.size() ) return; smpl.resize( enr.size() );
    for( int st = 0; st < steps; st++ ) { double t = tEnd; for( size_t k = 0; k < enr.size(); k++ ) { int got = 0; while( true ) { double rel = rc.getRecvTimeRel( k, t, dt ); if( !( rel >= 0 ) ) break; double want = t0 + smpl[k].size()*freq; c.requireF( std::fabs( t+rel-want ) < 1E-9+2*TOL.TIME && rel < dt, [&]{ return "sample " + std::to_string( smpl[k].size() ) + " of a receiver is due at " + num( want ) + ", got " + num( t+rel ) + " in the step [" + num( t ) + "," + num( t+dt ) + ")"; } );
          std::vector< RB > q( NQ*MD*CR ); for( auto & v : q ) v = s.sr( 5 ); rc.writeRecvAll( k, (RB (*)[MD][CR]) q.data() ); smpl[k].push_back( q ); if( ++got > 14 ) { c.fail( "too many samples in one step" ); return; } }
        double next = t0 + smpl[k].size()*freq; c.requireF( next > t+dt-1E-8-2*TOL.TIME, [&]{ return "sample at " + num( next ) + " is missing in the step [" + num( t ) + "," + num( t+dt ) + ")"; } ); if( got > 1 ) many++; if( !got ) none++; }
      tEnd += dt; int th = s.b( 0.1 ) ? 1000 : thr; rc.flushIf( th );
      // every receiver has at least the requested number of free entries
      if( s.b( 0.3 ) ) for( int k = 0; k < nR; k++ ) { size_t j = std::lower_bound( enr.begin(), enr.end(), re[k].el )-enr.begin(), n = 0; std::ifstream f( outC + "/0/" + names[k] + ".csv" ); std::string l; while( std::getline( f, l ) ) n += l.size() && l[0] != '#' && l[0] != 't'; int left = (int) smpl[j].size() - (int) n; c.requireF( left >= 0 && left <= std::max( 0, buf-th ), [&]{ return "receiver " + names[k] + " holds " + std::to_string( left ) + " of " + std::to_string( buf ) + " entries back after flushing below " + std::to_string( th ) + " free entries"; } ); } } }
  // written data
  for( int k = 0; k < nR; k++ ) { size_t j = std::lower_bound( enr.begin(), enr.end(), re[k].el )-enr.begin(); std::ifstream f( outC + "/0/" + names[k] + ".csv" ); c.require( (bool) f, "output of receiver " + names[k] ); std::string l; std::vector< std::string > head, rows; while( std::getline( f, l ) ) ( rows.empty() && ( l[0] == '#' || l[0] == 't' ) ? head : rows ).push_back( l ); std::string cols = "time"; for( int q = 0; q < NQ; q++ ) for( int r = 0; r < CR; r++ ) cols += ",Q" + std::to_string( q ) + "_C" + std::to_string( r );
    c.require( head.size() > 2 && head.back() == cols, "column names: " + ( head.size() ? head.back() : std::string() ) ); bool nm = false; for( auto & h : head ) { nm = nm || h == "# receiver name: " + names[k]; double p[3]; if( sscanf( h.c_str(), "# specified coordinates: %lf %lf %lf", p, p+1, p+2 ) == 3 ) for( int d = 0; d < 3; d++ ) c.close( p[d], x[k][d], 1E-5, 1E-5, "specified coordinates" ); if( sscanf( h.c_str(), "# projected coordinates: %lf %lf %lf", p, p+1, p+2 ) == 3 ) { double y[3] = {}; m.phy( re[k].el, re[k].xi, y ); for( int d = 0; d < 3; d++ ) c.close( p[d], y[d], 1E-5, 1E-4, "projected coordinates" ); } } c.require( nm, "name in the header" );
    c.require( rows.size() == smpl[j].size(), "receiver " + names[k] + " has " + std::to_string( rows.size() ) + " rows, expected " + std::to_string( smpl[j].size() ) ); if( rows.size() != smpl[j].size() ) return; double ph[MD]; for( int b = 0; b < MD; b++ ) ph[b] = ref::phi( EL, O, b, re[k].xi );
    for( size_t r = 0; r < rows.size(); r++ ) { std::stringstream ss( rows[r] ); std::string v; std::vector< double > d; while( std::getline( ss, v, ',' ) ) d.push_back( std::strtod( v.c_str(), nullptr ) ); c.require( (int) d.size() == 1+NQ*CR, "number of columns" ); if( (int) d.size() != 1+NQ*CR ) return; c.close( d[0], t0 + r*freq, sizeof( RB ) == 4 ? 1E-6 : 1E-12, 2E-6, "time of row " + std::to_string( r ) ); for( int q = 0; q < NQ; q++ ) for( int cr = 0; cr < CR; cr++ ) { double w = 0; for( int b = 0; b < MD; b++ ) w += ph[b]*smpl[j][r][( q*MD+b )*CR+cr]; c.close( d[1+q*CR+cr], w, 3E-6, sizeof( RB ) == 4 ? 2E-4 : 2E-6, "receiver " + names[k] + " row " + std::to_string( r ) + " quantity " + std::to_string( q ) + " run " + std::to_string( cr ) ); } } }
  int mx = 0; for( auto & q : cnt ) mx = std::max( mx, q.second ); c.nontrivial( mx > 1 && many + none > 0 && steps > 1 ); std::ostringstream os; os << nR << " receivers in " << els.size() << " elements, outside " << outside << ", frequency " << freq << " dt " << dt << " steps " << steps << " buffer " << buf; c.sample( os.str() );
}

// VTK output
struct Vtk { std::vector< float > x; std::vector< std::vector< int > > cells; std::vector< int > ty; std::vector< std::pair< std::string, std::vector< float > > > vars; std::string err; };
static Vtk parse( std::string const & t ) { Vtk v; size_t p = 0; bool bin = false; auto line = [&]{ size_t e = t.find( '\n', p ); if( e == std::string::npos ) e = t.size(); std::string l = t.substr( p, e-p ); p = std::min( e+1, t.size() ); return l; };
  auto skip = [&]{ while( p < t.size() && ( t[p] == '\n' || t[p] == ' ' ) ) p++; }; auto f = [&]() -> float { if( bin ) { if( p+4 > t.size() ) { v.err = "truncated"; return 0; } unsigned char b[4]; for( int k = 0; k < 4; k++ ) b[3-k] = t[p+k]; p += 4; float r; memcpy( &r, b, 4 ); return r; } char * e; float r = std::strtof( t.c_str()+p, &e ); if( e == t.c_str()+p ) v.err = "number expected"; p = e-t.c_str(); return r; };
  auto in = [&]() -> int { if( bin ) { if( p+4 > t.size() ) { v.err = "truncated"; return 0; } unsigned r = 0; for( int k = 0; k < 4; k++ ) r = r<<8 | (unsigned char) t[p+k]; p += 4; return (int) r; } char * e; long r = std::strtol( t.c_str()+p, &e, 10 ); if( e == t.c_str()+p ) v.err = "integer expected"; p = e-t.c_str(); return r; };
  if( line() != "# vtk DataFile Version 2.0" ) v.err = "header"; line(); std::string k = line(); bin = k == "BINARY"; if( !bin && k != "ASCII" ) v.err = "type"; if( line() != "DATASET UNSTRUCTURED_GRID" ) v.err = "data set"; int n, sz, nc; char nm[256]; if( sscanf( line().c_str(), "POINTS %d float", &n ) != 1 ) { v.err = "points"; return v; } for( int j = 0; j < 3*n && v.err == ""; j++ ) v.x.push_back( f() ); skip();
  if( sscanf( line().c_str(), "CELLS %d %d", &nc, &sz ) != 2 ) { v.err = "cells"; return v; } int c0 = 0; for( int j = 0; j < nc && v.err == ""; j++ ) { int q = in(); c0 += q+1; std::vector< int > c; for( int i = 0; i < q && i < 100; i++ ) c.push_back( in() ); v.cells.push_back( c ); } if( c0 != sz ) v.err = "size of the cell section"; skip();
  int n2; if( sscanf( line().c_str(), "CELL_TYPES %d", &n2 ) != 1 || n2 != nc ) { v.err = "cell types"; return v; } for( int j = 0; j < nc; j++ ) v.ty.push_back( in() ); skip(); if( sscanf( line().c_str(), "CELL_DATA %d", &n2 ) != 1 || n2 != nc ) { v.err = "cell data"; return v; }
  if( sscanf( line().c_str(), "SCALARS %255s float", nm ) != 1 || line() != "LOOKUP_TABLE default" ) { v.err = "first variable"; return v; } v.vars.push_back( { nm, {} } ); for( int j = 0; j < nc; j++ ) v.vars.back().second.push_back( f() ); skip(); int nf = 0; if( p < t.size() && sscanf( t.c_str()+p, "FIELD FieldData %d", &nf ) == 1 ) { line(); for( int k = 0; k < nf && v.err == ""; k++ ) { if( !bin ) skip(); int a, b; std::string l = line(); if( l == "" ) l = line(); if( sscanf( l.c_str(), "%255s %d %d float", nm, &a, &b ) != 3 || a != 1 || b != nc ) { v.err = "variable " + l; return v; } v.vars.push_back( { nm, {} } ); for( int j = 0; j < nc; j++ ) v.vars.back().second.push_back( f() ); } } return v; }
PBT( wave_field, 1500, 25000, "filtered elements, several steps" ) {
  ref::DMesh m( s, c, EL, 14, false ); constexpr int NV = C_ENT[EL].N_VERTICES; std::vector< std::array< I, NV > > ev( m.nE ); for( int e = 0; e < m.nE; e++ ) for( int v = 0; v < NV; v++ ) ev[e][v] = m.elVe[e][v];
  std::vector< t_vertexChars > vc( m.ve.size() ); for( size_t v = 0; v < vc.size(); v++ ) { memset( &vc[v], 0, sizeof( vc[v] ) ); for( int d = 0; d < 3; d++ ) vc[v].coords[d] = m.ve[v][d]; } std::vector< t_elementChars > ec( m.nE ); for( auto & e : ec ) { memset( &e, 0, sizeof( e ) ); e.spType = s.pick< long long >( { 0, 1, 3, 7, 1LL<<34|1 } ); }
  bool all = s.b( 0.4 ); int_spType f = all ? std::numeric_limits< int_spType >::max() : s.pick< long long >( { 1, 2, 3, 4, 1LL<<34, 8 } ); int nOut = s.i( 0, m.nE ); if( s.b() ) nOut = m.nE; std::vector< int > pr; for( int e = 0; e < nOut; e++ ) if( all || ( ec[e].spType & f ) == f ) pr.push_back( e );
  std::vector< RB > q( m.nE*NQ*MD*CR ); auto fill = [&]{ for( auto & v : q ) v = s.b( 0.1 ) ? 0 : s.sr( 1 )*s.pick( std::vector< double >{ 1, 1E-8, 1E8 } ); }; fill(); Dir dir; std::string base = word( s ), sub = dir.d + "/" + word( s ); bool bin = s.b(); int steps = s.i( 0, 3 );
  { edge::io::WaveField wf( bin ? "vtk_binary" : "vtk_ascii", sub + "/" + base, vc.size(), nOut, vc.data(), ec.data(), (I (*)[NV]) ev.data(), (RB (*)[NQ][MD][CR]) q.data(), f );
    for( int st = 0; st < steps; st++ ) { wf.write( st*0.1 ); std::string fn = sub + "/0/" + base + "_" + edge::parallel::g_rankStr + "_" + std::to_string( st ) + ".vtk", t = slurp( fn ); if( pr.empty() ) { c.require( t == "<missing>", "output without elements" ); fill(); continue; }
      Vtk v = parse( t ); std::string w = std::string( bin ? " (binary, step " : " (ascii, step " ) + std::to_string( st ) + ")"; c.require( v.err == "", "file format: " + v.err + w ); if( v.err != "" ) return; c.require( v.x.size() == 3*vc.size() && v.cells.size() == pr.size() && (int) v.vars.size() == NQ*CR, "sizes" + w ); if( v.x.size() != 3*vc.size() || v.cells.size() != pr.size() || (int) v.vars.size() != NQ*CR ) return;
      for( size_t i = 0; i < vc.size(); i++ ) for( int d = 0; d < 3; d++ ) c.require( v.x[i*3+d] == (float) m.ve[i][d], "coordinates of vertex " + std::to_string( i ) + w ); int vt = EL == LINE ? 3 : EL == TRIA3 ? 5 : EL == QUAD4R ? 9 : EL == TET4 ? 10 : 12;
      for( size_t i = 0; i < pr.size(); i++ ) { c.require( v.ty[i] == vt, "cell type" + w ); c.require( v.cells[i] == m.elVe[pr[i]], "vertices of element " + std::to_string( pr[i] ) + w ); for( int r = 0; r < CR; r++ ) for( int k = 0; k < NQ; k++ ) { auto & va = v.vars[r*NQ+k]; c.require( va.first == "crun_" + std::to_string( r ) + "_var_" + std::to_string( k ), "name of variable " + va.first + w ); c.require( va.second[i] == (float) q[( ( (size_t) pr[i]*NQ+k )*MD )*CR+r], "run " + std::to_string( r ) + " quantity " + std::to_string( k ) + " of element " + std::to_string( pr[i] ) + w ); } }
      fill(); } }
  c.nontrivial( steps > 1 && pr.size() > 1 && (int) pr.size() < nOut ); std::ostringstream os; os << pr.size() << " of " << nOut << " elements, steps " << steps << ( bin ? " binary" : " ascii" ); c.sample( os.str() );
}

PBT( error_norms, 1500, 30000, "written to file and standard output" ) {
  double n[3][NQ][CR]; for( auto & a : n ) for( auto & b : a ) for( auto & v : b ) v = s.b( 0.1 ) ? 0 : s.lr( 1E-12, 1E12 )*( s.b() ? 1 : -1 ); static char const * ty[] = { "none", "sout", "file", "sout_file", "", "x" }; int k = s.draw( 6 ); bool so = k == 1 || k == 3, fi = k == 2 || k == 3; Dir dir; std::string fn = dir.d + "/e.xml"; pbt::LogCap cap;
  if( s.b() || k > 3 ) { edge::io::ErrorNorms e( std::string( ty[k] ), fn ); c.require( e.outEnabled() == ( so || fi ), "output is enabled" ); e.write( n ); } else { edge::io::ErrorNorms e( (edge::io::ErrorNorms::OutType) k, fn ); c.require( e.outEnabled() == ( so || fi ), "output is enabled" ); e.write( n ); }
  static char const * nn[] = { "l1", "l2", "linf" }, * ln[] = { " L1 error", " L2 error", " Linf error" }; int lines = 0; for( auto & l : pbt::logLines() ) for( auto x : ln ) lines += l.find( x+1 ) != std::string::npos; c.require( lines == ( so ? 3*NQ*CR : 0 ), "printed norms" ); c.require( ( slurp( fn ) != "<missing>" ) == fi, "file with norms" );
  if( so ) for( int a = 0; a < 3; a++ ) for( int q = 0; q < NQ; q++ ) for( int r = 0; r < CR; r++ ) { std::string key = std::string( ln[a]+1 ) + ", quantity #" + std::to_string( q ) + ", cfr #" + std::to_string( r ) + ": "; bool ok = false; for( auto & l : pbt::logLines() ) { size_t p = l.find( key ); if( p != std::string::npos && std::fabs( std::strtod( l.c_str()+p+key.size(), nullptr )-n[a][q][r] ) <= 1E-5*std::fabs( n[a][q][r] ) ) ok = true; } c.require( ok, "printed " + key ); }
  if( fi ) { pugi::xml_document d; c.require( d.load_file( fn.c_str() ), "XML with norms" ); for( int a = 0; a < 3; a++ ) { auto q = d.child( "error_norms" ).child( nn[a] ).child( "q" ); for( int i = 0; i < NQ; i++, q = q.next_sibling( "q" ) ) { auto r = q.child( "cfr" ); for( int j = 0; j < CR; j++, r = r.next_sibling( "cfr" ) ) c.close( r.text().as_double( 1E300 ), n[a][i][j], 1E-14, 0, std::string( nn[a] ) + " of quantity " + std::to_string( i ) + " run " + std::to_string( j ) ); c.require( !r, "additional runs" ); } c.require( !q, "additional quantities" ); } }
  c.nontrivial( k == 3 ); c.sample( std::string( "output type " ) + ty[k] );
}

// configuration files
struct Xml { std::string t; pbt::Src & s; Xml( pbt::Src & i_s ): s( i_s ) {} // nodes of a level may appear in any order
  std::string junk() { int k = s.draw( 6 ); return k == 0 ? "<!-- x <a>1</a> -->" : k == 1 ? "\n  " : k == 2 ? " " : ""; } };
typedef std::vector< std::string > Vs;
static std::string tag( std::string const & n, std::string const & v ) { return "<" + n + ">" + v + "</" + n + ">"; }
static std::string join( pbt::Src & s, Vs v, bool shuffle = true ) { std::string r; Xml x( s ); if( shuffle ) { auto p = s.perm( v.size() ); Vs o = v; for( size_t k = 0; k < v.size(); k++ ) v[p[k]] = o[k]; } for( auto & a : v ) r += x.junk() + a; return r + x.junk(); }
// several nodes of the same name keep their order
static std::string mix( pbt::Src & s, Vs fixed, Vs other ) { std::string r; size_t i = 0, k = 0; Xml x( s ); while( i < fixed.size() || k < other.size() ) { bool f = k == other.size() || ( i < fixed.size() && s.b() ); r += x.junk() + ( f ? fixed[i++] : other[k++] ); } return r; }
struct Hs { double o[3], n[3]; };
struct Dm { std::vector< Hs > h; std::string xml( pbt::Src & s, Vs data ) { Vs f; static char const * ax[] = { "x", "y", "z" }; for( auto & a : h ) { Vs o, n; for( int d = 0; d < D; d++ ) { o.push_back( tag( ax[d], num( a.o[d] ) ) ); n.push_back( tag( ax[d], num( a.n[d] ) ) ); } f.push_back( tag( "half_space", join( s, { tag( "origin", join( s, o ) ), tag( "normal", join( s, n ) ) } ) ) ); } return tag( "domain", mix( s, f, data ) ); } };
static Dm genDm( pbt::Src & s ) { Dm r; int n = s.i( 0, 3 ); for( int k = 0; k < n; k++ ) { Hs h; for( int d = 0; d < 3; d++ ) { h.o[d] = s.sr( 10 ); h.n[d] = s.sr( 2 ); } h.n[0] += h.n[0] < 0 ? -0.2 : 0.2; r.h.push_back( h ); } return r; }
template< typename T > static void cmpDm( pbt::Src & s, pbt::Ctx & c, Dm const & m, T & d, std::string const & w ) { for( int k = 0; k < 6; k++ ) { real_mesh p[D]; for( auto & v : p ) v = s.sr( 15 ); bool in = true, amb = false; for( auto & h : m.h ) { double z = 0, nn = 0; for( int i = 0; i < D; i++ ) { z += ( p[i]-h.o[i] )*h.n[i]; nn += h.n[i]*h.n[i]; } z /= std::sqrt( nn ); amb = amb || std::fabs( z ) < 1E-4; in = in && z > 0; } if( !amb ) c.require( d.inside( p ) == in, "point is " + std::string( in ? "inside" : "outside" ) + " of the domain, " + w ); } c.require( d.toString().size() == m.h.size(), "number of objects of the domain, " + w ); }
static std::string genExpr( pbt::Src & s ) { return s.pick( std::vector< std::string >{ "q := 1", "if( qt == 1 ) { q := sin(x); }\n else { q := 0; };", "q := x*y + 0.5;", "\n  var r := 2;\n  q := r;\n " } ); }
static std::string esc( std::string const & v ) { std::string r; for( char x : v ) { if( x == '<' ) r += "&lt;"; else if( x == '&' ) r += "&amp;"; else r += x; } return r; }
static char const * const DEF = "q := 0; // set automatically, adjust config if required";
static void wr( std::string const & f, std::string const & t ) { std::ofstream o( f ); o << "<?xml version=\"1.0\"?>\n" << t; }

PBT( config, 6000, 100000, "receivers, sparse types and several optional parts given" ) {
  Dir dir; std::string fn = dir.d + "/c.xml"; Vs edge, cfr, mesh, setups, out; bool bad = false;
  // mesh
  std::string base = word( s ) + "/" + word( s ), ext = "." + word( s ); bool hasIn = s.b( 0.9 ); if( hasIn ) mesh.push_back( tag( "in", join( s, { tag( "base", base ), tag( "extension", ext ) } ) ) ); bool hasPer = s.b( 0.4 ); int per = s.i( 0, 200 ); std::vector< std::pair< std::string, int > > bnd; int nb = s.i( 0, 4 ); Vs bx; for( int k = 0; k < nb; k++ ) { bnd.push_back( { s.pick( Vs{ "free_surface", "outflow", "dirichlet", "rupture" } ), s.i( 0, 300 ) } ); bx.push_back( tag( bnd.back().first, std::to_string( bnd.back().second ) ) ); }
  if( hasPer ) bx.insert( bx.begin()+s.draw( bx.size()+1 ), tag( "periodic", std::to_string( per ) ) ); if( nb || hasPer || s.b() ) { std::string z; for( auto & b : bx ) z += ( s.b( 0.2 ) ? "\n <!-- c -->" : s.b() ? "\n  " : "" ) + b; mesh.push_back( tag( "boundary", z ) ); }
  std::vector< Dm > dm[3]; std::vector< long long > dv[3]; static char const * en[] = { "vertices", "faces", "elements" }; Vs spx; for( int t = 0; t < 3; t++ ) { int n = s.b() ? 0 : s.i( 1, 3 ); Vs x; for( int k = 0; k < n; k++ ) { dm[t].push_back( genDm( s ) ); dv[t].push_back( s.pick( std::vector< long long >{ 0, 1, 101, 4096, 1<<30, 105 } ) ); x.push_back( dm[t].back().xml( s, { tag( "type", std::to_string( dv[t].back() ) ) } ) ); } if( n || s.b( 0.2 ) ) spx.push_back( tag( en[t], mix( s, x, {} ) ) ); } if( spx.size() ) mesh.push_back( tag( "sparse_types", join( s, spx ) ) );
  // set-ups
  auto exprs = [&]( Vs & e, std::string & x ) { int n = s.i( 0, CR+1 ); x = ""; for( int k = 0; k < n; k++ ) { std::string v = s.b( 0.1 ) ? "" : genExpr( s ); x += ( s.b() ? "\n" : "" ) + tag( s.b() ? "element_modes" : "cell", esc( v ) ); if( k < CR ) e[k] = v == "" ? DEF : v; } }; Vs iv( CR, DEF ), rv( CR, DEF ); std::string ivx, rvx; exprs( iv, ivx ); exprs( rv, rvx ); if( ivx != "" || s.b() ) setups.push_back( tag( "initial_values", ivx ) ); double tEnd = s.b( 0.97 ) ? s.lr( 0.01, 100 ) : 0; setups.push_back( tag( "end_time", num( tEnd ) ) );
  // output
  static double const MX = std::numeric_limits< double >::max()/2; std::string wt, wf; double wi = MX; int_spType wsp = std::numeric_limits< int_spType >::max(); if( s.b( 0.6 ) ) { wt = s.pick( Vs{ "vtk_ascii", "vtk_binary" } ); wf = word( s ) + "/" + word( s ); wi = s.b( 0.95 ) ? s.lr( 1E-3, 10 ) : 0; Vs x{ tag( "type", wt ), tag( "file", wf ), tag( "int", num( wi ) ) }; if( s.b( 0.4 ) ) { wsp = s.pick< long long >( { 0, 1, 101, 32768 } ); x.push_back( tag( "sparse_type", std::to_string( wsp ) ) ); } out.push_back( tag( "wave_field", join( s, x ) ) ); } else if( s.b( 0.3 ) ) out.push_back( tag( "wave_field", tag( "int", "0.1" ) ) );
  std::string it, iff; double ii = MX; if( s.b( 0.3 ) ) { it = "vtk_binary"; iff = word( s ); ii = s.lr( 1E-3, 10 ); out.push_back( tag( "internal_boundary", join( s, { tag( "type", it ), tag( "file", iff ), tag( "int", num( ii ) ) } ) ) ); }
  std::vector< std::array< double, 3 > > rx[2]; Vs rn[2]; double rf[2]; std::string rp[2]; bool rok = false; for( int t = 0; t < 2; t++ ) { rf[t] = -std::numeric_limits< double >::max(); if( s.b( 0.3 ) ) continue; int n = s.i( 0, 4 ); Vs f, o; for( int k = 0; k < n; k++ ) { std::array< double, 3 > x; Vs cx; static char const * ax[] = { "x", "y", "z" }; for( int d = 0; d < 3; d++ ) { bool g = s.b( 0.9 ); x[d] = g ? s.sr( 100 ) : 0; if( g ) cx.push_back( tag( ax[d], num( x[d] ) ) ); } rx[t].push_back( x ); Vs nd{ tag( "coords", join( s, cx ) ) }; if( s.b( 0.7 ) ) { rn[t].push_back( word( s ) ); nd.push_back( tag( "name", rn[t].back() ) ); } else rn[t].push_back( std::to_string( k ) ); f.push_back( tag( "receiver", join( s, nd ) ) ); }
    double fr = s.b( 0.85 ) ? s.lr( 1E-3, 1 ) : s.b() ? 0 : -1; if( s.b( 0.95 ) ) o.push_back( tag( "freq", num( fr ) ) ); else fr = 0; rp[t] = s.b( 0.9 ) ? word( s ) : ""; if( rp[t] != "" ) o.push_back( tag( "path_to_dir", rp[t] ) ); if( n && fr > 0 ) rf[t] = fr; if( !( n && fr > 0 ) || rp[t] == "" ) { rx[t].clear(); rn[t].clear(); } rok = rok || rx[t].size(); out.push_back( tag( t ? "receivers_quad" : "receivers", mix( s, f, o ) ) ); }
  std::string nt, nf; Vs nx; if( rvx != "" ) nx.push_back( tag( "reference_values", rvx ) ); if( s.b() ) { nt = s.pick( Vs{ "sout", "file" } ); nf = word( s ); nx.push_back( tag( "type", nt ) ); nx.push_back( tag( "file", nf ) ); } if( nx.size() ) out.push_back( tag( "error_norms", join( s, nx ) ) );
  cfr = { tag( "mesh", join( s, mesh ) ), tag( "setups", join( s, setups ) ), tag( "output", join( s, out ) ) }; edge.push_back( tag( "cfr", join( s, cfr ) ) ); if( s.b() ) edge.push_back( tag( "build", tag( "order", "3" ) ) );
  double sy = std::min( 0.05*tEnd, wi ); if( s.b( 0.4 ) ) { sy = s.b( 0.9 ) ? s.lr( 1E-3, 10 ) : s.b() ? 0 : -1; edge.push_back( tag( "synchronization", tag( "max_int", num( sy ) ) ) ); } long long wk = 1; if( s.b( 0.4 ) ) { bool g = s.b( 0.8 ); if( g ) wk = s.i( 0, 3 ); edge.push_back( tag( "parallelization", g ? tag( "separate_workers", std::to_string( wk ) ) : "" ) ); }
  bad = !( sy > 0 ) || !( wi > 0 ); std::string x = tag( "edge", join( s, edge ) ); int mal = s.draw( 60 ); if( mal == 0 ) { x = x.substr( 0, x.size()-s.i( 1, 8 ) ); bad = true; } wr( fn, x ); if( mal == 1 ) { fn += "_"; bad = true; }
  if( bad ) { c.require( pbt::dies( [&]{ edge::io::Config f( fn ); } ), "invalid configuration is accepted" ); return; }
  pbt::LogCap cap; edge::io::Config f( fn );
  c.require( f.m_meshInBase == ( hasIn ? base : "" ) && f.m_meshInExt == ( hasIn ? ext : "" ), "mesh" ); c.require( f.m_periodic == ( hasPer ? per : std::numeric_limits< int >::max() ), "periodic boundary" ); c.require( f.m_bndConId.size() == bnd.size() && f.m_bndConName.size() == bnd.size(), "number of boundaries" ); if( f.m_bndConId.size() == bnd.size() ) for( int k = 0; k < nb; k++ ) c.require( f.m_bndConName[k] == bnd[k].first && f.m_bndConId[k] == bnd[k].second, "boundary " + std::to_string( k ) );
  for( int t = 0; t < 3; t++ ) { c.require( f.m_spTypesDoms[t].size() == dm[t].size() && f.m_spTypesVals[t].size() == dm[t].size(), std::string( "number of domains, " ) + en[t] ); if( f.m_spTypesDoms[t].size() == dm[t].size() ) for( size_t k = 0; k < dm[t].size(); k++ ) { c.require( f.m_spTypesVals[t][k] == dv[t][k], "sparse type of a domain" ); cmpDm( s, c, dm[t][k], f.m_spTypesDoms[t][k], en[t] ); } }
  for( int r = 0; r < CR; r++ ) { c.require( f.m_initValsExprStrs[r] == iv[r], "initial values of run " + std::to_string( r ) + ": " + f.m_initValsExprStrs[r] ); c.require( f.m_refValsExprStrs[r] == rv[r], "reference values of run " + std::to_string( r ) + ": " + f.m_refValsExprStrs[r] ); }
  c.require( f.m_endTime == tEnd, "end time" ); c.require( f.m_waveFieldType == wt && f.m_waveFieldFile == wf && f.m_waveFieldInt == wi && f.m_waveFieldSpType == wsp, "wave field" ); c.require( f.m_iBndType == it && f.m_iBndFile == iff && f.m_iBndInt == ii, "internal boundary" );
  for( int t = 0; t < 2; t++ ) { c.require( f.m_recvNames[t] == rn[t], "receiver names" ); c.require( f.m_recvCrds[t].size() == rx[t].size(), "number of receivers" ); if( f.m_recvCrds[t].size() == rx[t].size() ) for( size_t k = 0; k < rx[t].size(); k++ ) for( int d = 0; d < 3; d++ ) c.require( f.m_recvCrds[t][k][d] == rx[t][k][d], "coordinates of receiver " + std::to_string( k ) ); if( rx[t].size() ) c.require( f.m_recvFreq[t] == rf[t] && f.m_recvPath[t] == rp[t], "receiver frequency and path" ); }
  c.require( f.m_errorNormsType == nt && f.m_errorNormsFile == nf, "error norms" ); c.close( f.m_syncMaxInt, sy, 1E-14, 0, "synchronization interval" ); c.require( (long long) f.m_separateWrks == wk, "separate workers" );
  // printed configuration
  auto has = [&]( std::string const & k ) { for( auto & l : pbt::logLines() ) if( l.find( k ) != std::string::npos ) return true; return false; }; if( hasIn ) c.require( has( "base: " + base ), "printed mesh" ); for( auto & b : bnd ) c.require( has( b.first + ": " + std::to_string( b.second ) ), "printed boundary" );
  c.nontrivial( rok && spx.size() && wt != "" ); std::ostringstream os; os << "boundaries " << nb << " domains " << dm[0].size() << "," << dm[1].size() << "," << dm[2].size() << " receivers " << rx[0].size() << "," << rx[1].size() << " wave field " << wt << " sync " << sy; c.sample( os.str() );
}

#ifdef PP_T_EQUATIONS_SEISMIC
PBT( seismic_config, 5000, 80000, "several velocity domains and rupture set-ups" ) {
  Vs su, vm; Vs ps; int np = s.b( 0.6 ) ? 0 : s.b( 0.9 ) ? CR : s.i( 1, CR+2 ); for( int k = 0; k < np; k++ ) ps.push_back( s.b( 0.05 ) ? "" : word( s ) ); Vs px; for( auto & p : ps ) px.push_back( tag( "file", p ) ); if( np || s.b( 0.2 ) ) su.push_back( tag( "point_sources", mix( s, px, {} ) ) ); bool bad = np && np != CR; double at[2]; bool ve = N_RELAXATION_MECHANISMS > 0;
  for( auto & a : at ) a = s.b( 0.97 ) ? s.lr( 0.1, 100 ) : s.b() ? 0 : -1; if( s.b( 0.9 ) || ve ) su.push_back( tag( "attenuation", join( s, { tag( "central_frequency", num( at[0] ) ), tag( "frequency_ratio", num( at[1] ) ) } ) ) ); if( ve && !( at[0] > 0 && at[1] > 0 ) ) bad = true;
  int nd = s.i( 0, 4 ); std::vector< Dm > dm; std::vector< std::array< double, 5 > > dv; static char const * vn[] = { "rho", "lambda", "mu", "qp", "qs" }; for( int k = 0; k < nd; k++ ) { dm.push_back( genDm( s ) ); std::array< double, 5 > v; Vs x; for( int j = 0; j < 5; j++ ) { v[j] = s.lr( 1, 1E10 ); if( j > 2 && s.b( 0.02 ) ) v[j] = 0; x.push_back( tag( vn[j], num( v[j] ) ) ); if( ve && j > 2 && !( v[j] > 0 ) ) bad = true; } auto p = s.perm( 5 ); Vs o( 5 ); for( int j = 0; j < 5; j++ ) o[p[j]] = x[j]; dv.push_back( v ); vm.push_back( dm.back().xml( s, o ) ); }
  double fc[3][3]; Vs fx; static char const * fn[] = { "normal", "strike", "dip" }, * ax[] = { "x", "y", "z" }; bool hasF = s.b( 0.6 ); for( int a = 0; a < D; a++ ) { Vs x; for( int d = 0; d < D; d++ ) { fc[a][d] = s.sr( 1 ); x.push_back( tag( ax[d], num( fc[a][d] ) ) ); } fx.push_back( tag( fn[a], join( s, x ) ) ); } if( hasF ) su.push_back( tag( "fault_coordinates", join( s, fx ) ) ); else memset( fc, 0, sizeof( fc ) );
  int nr = s.b( 0.4 ) ? 0 : s.i( 1, CR+1 ); Vs rx; std::vector< Dm > rd[CR]; std::vector< std::array< double, 3 > > rs[CR]; double fl[CR][3]; for( int r = 0; r < nr; r++ ) { Vs x; double l[3]; for( auto & v : l ) v = s.r( 0.01, 2 ); std::vector< Dm > d; std::vector< std::array< double, 3 > > v; int n = s.i( 0, 3 ); for( int k = 0; k < n; k++ ) { Dm m = genDm( s ); std::array< double, 3 > st; for( auto & z : st ) z = s.sr( 1E8 ); Vs ss{ tag( "normal_strike", num( st[1] ) ) }; if( D == 3 ) ss.push_back( tag( "normal_dip", num( st[2] ) ) ); x.push_back( m.xml( s, { tag( "values", join( s, { tag( "sn0", num( st[0] ) ), tag( "ss0", join( s, ss ) ) } ) ) } ) ); d.push_back( m ); v.push_back( st ); }
    if( r < CR ) { rd[r] = d; rs[r] = v; for( int k = 0; k < 3; k++ ) fl[r][k] = l[k]; } rx.push_back( tag( "rupture", join( s, { tag( "friction_law", join( s, { tag( "mus", num( l[0] ) ), tag( "mud", num( l[1] ) ), tag( "dc", num( l[2] ) ) } ) ), tag( "stress_init", mix( s, x, {} ) ) } ) ) ); }
  auto p = s.perm( su.size() ); Vs o( su.size() ); for( size_t k = 0; k < su.size(); k++ ) o[p[k]] = su[k]; std::string x = tag( "edge", tag( "cfr", join( s, { tag( "velocity_model", mix( s, vm, {} ) ), tag( "setups", mix( s, rx, o ) ) } ) ) ); pugi::xml_document doc; c.require( doc.load_string( x.c_str() ), "harness XML" );
  if( bad ) { c.require( pbt::dies( [&]{ edge::seismic::io::Config f( doc ); } ), "invalid configuration is accepted" ); return; }
  edge::seismic::io::Config f( doc ); c.require( f.m_ptSrcs == ps, "point sources" ); for( int k = 0; k < 2; k++ ) c.require( f.m_attFreqs[k] == ( ve ? at[k] : std::numeric_limits< double >::max() ), "attenuation frequencies" );
  c.require( (int) f.m_velDoms.size() == nd && (int) f.m_velVals.size() == nd, "number of velocity domains" ); if( (int) f.m_velDoms.size() == nd && (int) f.m_velVals.size() == nd ) for( int k = 0; k < nd; k++ ) { cmpDm( s, c, dm[k], f.m_velDoms[k], "velocity domain " + std::to_string( k ) ); for( int j = 0; j < 5; j++ ) c.require( f.m_velVals[k][j] == ( j > 2 && !ve ? std::numeric_limits< RB >::max() : (RB) dv[k][j] ), std::string( vn[j] ) + " of velocity domain " + std::to_string( k ) ); }
  c.require( f.m_frictionLaw == ( nr ? "lsw" : "" ), "friction law" ); for( int a = 0; a < D; a++ ) for( int d = 0; d < D; d++ ) c.require( f.m_faultCrds[a][d] == fc[a][d], "fault coordinate system" );
  for( int r = 0; r < std::min( nr, CR ); r++ ) { for( int k = 0; k < 3; k++ ) c.require( f.m_lsw[r][k] == (RB) fl[r][k], "friction parameters" ); c.require( f.m_rupDoms[r].size() == rd[r].size() && f.m_stressInit[r].size() == rd[r].size(), "number of rupture domains" ); if( f.m_rupDoms[r].size() == rd[r].size() && f.m_stressInit[r].size() == rd[r].size() ) for( size_t k = 0; k < rd[r].size(); k++ ) { cmpDm( s, c, rd[r][k], f.m_rupDoms[r][k], "rupture domain" ); for( int j = 0; j < D; j++ ) c.require( f.m_stressInit[r][k][j] == (RB) rs[r][k][j], "initial stress" ); } } for( int r = nr; r < CR; r++ ) c.require( f.m_rupDoms[r].empty(), "rupture domains without a rupture set-up" );
  c.nontrivial( nd > 1 && nr > 0 ); std::ostringstream os; os << "point sources " << np << " velocity domains " << nd << " ruptures " << nr; c.sample( os.str() );
}
#endif

// command line
static int child( std::function< int() > f ) { pid_t p = fork(); if( p == 0 ) { alarm( 20 ); int z = open( "/dev/null", 1 ); dup2( z, 1 ); dup2( z, 2 ); _exit( f() ); } int st = 0; waitpid( p, &st, 0 ); return WIFEXITED( st ) ? WEXITSTATUS( st ) : -1; }
PBT( options, 300, 3000, "configuration given together with other options" ) {
  std::string path = "/" + word( s ) + "/" + word( s ) + ".xml"; Vs a; int kind = s.draw( 7 ), form = s.draw( 4 ); auto xml = [&]{ if( form == 0 ) { a.push_back( "-x" ); a.push_back( path ); } else if( form == 1 ) { a.push_back( "--xml" ); a.push_back( path ); } else if( form == 2 ) a.push_back( "--xml=" + path ); else a.push_back( "-x" + path ); };
  if( kind <= 2 ) { if( kind == 1 ) a.push_back( "-v" ); xml(); if( kind == 2 ) a.push_back( "--verbose" ); } else if( kind == 3 ) { if( s.b() ) xml(); a.push_back( s.b() ? "-h" : "--help" ); if( s.b() ) xml(); } else if( kind == 4 ) { a.push_back( s.b() ? "--unknown" : "-z" ); xml(); } else if( kind == 5 ) a.push_back( s.b() ? "-x" : "--xml" );
  std::vector< std::string > st{ "edge" }; st.insert( st.end(), a.begin(), a.end() ); int rc = child( [&]{ std::vector< char * > v; for( auto & x : st ) v.push_back( &x[0] ); v.push_back( nullptr ); edge::io::OptionParser o( st.size(), v.data() ); return o.getXmlPath() == path ? 77 : 78; } );
  std::string w; for( auto & x : a ) w += " " + x; int want = kind <= 2 ? 77 : kind == 3 || kind == 6 ? 0 : 1; c.require( rc == want, "command line" + w + " ends with " + std::to_string( rc ) + ", expected " + std::to_string( want ) ); c.nontrivial( kind == 1 || kind == 2 ); c.sample( w );
}
