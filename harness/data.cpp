// data structures: sparse entities, layouts and dynamic memory
#include "pbt.hpp"
#include <random>
#include "constants.hpp"
#include "dgmesh.hpp"
#include "data/Dynamic.h"
#include "data/DataLayout.hpp"
#include "data/EntityLayout.h"
#include "data/SparseEntities.hpp"
#include "mesh/SparseTypes.hpp"
#include "mesh/common.hpp"
#include "linalg/Domain.hpp"
#include "linalg/HalfSpace.hpp"
typedef edge::data::SparseEntities SE; typedef std::size_t S_; static S_ const MX = std::numeric_limits< S_ >::max(); static S_ const UN = 987654321;
struct Ch { long long spType; };

// sparse types: single and multiple bits
static long long spt( pbt::Src & s ) { static long long const P[] = { 1, 2, 4, 3, 6, 7, 1LL << 33, ( 1LL << 33 ) | 1, 105, 101 }; return P[s.draw( 10 )]; }
static std::vector< Ch > chars( pbt::Src & s, int n, long long a, long long b ) {
  std::vector< Ch > r( n+1 ); r[n].spType = 0; int den = s.i( 0, 4 ); for( int i = 0; i < n; i++ ) { long long v = s.draw( 16 ); if( s.b( 0.25*den ) ) v |= a; if( s.b( 0.3 ) ) v |= b; if( s.b( 0.2 ) ) v |= 1LL << 33; r[i].spType = v; } return r;
}
static std::vector< S_ > ids( std::vector< Ch > const & c, int n, long long t ) { std::vector< S_ > r( n, MX ); S_ k = 0; for( int i = 0; i < n; i++ ) { bool m = true; for( int b = 0; b < 63; b++ ) if( t >> b & 1 ) m = m && ( c[i].spType >> b & 1 ); if( m ) r[i] = k++; } return r; }
static S_ cnt( std::vector< S_ > const & v ) { S_ k = 0; for( auto x : v ) k += x != MX; return k; }
static std::string D( std::string const & a, S_ i ) { return a + " at " + std::to_string( i ); }

PBT( links, 60000, 1000000, "some but not all entities are sparse" ) {
  int n = s.i( 1, 30 ), m = s.i( 1, 25 ), na = s.b( 0.1 ) ? s.i( 6, 30 ) : s.i( 1, 5 ); long long a = spt( s ), b = spt( s ); auto cf = chars( s, n, a, b ), ct = chars( s, m, b, a ); auto A = ids( cf, n, a ), B = ids( cf, n, b ), T = ids( ct, m, b );
  c.require( SE::nSp( (S_) n, a, cf.data() ) == cnt( A ), "number of sparse entities" );
  { std::vector< S_ > o( n+1, UN ); SE::linkSpDe( (S_) n, a, cf.data(), o.data() ); S_ k = 0; for( int i = 0; i < n; i++ ) if( A[i] != MX ) c.require( o[k++] == (S_) i, D( "dense id of sparse entity", k ) ); for( S_ i = k; i <= (S_) n; i++ ) c.require( o[i] == UN, "dense ids beyond the sparse entities are written" ); }
  { std::vector< S_ > o( n+1, UN ); SE::linkSpSp( (S_) n, a, b, cf.data(), o.data() ); S_ k = 0; for( int i = 0; i < n; i++ ) if( A[i] != MX ) { c.require( o[k] == B[i], D( "sparse-sparse link", k ) ); k++; } c.require( o[k] == UN, "sparse-sparse links beyond the sparse entities are written" ); }
  std::vector< S_ > ad( n*na ); for( auto & x : ad ) x = s.b( 0.15 ) ? MX : (S_) s.draw( m );
  { std::vector< S_ > o( n*na+1, UN ); SE::linkSpAdjSst( (S_) n, (unsigned short) na, ad.data(), b, ct.data(), o.data() ); S_ k = 0; for( int i = 0; i < n; i++ ) { bool u = false; for( int j = 0; j < na; j++ ) u = u || ( ad[i*na+j] != MX && T[ad[i*na+j]] != MX ); if( !u ) continue; for( int j = 0; j < na; j++ ) { S_ w = ad[i*na+j] == MX ? MX : T[ad[i*na+j]]; c.require( o[k*na+j] == w, D( "single-type link", k*na+j ) + ( ad[i*na+j] == MX ? " (undefined adjacency)" : "" ) ); } k++; } for( S_ i = k*na; i <= (S_) n*na; i++ ) c.require( o[i] == UN, "single-type links beyond the sparse entities are written" ); }
  { std::vector< S_ > o( n*na+1, UN ); SE::linkSpAdjDst( (S_) n, (unsigned short) na, ad.data(), a, b, cf.data(), ct.data(), o.data() ); S_ k = 0; for( int i = 0; i < n; i++ ) { if( A[i] == MX ) continue; for( int j = 0; j < na; j++ ) { S_ w = ad[i*na+j] == MX ? MX : T[ad[i*na+j]]; c.require( o[k*na+j] == w, D( "double-type link", k*na+j ) ); } k++; } for( S_ i = k*na; i <= (S_) n*na; i++ ) c.require( o[i] == UN, "double-type links beyond the sparse entities are written" ); }
  // dynamic number of adjacent entities
  std::vector< S_ > raw; std::vector< S_ > off( 1, 0 ); for( int i = 0; i < n; i++ ) { int q = s.b( 0.03 ) ? s.i( 6, 40 ) : s.i( 0, 5 ); for( int j = 0; j < q; j++ ) raw.push_back( s.draw( m ) ); off.push_back( raw.size() ); } raw.push_back( 0 ); std::vector< S_ const * > pt; for( auto x : off ) pt.push_back( raw.data()+x );
  { S_ nR = UN, nP = UN; SE::nLinkSpAdjDst( (S_) n, pt.data(), a, b, cf.data(), ct.data(), nR, nP ); S_ wR = 0; for( int i = 0; i < n; i++ ) if( A[i] != MX ) for( S_ j = off[i]; j < off[i+1]; j++ ) wR += T[raw[j]] != MX; c.require( nR == wR, "number of dynamic links" ); c.require( nP == cnt( A ), "number of dynamic link pointers" );
    std::vector< S_ > o( wR+1, UN ); std::vector< S_ * > op( nP+1, nullptr ); SE::linkSpAdjDst( (S_) n, pt.data(), a, b, cf.data(), ct.data(), o.data(), op.data() ); S_ k = 0, r = 0; for( int i = 0; i < n; i++ ) { if( A[i] == MX ) continue; c.require( op[k] == o.data()+r, D( "pointer of dynamic link", k ) ); k++; for( S_ j = off[i]; j < off[i+1]; j++ ) if( T[raw[j]] != MX ) { c.require( o[r] == T[raw[j]], D( "dynamic link", r ) ); r++; } } c.require( op[k] == o.data()+r, "ghost pointer of dynamic links" ); c.require( o[r] == UN, "dynamic links beyond the last one are written" ); }
  // inheritance and propagation
  { auto x = cf; SE::inherit( (S_) n, a, b, x.data() ); for( int i = 0; i < n; i++ ) c.require( x[i].spType == ( A[i] != MX ? cf[i].spType | b : cf[i].spType ), D( "inherited type", i ) ); c.require( x[n].spType == 0, "inherit writes beyond the entities" ); }
  { auto x = ct; SE::propAdj( (S_) n, (unsigned short) na, ad.data(), a, b, cf.data(), x.data() ); auto w = ct; for( int i = 0; i < n; i++ ) if( A[i] != MX ) for( int j = 0; j < na; j++ ) if( ad[i*na+j] != MX ) w[ad[i*na+j]].spType |= b; for( int i = 0; i <= m; i++ ) c.require( x[i].spType == w[i].spType, D( "propagated type", i ) ); }
  { auto x = ct; SE::propAdj( (S_) n, pt.data(), a, b, cf.data(), x.data() ); auto w = ct; for( int i = 0; i < n; i++ ) if( A[i] != MX ) for( S_ j = off[i]; j < off[i+1]; j++ ) w[raw[j]].spType |= b; for( int i = 0; i <= m; i++ ) c.require( x[i].spType == w[i].spType, D( "dynamically propagated type", i ) ); }
  c.nontrivial( cnt( A ) > 0 && cnt( A ) < (S_) n ); std::ostringstream os; os << "entities " << n << " sparse " << cnt( A ) << "/" << cnt( B ) << " adjacent " << m << " sparse " << cnt( T ); c.sample( os.str() );
}

// large meshes: more entities than fit into short integers
PBT( large, 30, 600, "always more than 65536 entities" ) {
  S_ n = s.i( 65537, 140000 ), m = s.i( 65537, 140000 ), na = s.i( 1, 4 ); std::mt19937_64 g( s.draw( 1000000 ) ); long long a = spt( s ), b = spt( s ); std::vector< Ch > cf( n+1 ), ct( m+1 ); double pa = s.r( 0.3, 1 ); auto fl = [&]( std::vector< Ch > & v, long long t, long long u ) { for( auto & x : v ) { x.spType = g() % 16; if( g() % 1000 < 1000*pa ) x.spType |= t; if( g() % 4 == 0 ) x.spType |= u; } v.back().spType = 0; }; fl( cf, a, b ); fl( ct, b, a ); auto A = ids( cf, n, a ), B = ids( cf, n, b ), T = ids( ct, m, b );
  c.require( SE::nSp( n, a, cf.data() ) == cnt( A ), "number of sparse entities" );
  { std::vector< S_ > o( n+1, UN ); SE::linkSpDe( n, a, cf.data(), o.data() ); S_ k = 0; for( S_ i = 0; i < n; i++ ) if( A[i] != MX ) { c.require( o[k] == i, "dense id of a sparse entity" ); k++; } c.require( o[k] == UN, "dense ids beyond the sparse entities are written" ); }
  { std::vector< S_ > o( n+1, UN ); SE::linkSpSp( n, a, b, cf.data(), o.data() ); S_ k = 0; for( S_ i = 0; i < n; i++ ) if( A[i] != MX ) c.require( o[k++] == B[i], "sparse-sparse link" ); }
  std::vector< S_ > ad( n*na ), off( 1, 0 ), raw; for( auto & x : ad ) x = g() % 10 == 0 ? MX : g() % m; for( S_ i = 0; i < n; i++ ) { S_ q = g() % 4; if( i == n/2 && s.b() ) q = 300; for( S_ j = 0; j < q; j++ ) raw.push_back( g() % m ); off.push_back( raw.size() ); } raw.push_back( 0 ); std::vector< S_ const * > pt; for( auto x : off ) pt.push_back( raw.data()+x );
  { std::vector< S_ > o( n*na+1, UN ); SE::linkSpAdjSst( n, (unsigned short) na, ad.data(), b, ct.data(), o.data() ); S_ k = 0; for( S_ i = 0; i < n; i++ ) { bool u = false; for( S_ j = 0; j < na; j++ ) u = u || ( ad[i*na+j] != MX && T[ad[i*na+j]] != MX ); if( !u ) continue; for( S_ j = 0; j < na; j++ ) c.require( o[k*na+j] == ( ad[i*na+j] == MX ? MX : T[ad[i*na+j]] ), "single-type link" ); k++; } }
  { std::vector< S_ > o( n*na+1, UN ); SE::linkSpAdjDst( n, (unsigned short) na, ad.data(), a, b, cf.data(), ct.data(), o.data() ); S_ k = 0; for( S_ i = 0; i < n; i++ ) { if( A[i] == MX ) continue; for( S_ j = 0; j < na; j++ ) c.require( o[k*na+j] == ( ad[i*na+j] == MX ? MX : T[ad[i*na+j]] ), "double-type link" ); k++; } }
  { S_ nR = UN, nP = UN; SE::nLinkSpAdjDst( n, pt.data(), a, b, cf.data(), ct.data(), nR, nP ); S_ wR = 0; for( S_ i = 0; i < n; i++ ) if( A[i] != MX ) for( S_ j = off[i]; j < off[i+1]; j++ ) wR += T[raw[j]] != MX; c.require( nR == wR, "number of dynamic links" ); c.require( nP == cnt( A ), "number of dynamic link pointers" ); if( nR == wR && nP == cnt( A ) ) { std::vector< S_ > o( wR+1, UN ); std::vector< S_ * > op( nP+1, nullptr ); SE::linkSpAdjDst( n, pt.data(), a, b, cf.data(), ct.data(), o.data(), op.data() ); S_ k = 0, r = 0; for( S_ i = 0; i < n; i++ ) { if( A[i] == MX ) continue; c.require( op[k++] == o.data()+r, "pointer of a dynamic link" ); for( S_ j = off[i]; j < off[i+1]; j++ ) if( T[raw[j]] != MX ) c.require( o[r++] == T[raw[j]], "dynamic link" ); } c.require( op[k] == o.data()+r, "ghost pointer of dynamic links" ); } }
  { auto x = cf; SE::inherit( n, a, b, x.data() ); for( S_ i = 0; i < n; i++ ) c.require( x[i].spType == ( A[i] != MX ? cf[i].spType | b : cf[i].spType ), "inherited type" ); }
  { auto x = ct, w = ct; SE::propAdj( n, (unsigned short) na, ad.data(), a, b, cf.data(), x.data() ); for( S_ i = 0; i < n; i++ ) if( A[i] != MX ) for( S_ j = 0; j < na; j++ ) if( ad[i*na+j] != MX ) w[ad[i*na+j]].spType |= b; for( S_ i = 0; i <= m; i++ ) c.require( x[i].spType == w[i].spType, "propagated type" ); }
  { auto x = ct, w = ct; SE::propAdj( n, pt.data(), a, b, cf.data(), x.data() ); for( S_ i = 0; i < n; i++ ) if( A[i] != MX ) for( S_ j = off[i]; j < off[i+1]; j++ ) w[raw[j]].spType |= b; for( S_ i = 0; i <= m; i++ ) c.require( x[i].spType == w[i].spType, "dynamically propagated type" ); }
  { int G = s.i( 1, 4 ); std::vector< S_ > in( G ), se( G ), oi( G ), os2( G ); S_ left = n; for( auto & x : in ) { x = G == 1 ? left : left/2; left -= x; } for( auto & x : se ) { x = left/2; left -= x; } SE::denseToSparse( (unsigned short) G, a, cf.data(), in.data(), se.data(), oi.data(), os2.data() ); S_ f = 0; for( int p = 0; p < 2; p++ ) for( int t = 0; t < G; t++ ) { S_ k = 0, q = p ? se[t] : in[t]; for( S_ i = f; i < f+q; i++ ) k += A[i] != MX; f += q; c.require( ( p ? os2 : oi )[t] == k, "sparse entities of a time group" ); }
    S_ first = s.draw( n/2 ); unsigned nr = s.i( 1, 4 ); std::vector< S_ > sz( nr ), of( nr ), oz( nr ); left = n-first; for( auto & x : sz ) { x = left*2/3; left -= x; } SE::subRgnsSpId( first, nr, sz.data(), a, cf.data(), of.data(), oz.data() ); S_ e = first, b0 = 0; for( S_ i = 0; i < e; i++ ) b0 += A[i] != MX; for( unsigned r = 0; r < nr; r++ ) { S_ k = 0; for( S_ i = e; i < e+sz[r]; i++ ) k += A[i] != MX; c.require( of[r] == b0, "first sparse id of a sub-region" ); c.require( oz[r] == k, "sparse size of a sub-region" ); e += sz[r]; b0 += k; } }
  c.nontrivial(); std::ostringstream os; os << "entities " << n << " sparse " << cnt( A ) << " adjacent " << m << " sparse " << cnt( T ); c.sample( os.str() );
}

PBT( regions, 60000, 1000000, "more than one region" ) {
  int G = s.i( 1, 5 ); std::vector< S_ > in( G ), se( G ), oi( G+1, UN ), os2( G+1, UN ); S_ n = 0; for( auto & x : in ) n += x = s.b( 0.2 ) ? 0 : s.i( 0, 8 ); for( auto & x : se ) n += x = s.b( 0.3 ) ? 0 : s.i( 0, 6 ); long long a = spt( s ); auto ch = chars( s, n, a, spt( s ) ); auto A = ids( ch, n, a );
  SE::denseToSparse( (unsigned short) G, a, ch.data(), in.data(), se.data(), oi.data(), os2.data() ); S_ f = 0; for( int p = 0; p < 2; p++ ) for( int g = 0; g < G; g++ ) { S_ k = 0, q = p ? se[g] : in[g]; for( S_ i = f; i < f+q; i++ ) k += A[i] != MX; f += q; c.require( ( p ? os2 : oi )[g] == k, D( p ? "sparse send entities of time group" : "sparse inner entities of time group", g ) ); } c.require( oi[G] == UN && os2[G] == UN, "sizes beyond the last time group are written" );
  // sub-regions
  S_ first = s.i( 0, n ); unsigned nr = s.i( 1, 6 ); std::vector< S_ > sz( nr ), of( nr+1, UN ), oz( nr+1, UN ); S_ left = n-first; for( auto & x : sz ) { x = s.i( 0, left ); left -= x; } SE::subRgnsSpId( first, nr, sz.data(), a, ch.data(), of.data(), oz.data() ); S_ e = first; for( unsigned r = 0; r < nr; r++ ) { S_ b = 0, k = 0; for( S_ i = 0; i < e; i++ ) b += A[i] != MX; for( S_ i = e; i < e+sz[r]; i++ ) k += A[i] != MX; e += sz[r]; c.require( of[r] == b, D( "first sparse id of sub-region", r ) ); c.require( oz[r] == k, D( "sparse size of sub-region", r ) ); }
  // layout
  t_enLayout l; l.nEnts = 4711; l.timeGroups.resize( G ); std::vector< std::vector< S_ > > ss( G ); for( int g = 0; g < G; g++ ) { auto & t = l.timeGroups[g]; t.nEntsOwn = t.nEntsNotOwn = 99; t.inner.first = 77; t.inner.size = in[g]; int q = s.i( 0, 3 ); t.send.resize( q ); t.receive.resize( q ); for( int j = 0; j < q; j++ ) { ss[g].push_back( s.i( 0, 5 ) ); t.send[j].first = t.receive[j].first = 55; t.send[j].size = ss[g][j]; t.receive[j].size = 0; } }
  edge::data::EntityLayout::sizesToLayout( l ); S_ o = 0; for( int g = 0; g < G; g++ ) { c.require( (S_) l.timeGroups[g].inner.first == o, D( "first inner entity of time group", g ) ); c.require( (S_) l.timeGroups[g].inner.size == in[g], "inner size changed" ); o += in[g]; } for( int g = 0; g < G; g++ ) { S_ own = in[g]; for( size_t j = 0; j < ss[g].size(); j++ ) { c.require( (S_) l.timeGroups[g].send[j].first == o, D( "first send entity of time group", g ) ); o += ss[g][j]; own += ss[g][j]; } c.require( (S_) l.timeGroups[g].nEntsOwn == own, D( "owned entities of time group", g ) ); c.require( l.timeGroups[g].nEntsNotOwn == 0, "entities not owned" ); } c.require( (S_) l.nEnts == o, "number of entities" );
  c.nontrivial( G > 1 || nr > 1 ); std::ostringstream os; os << "groups " << G << " entities " << n << " sub-regions " << nr << " from " << first; c.sample( os.str() );
}

template< typename X > static void flx( pbt::Src & s, pbt::Ctx & c ) {
  edge::data::Dynamic dyn; int n = s.i( 0, 20 ), nt = s.i( 0, 3 ); S_ b = s.i( 0, 4 ); std::vector< long long > ty; std::vector< S_ > sz; for( int i = 0; i < nt; i++ ) { ty.push_back( spt( s ) ); sz.push_back( s.i( 0, 4 ) ); } auto ch = chars( s, n, nt ? ty[0] : 1, nt ? ty[nt-1] : 2 ); S_ al = s.pick< S_ >( { 8, 16, 64, 4096 } );
  S_ tot = n*b; std::vector< std::vector< S_ > > I; for( int t = 0; t < nt; t++ ) { I.push_back( ids( ch, n, ty[t] ) ); tot += cnt( I[t] )*sz[t]; }
  auto p = s.b() ? dyn.flex< X >( (S_) n, (unsigned short) nt, b, ty.data(), sz.data(), ch.data(), al ) : dyn.flex< X >( (S_) n, (unsigned short) nt, b, ty.data(), sz.data(), ch.data() );
  X * base = n ? p[0] : nullptr; if( tot > 0 && n ) c.require( (S_) base % std::min< S_ >( al, 64 ) == 0, "alignment" );
  X * q = base; for( int i = 0; i < n; i++ ) { c.require( p[i] == q, D( "base pointer", i ) ); q += b; } for( int t = 0; t < nt; t++ ) for( int i = 0; i < n; i++ ) { if( I[t][i] == MX ) c.require( p[n*( t+1 )+i] == nullptr, D( "pointer of an entity without the type", i ) ); else { c.require( p[n*( t+1 )+i] == q, D( "pointer of sparse type " + std::to_string( t ), i ) ); q += sz[t]; } }
  if( n ) { c.require( p[n*( nt+1 )] == q, "ghost pointer" ); c.require( (S_)( q-base ) == tot, "size" ); if( tot > 0 ) memset( (void*) base, 0x5a, tot*sizeof( X ) ); }
  // allocations do not overlap
  std::vector< std::pair< unsigned char *, S_ > > bl; int k = s.i( 1, 8 ); for( int i = 0; i < k; i++ ) { S_ z = s.b( 0.1 ) ? 0 : s.i( 1, 5000 ), a = s.pick< S_ >( { 8, 32, 64, 256, 4096 } ); unsigned char * x = (unsigned char*)( s.b( 0.3 ) ? dyn.allocate( z ) : dyn.allocate( z, a, s.b(), s.b() ) ); if( z == 0 ) { c.require( x == nullptr, "allocation of size zero" ); continue; } c.require( x != nullptr, "allocation" ); memset( x, i, z ); bl.push_back( { x, z } ); bool al2 = (S_) x % 8 == 0; c.require( al2, "alignment of an allocation" ); }
  { S_ a = s.pick< S_ >( { 8, 32, 64, 256, 4096, 65536 } ); c.require( (S_) dyn.allocate( 100, a ) % a == 0, "requested alignment" ); c.require( (S_) dyn.allocate( 100 ) % 64 == 0, "default alignment" ); }
  for( size_t i = 0; i < bl.size(); i++ ) for( size_t j = 0; j < i; j++ ) c.require( bl[i].first >= bl[j].first+bl[j].second || bl[j].first >= bl[i].first+bl[i].second, "allocations overlap" );
  c.nontrivial( n > 1 && nt > 0 ); std::ostringstream os; os << "entities " << n << " types " << nt << " size " << tot; c.sample( os.str() );
}
PBT( memory, 50000, 600000, "several entities and types" ) { typedef double A5[5][2]; if( s.b() ) flx< double >( s, c ); else if( s.b() ) flx< char >( s, c ); else flx< A5 >( s, c ); }

// adjacency data: inner, send and receive regions of a partition
PBT( adjacency, 40000, 600000, "with communication" ) {
  int na = s.i( 1, 4 ), nIn = s.i( 0, 10 ), nR = s.i( 0, 3 ); std::vector< int > sz( nR ), rz( nR ); t_enLayout l; l.timeGroups.resize( 1 ); auto & t = l.timeGroups[0]; t.inner.first = 0; t.inner.size = nIn; int o = nIn; t.send.resize( nR ); t.receive.resize( nR ); std::vector< int > rg( nIn, -1 );
  for( int r = 0; r < nR; r++ ) { t.send[r].first = o; t.send[r].size = s.i( 1, 4 ); o += t.send[r].size; for( int i = 0; i < (int) t.send[r].size; i++ ) rg.push_back( r ); } t.nEntsOwn = o; int own = o; for( int r = 0; r < nR; r++ ) { t.receive[r].first = o; t.receive[r].size = s.i( 1, 4 ); o += t.receive[r].size; for( int i = 0; i < (int) t.receive[r].size; i++ ) rg.push_back( r ); } t.nEntsNotOwn = o-own; l.nEnts = o; int n = o;
  std::vector< int_el > ad( n*na, std::numeric_limits< int_el >::max() ); int_el const M = std::numeric_limits< int_el >::max();
  // symmetric adjacency by random pairs of free slots
  int np = s.i( 0, n*na ); for( int p = 0; p < np; p++ ) { int e = s.draw( n ), f = s.draw( na ), e2 = s.draw( n ), f2 = s.draw( na ); if( e == e2 || ad[e*na+f] != M || ad[e2*na+f2] != M ) continue; if( e >= own && e2 >= own ) continue; if( ( e < nIn && e2 >= own ) || ( e2 < nIn && e >= own ) ) continue; ad[e*na+f] = e2; ad[e2*na+f2] = e; }
  bool sp = s.b(); std::vector< int_el > es( n ); for( auto & x : es ) x = s.b( 0.4 ) ? 1 : M; auto use = [&]( int e, int j ) { int_el a = ad[e*na+j]; if( a == M ) return false; return !( sp && es[e] == M && es[a] == M ); };
  struct Dt { double v[3]; }; std::vector< Dt > raw( n*na+1 ); std::vector< std::array< Dt*, 4 > > pt( n ); Dt * P[4*200]; (void) pt; std::vector< std::vector< unsigned char * > > se, re; 
  auto go = [&]( auto tag ) { constexpr int N = decltype( tag )::value; std::vector< std::array< Dt*, N > > q( n+1 ); for( auto & x : q ) for( auto & y : x ) y = raw.data()+1; edge::data::DataLayout::adj( (unsigned short) na, ad.data(), l, raw.data(), (Dt*(*)[N]) q.data(), se, re, sp ? es.data() : (int_el*) nullptr ); for( int e = 0; e < n; e++ ) for( int j = 0; j < na; j++ ) P[e*4+j] = q[e][j]; };
  if( na == 1 ) go( std::integral_constant< int, 1 >() ); else if( na == 2 ) go( std::integral_constant< int, 2 >() ); else if( na == 3 ) go( std::integral_constant< int, 3 >() ); else go( std::integral_constant< int, 4 >() );
  // expected: inner, send (other), send (per region), receive (per region)
  Dt * x = raw.data(); std::vector< Dt * > w( n*4, nullptr ); for( int e = 0; e < nIn; e++ ) for( int j = 0; j < na; j++ ) if( use( e, j ) ) w[e*4+j] = x++;
  auto inR = [&]( int_el a, int r ) { return (int) a >= own && rg[a] == r; };
  for( int e = nIn; e < own; e++ ) for( int j = 0; j < na; j++ ) if( use( e, j ) && !inR( ad[e*na+j], rg[e] ) ) w[e*4+j] = x++;
  c.require( se.size() == 1 && re.size() == 1, "one time group" ); if( se.size() != 1 ) return; c.require( (int) se[0].size() == nR+1 && (int) re[0].size() == nR+1, "number of communication regions" ); if( (int) se[0].size() != nR+1 || (int) re[0].size() != nR+1 ) return;
  for( int r = 0; r < nR; r++ ) { c.require( se[0][r] == (unsigned char*) x, "begin of send region" ); for( int e = nIn; e < own; e++ ) if( rg[e] == r ) for( int j = 0; j < na; j++ ) if( use( e, j ) && inR( ad[e*na+j], r ) ) w[e*4+j] = x++; } c.require( se[0][nR] == (unsigned char*) x, "end of send regions" );
  for( int r = 0; r < nR; r++ ) { c.require( re[0][r] == (unsigned char*) x, "begin of receive region" ); for( int e = own; e < n; e++ ) if( rg[e] == r ) for( int j = 0; j < na; j++ ) if( use( e, j ) && (int) ad[e*na+j] < own ) w[e*4+j] = x++; } c.require( re[0][nR] == (unsigned char*) x, "end of receive regions" );
  for( int e = 0; e < n; e++ ) for( int j = 0; j < na; j++ ) c.require( P[e*4+j] == w[e*4+j], "pointer of entity " + std::to_string( e ) + " adjacency " + std::to_string( j ) );
  c.nontrivial( nR > 0 ); std::ostringstream os; os << "entities " << n << " inner " << nIn << " regions " << nR << ( sp ? " sparse" : "" ); c.sample( os.str() );
}

// points are associated with the element which holds them or is closest
template< t_entityType T > static void pts( pbt::Src & s, pbt::Ctx & c ) {
  ref::DMesh m( s, c, T, 14, false ); constexpr int NV = C_ENT[T].N_VERTICES; std::vector< std::array< S_, NV > > ev( m.nE ); for( int e = 0; e < m.nE; e++ ) for( int v = 0; v < NV; v++ ) ev[e][v] = m.elVe[e][v]; std::vector< t_vertexChars > vc( m.ve.size() ); for( size_t v = 0; v < vc.size(); v++ ) { memset( &vc[v], 0, sizeof( vc[v] ) ); for( int d = 0; d < 3; d++ ) vc[v].coords[d] = m.ve[v][d]; }
  int np = s.i( 1, 6 ); std::vector< std::array< double, 3 > > x( np ); std::vector< int > want( np );
  for( int p = 0; p < np; p++ ) { int e = s.draw( m.nE ); double xi[3]; double sum = 0; for( int d = 0; d < m.D; d++ ) { xi[d] = s.r( 0.02, 0.98 ); sum += xi[d]; } if( ( T == TRIA3 || T == TET4 ) && sum > 0.98 ) for( int d = 0; d < m.D; d++ ) xi[d] *= 0.97/sum; double y[3] = { 0,0,0 }; m.phy( e, xi, y ); for( int d = 0; d < 3; d++ ) x[p][d] = y[d]; want[p] = e; }
  std::vector< S_ > o( np, UN ); S_ k = SE::ptToEn( T, (S_) np, (double (*)[3]) x.data(), (S_) m.nE, ev[0].data(), vc.data(), o.data() ); c.require( k == (S_) np, "number of owned points" ); for( int p = 0; p < np; p++ ) c.require( o[p] == (S_) want[p], "point " + std::to_string( p ) + " is inside element " + std::to_string( want[p] ) + " but associated with " + std::to_string( o[p] ) );
  // points outside of all elements: the closest element; duplicated elements (send region): the first one
  { auto e2 = ev; std::vector< int > orig( m.nE ); for( int e = 0; e < m.nE; e++ ) orig[e] = e; int nd = s.i( 0, 3 ); for( int d = 0; d < nd; d++ ) { int e = s.draw( m.nE ); e2.push_back( ev[e] ); orig.push_back( e ); } double lo[3], hi[3]; for( int d = 0; d < 3; d++ ) { lo[d] = 1E9; hi[d] = -1E9; for( auto & v : m.ve ) { lo[d] = std::min( lo[d], (double) v[d] ); hi[d] = std::max( hi[d], (double) v[d] ); } } int nq = s.i( 1, 4 ); std::vector< std::array< double, 3 > > y( nq ); for( auto & p : y ) for( int d = 0; d < 3; d++ ) p[d] = d < m.D ? lo[d] + ( hi[d]-lo[d] )*s.r( -0.6, 1.6 ) : 0;
    std::vector< S_ > r( nq, UN ); SE::ptToEn( T, (S_) nq, (double (*)[3]) y.data(), (S_) e2.size(), e2[0].data(), vc.data(), r.data() ); for( int p = 0; p < nq; p++ ) { std::vector< double > ds( m.nE ); double mi = 1E99; for( int e = 0; e < m.nE; e++ ) { double cr[3*NV], q[3] = { y[p][0], y[p][1], y[p][2] }; for( int v = 0; v < NV; v++ ) for( int d = 0; d < 3; d++ ) cr[d*NV+v] = m.ve[ev[e][v]][d]; edge::linalg::Geom::closestPoint( T, cr, q ); ds[e] = std::sqrt( ( q[0]-y[p][0] )*( q[0]-y[p][0] )+( q[1]-y[p][1] )*( q[1]-y[p][1] )+( q[2]-y[p][2] )*( q[2]-y[p][2] ) ); mi = std::min( mi, ds[e] ); } double sz = hi[0]-lo[0]; c.require( r[p] < (S_) m.nE, "a point is associated with a duplicate of an element" ); if( r[p] < (S_) m.nE ) c.require( ds[r[p]] <= mi + 1E-6*sz, "point outside: element " + std::to_string( r[p] ) + " is not the closest one" ); } }
  // element vertex coordinates
  int e = s.draw( m.nE ); double cr[3][NV]; edge::mesh::common< T >::getElVeCrds( (S_) e, (S_ (*)[NV]) ev.data(), vc.data(), (double (*)[NV]) cr ); for( int v = 0; v < NV; v++ ) for( int d = 0; d < m.D; d++ ) c.require( cr[d][v] == m.ve[m.elVe[e][v]][d], "vertex coordinates of an element" );
  // sparse types by domains: all vertices inside of the intersection of half spaces
  int nd = s.i( 0, 3 ); typedef edge::linalg::HalfSpace< double, C_ENT[T].N_DIM > H; typedef edge::linalg::Domain< double, C_ENT[T].N_DIM, edge::linalg::HalfSpace > Dm; std::vector< Dm > doms( nd ); std::vector< int_spType > ty( nd ); std::vector< std::vector< std::array< double, 6 > > > hs( nd ); bool amb = false;
  for( int d = 0; d < nd; d++ ) { ty[d] = 1LL << s.i( 0, 40 ); int q = s.i( 1, 3 ); for( int h = 0; h < q; h++ ) { std::array< double, 6 > a; int v = s.draw( m.ve.size() ); for( int i = 0; i < 3; i++ ) { a[i] = i < m.D ? m.ve[v][i] + s.sr( 1 ) : 0; a[3+i] = i < m.D ? s.sr( 1 ) : 0; } a[3] += a[3] >= 0 ? 0.1 : -0.1; hs[d].push_back( a ); double og[3] = { a[0], a[1], a[2] }, no[3] = { a[3], a[4], a[5] }; H hh( og, no ); doms[d].add( hh ); } }
  std::vector< t_elementChars > ec( m.nE ); for( int i = 0; i < m.nE; i++ ) { memset( &ec[i], 0, sizeof( ec[i] ) ); ec[i].spType = s.draw( 4 ); } auto w = ec;
  edge::mesh::SparseTypes< T >::set( (S_) m.nE, (S_ (*)[NV]) ev.data(), ty.data(), doms, vc.data(), ec.data() );
  for( int i = 0; i < m.nE; i++ ) { for( int d = 0; d < nd; d++ ) { bool in = true; for( int v = 0; v < NV; v++ ) for( auto & a : hs[d] ) { double z = 0, zn = 0; for( int j = 0; j < m.D; j++ ) { z += ( m.ve[m.elVe[i][v]][j]-a[j] )*a[3+j]; zn += a[3+j]*a[3+j]; } z /= std::sqrt( zn ); if( std::fabs( z ) < 1E-4 ) amb = true; in = in && z >= 0; } if( in ) w[i].spType |= ty[d]; } if( !amb ) c.require( ec[i].spType == w[i].spType, "sparse type of element " + std::to_string( i ) + " by domains" ); }
  c.nontrivial( m.nE > 1 ); std::ostringstream os; os << "elements " << m.nE << " points " << np << " domains " << nd; c.sample( os.str() );
}
PBT( points, 8000, 200000, "more than one element" ) { switch( s.draw( 4 ) ) { case 0: pts< TET4 >( s, c ); break; case 1: pts< HEX8R >( s, c ); break; case 2: pts< TRIA3 >( s, c ); break; default: pts< QUAD4R >( s, c ); } }
