// stand-in for ExprTk (not available here): assignments of arithmetic expressions to elements of vectors or to
// scalars, separated by semicolons, e.g. "q[0] := 2*x^2 - y*(1+z); q[1] := 0;". Conditions "a==b" are accepted.
#ifndef VERIF_EXPRTK_HPP
#define VERIF_EXPRTK_HPP
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace exprtk {
template< typename T > struct symbol_table {
  std::map< std::string, std::pair< T *, std::size_t > > v;
  bool add_variable( std::string const & n, T & x ) { return v.emplace( n, std::make_pair( &x, std::size_t( 0 ) ) ).second; }
  bool add_vector( std::string const & n, T * x, std::size_t k ) { return v.emplace( n, std::make_pair( x, k ) ).second; }
  bool add_constants() { return true; }
};
template< typename T > struct node {
  char op = 0; T c = 0; T * p = nullptr; std::vector< std::shared_ptr< node > > k;
  T eval() const {
    switch( op ) {
      case 'c': return c;
      case 'v': return *p;
      case '+': return k[0]->eval() + k[1]->eval();
      case '-': return k[0]->eval() - k[1]->eval();
      case '*': return k[0]->eval() * k[1]->eval();
      case '/': return k[0]->eval() / k[1]->eval();
      case '^': return std::pow( k[0]->eval(), k[1]->eval() );
      case 'n': return -k[0]->eval();
      case '=': return k[0]->eval() == k[1]->eval();
      case '<': return k[0]->eval() < k[1]->eval();
      case 's': return std::sin( k[0]->eval() );
      case ':': return *p = k[0]->eval();
      case ';': { T r = 0; for( auto & x : k ) r = x->eval(); return r; }
    }
    return 0;
  }
};
template< typename T > struct expression {
  symbol_table< T > * s = nullptr; std::shared_ptr< node< T > > n;
  void register_symbol_table( symbol_table< T > & t ) { s = &t; }
  T value() const { return n ? n->eval() : T( 0 ); }
};
namespace parser_error {
  struct token_t { std::size_t position = 0; };
  struct type { token_t token; int mode = 0; std::string diagnostic; };
  inline std::string to_str( int ) { return "syntax"; }
}
template< typename T > struct parser {
  typedef std::shared_ptr< node< T > > N;
  char const * p = nullptr, * b = nullptr; symbol_table< T > * s = nullptr; bool bad = false; parser_error::type e;
  static N mk( char op, N x = N(), N y = N() ) { N r( new node< T >() ); r->op = op; if( x ) r->k.push_back( x ); if( y ) r->k.push_back( y ); return r; }
  void ws() { while( std::isspace( (unsigned char) *p ) ) p++; }
  bool eat( char const * t ) { ws(); std::size_t n = std::strlen( t ); if( std::strncmp( p, t, n ) == 0 ) { p += n; return true; } return false; }
  void err( char const * m ) { if( !bad ) { e.token.position = p - b; e.diagnostic = m; } bad = true; }
  T * ref() { ws(); std::string n; while( std::isalnum( (unsigned char) *p ) || *p == '_' ) n += *p++; auto i = s->v.find( n ); if( i == s->v.end() ) { err( "unknown symbol" ); return nullptr; } if( !i->second.second ) return i->second.first; if( !eat( "[" ) ) { err( "index expected" ); return nullptr; } ws(); char * q; unsigned long k = std::strtoul( p, &q, 10 ); if( q == p || k >= i->second.second ) { err( "invalid index" ); return nullptr; } p = q; if( !eat( "]" ) ) err( "] expected" ); return i->second.first + k; }
  N prim() { ws(); if( eat( "(" ) ) { N r = sum(); if( eat( "<" ) ) r = mk( '<', r, sum() ); if( !eat( ")" ) ) err( ") expected" ); return r; } if( std::isdigit( (unsigned char) *p ) || *p == '.' ) { char * q; N r = mk( 'c' ); r->c = (T) std::strtod( p, &q ); p = q; return r; } if( std::strncmp( p, "sin(", 4 ) == 0 ) { p += 4; N r = mk( 's', sum() ); if( !eat( ")" ) ) err( ") expected" ); return r; } N r = mk( 'v' ); r->p = ref(); if( !r->p ) { r->op = 'c'; } return r; }
  N pow_() { N r = prim(); if( eat( "^" ) ) return mk( '^', r, una() ); return r; }
  N una() { if( eat( "-" ) ) return mk( 'n', una() ); if( eat( "+" ) ) return una(); return pow_(); }
  N pro() { N r = una(); while( !bad ) { if( eat( "*" ) ) r = mk( '*', r, una() ); else if( eat( "/" ) ) r = mk( '/', r, una() ); else break; } return r; }
  N sum() { N r = pro(); while( !bad ) { if( eat( "+" ) ) r = mk( '+', r, pro() ); else if( eat( "-" ) ) r = mk( '-', r, pro() ); else break; } return r; }
  N stmt() { char const * q = p; ws(); if( std::isalpha( (unsigned char) *p ) ) { T * x = ref(); if( !bad && x && eat( ":=" ) ) { N r = mk( ':', sum() ); r->p = x; return r; } bad = false; p = q; } N r = sum(); if( eat( "==" ) ) r = mk( '=', r, sum() ); return r; }
  bool compile( std::string const & t, expression< T > & x ) { b = p = t.c_str(); s = x.s; bad = false; N r = mk( ';' ); ws(); while( *p && !bad ) { r->k.push_back( stmt() ); ws(); if( *p && !eat( ";" ) ) err( "; expected" ); ws(); } if( bad || !s ) return false; x.n = r; return true; }
  std::size_t error_count() const { return bad; }
  parser_error::type get_error( std::size_t ) const { return e; }
};
}
#endif
