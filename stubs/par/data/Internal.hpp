// Stand-in for the internal data structures: the kernels are replaced by recorders, see harness/par.cpp.
#ifndef VERIF_INTERNAL_HPP
#define VERIF_INTERNAL_HPP
#include <limits>
#include <string>
#include "io/logging.h"
#include "constants.hpp"
namespace edge { namespace io { class Receivers; } }
struct GhostBase {
  virtual ~GhostBase() {}
  virtual void local( std::size_t first, std::size_t size, bool ts, double const * time, double dt, std::size_t const * sp, unsigned char * const * se ) = 0;
  virtual void neigh( std::size_t first, std::size_t size, bool ts, double const * dt, unsigned char * const * re ) = 0;
  virtual void src( std::size_t first, std::size_t size, double t0, double t1 ) = 0;
};
struct GhostSrc { GhostBase * g; template< typename X > void apply( std::size_t first, std::size_t size, double t0, double t1, X ) { g->src( first, size, t0, t1 ); } };
struct GhostSolver {
  GhostBase * g;
#if defined PP_T_EQUATIONS_SEISMIC
  template< typename A, typename B, typename C, typename D, typename E, typename F, typename G > void local( std::size_t first, std::size_t size, bool ts, double time, double dt, std::size_t sp, A, B, C, D, E, F se, G & ) { g->local( first, size, ts, &time, dt, &sp, (unsigned char * const *) se ); }
  template< typename A, typename B, typename C, typename D, typename E, typename F, typename G, typename H, typename I, typename J > void neigh( std::size_t first, std::size_t size, bool ts, A, B, C, D, E, F, G, H, I, J re ) { g->neigh( first, size, ts, nullptr, (unsigned char * const *) re ); }
#else
  template< typename A, typename B, typename C, typename D, typename E, typename F > void local( std::size_t first, std::size_t size, bool ts, double dt, A, B, C, D, E, F se ) { g->local( first, size, ts, nullptr, dt, nullptr, (unsigned char * const *) se ); }
  template< typename A, typename B, typename C, typename D, typename E, typename F, typename G, typename H, typename I, typename J > void neigh( std::size_t first, std::size_t size, bool ts, A, B, C, D, E, F, G, H, I, J re ) { g->neigh( first, size, ts, nullptr, (unsigned char * const *) re ); }
#endif
};
namespace edge { namespace data { class Internal { public:
  struct { void * faEl = nullptr, * elFa = nullptr, * elFaEl = nullptr, * vIdElFaEl = nullptr, * fIdElFaEl = nullptr; } m_connect;
  void * m_elementChars = nullptr, * m_faceChars = nullptr; GhostBase * m_elementModePrivate1 = nullptr; void * m_elementModePrivate2[1] = { nullptr };
  void * m_elementModeShared1 = nullptr, * m_faceModePrivate1 = nullptr, * m_elementShared2 = nullptr, * m_elementShared3 = nullptr, * m_globalShared6 = nullptr;
  GhostSrc m_globalShared3[1]; GhostSolver * m_globalShared4[1];
}; } }
#endif
