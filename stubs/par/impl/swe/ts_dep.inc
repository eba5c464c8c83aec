namespace edge { namespace swe { namespace solvers { template< t_entityType T, unsigned short C > struct FiniteVolume {
  template< typename A, typename B, typename D, typename N > static void nusN( std::size_t first, std::size_t size, A, B, GhostBase * g, D, N ) { g->local( first, size, false, nullptr, 0, nullptr, nullptr ); }
  template< typename A, typename B, typename D, typename E, typename N > static void update( std::size_t first, std::size_t size, double dt, A, B, D, E, N, GhostBase * g ) { g->neigh( first, size, false, &dt, nullptr ); }
}; } } }
