// e2e_h5 FILE get < names of data sets: prints the values of each in a line ("none" if it does not exist)
// e2e_h5 FILE (new|add) < description: data sets "NAME (f32|f64|u64) RANK DIMS.. VALUES.."
#include <hdf5.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>

int main( int argc, char ** argv ) {
  if( argc != 3 ) return 2;
  hid_t f = argv[2][0] == 'n' ? H5Fcreate( argv[1], H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT ) : H5Fopen( argv[1], H5F_ACC_RDWR, H5P_DEFAULT );
  if( f < 0 ) return 3;
  std::string n, t; int r;
  if( argv[2][0] == 'g' ) {
    H5Eset_auto( H5E_DEFAULT, nullptr, nullptr );
    while( std::cin >> n ) {
      hid_t z = H5Lexists( f, n.c_str(), H5P_DEFAULT ) > 0 ? H5Dopen( f, n.c_str(), H5P_DEFAULT ) : -1;
      if( z < 0 ) { std::printf( "none\n" ); continue; }
      hid_t sp = H5Dget_space( z );
      std::vector< double > v( H5Sget_simple_extent_npoints( sp ) );
      if( v.size() && H5Dread( z, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data() ) < 0 ) return 6;
      for( double x : v ) std::printf( "%.17g ", x );
      std::printf( "\n" );
      H5Dclose( z ); H5Sclose( sp );
    }
    return 0;
  }
  while( std::cin >> n >> t >> r ) {
    std::vector< hsize_t > d( r );
    hsize_t a = 1;
    for( auto & x : d ) { std::cin >> x; a *= x; }
    std::vector< double > v( a );
    for( auto & x : v ) { std::string w; std::cin >> w; x = std::atof( w.c_str() ); }
    if( !std::cin ) return 4;
    hid_t sp = H5Screate_simple( r, d.data(), nullptr );
    hid_t ty = t == "f32" ? H5T_IEEE_F32LE : t == "f64" ? H5T_IEEE_F64LE : H5T_STD_U64LE;
    hid_t z = H5Dcreate( f, n.c_str(), ty, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT );
    if( z < 0 || ( a && H5Dwrite( z, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data() ) < 0 ) ) return 5;
    H5Dclose( z ); H5Sclose( sp );
  }
  H5Fclose( f );
  return 0;
}
