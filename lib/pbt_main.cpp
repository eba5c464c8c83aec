#include "pbt.hpp"
#include <easylogging++.h>
INITIALIZE_EASYLOGGINGPP
int main( int argc, char ** argv ) {
  // only fatal messages of the code under test
  el::Configurations conf;
  conf.setToDefault();
  conf.setGlobally( el::ConfigurationType::ToFile, "false" );
  conf.set( el::Level::Info, el::ConfigurationType::Enabled, "false" );
  conf.set( el::Level::Verbose, el::ConfigurationType::Enabled, "false" );
  conf.set( el::Level::Warning, el::ConfigurationType::Enabled, "false" );
  el::Loggers::reconfigureAllLoggers( conf );
  return pbt::main( argc, argv );
}
