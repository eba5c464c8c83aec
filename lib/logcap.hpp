// captures what the code under test logs, and tells if a call ends the program
#ifndef PBT_LOGCAP_HPP
#define PBT_LOGCAP_HPP
#include <easylogging++.h>
#include <string>
#include <vector>
#include <functional>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
namespace pbt {
inline std::vector< std::string > & logLines() { static std::vector< std::string > l; return l; }
struct LogCb : el::LogDispatchCallback { void handle( el::LogDispatchData const * d ) override { std::string s; for( char x : d->logMessage()->message() ) { if( x == ' ' && ( s.empty() || s.back() == ' ' ) ) continue; s += x; } logLines().push_back( s ); } };
struct LogCap {
  static void info( bool on ) { el::Configurations f; f.setToDefault(); f.setGlobally( el::ConfigurationType::ToFile, "false" ); f.setGlobally( el::ConfigurationType::ToStandardOutput, on ? "false" : "true" ); for( auto l : { el::Level::Info, el::Level::Verbose, el::Level::Warning } ) f.set( l, el::ConfigurationType::Enabled, on ? "true" : "false" ); el::Loggers::reconfigureAllLoggers( f ); }
  LogCap() { logLines().clear(); info( true ); el::Helpers::installLogDispatchCallback< LogCb >( "pbt" ); }
  ~LogCap() { el::Helpers::uninstallLogDispatchCallback< LogCb >( "pbt" ); info( false ); }
};
// numbers of the captured line which starts with the given text (spaces collapsed); empty if there is no such line
inline std::vector< double > logNums( std::string const & key ) { std::vector< double > r; for( auto & l : logLines() ) if( l.compare( 0, key.size(), key ) == 0 ) { char const * p = l.c_str()+key.size(); while( *p ) { char * e; double v = std::strtod( p, &e ); if( e != p ) { r.push_back( v ); p = e; } else p++; } break; } return r; }
// the call ends the process abnormally; single-threaded code only
inline bool dies( std::function< void() > f ) { pid_t p = fork(); if( p == 0 ) { alarm( 20 ); int z = open( "/dev/null", 1 ); dup2( z, 1 ); dup2( z, 2 ); f(); _exit( 0 ); } int st = 0; waitpid( p, &st, 0 ); return !( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) && !( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM ); }
}
#endif
