// Stand-in for njoy/Log: messages are dropped.
#ifndef SHIM_LOG_HPP
#define SHIM_LOG_HPP
namespace njoy {
struct Log {
  template< typename... Args > static void info( Args&&... ){}
  template< typename... Args > static void warning( Args&&... ){}
  template< typename... Args > static void debug( Args&&... ){}
  template< typename... Args > static void error( Args&&... ){}
  template< typename... Args > static void fatal( Args&&... ){}
  template< typename... Args > static void development( Args&&... ){}
};
}
#endif
