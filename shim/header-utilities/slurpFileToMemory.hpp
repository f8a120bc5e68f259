#ifndef SHIM_SLURP_HPP
#define SHIM_SLURP_HPP
#include <fstream>
#include <sstream>
#include <string>
#include <stdexcept>
namespace njoy { namespace utility {
inline std::string slurpFileToMemory( const std::string& name ){
  std::ifstream in( name );
  if ( not in ) { throw std::runtime_error( "cannot open " + name ); }
  std::ostringstream out; out << in.rdbuf(); return out.str();
}
} }
#endif
