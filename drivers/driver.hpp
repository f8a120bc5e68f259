// Line protocol between the replay harness and the code under test.
#ifndef VERIF_DRIVER_HPP
#define VERIF_DRIVER_HPP
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct In {
  std::vector< long > i; std::vector< double > r; std::vector< std::string > s;
};
struct Out {
  std::vector< long > i; std::vector< double > r; std::vector< std::string > s;
  Out& I( long v ){ i.push_back( v ); return *this; }
  Out& R( double v ){ r.push_back( v ); return *this; }
  Out& S( std::string v ){
    if ( v.empty() ) { v = "-"; }
    for ( char& c : v ) { if ( c == ' ' ) { c = '~'; } }
    s.push_back( v ); return *this;
  }
};
// the items of a call, one after the other
struct Items {
  const In& in; std::size_t i = 0, r = 0, s = 0;
  Items( const In& in ) : in( in ) {}
  long I(){ return in.i.at( i++ ); }
  double R(){ return in.r.at( r++ ); }
  std::string S(){ return in.s.at( s++ ); }
};
using Op = std::function< Out( const In& ) >;
inline std::map< std::string, Op >& ops(){ static std::map< std::string, Op > m; return m; }
inline std::function< void() >& onReset(){ static std::function< void() > f = []{}; return f; }

inline int runDriver(){
  std::string line;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line );
    std::string op, t; std::size_t n;
    In in;
    is >> op;
    is >> n; while ( n-- ) { is >> t; in.i.push_back( std::stol( t ) ); }
    is >> n; while ( n-- ) { is >> t; in.r.push_back( std::strtod( t.c_str(), nullptr ) ); }
    is >> n; while ( n-- ) {
      is >> t;
      for ( char& c : t ) { if ( c == '~' ) { c = ' '; } }
      in.s.push_back( t == "-" ? "" : t );
    }
    if ( op == "reset" ) { onReset()(); std::printf( "ok 0 0 0\n" ); std::fflush( stdout ); continue; }
    auto it = ops().find( op );
    if ( it == ops().end() ) { std::fprintf( stderr, "unknown operation %s\n", op.c_str() ); return 3; }
    try {
      const Out out = it->second( in );
      std::printf( "ok %zu", out.i.size() );
      for ( auto v : out.i ) { std::printf( " %ld", v ); }
      std::printf( " %zu", out.r.size() );
      for ( auto v : out.r ) { std::printf( " %.17g", v ); }
      std::printf( " %zu", out.s.size() );
      for ( const auto& v : out.s ) { std::printf( " %s", v.c_str() ); }
      std::printf( "\n" );
    }
    catch ( const std::exception& e ) {
      std::string w = e.what();
      for ( char& c : w ) { if ( c == '\n' ) { c = ' '; } }
      std::printf( "throw %s\n", w.c_str() );
    }
    catch ( ... ) { std::printf( "throw unknown\n" ); }
    std::fflush( stdout );
  }
  return 0;
}
#endif
