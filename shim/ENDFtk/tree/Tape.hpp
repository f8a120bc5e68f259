#ifndef SHIM_ENDFTK_TAPE_HPP
#define SHIM_ENDFTK_TAPE_HPP
#include "../section/2/151.hpp"
namespace njoy { namespace ENDFtk { namespace tree {
template< typename Buffer > class Tape {
  struct Section {
    std::string text;
    template< int MF, int MT > section::Type< MF, MT > parse() const {
      auto copy = text;
      auto it = copy.begin(); auto end = copy.end(); long n = 1;
      HeadRecord head( it, end, n );
      return section::Type< MF, MT >( head, it, end, n, 0 );
    }
  };
  struct File { std::string text;
    Section sectionNumber( int mt ) const {
      Section s;
      auto it = text.begin();
      while ( it != text.end() ) {
        auto l = detail::line( it, text.end() );
        if ( l.size() >= 75 and std::atoi( l.substr( 72, 3 ).c_str() ) == mt ) { s.text += l + "\n"; }
      }
      return s;
    }
  };
  struct Material { std::string text; int mat;
    int MAT() const { return mat; }
    File fileNumber( int mf ) const {
      File f;
      auto it = text.begin();
      while ( it != text.end() ) {
        auto l = detail::line( it, text.end() );
        if ( l.size() >= 75 and std::atoi( l.substr( 70, 2 ).c_str() ) == mf ) { f.text += l + "\n"; }
      }
      return f;
    }
  };
  std::vector< Material > materials_;
public:
  Tape( Buffer b ) { materials_.push_back( Material{ std::move( b ), 0 } ); }
  auto begin() { return materials_.begin(); }
  auto end() { return materials_.end(); }
};
} } }
#endif
