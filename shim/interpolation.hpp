// Minimal stand-in for njoy/interpolation: one- and multi-region tables with
// the five ENDF laws.  Evaluation outside the tabulated range throws
// std::out_of_range.  At a discontinuity (repeated x) the left value is taken.
#ifndef SHIM_INTERPOLATION_HPP
#define SHIM_INTERPOLATION_HPP
#include "Log.hpp"
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <utility>
#include <variant>
#include <vector>
#include "range/v3/all.hpp"

namespace njoy {
namespace interpolation {

struct Histogram {
  template< typename X, typename Y >
  static Y apply( const X&, const X&, const X&, const Y& y0, const Y& ){ return y0; }
};
struct LinearLinear {
  template< typename X, typename Y >
  static Y apply( const X& x, const X& x0, const X& x1, const Y& y0, const Y& y1 ){
    const double f = ( x - x0 ) / ( x1 - x0 );
    return y0 + f * ( y1 - y0 );
  }
};
struct LinearLogarithmic {   // y linear in ln(x)
  template< typename X, typename Y >
  static Y apply( const X& x, const X& x0, const X& x1, const Y& y0, const Y& y1 ){
    const double a = x / x0, b = x1 / x0;
    return y0 + std::log( a ) / std::log( b ) * ( y1 - y0 );
  }
};
struct LogarithmicLinear {   // ln(y) linear in x
  template< typename X, typename Y >
  static Y apply( const X& x, const X& x0, const X& x1, const Y& y0, const Y& y1 ){
    const double f = ( x - x0 ) / ( x1 - x0 );
    const double r = y1 / y0;
    return y0 * std::exp( std::log( r ) * f );
  }
};
struct LogarithmicLogarithmic {
  template< typename X, typename Y >
  static Y apply( const X& x, const X& x0, const X& x1, const Y& y0, const Y& y1 ){
    const double a = x / x0, b = x1 / x0, r = y1 / y0;
    return y0 * std::exp( std::log( r ) * std::log( a ) / std::log( b ) );
  }
};

namespace table {
  namespace search { struct Binary {}; }
  namespace discontinuity { struct TakeLeft {}; struct TakeRight {}; }
  namespace left { namespace interval { struct Throws {}; } }
  namespace right { namespace interval { struct Throws {}; } }

  template< typename Interp, typename Search, typename Disc, typename XV, typename YV >
  class Type {
    XV x_; YV y_;
  public:
    using XType = typename XV::value_type;
    using YType = typename YV::value_type;
    Type( XV x, YV y ) : x_( std::move( x ) ), y_( std::move( y ) ) { this->verify(); }
    template< typename XR, typename YR,
              typename = std::enable_if_t< not std::is_convertible_v< XR, XV > or
                                           not std::is_convertible_v< YR, YV > > >
    Type( XR&& x, YR&& y ) {
      for ( auto&& v : x ) { x_.push_back( v ); }
      for ( auto&& v : y ) { y_.push_back( v ); }
      this->verify();
    }
    void verify() const {
      if ( x_.empty() or x_.size() != y_.size() ) {
        throw std::invalid_argument( "interpolation table: inconsistent sizes" );
      }
      if ( not std::is_sorted( x_.begin(), x_.end() ) ) {
        throw std::invalid_argument( "interpolation table: x values are not sorted" );
      }
    }
    const XV& x() const { return x_; }
    const YV& y() const { return y_; }
    XType tableMin() const { return x_.front(); }
    XType tableMax() const { return x_.back(); }
    YType operator()( const XType& x ) const {
      if ( not ( x >= x_.front() and x <= x_.back() ) ) {
        throw std::out_of_range( "interpolation table: x is outside the table" );
      }
      const auto i = std::lower_bound( x_.begin(), x_.end(), x ) - x_.begin();
      if ( *( x_.begin() + i ) == x ) { return y_[i]; }
      return Interp::apply( x, x_[i-1], x_[i], y_[i-1], y_[i] );
    }
  };

  template< typename... Ts > class Variant {
    std::variant< Ts... > v_;
  public:
    using XType = typename std::variant_alternative_t< 0, std::variant< Ts... > >::XType;
    using YType = typename std::variant_alternative_t< 0, std::variant< Ts... > >::YType;
    template< typename T,
              typename = std::enable_if_t< ( std::is_same_v< std::decay_t< T >, Ts > or ... ) > >
    Variant( T&& t ) : v_( std::forward< T >( t ) ) {}
    XType tableMin() const { return std::visit( []( const auto& t ){ return t.tableMin(); }, v_ ); }
    XType tableMax() const { return std::visit( []( const auto& t ){ return t.tableMax(); }, v_ ); }
    YType operator()( const XType& x ) const {
      return std::visit( [&]( const auto& t ) -> YType { return t( x ); }, v_ );
    }
  };

  template< typename T > class Vector {
    std::vector< T > v_;
  public:
    using XType = typename T::XType;
    using YType = typename T::YType;
    Vector( std::vector< T > v ) : v_( std::move( v ) ) {
      if ( v_.empty() ) { throw std::invalid_argument( "interpolation table: no regions" ); }
    }
    XType tableMin() const { return v_.front().tableMin(); }
    XType tableMax() const { return v_.back().tableMax(); }
    YType operator()( const XType& x ) const {
      for ( const auto& t : v_ ) {
        if ( x <= t.tableMax() ) { return t( x ); }
      }
      throw std::out_of_range( "interpolation table: x is outside the table" );
    }
  };
}

template< typename Inner, typename... Policies >
class Table : public Inner {
public:
  using Inner::Inner;
  using Inner::operator();
};

namespace table {
  template< typename Interp, typename... Policies, typename XR, typename YR >
  auto make( XR&& x, YR&& y ){
    using X = std::decay_t< decltype( *ranges::begin( x ) ) >;
    using Y = std::decay_t< decltype( *ranges::begin( y ) ) >;
    return Table< Type< Interp, search::Binary, discontinuity::TakeLeft,
                        std::vector< X >, std::vector< Y > >, Policies... >
           ( std::forward< XR >( x ), std::forward< YR >( y ) );
  }
}
}
}
#endif
