// Minimal stand-in for njoy/DimwitS (not available offline): quantities with
// compile-time units.  A unit is a product of base units, each raised to a
// rational power, stored as powers times 12 (so halves, thirds and quarters
// are exact).  Only what the sources and tests of resonanceReconstruction use,
// plus the ordinary arithmetic a refactoring of them could reach for.
#ifndef SHIM_DIMWITS_HPP
#define SHIM_DIMWITS_HPP

#include <cmath>
#include <complex>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <variant>
#include <map>
#include <vector>
#include <array>
#include <functional>
#include <limits>
#include <numeric>
#include <iostream>
#include <algorithm>
#include <ostream>

namespace njoy {
namespace dimwits {

template< int N, int D = 1 > struct RatioType {
  static constexpr int num = N; static constexpr int den = D;
};
template< int N, int D = 1 > inline constexpr RatioType< N, D > Ratio{};

// base units:           10  m  s  g  C  F  Da eV b  J  K  mol
template< int... Es > struct Unit {};
namespace detail {
  constexpr int NB = 12;
  // dimension in (m, s, kg, C, K, mol) and coherent SI factor mantissa * 10^e
  struct B { double mantissa; int ten; int dim[6]; };
  constexpr B base[NB] = {
    { 1., 1, {0,0,0,0,0,0} },                    // ten
    { 1., 0, {1,0,0,0,0,0} },                    // meter
    { 1., 0, {0,1,0,0,0,0} },                    // second
    { 1., -3, {0,0,1,0,0,0} },                   // gram
    { 1., 0, {0,0,0,1,0,0} },                    // coulomb
    { 1., 0, {-2,2,-1,2,0,0} },                  // farad = C^2/J
    { 1.660539040, -27, {0,0,1,0,0,0} },         // dalton (2014 CODATA)
    { 1.6021766208, -19, {2,-2,1,0,0,0} },       // electron volt (2014 CODATA)
    { 1., -28, {2,0,0,0,0,0} },                  // barn
    { 1., 0, {2,-2,1,0,0,0} },                   // joule
    { 1., 0, {0,0,0,0,1,0} },                    // kelvin
    { 1., 0, {0,0,0,0,0,1} } };                  // mole

  template< int... Es >
  constexpr int dimension( Unit< Es... >, int k ){
    const int e[] = { Es... };
    int d = 0;
    for ( int i = 0; i < NB; ++i ) { d += e[i] * base[i].dim[k]; }
    return d;
  }
  template< typename U, typename V >
  constexpr bool sameDimension(){
    for ( int k = 0; k < 6; ++k ) {
      if ( dimension( U{}, k ) != dimension( V{}, k ) ) { return false; }
    }
    return true;
  }
  constexpr double ipow( double x, int n ){
    double r = 1.;
    for ( int i = 0; i < ( n < 0 ? -n : n ); ++i ) { r *= x; }
    return n < 0 ? 1. / r : r;
  }
  // x^(e/12)
  constexpr double rpow( double x, int e ){
    return e == 0 ? 1. : ( e % 12 == 0 ? ipow( x, e / 12 )
                                       : __builtin_pow( x, e / 12. ) );
  }
  constexpr double ten( int e ){   // 10^(e/12)
    if ( e % 12 == 0 ) {
      double r = 1.;
      int n = e < 0 ? -e / 12 : e / 12;
      // powers up to 22 are exact in double precision
      while ( n > 22 ) { r *= 1e22; n -= 22; }
      double p = 1.;
      for ( int i = 0; i < n; ++i ) { p *= 10.; }
      r *= p;
      return e < 0 ? 1. / r : r;
    }
    return __builtin_pow( 10., e / 12. );
  }
  // factor that takes a value in U to a value in V
  template< int... Es, int... Fs >
  constexpr double factor( Unit< Es... >, Unit< Fs... > ){
    const int e[] = { Es... };
    const int f[] = { Fs... };
    double m = 1.;
    int t = 0;
    for ( int i = 0; i < NB; ++i ) {
      m *= rpow( base[i].mantissa, e[i] - f[i] );
      t += base[i].ten * ( e[i] - f[i] );
    }
    return m * ten( t );
  }
  template< typename U > struct IsUnit : std::false_type {};
  template< int... Es > struct IsUnit< Unit< Es... > > : std::true_type {};

  template< int... Es, int... Fs >
  constexpr auto times( Unit< Es... >, Unit< Fs... > ){ return Unit< Es + Fs... >{}; }
  template< int... Es, int... Fs >
  constexpr auto over( Unit< Es... >, Unit< Fs... > ){ return Unit< Es - Fs... >{}; }
  template< int N, int D, int... Es >
  constexpr auto power( Unit< Es... > ){
    static_assert( ( ( Es * N % D == 0 ) && ... ), "unsupported unit power" );
    return Unit< ( Es * N / D )... >{};
  }
  template< typename U > struct IsNone : std::false_type {};
  template< int... Es >
  struct IsNone< Unit< Es... > > : std::bool_constant< ( ( Es == 0 ) && ... ) > {};
}

template< typename U, typename M = double > class Quantity;
template< typename T > struct IsQuantity : std::false_type {};
template< typename U, typename M >
struct IsQuantity< Quantity< U, M > > : std::true_type {};

using Dimensionless = Unit<0,0,0,0,0,0,0,0,0,0,0,0>;

template< typename U, typename M >
class Quantity {
public:
  using Units = U;
  using Magnitude = M;
  M value;

  constexpr Quantity() : value{} {}
  constexpr explicit Quantity( M v ) : value( v ) {}
  constexpr Quantity( const Quantity& ) = default;
  constexpr Quantity( Quantity&& ) = default;
  constexpr Quantity& operator=( const Quantity& ) = default;
  constexpr Quantity& operator=( Quantity&& ) = default;

  template< typename V, typename N,
            typename = std::enable_if_t< not std::is_same_v< U, V >
                                         and detail::sameDimension< U, V >() > >
  constexpr Quantity( const Quantity< V, N >& q ) :
    value( q.value * detail::factor( V{}, U{} ) ) {}
  // one of a unit
  template< int... Es,
            typename = std::enable_if_t< detail::sameDimension< U, Unit< Es... > >() > >
  constexpr Quantity( Unit< Es... > u ) : value( M( 1. ) * detail::factor( u, U{} ) ) {}

  template< typename T,
            typename = std::enable_if_t< std::is_convertible_v< M, T >
                         and not IsQuantity< T >::value
                         and not detail::IsUnit< T >::value
                         and detail::sameDimension< U, Dimensionless >() > >
  constexpr operator T() const {
    return T( this->value * detail::factor( U{}, Dimensionless{} ) );
  }

  constexpr Quantity operator-() const { return Quantity( -this->value ); }
  constexpr Quantity operator+() const { return *this; }
  constexpr Quantity& operator+=( const Quantity& q ) { value += q.value; return *this; }
  constexpr Quantity& operator-=( const Quantity& q ) { value -= q.value; return *this; }
  template< typename T, typename = std::enable_if_t< std::is_arithmetic_v< T > > >
  constexpr Quantity& operator*=( T t ) { value *= t; return *this; }
  template< typename T, typename = std::enable_if_t< std::is_arithmetic_v< T > > >
  constexpr Quantity& operator/=( T t ) { value /= t; return *this; }
};

namespace detail {
  template< typename U, typename M >
  constexpr auto make( M m ){
    if constexpr ( IsNone< U >::value ) { return m; }
    else { return Quantity< U, M >( m ); }
  }
  template< typename T > struct IsScalar : std::is_arithmetic< T > {};
  template< typename T > struct IsScalar< std::complex< T > > : std::true_type {};
}

// unit algebra
template< int... Es, int... Fs >
constexpr auto operator*( Unit< Es... > a, Unit< Fs... > b ){ return detail::times( a, b ); }
template< int... Es, int... Fs >
constexpr auto operator/( Unit< Es... > a, Unit< Fs... > b ){ return detail::over( a, b ); }
template< int... Es, int N, int D >
constexpr auto pow( Unit< Es... > u, RatioType< N, D > ){ return detail::power< N, D >( u ); }
namespace unit {
  template< int... Es >
  constexpr auto sqrt( Unit< Es... > u ){ return detail::power< 1, 2 >( u ); }
}
constexpr auto perOne( Dimensionless u ){ return u; }

// scalar and unit
template< typename T, int... Es, typename = std::enable_if_t< detail::IsScalar< T >::value > >
constexpr auto operator*( T t, Unit< Es... > ){
  using M = decltype( t * 1. );
  return detail::make< Unit< Es... >, M >( t * 1. );
}
template< typename T, int... Es, typename = std::enable_if_t< detail::IsScalar< T >::value > >
constexpr auto operator*( Unit< Es... > u, T t ){ return t * u; }
template< typename T, int... Es, typename = std::enable_if_t< detail::IsScalar< T >::value > >
constexpr auto operator/( T t, Unit< Es... > ){
  using M = decltype( t * 1. );
  return detail::make< Unit< -Es... >, M >( t * 1. );
}
template< typename U, typename M, int... Es >
constexpr auto operator*( const Quantity< U, M >& q, Unit< Es... > u ){
  return detail::make< decltype( detail::times( U{}, u ) ), M >( q.value );
}
template< typename U, typename M, int... Es >
constexpr auto operator*( Unit< Es... > u, const Quantity< U, M >& q ){ return q * u; }
template< typename U, typename M, int... Es >
constexpr auto operator/( const Quantity< U, M >& q, Unit< Es... > u ){
  return detail::make< decltype( detail::over( U{}, u ) ), M >( q.value );
}
template< typename U, typename M, int... Es >
constexpr auto operator/( Unit< Es... > u, const Quantity< U, M >& q ){
  return detail::make< decltype( detail::over( u, U{} ) ), M >( M( 1. ) / q.value );
}

// scalar and quantity
template< typename T, typename U, typename M, typename = std::enable_if_t< detail::IsScalar< T >::value > >
constexpr auto operator*( T t, const Quantity< U, M >& q ){
  auto v = t * q.value; return Quantity< U, decltype( v ) >( v );
}
template< typename T, typename U, typename M, typename = std::enable_if_t< detail::IsScalar< T >::value > >
constexpr auto operator*( const Quantity< U, M >& q, T t ){
  auto v = q.value * t; return Quantity< U, decltype( v ) >( v );
}
template< typename T, typename U, typename M, typename = std::enable_if_t< detail::IsScalar< T >::value > >
constexpr auto operator/( const Quantity< U, M >& q, T t ){
  auto v = q.value / t; return Quantity< U, decltype( v ) >( v );
}
template< typename T, typename U, typename M, typename = std::enable_if_t< detail::IsScalar< T >::value > >
constexpr auto operator/( T t, const Quantity< U, M >& q ){
  auto v = t / q.value;
  return detail::make< decltype( detail::over( Dimensionless{}, U{} ) ), decltype( v ) >( v );
}

// quantity and quantity
template< typename U, typename M, typename V, typename N >
constexpr auto operator*( const Quantity< U, M >& a, const Quantity< V, N >& b ){
  auto v = a.value * b.value;
  return detail::make< decltype( detail::times( U{}, V{} ) ), decltype( v ) >( v );
}
template< typename U, typename M, typename V, typename N >
constexpr auto operator/( const Quantity< U, M >& a, const Quantity< V, N >& b ){
  auto v = a.value / b.value;
  return detail::make< decltype( detail::over( U{}, V{} ) ), decltype( v ) >( v );
}

#define SHIM_SAME \
  template< typename U, typename M, typename V, typename N, \
            typename = std::enable_if_t< detail::sameDimension< U, V >() > >
SHIM_SAME constexpr auto operator+( const Quantity< U, M >& a, const Quantity< V, N >& b ){
  auto v = a.value + Quantity< U, N >( b ).value; return Quantity< U, decltype( v ) >( v );
}
SHIM_SAME constexpr auto operator-( const Quantity< U, M >& a, const Quantity< V, N >& b ){
  auto v = a.value - Quantity< U, N >( b ).value; return Quantity< U, decltype( v ) >( v );
}
#define SHIM_CMP( op ) \
  SHIM_SAME constexpr bool operator op( const Quantity< U, M >& a, const Quantity< V, N >& b ){ \
    return a.value op Quantity< U, N >( b ).value; }
SHIM_CMP( == ) SHIM_CMP( != ) SHIM_CMP( < ) SHIM_CMP( > ) SHIM_CMP( <= ) SHIM_CMP( >= )
#undef SHIM_CMP
#undef SHIM_SAME

// functions
template< typename U, typename M, int N, int D >
constexpr auto pow( const Quantity< U, M >& q, RatioType< N, D > ){
  auto v = ( D == 1 ) ? M( detail::ipow( q.value, N ) ) : M( std::pow( q.value, double( N ) / D ) );
  return detail::make< decltype( detail::power< N, D >( U{} ) ), M >( v );
}
template< typename U, typename M >
constexpr auto sqrt( const Quantity< U, M >& q ){
  return detail::make< decltype( detail::power< 1, 2 >( U{} ) ), M >( std::sqrt( q.value ) );
}
template< typename U, typename M >
constexpr auto abs( const Quantity< U, M >& q ){
  auto v = std::abs( q.value );
  return Quantity< U, decltype( v ) >( v );
}
using std::sqrt; using std::abs; using std::pow;

template< typename U, typename M >
std::ostream& operator<<( std::ostream& o, const Quantity< U, M >& q ){ return o << q.value; }

// units
#define SHIM_UNIT( Name, Names, name, names, ... ) \
  using Name = Unit< __VA_ARGS__ >; using Names = Name; \
  constexpr Name name{}; constexpr Name names{};
SHIM_UNIT( Meter, Meters, meter, meters,                         0,12,0,0,0,0,0,0,0,0,0,0 )
SHIM_UNIT( Second, Seconds, second, seconds,                     0,0,12,0,0,0,0,0,0,0,0,0 )
SHIM_UNIT( Gram, Grams, gram, grams,                             0,0,0,12,0,0,0,0,0,0,0,0 )
SHIM_UNIT( Coulomb, Coulombs, coulomb, coulombs,                 0,0,0,0,12,0,0,0,0,0,0,0 )
SHIM_UNIT( Farad, Farads, farad, farads,                         0,0,0,0,0,12,0,0,0,0,0,0 )
SHIM_UNIT( Dalton, Daltons, dalton, daltons,                     0,0,0,0,0,0,12,0,0,0,0,0 )
SHIM_UNIT( ElectronVolt, ElectronVolts, electronVolt, electronVolts, 0,0,0,0,0,0,0,12,0,0,0,0 )
SHIM_UNIT( Barn, Barns, barn, barns,                             0,0,0,0,0,0,0,0,12,0,0,0 )
SHIM_UNIT( Joule, Joules, joule, joules,                         0,0,0,0,0,0,0,0,0,12,0,0 )
SHIM_UNIT( Kelvin, Kelvins, kelvin, kelvins,                     0,0,0,0,0,0,0,0,0,0,12,0 )
SHIM_UNIT( Mole, Moles, mole, moles,                             0,0,0,0,0,0,0,0,0,0,0,12 )
#undef SHIM_UNIT

#define SHIM_PREFIX( name, e ) \
  template< int T, int... Es > \
  constexpr auto name( Unit< T, Es... > ){ return Unit< T + 12 * ( e ), Es... >{}; }
SHIM_PREFIX( exa, 18 ) SHIM_PREFIX( peta, 15 ) SHIM_PREFIX( tera, 12 ) SHIM_PREFIX( giga, 9 )
SHIM_PREFIX( mega, 6 ) SHIM_PREFIX( kilo, 3 ) SHIM_PREFIX( hecto, 2 ) SHIM_PREFIX( deca, 1 )
SHIM_PREFIX( deci, -1 ) SHIM_PREFIX( centi, -2 ) SHIM_PREFIX( milli, -3 ) SHIM_PREFIX( micro, -6 )
SHIM_PREFIX( nano, -9 ) SHIM_PREFIX( pico, -12 ) SHIM_PREFIX( femto, -15 ) SHIM_PREFIX( atto, -18 )
#undef SHIM_PREFIX

namespace constant {
  constexpr auto elementaryCharge = 1.6021766208e-19 * coulomb;
  constexpr auto planck = 4.135667662e-15 * electronVolt * second;
  constexpr auto dirac = 6.582119514e-16 * electronVolt * second;
  constexpr auto lightSpeed = 299792458. * meter / second;
}
}
}

namespace dimwits = njoy::dimwits;

namespace std {
  template< typename U, typename M >
  constexpr auto abs( const njoy::dimwits::Quantity< U, M >& q ){ return njoy::dimwits::abs( q ); }
  template< typename U, typename M >
  constexpr auto sqrt( const njoy::dimwits::Quantity< U, M >& q ){ return njoy::dimwits::sqrt( q ); }
}
#endif
