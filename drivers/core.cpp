// Coupling rules, hard-sphere and Coulomb functions, labels: the part of the library that needs
// no other njoy library (also compiled with the stand-ins when that is not enough).
#include "driver.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <limits>
#include <numeric>
#include <optional>
#include <tuple>
#include <variant>
#include "resonanceReconstruction.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;

template < typename Type > void functions( const std::string& name ) {
  ops()[ "P_" + name ] = []( const In& a ){
    return Out().R( rm::calculatePenetrability< Type >( a.i[0], a.r[0], a.r[1] ) ); };
  ops()[ "S_" + name ] = []( const In& a ){
    return Out().R( rm::calculateShiftFactor< Type >( a.i[0], a.r[0], a.r[1] ) ); };
  ops()[ "phi_" + name ] = []( const In& a ){
    return Out().R( rm::calculatePhaseShift< Type >( a.i[0], a.r[0], a.r[1] ) ); };
  ops()[ "w_" + name ] = []( const In& a ){
    return Out().R( rm::calculateCoulombPhaseShift< Type >( a.i[0], a.r[1] ) ); };
}

std::array< double, 2 > factory( long l, double rho ){
  switch ( l ) {
    case 0: return rr::penetrationShift( rr::Integer< 0 >{} )( rho );
    case 1: return rr::penetrationShift( rr::Integer< 1 >{} )( rho );
    case 2: return rr::penetrationShift( rr::Integer< 2 >{} )( rho );
    case 3: return rr::penetrationShift( rr::Integer< 3 >{} )( rho );
    case 4: return rr::penetrationShift( rr::Integer< 4 >{} )( rho );
    case 5: return rr::penetrationShift( rr::Integer< 5 >{} )( rho );
    case 6: return rr::penetrationShift( rr::Integer< 6 >{} )( rho );
    default: return rr::penetrationShift( rr::Integer< 7 >{} )( rho );
  }
}

template < std::size_t... I > auto packOf( const std::vector< double >& v, std::index_sequence< I... > ){
  return rr::pack( v[I]... ); }
template < typename P, std::size_t... I > Out slots( const P& p, std::index_sequence< I... > ){
  Out o; int dummy[] = { ( o.R( std::get< I >( p.data ) ), 0 )... }; (void) dummy; return o; }
// a running tuple of N slots
template < std::size_t N > void packs(){
  using Seq = std::make_index_sequence< N >;
  using P = decltype( packOf( std::vector< double >{}, Seq{} ) );
  static P total = packOf( std::vector< double >( N, 0. ), Seq{} );
  const auto key = std::to_string( N );
  const auto before = onReset();
  onReset() = [before]{ before(); total = packOf( std::vector< double >( N, 0. ), Seq{} ); };
  ops()[ "packNew" + key ] = []( const In& a ){ total = packOf( a.r, Seq{} ); return slots( total, Seq{} ); };
  ops()[ "packPlus" + key ] = []( const In& a ){
    const P other = packOf( a.r, Seq{} ); total = total + other; return slots( total, Seq{} ); };
  ops()[ "packMinus" + key ] = []( const In& a ){
    const P other = packOf( a.r, Seq{} ); total = total - other; return slots( total, Seq{} ); };
  ops()[ "packTimes" + key ] = []( const In& a ){ total = total * a.r[0]; return slots( total, Seq{} ); };
  ops()[ "packKeep" + key ] = []( const In& a ){
    const P other = packOf( a.r, Seq{} );
    auto unused = ( total + other ) * 2. - other * 3.; (void) unused;
    return slots( total, Seq{} ); };
}

int main(){
  functions< rm::Neutron >( "neutron" );
  functions< rm::Photon >( "photon" );
  functions< rm::Fission >( "fission" );
  functions< rm::ChargedParticle >( "charged" );
  ops()[ "P_plain" ] = []( const In& a ){ return Out().R( rr::penetrationShift( int( a.i[0] ), a.r[0] )[0] ); };
  ops()[ "S_plain" ] = []( const In& a ){ return Out().R( rr::penetrationShift( int( a.i[0] ), a.r[0] )[1] ); };
  ops()[ "phi_plain" ] = []( const In& a ){ return Out().R( rr::phaseShift( int( a.i[0] ), a.r[0] ) ); };
  ops()[ "P_factory" ] = []( const In& a ){ return Out().R( factory( a.i[0], a.r[0] )[0] ); };
  ops()[ "S_factory" ] = []( const In& a ){ return Out().R( factory( a.i[0], a.r[0] )[1] ); };

  ops()[ "channelSpins" ] = []( const In& a ){
    Out o;
    for ( double v : rm::possibleChannelSpinValues( a.i[0] / 2., a.i[1] / 2. ) ) { o.R( v ); }
    return o; };
  ops()[ "totalFromSpin" ] = []( const In& a ){
    Out o;
    for ( double v : rm::possibleChannelTotalAngularMomentumValues( a.i[0], a.i[1] / 2. ) ) { o.R( v ); }
    return o; };
  ops()[ "totalFromPair" ] = []( const In& a ){
    Out o;
    for ( double v : rm::possibleChannelTotalAngularMomentumValues( a.i[0], a.i[1] / 2., a.i[2] / 2. ) ) { o.R( v ); }
    return o; };
  ops()[ "label" ] = []( const In& a ){
    rm::ChannelQuantumNumbers q( a.i[0], a.i[1] / 2., a.i[2] / 2., a.i[3] );
    return Out().I( q.orbitalAngularMomentum() ).I( q.parity() )
                .R( q.spin() ).R( q.totalAngularMomentum() ).S( q.toString() ); };
  packs< 1 >(); packs< 2 >(); packs< 3 >(); packs< 4 >();
  for ( std::string name : { "packNew", "packPlus", "packMinus", "packTimes", "packKeep" } ) {
    ops()[ name ] = [=]( const In& a ){ return ops()[ name + std::to_string( a.i[0] ) ]( a ); };
  }
  return runDriver();
}
