// The evaluators for Breit-Wigner and Reich-Moore ranges that do without R-matrix objects.
#include "driver.hpp"
#include "resonanceReconstruction.hpp"
#include "endfread.hpp"
namespace rr = njoy::resonanceReconstruction;

using Evaluator = std::function< rr::breitWigner::CrossSection( rr::Quantity< rr::ElectronVolts > ) >;
Evaluator evaluator;

template < typename Apply > bool read( const MF2::ResonanceRange& range ){
  bool called = false;
  Evaluator made;
  Apply{}( range, [&]( auto&& system ){
    using System = std::decay_t< decltype( system ) >;
    auto kept = std::make_shared< System >( std::move( system ) );
    made = [kept]( rr::Quantity< rr::ElectronVolts > e ){ return ( *kept )( e ); };
    called = true;
  } );
  if ( called ) { evaluator = made; }
  return called;
}

int main(){
  onReset() = []{ evaluator = nullptr; };
  // read: the description of a range and the evaluator to use (1 single level, 2 multi level, 3 Reich-Moore)
  auto reading = []( const In& a ){
    Items r( a );
    const auto range = readRange( r );
    r.R();
    switch ( r.I() ) {
      case 1: return Out().I( read< rr::breitWigner::singleLevel::Apply >( range ) );
      case 2: return Out().I( read< rr::breitWigner::multiLevel::Apply >( range ) );
      default: return Out().I( read< rr::reichMoore::Apply >( range ) );
    } };
  for ( auto name : { "read", "readBroken" } ) { ops()[ name ] = reading; }
  auto at = []( const In& a ){
    const auto x = evaluator( a.r[0] * rr::electronVolts );
    return Out().R( x.elastic.value ).R( x.capture.value ).R( x.fission.value ); };
  for ( auto name : { "at", "atCompeting" } ) { ops()[ name ] = at; }
  ops()[ "combine" ] = []( const In& a ){
    const auto x = evaluator( a.r[0] * rr::electronVolts ), y = evaluator( a.r[1] * rr::electronVolts );
    const auto p = x + y, d = x - y;
    return Out().R( p.elastic.value ).R( p.capture.value ).R( p.fission.value )
      .R( d.elastic.value ).R( d.capture.value ).R( d.fission.value ); };
  return runDriver();
}
