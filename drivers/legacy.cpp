// Legacy resolved (single and multi level Breit-Wigner) and unresolved resonances.
#include "driver.hpp"
#include "resonanceReconstruction.hpp"
#include "rmread.hpp"

namespace res = rm::legacy::resolved;
namespace unr = rm::legacy::unresolved;
using Single = res::CompoundSystem< rm::SingleLevelBreitWigner >;
using Multi = res::CompoundSystem< rm::MultiLevelBreitWigner >;
using Average = unr::CompoundSystem;
using System = std::variant< Single, Multi, Average >;

std::unique_ptr< System > theSystem;
std::map< rm::ReactionID, rr::CrossSection > sigma;

template < typename F > auto with( F&& f ){ return std::visit( f, *theSystem ); }
template < typename S > auto& group( S& system, long g ){
  auto groups = system.spinGroups();
  using G = std::decay_t< decltype( groups[0] ) >;
  return const_cast< G& >( groups[g] ); }

rm::Channel< rm::Neutron > neutron( Reader& r ){ return std::get< rm::Channel< rm::Neutron > >( r.channel() ); }

template < typename F > res::CompoundSystem< F > readResolved( Reader& r ){
  std::vector< res::SpinGroup< F > > groups;
  for ( long k = 0, n = r.I(); k < n; ++k ) {
    auto channel = neutron( r );
    std::vector< res::Resonance > list;
    for ( long j = 0, m = r.I(); j < m; ++j ) {
      const auto e = r.R(), a = r.R(), b = r.R(), c = r.R(), d = r.R(), p = r.R(), q = r.R(), s = r.R();
      list.emplace_back( e * rr::electronVolt, a * rr::electronVolt, b * rr::electronVolt, c * rr::electronVolt,
                         d * rr::electronVolt, p, q, s );
    }
    const auto qx = r.R() * rr::electronVolt;
    groups.emplace_back( std::move( channel ), res::ResonanceTable( std::move( list ) ), qx );
  }
  return res::CompoundSystem< F >( std::move( groups ) );
}
unr::Degrees readDegrees( Reader& r ){
  const unsigned int a = r.I(), b = r.I(), c = r.I(), d = r.I();
  return unr::Degrees( a, b, c, d );
}
unr::ResonanceTable readTable( Reader& r ){
  std::vector< unr::Resonance > list;
  for ( long j = 0, m = r.I(); j < m; ++j ) {
    const auto e = r.R(), d = r.R(), n = r.R(), g = r.R(), f = r.R(), x = r.R();
    list.emplace_back( e * rr::electronVolt, d * rr::electronVolt, n * rr::rootElectronVolt, g * rr::electronVolt,
                       f * rr::electronVolt, x * rr::electronVolt );
  }
  return unr::ResonanceTable( std::move( list ), readDegrees( r ) );
}
Average readUnresolved( Reader& r ){
  std::vector< unr::SpinGroup > groups;
  for ( long k = 0, n = r.I(); k < n; ++k ) {
    auto channel = neutron( r );
    auto table = readTable( r );
    groups.emplace_back( std::move( channel ), std::move( table ) );
  }
  return Average( std::move( groups ) );
}

Out answers( const In& a ){
  Out o;
  o.I( sigma.size() );
  for ( const auto& k : a.s ) {
    auto it = sigma.find( rm::ReactionID( k ) );
    o.R( it == sigma.end() ? std::nan( "" ) : it->second.value );
  }
  return o;
}

template < typename G > Out describeGroup( const G& g ){
  Out o;
  const auto& t = g.resonanceTable();
  o.I( g.orbitalAngularMomentum() ).R( g.totalAngularMomentum() ).I( t.numberResonances() );
  for ( auto e : t.energies() ) { o.R( e.value ); }
  return o;
}

int main(){
  onReset() = []{ theSystem.reset(); sigma.clear(); };
  // build: ints [ 0 single level, 1 multi level, 2 unresolved, ... ]
  auto build = []( const In& a ){
    Reader r( a );
    const auto kind = r.I();
    if ( kind == 0 ) { theSystem = std::make_unique< System >( readResolved< rm::SingleLevelBreitWigner >( r ) ); }
    else if ( kind == 1 ) { theSystem = std::make_unique< System >( readResolved< rm::MultiLevelBreitWigner >( r ) ); }
    else { theSystem = std::make_unique< System >( readUnresolved( r ) ); }
    return Out(); };
  ops()[ "build" ] = build;
  ops()[ "buildBroken" ] = build;
  // evaluate: ints [ group or -1, fresh copy? ], reals [ energy ], strs keys
  auto evaluate = []( const In& a ){
    const rr::Energy E = a.r[0] * rr::electronVolt;
    with( [&]( auto& s ){
      if ( a.i[1] ) { auto copy = s; copy.evaluate( E, sigma ); }
      else if ( a.i[0] < 0 ) { s.evaluate( E, sigma ); }
      else { auto copy = std::decay_t< decltype( group( s, a.i[0] ) ) >( group( s, a.i[0] ) ); copy.evaluate( E, sigma ); } } );
    return answers( a ); };
  ops()[ "evaluate" ] = evaluate;
  ops()[ "evaluateCompeting" ] = evaluate;
  ops()[ "clear" ] = []( const In& ){ sigma.clear(); return Out(); };
  ops()[ "keep" ] = []( const In& a ){ return answers( a ); };
  ops()[ "grid" ] = []( const In& ){
    Out o; for ( auto e : with( []( auto& s ){ return s.grid(); } ) ) { o.R( e.value ); } return o; };
  ops()[ "groupGrid" ] = []( const In& a ){
    Out o;
    with( [&]( auto& s ){
      if constexpr ( not std::is_same_v< std::decay_t< decltype( s ) >, Average > ) {
        for ( auto e : group( s, a.i[0] ).grid() ) { o.R( e.value ); } } } );
    return o; };
  ops()[ "groups" ] = []( const In& ){
    return with( []( auto& s ){ return Out().I( s.spinGroups().size() ); } ); };
  ops()[ "describe" ] = []( const In& a ){
    return with( [&]( auto& s ){
      auto& g = group( s, a.i[0] );
      Out o = describeGroup( g );
      if constexpr ( std::is_same_v< std::decay_t< decltype( s ) >, Average > ) {
        const auto d = g.resonanceTable().degreesOfFreedom();
        o.I( d.elastic ).I( d.capture ).I( d.fission ).I( d.competition );
        for ( const auto& x : g.resonanceTable().resonances() ) {
          o.R( x.levelSpacing().value ).R( x.elastic().value ).R( x.capture().value ).R( x.fission().value )
           .R( x.competition().value );
        }
      }
      else {
        o.R( g.QX().value );
        for ( const auto& x : g.resonanceTable().resonances() ) {
          o.R( x.elastic().value ).R( x.capture().value ).R( x.fission().value ).R( x.competition().value )
           .R( x.total().value ).R( x.penetrability() ).R( x.shiftfactor() );
        }
      }
      return o; } ); };
  // width: what a resonance answers for given P, Q and S; reals [ P, Q, S ]
  ops()[ "width" ] = []( const In& a ){
    return with( [&]( auto& s ){
      Out o;
      if constexpr ( not std::is_same_v< std::decay_t< decltype( s ) >, Average > ) {
        const auto x = group( s, a.i[0] ).resonanceTable().resonances()[ a.i[1] ];
        o.R( x.elastic( a.r[0] ).value ).R( x.competition( a.r[1] ).value ).R( x.total( a.r[0], a.r[1] ).value )
         .R( x.energyPrime( a.r[2] ).value );
      }
      return o; } ); };
  // parameters: the unresolved parameters at an energy; ints [ group ], reals [ energy ]
  ops()[ "parameters" ] = []( const In& a ){
    Out o;
    with( [&]( auto& s ){
      if constexpr ( std::is_same_v< std::decay_t< decltype( s ) >, Average > ) {
        const auto x = group( s, a.i[0] ).resonanceTable()( a.r[0] * rr::electronVolt );
        o.R( x.energy().value ).R( x.levelSpacing().value ).R( x.elastic().value ).R( x.capture().value )
         .R( x.fission().value ).R( x.competition().value );
      } } );
    return o; };
  // integrals: ints degrees, reals widths
  ops()[ "integrals" ] = []( const In& a ){
    Reader r( a );
    const auto degrees = readDegrees( r );
    const auto e = r.R(), g = r.R(), f = r.R(), x = r.R();
    const auto v = unr::calculateFluctuationIntegrals(
      unr::Widths( e * rr::electronVolt, g * rr::electronVolt, f * rr::electronVolt, x * rr::electronVolt ), degrees );
    return Out().R( v.elastic.value ).R( v.capture.value ).R( v.fission.value ).R( v.competition.value ); };
  return runDriver();
}
