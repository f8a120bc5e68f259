// Resonance ranges of ENDF files, turned into reconstructors.
#include "driver.hpp"
#include "resonanceReconstruction.hpp"
#include "rmread.hpp"
#include "endfread.hpp"

std::unique_ptr< rm::Reconstructor > reconstructor;

template < typename C > void describeChannel( Out& o, const C& c, rr::Energy E ){
  o.S( c.channelID() ).S( c.reactionID().symbol() )
   .I( c.quantumNumbers().orbitalAngularMomentum() ).I( c.quantumNumbers().parity() )
   .R( c.quantumNumbers().spin() ).R( c.quantumNumbers().totalAngularMomentum() )
   .R( c.radii().penetrabilityRadius( E ).value ).R( c.radii().shiftFactorRadius( E ).value )
   .R( c.radii().phaseShiftRadius( E ).value ).R( c.Q().value ).R( c.boundaryCondition() );
  auto pair = c.particlePair();
  o.R( pair.particle().mass().value ).R( pair.residual().mass().value ).R( pair.particle().spin() ).R( pair.residual().spin() )
   .I( pair.particle().parity() ).I( pair.residual().parity() );
}

int main(){
  onReset() = []{ reconstructor.reset(); };
  auto read = []( const In& a ){
    Reader r( a );
    const auto range = readRange( r );
    const auto mass = r.R() * rr::daltons;
    const auto incident = r.S(), target = r.S();
    reconstructor = std::make_unique< rm::Reconstructor >(
      rm::fromENDF( range, mass, rr::constant::elementaryCharge, rm::ParticleID( incident ), rm::ParticleID( target ) ) );
    return Out().I( reconstructor->isResolved() ).I( reconstructor->isUnresolved() )
      .R( reconstructor->lowerEnergy().value ).R( reconstructor->upperEnergy().value ); };
  ops()[ "read" ] = read;
  ops()[ "readBroken" ] = read;
  // read, and forget
  ops()[ "readTwice" ] = [read]( const In& a ){
    auto before = std::move( reconstructor );
    try { auto o = read( a ); reconstructor = std::move( before ); return o; }
    catch ( ... ) { reconstructor = std::move( before ); throw; } };
  auto at = []( const In& a ){
    const auto sigma = ( *reconstructor )( a.r[0] * rr::electronVolt );
    Out o;
    o.I( sigma.size() );
    for ( const auto& k : a.s ) {
      auto it = sigma.find( rm::ReactionID( k ) );
      o.R( it == sigma.end() ? std::nan( "" ) : it->second.value );
    }
    return o; };
  for ( auto name : { "at", "atClosed", "atCharged", "atCompeting", "outside" } ) { ops()[ name ] = at; }
  ops()[ "grid" ] = []( const In& ){
    Out o; for ( auto e : reconstructor->grid() ) { o.R( e.value ); } return o; };
  ops()[ "groups" ] = []( const In& ){
    return std::visit( []( auto& s ){ return Out().I( s.spinGroups().size() ); }, reconstructor->compoundSystem() ); };
  // describe: ints [ group ], reals [ energy at which radii are asked ]
  auto describe = []( const In& a ){
    Out o;
    const auto E = a.r[0] * rr::electronVolt;
    std::visit( [&]( auto& s ){
      using System = std::decay_t< decltype( s ) >;
      auto groups = s.spinGroups();
      const auto& g = groups[ a.i[0] ];
      if constexpr ( std::is_same_v< System, rm::legacy::unresolved::CompoundSystem > ) {
        describeChannel( o, g.incidentChannel(), E );
        const auto& t = g.resonanceTable();
        const auto d = t.degreesOfFreedom();
        o.I( d.elastic ).I( d.capture ).I( d.fission ).I( d.competition );
        for ( const auto& x : t.resonances() ) {
          o.R( x.energy().value ).R( x.levelSpacing().value ).R( x.elastic().value ).R( x.capture().value )
           .R( x.fission().value ).R( x.competition().value );
        }
      }
      else if constexpr ( std::is_same_v< System, rm::legacy::resolved::CompoundSystem< rm::SingleLevelBreitWigner > > or
                          std::is_same_v< System, rm::legacy::resolved::CompoundSystem< rm::MultiLevelBreitWigner > > ) {
        describeChannel( o, g.incidentChannel(), E );
        for ( const auto& x : g.resonanceTable().resonances() ) {
          o.R( x.energy().value ).R( x.elastic().value ).R( x.capture().value ).R( x.fission().value )
           .R( x.competition().value ).R( x.penetrability() ).R( x.shiftfactor() );
        }
      }
      else {
        o.I( g.channels().size() );
        for ( const auto& c : g.channels() ) { std::visit( [&]( const auto& x ){ describeChannel( o, x, E ); }, c ); }
        for ( const auto& x : g.resonanceTable().resonances() ) {
          o.R( x.energy().value );
          for ( auto w : x.widths() ) { o.R( w.value ); }
          o.R( x.eliminatedWidth().value );
        }
      } }, reconstructor->compoundSystem() );
    return o; };
  ops()[ "describe" ] = describe;
  return runDriver();
}
