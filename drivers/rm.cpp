// Particles, pairs, radii, channels, spin groups and compound systems of the R-matrix part.
#include "driver.hpp"
#include "resonanceReconstruction.hpp"
#include "rmread.hpp"

using Shift = rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor >;
using Const = rm::CompoundSystem< rm::ReichMoore, rm::Constant >;
template < typename B > using GroupOf = rm::SpinGroup< rm::ReichMoore, B >;

std::unique_ptr< std::variant< Shift, Const > > theSystem;
std::unique_ptr< rm::ParticleChannel > theChannel;
std::map< rm::ReactionID, rr::CrossSection > sigma;
std::map< rm::ReactionChannelID, std::complex< double > > tmatrix;

template < typename F > auto with( F&& f ){ return std::visit( f, *theSystem ); }
template < typename S > auto& group( S& system, long g ){
  auto groups = system.spinGroups();
  using G = std::decay_t< decltype( groups[0] ) >;
  return const_cast< G& >( groups[g] ); }

template < typename B > auto readSystem( Reader& r ){
  std::vector< GroupOf< B > > groups;
  const auto n = r.I();
  for ( long g = 0; g < n; ++g ) {
    auto channels = r.channels();
    auto table = r.table( channels );
    groups.emplace_back( std::move( channels ), std::move( table ) );
  }
  return rm::CompoundSystem< rm::ReichMoore, B >( std::move( groups ) );
}
template < typename B > auto readData( Reader& r ){
  return rm::CompoundSystem< rm::ReichMoore, B >( r.data() ); }

Out answers( const In& a, std::size_t from, bool withSize = true ){
  Out o;
  if ( withSize ) { o.I( sigma.size() ); }
  for ( std::size_t k = from; k < a.s.size(); ++k ) {
    auto it = sigma.find( rm::ReactionID( a.s[k] ) );
    o.R( it == sigma.end() ? std::nan( "" ) : it->second.value );
  }
  return o;
}

Out describeChannel( const rm::ParticleChannel& channel, double e ){
  return std::visit( [e]( const auto& c ){
    const rr::Energy E = e * rr::electronVolt;
    Out o;
    o.I( c.belowThreshold( E ) ).I( c.isIncidentChannel() );
    o.R( c.waveNumber( E ).value ).R( c.sommerfeldParameter( E ) );
    o.R( c.radii().penetrabilityRadius( E ).value ).R( c.radii().shiftFactorRadius( E ).value )
     .R( c.radii().phaseShiftRadius( E ).value );
    o.R( c.penetrability( E ) ).R( c.shiftFactor( E ) ).R( c.phaseShift( E ) );
    return o; }, channel ); }

void reset(){ theSystem.reset(); theChannel.reset(); sigma.clear(); tmatrix.clear(); }

int main(){
  onReset() = reset;
  ops()[ "particle" ] = []( const In& a ){
    Reader r( a );
    const auto p = r.particle();
    return Out().I( p.parity() ).R( p.mass().value ).R( p.charge().value / rr::constant::elementaryCharge.value )
                .R( p.spin() ).S( p.particleID().symbol() ); };
  ops()[ "pair" ] = []( const In& a ){
    Reader r( a );
    const auto p = r.pair();
    return Out().R( p.massRatio() ).R( p.reducedMass().value ).R( p.particle().mass().value )
                .R( p.residual().mass().value ).S( p.pairID().symbol() )
                .S( p.particle().particleID().symbol() ).S( p.residual().particleID().symbol() ); };
  ops()[ "channel" ] = []( const In& a ){
    Reader r( a );
    theChannel = std::make_unique< rm::ParticleChannel >( r.channel() );
    return std::visit( []( const auto& c ){
      const auto n = c.quantumNumbers();
      return Out().I( c.isIncidentChannel() ).I( n.orbitalAngularMomentum() ).I( n.parity() )
        .R( n.spin() ).R( n.totalAngularMomentum() ).R( c.Q().value ).R( c.boundaryCondition() )
        .R( c.statisticalSpinFactor() )
        .S( c.channelID() ).S( c.reactionID().symbol() ).S( c.particlePair().pairID().symbol() )
        .S( c.incidentParticlePair().pairID().symbol() ); }, *theChannel ); };
  auto ask = []( const In& a ){ return describeChannel( *theChannel, a.r[0] ); };
  ops()[ "ask" ] = ask;
  ops()[ "askCharged" ] = ask;
  ops()[ "kin" ] = []( const In& a ){
    return std::visit( [&]( const auto& c ){
      const rr::Energy E = a.r[0] * rr::electronVolt;
      return Out().I( c.belowThreshold( E ) ).R( c.waveNumber( E ).value ).R( c.sommerfeldParameter( E ) ); },
      *theChannel ); };
  ops()[ "radii" ] = []( const In& a ){
    return std::visit( [&]( const auto& c ){
      const rr::Energy E = a.r[0] * rr::electronVolt;
      return Out().R( c.radii().penetrabilityRadius( E ).value ).R( c.radii().shiftFactorRadius( E ).value )
     .R( c.radii().phaseShiftRadius( E ).value ); }, *theChannel ); };

  auto build = []( const In& a ){
    Reader r( a );
    if ( r.I() ) { theSystem = std::make_unique< std::variant< Shift, Const > >( readSystem< rm::Constant >( r ) ); }
    else { theSystem = std::make_unique< std::variant< Shift, Const > >( readSystem< rm::ShiftFactor >( r ) ); }
    return Out(); };
  auto buildData = []( const In& a ){
    Reader r( a );
    if ( r.I() ) { theSystem = std::make_unique< std::variant< Shift, Const > >( readData< rm::Constant >( r ) ); }
    else { theSystem = std::make_unique< std::variant< Shift, Const > >( readData< rm::ShiftFactor >( r ) ); }
    return Out(); };
  ops()[ "build" ] = build;
  ops()[ "buildBroken" ] = build;
  ops()[ "buildData" ] = buildData;
  ops()[ "buildDataBroken" ] = buildData;

  // evaluate: ints [ group or -1, fresh copy? ], reals [ energy ], strs keys
  auto evaluate = []( const In& a ){
    const rr::Energy E = a.r[0] * rr::electronVolt;
    with( [&]( auto& s ){
      if ( a.i[1] ) { auto copy = s; copy.evaluate( E, sigma ); }
      else if ( a.i[0] < 0 ) { s.evaluate( E, sigma ); }
      else { auto copy = std::decay_t< decltype( group( s, a.i[0] ) ) >( group( s, a.i[0] ) ); copy.evaluate( E, sigma ); } } );
    return answers( a, 0 ); };
  ops()[ "evaluate" ] = evaluate;
  ops()[ "evaluateCharged" ] = evaluate;
  ops()[ "evaluateClosed" ] = evaluate;
  ops()[ "clear" ] = []( const In& ){ sigma.clear(); return Out(); };
  ops()[ "keep" ] = []( const In& a ){ return answers( a, 0 ); };
  auto tm = []( const In& a ){
    const rr::Energy E = a.r[0] * rr::electronVolt;
    with( [&]( auto& s ){ s.evaluateTMatrix( E, tmatrix ); } );
    Out o;
    o.I( tmatrix.size() );
    for ( const auto& k : a.s ) {
      auto it = tmatrix.find( k );
      const auto v = it == tmatrix.end() ? std::complex< double >( std::nan( "" ), 0. ) : it->second;
      o.R( v.real() ).R( v.imag() );
    }
    return o; };
  ops()[ "tmatrix" ] = tm;
  ops()[ "tmatrixCharged" ] = tm;
  ops()[ "clearT" ] = []( const In& ){ tmatrix.clear(); return Out(); };
  ops()[ "grid" ] = []( const In& ){
    Out o; for ( auto e : with( []( auto& s ){ return s.grid(); } ) ) { o.R( e.value ); } return o; };
  ops()[ "groupGrid" ] = []( const In& a ){
    Out o; for ( auto e : with( [&]( auto& s ){ return group( s, a.i[0] ).grid(); } ) ) { o.R( e.value ); } return o; };
  ops()[ "groups" ] = []( const In& ){
    return with( []( auto& s ){ return Out().I( s.spinGroups().size() ); } ); };
  ops()[ "describe" ] = []( const In& a ){
    return with( [&]( auto& s ){
      auto& g = group( s, a.i[0] );
      Out o;
      const auto& t = g.resonanceTable();
      o.I( g.channels().size() ).I( ranges::distance( g.incidentChannels() ) ).I( t.numberChannels() ).I( t.numberResonances() );
      for ( const auto& id : g.channelIDs() ) { o.S( id ); }
      for ( const auto& id : g.reactionIDs() ) { o.S( id.symbol() ); }
      for ( const auto& id : t.channels() ) { o.S( id ); }
      for ( const auto& res : t.resonances() ) {
        o.R( res.energy().value ).R( res.eliminatedWidth().value );
        for ( const auto& w : res.widths() ) { o.R( w.value ); }
      }
      return o; } ); };
  return runDriver();
}
