// Reads the flat description of R-matrix objects that the specifications hand out.
#ifndef VERIF_RMREAD_HPP
#define VERIF_RMREAD_HPP
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;

struct Reader : Items {
  using Items::Items;

  rm::Particle particle(){
    const auto z = I(); const auto spin = I(); const auto parity = I();
    const auto mass = R(); const auto id = S();
    return rm::Particle( rm::ParticleID( id ), mass * rr::daltons, double( z ) * rr::constant::elementaryCharge,
                         0.5 * spin, parity );
  }
  rm::ParticlePair pair(){
    const auto a = particle();
    const auto b = particle();
    if ( I() ) { return rm::ParticlePair( a, b, rm::ParticlePairID( S() ) ); }
    return rm::ParticlePair( a, b );
  }
  using Radius = std::variant< rr::ChannelRadius, rm::ChannelRadiusTable >;
  Radius radius(){
    using X = rr::Energy; using Y = rr::ChannelRadius;
    const auto n = I();
    if ( n == 0 ) { return Y( R() * rr::rootBarn ); }
    std::vector< rm::TableVariant< X, Y > > regions;
    for ( long k = 0; k < n; ++k ) {
      const auto law = I(); const auto m = I();
      std::vector< X > x; std::vector< Y > y;
      for ( long j = 0; j < m; ++j ) { x.push_back( R() * rr::electronVolt ); y.push_back( Y( R() * rr::rootBarn ) ); }
      switch ( law ) {
        case 1: regions.emplace_back( rm::HistogramTable< X, Y >( std::move( x ), std::move( y ) ) ); break;
        case 2: regions.emplace_back( rm::LinLinTable< X, Y >( std::move( x ), std::move( y ) ) ); break;
        case 3: regions.emplace_back( rm::LinLogTable< X, Y >( std::move( x ), std::move( y ) ) ); break;
        case 4: regions.emplace_back( rm::LogLinTable< X, Y >( std::move( x ), std::move( y ) ) ); break;
        default: regions.emplace_back( rm::LogLogTable< X, Y >( std::move( x ), std::move( y ) ) ); break;
      }
    }
    return rm::ChannelRadiusTable( rm::MultiRegionTable< X, Y >( std::move( regions ) ) );
  }
  rm::ChannelRadii radii(){
    const auto n = I();
    auto a = radius();
    if ( n == 1 ) { return rm::ChannelRadii( a ); }
    auto b = radius();
    if ( n == 2 ) { return rm::ChannelRadii( a, b ); }
    auto c = radius();
    return rm::ChannelRadii( a, b, c );
  }
  template < typename Type > rm::ParticleChannel channelOf(){
    const auto incident = pair();
    const auto out = pair();
    const bool alias = I();
    const auto id = alias ? S() : std::string();
    const auto q = R() * rr::electronVolt;
    const unsigned int l = I(); const auto s = I(); const auto j = I(); const short p = I();
    const rm::ChannelQuantumNumbers numbers( l, 0.5 * s, 0.5 * j, p );
    const auto rad = radii();
    const auto b = R();
    if ( alias ) { return rm::Channel< Type >( incident, out, id, q, numbers, rad, b ); }
    return rm::Channel< Type >( incident, out, q, numbers, rad, b );
  }
  rm::ParticleChannel channel(){
    switch ( I() ) {
      case 0: return channelOf< rm::Neutron >();
      case 1: return channelOf< rm::Photon >();
      case 2: return channelOf< rm::ChargedParticle >();
      default: return channelOf< rm::Fission >();
    }
  }
  std::vector< rm::ParticleChannel > channels(){
    std::vector< rm::ParticleChannel > v;
    const auto n = I();
    for ( long k = 0; k < n; ++k ) { v.push_back( channel() ); }
    return v;
  }
  rm::ResonanceTable table( const std::vector< rm::ParticleChannel >& ){
    std::vector< rm::ChannelID > ids;
    for ( long k = 0, n = I(); k < n; ++k ) { ids.push_back( S() ); }
    std::vector< rm::Resonance > res;
    for ( long k = 0, n = I(); k < n; ++k ) {
      const auto e = R() * rr::electronVolt;
      std::vector< rr::ReducedWidth > w;
      for ( long c = 0, m = I(); c < m; ++c ) { w.push_back( R() * rr::rootElectronVolt ); }
      const auto x = R();
      if ( x == 0. ) { res.emplace_back( e, std::move( w ) ); }
      else { res.emplace_back( e, std::move( w ), x * rr::rootElectronVolt ); }
    }
    return rm::ResonanceTable( std::move( ids ), std::move( res ) );
  }
  std::vector< rm::ParticleChannelData > data(){
    std::vector< rm::ParticleChannelData > v;
    for ( long k = 0, n = I(); k < n; ++k ) {
      const auto c = channel();
      std::vector< rr::Energy > e; std::vector< rr::ReducedWidth > w;
      for ( long j = 0, m = I(); j < m; ++j ) { e.push_back( R() * rr::electronVolt ); }
      for ( long j = 0, m = I(); j < m; ++j ) { w.push_back( R() * rr::rootElectronVolt ); }
      const bool eliminated = I();
      v.emplace_back( c, std::move( e ), std::move( w ), eliminated );
    }
    return v;
  }
};
#endif
