// Minimal stand-in for njoy/elementary: particle, particle pair and reaction
// identifiers.
#ifndef SHIM_ELEMENTARY_HPP
#define SHIM_ELEMENTARY_HPP
#include <array>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace njoy {
namespace elementary {
namespace detail {
  inline const std::vector< std::string >& elements(){
    static const std::vector< std::string > e = {
      "n","H","He","Li","Be","B","C","N","O","F","Ne","Na","Mg","Al","Si","P","S","Cl","Ar","K",
      "Ca","Sc","Ti","V","Cr","Mn","Fe","Co","Ni","Cu","Zn","Ga","Ge","As","Se","Br","Kr","Rb",
      "Sr","Y","Zr","Nb","Mo","Tc","Ru","Rh","Pd","Ag","Cd","In","Sn","Sb","Te","I","Xe","Cs",
      "Ba","La","Ce","Pr","Nd","Pm","Sm","Eu","Gd","Tb","Dy","Ho","Er","Tm","Yb","Lu","Hf","Ta",
      "W","Re","Os","Ir","Pt","Au","Hg","Tl","Pb","Bi","Po","At","Rn","Fr","Ra","Ac","Th","Pa",
      "U","Np","Pu","Am","Cm","Bk","Cf","Es","Fm","Md","No","Lr","Rf","Db","Sg","Bh","Hs","Mt",
      "Ds","Rg","Cn","Nh","Fl","Mc","Lv","Ts","Og" };
    return e;
  }
  inline std::string normalise( std::string s ){
    if ( s == "g" or s == "gamma" or s == "photon" ) { return "photon"; }
    if ( s == "neutron" ) { return "n"; }
    if ( s == "proton" ) { return "p"; }
    if ( s == "a" or s == "alpha" or s == "He4" or s == "he4" ) { return "he4"; }
    if ( s == "d" or s == "H2" or s == "h2" or s == "deuteron" ) { return "h2"; }
    if ( s == "t" or s == "H3" or s == "h3" or s == "triton" ) { return "h3"; }
    if ( s == "He3" or s == "he3" ) { return "he3"; }
    const auto n = s.size();
    if ( n > 3 and s.substr( n - 3 ) == "_e0" ) { return normalise( s.substr( 0, n - 3 ) ); }
    return s;
  }
  // Z and A of an identifier
  inline std::pair< int, int > za( const std::string& s ){
    if ( s == "photon" ) { return { 0, 0 }; }
    if ( s == "n" ) { return { 0, 1 }; }
    if ( s == "p" ) { return { 1, 1 }; }
    if ( s == "h2" ) { return { 1, 2 }; }
    if ( s == "h3" ) { return { 1, 3 }; }
    if ( s == "he3" ) { return { 2, 3 }; }
    if ( s == "he4" ) { return { 2, 4 }; }
    const auto digit = s.find_first_of( "0123456789" );
    const auto name = s.substr( 0, digit );
    for ( std::size_t z = 1; z < elements().size(); ++z ) {
      if ( elements()[z] == name and digit != std::string::npos ) {
        return { int( z ), std::stoi( s.substr( digit ) ) };
      }
    }
    throw std::runtime_error( "unknown particle identifier " + s );
  }
}

// identifiers keep their value when moved from, as in elementary
#define SHIM_COPY( Class ) \
  Class( const Class& ) = default; Class& operator=( const Class& ) = default;
#define SHIM_ORDER( Class ) \
  friend bool operator==( const Class& l, const Class& r ){ return l.symbol_ == r.symbol_; } \
  friend bool operator!=( const Class& l, const Class& r ){ return l.symbol_ != r.symbol_; } \
  friend bool operator<( const Class& l, const Class& r ){ return l.symbol_ < r.symbol_; } \
  friend bool operator>( const Class& l, const Class& r ){ return r.symbol_ < l.symbol_; } \
  friend bool operator<=( const Class& l, const Class& r ){ return l.symbol_ <= r.symbol_; } \
  friend bool operator>=( const Class& l, const Class& r ){ return l.symbol_ >= r.symbol_; } \
  friend std::ostream& operator<<( std::ostream& o, const Class& c ){ return o << c.symbol_; }

class ParticleID {
  std::string symbol_;
public:
  ParticleID( const std::string& s ) : symbol_( detail::normalise( s ) ) {}
  ParticleID( const char* s ) : ParticleID( std::string( s ) ) {}
  const std::string& symbol() const { return symbol_; }
  SHIM_ORDER( ParticleID )
  SHIM_COPY( ParticleID )
};

class ParticlePairID {
  std::string symbol_;
public:
  ParticlePairID( const std::string& s ) {
    const auto c = s.find( ',' );
    symbol_ = c == std::string::npos ? s
            : detail::normalise( s.substr( 0, c ) ) + "," + detail::normalise( s.substr( c + 1 ) );
  }
  ParticlePairID( const char* s ) : ParticlePairID( std::string( s ) ) {}
  ParticlePairID( const ParticleID& a, const ParticleID& b ) :
    symbol_( a.symbol() + "," + b.symbol() ) {}
  const std::string& symbol() const { return symbol_; }
  ParticleID particle() const { return ParticleID( symbol_.substr( 0, symbol_.find( ',' ) ) ); }
  ParticleID residual() const {
    const auto c = symbol_.find( ',' );
    return ParticleID( c == std::string::npos ? symbol_ : symbol_.substr( c + 1 ) );
  }
  SHIM_ORDER( ParticlePairID )
  SHIM_COPY( ParticlePairID )
};

class ReactionType {
  std::string symbol_;
  int mt_ = 0;
  int level_ = 0;
  std::vector< ParticleID > particles_;
public:
  ReactionType( const std::string& s ) : symbol_( s ) {}
  ReactionType( const char* s ) : symbol_( s ) {}
  ReactionType( int mt ) : symbol_( std::to_string( mt ) ), mt_( mt ) {
    auto add = [this]( const char* p ){ particles_.push_back( ParticleID( p ) ); };
    if ( mt == 2 ) { symbol_ = "elastic"; add( "n" ); }
    else if ( mt == 18 ) { symbol_ = "fission"; }
    else if ( mt == 102 ) { symbol_ = "capture"; add( "g" ); }
    else if ( mt == 103 ) { add( "p" ); }
    else if ( mt == 104 ) { add( "d" ); }
    else if ( mt == 105 ) { add( "t" ); }
    else if ( mt == 106 ) { add( "he3" ); }
    else if ( mt == 107 ) { add( "he4" ); }
    else if ( mt >= 50 and mt <= 91 ) { add( "n" ); level_ = mt - 50; }
    else if ( mt >= 600 and mt < 650 ) { add( "p" ); level_ = mt - 600; }
    else if ( mt >= 650 and mt < 700 ) { add( "d" ); level_ = mt - 650; }
    else if ( mt >= 700 and mt < 750 ) { add( "t" ); level_ = mt - 700; }
    else if ( mt >= 750 and mt < 800 ) { add( "he3" ); level_ = mt - 750; }
    else if ( mt >= 800 and mt < 850 ) { add( "he4" ); level_ = mt - 800; }
  }
  const std::string& symbol() const { return symbol_; }
  int mt() const { return mt_; }
  int level() const { return level_; }
  const std::vector< ParticleID >& particles() const { return particles_; }
  SHIM_ORDER( ReactionType )
  SHIM_COPY( ReactionType )
};

inline ParticleID resolve( const ParticleID& incident, const ParticleID& target,
                           const ReactionType& type ){
  auto in = detail::za( incident.symbol() );
  auto ta = detail::za( target.symbol() );
  int z = in.first + ta.first, a = in.second + ta.second;
  for ( const auto& p : type.particles() ) {
    auto o = detail::za( p.symbol() );
    z -= o.first; a -= o.second;
  }
  return ParticleID( detail::elements().at( z ) + std::to_string( a )
                     + ( type.level() ? "_e" + std::to_string( type.level() ) : std::string() ) );
}

class ReactionID {
  std::string symbol_;
public:
  ReactionID( const std::string& s ) {
    const auto arrow = s.find( "->" );
    symbol_ = arrow == std::string::npos ? s
            : ParticlePairID( s.substr( 0, arrow ) ).symbol() + "->"
              + ParticlePairID( s.substr( arrow + 2 ) ).symbol();
  }
  ReactionID( const char* s ) : ReactionID( std::string( s ) ) {}
  ReactionID( const ParticlePairID& in, const ParticlePairID& out ) :
    symbol_( in.symbol() + "->" + out.symbol() ) {}
  ReactionID( const ParticleID& incident, const ParticleID& target, const ReactionType& type ) {
    const auto pair = incident.symbol() + "," + target.symbol();
    if ( type.symbol() == "elastic" ) { symbol_ = pair + "->" + pair; }
    else if ( type.particles().empty() or type.symbol() == "capture" ) {
      symbol_ = pair + "->" + type.symbol();
    }
    else {
      symbol_ = pair + "->" + type.particles().front().symbol() + ","
                + resolve( incident, target, type ).symbol();
    }
  }
  const std::string& symbol() const { return symbol_; }
  SHIM_ORDER( ReactionID )
  SHIM_COPY( ReactionID )
};
#undef SHIM_ORDER
#undef SHIM_COPY
}
}
#endif
