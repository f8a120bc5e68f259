// Minimal stand-in for the part of njoy/ENDFtk that holds MF2 MT151 (resonance
// parameters): plain data classes with the accessors resonanceReconstruction
// uses, and a reader of the ENDF-6 text format.
#ifndef SHIM_ENDFTK_2_151_HPP
#define SHIM_ENDFTK_2_151_HPP
#include <array>
#include <cstdlib>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include "../../../Log.hpp"
#include "range/v3/all.hpp"

namespace njoy {
namespace ENDFtk {
namespace detail {
  inline double number( std::string s ){
    std::string t;
    for ( char c : s ) { if ( c != ' ' ) { t += c; } }
    if ( t.empty() ) { return 0.; }
    for ( std::size_t i = 1; i < t.size(); ++i ) {
      if ( ( t[i] == '+' or t[i] == '-' ) and t[i-1] != 'e' and t[i-1] != 'E'
           and t[i-1] != 'd' and t[i-1] != 'D' ) { t.insert( i, "e" ); break; }
    }
    for ( char& c : t ) { if ( c == 'd' or c == 'D' ) { c = 'e'; } }
    return std::strtod( t.c_str(), nullptr );
  }
  struct Cont { double c1, c2; long l1, l2, n1, n2; };
  struct List : Cont { std::vector< double > data; };
  template< typename It > std::string line( It& it, const It& end ){
    if ( it == end ) { throw std::runtime_error( "unexpected end of ENDF data" ); }
    std::string s;
    while ( it != end and *it != '\n' ) { s += *it++; }
    if ( it != end ) { ++it; }
    s.resize( s.size() < 66 ? 66 : s.size(), ' ' );
    return s;
  }
  template< typename It > Cont cont( It& it, const It& end ){
    auto s = line( it, end );
    auto f = [&]( int i ){ return number( s.substr( 11 * i, 11 ) ); };
    return { f( 0 ), f( 1 ), long( f( 2 ) ), long( f( 3 ) ), long( f( 4 ) ), long( f( 5 ) ) };
  }
  template< typename It > std::vector< double > values( It& it, const It& end, long n ){
    std::vector< double > v;
    while ( long( v.size() ) < n ) {
      auto s = line( it, end );
      for ( int i = 0; i < 6 and long( v.size() ) < n; ++i ) {
        v.push_back( number( s.substr( 11 * i, 11 ) ) );
      }
    }
    return v;
  }
  template< typename It > List list( It& it, const It& end ){
    List l;
    static_cast< Cont& >( l ) = cont( it, end );
    l.data = values( it, end, l.n1 );
    return l;
  }
}

class HeadRecord {
  detail::Cont c_;
public:
  HeadRecord( detail::Cont c ) : c_( c ) {}
  template< typename It > HeadRecord( It& it, const It& end, long& ) : c_( detail::cont( it, end ) ) {}
  double ZA() const { return c_.c1; }
  double AWR() const { return c_.c2; }
  long N1() const { return c_.n1; }
};
using HEAD = HeadRecord;

namespace section {
template< int MF, int MT = 0 > class Type;

template<> class Type< 2, 151 > {
public:

  class ScatteringRadius {
    std::vector< long > boundaries_, interpolants_;
    std::vector< double > x_, y_;
    std::vector< std::pair< std::vector< double >, std::vector< double > > > regions_;
  public:
    ScatteringRadius( std::vector< long >&& b, std::vector< long >&& i,
                      std::vector< double >&& x, std::vector< double >&& y ) :
      boundaries_( std::move( b ) ), interpolants_( std::move( i ) ),
      x_( std::move( x ) ), y_( std::move( y ) ) {
      long first = 0;
      for ( long last : boundaries_ ) {
        regions_.emplace_back( std::vector< double >( x_.begin() + first, x_.begin() + last ),
                               std::vector< double >( y_.begin() + first, y_.begin() + last ) );
        first = last - 1;
      }
    }
    const std::vector< long >& interpolants() const { return interpolants_; }
    const std::vector< long >& boundaries() const { return boundaries_; }
    const std::vector< double >& energies() const { return x_; }
    const std::vector< double >& radii() const { return y_; }
    const auto& regions() const { return regions_; }
  };

  struct SpecialCase { double spi, ap; double SPI() const { return spi; } double AP() const { return ap; } };

  struct Any {};
  template< typename > struct BreitWignerResonanceOf {
    double er, aj, gt, gn, gg, gf;
    double ER() const { return er; } double resonanceEnergy() const { return er; }
    double AJ() const { return aj; } double spin() const { return aj; }
    double GT() const { return gt; } double totalWidth() const { return gt; }
    double GN() const { return gn; } double neutronWidth() const { return gn; }
    double GG() const { return gg; } double gammaWidth() const { return gg; }
    double GF() const { return gf; } double fissionWidth() const { return gf; }
    double GX() const { return gt - ( gn + gg + gf ); }
    double competitiveWidth() const { return this->GX(); }
  };
  using BreitWignerResonance = BreitWignerResonanceOf< Any >;
  struct BreitWignerLValue {
    template< typename R > using Resonance = BreitWignerResonanceOf< R >;
    double awri, qx; long l, lrx;
    std::vector< BreitWignerResonance > rs;
    std::vector< double > j;
    BreitWignerLValue( double awri, double qx, long l, long lrx,
                       std::vector< BreitWignerResonance > r ) :
      awri( awri ), qx( qx ), l( l ), lrx( lrx ), rs( std::move( r ) ) {
      for ( const auto& x : rs ) { j.push_back( x.aj ); }
    }
    double AWRI() const { return awri; } double atomicWeightRatio() const { return awri; }
    double QX() const { return qx; }
    long L() const { return l; } long orbitalMomentum() const { return l; }
    long LRX() const { return lrx; } bool competitiveWidthFlag() const { return lrx != 0; }
    long NRS() const { return rs.size(); } long numberResonances() const { return rs.size(); }
    const std::vector< double >& spinValues() const { return j; }
    const std::vector< BreitWignerResonance >& resonances() const { return rs; }
  };
  struct BreitWigner {
    using LValue = BreitWignerLValue;
    double spi, ap;
    std::vector< LValue > ls;
    double SPI() const { return spi; } double spin() const { return spi; }
    double AP() const { return ap; } double scatteringRadius() const { return ap; }
    long NLS() const { return ls.size(); } long numberLValues() const { return ls.size(); }
    const std::vector< LValue >& lValues() const { return ls; }
  };
  struct SingleLevelBreitWigner : BreitWigner {
    SingleLevelBreitWigner( BreitWigner b ) : BreitWigner( std::move( b ) ) {}
  };
  struct MultiLevelBreitWigner : BreitWigner {
    MultiLevelBreitWigner( BreitWigner b ) : BreitWigner( std::move( b ) ) {}
  };

  template< typename > struct ReichMooreResonanceOf {
    double er, aj, gn, gg, gfa, gfb;
    double ER() const { return er; } double resonanceEnergy() const { return er; }
    double AJ() const { return aj; } double spin() const { return aj; }
    double GN() const { return gn; } double neutronWidth() const { return gn; }
    double GG() const { return gg; } double gammaWidth() const { return gg; }
    double GFA() const { return gfa; } double firstFissionWidth() const { return gfa; }
    double GFB() const { return gfb; } double secondFissionWidth() const { return gfb; }
  };
  using ReichMooreResonance = ReichMooreResonanceOf< Any >;
  struct ReichMooreLValue {
    template< typename R > using Resonance = ReichMooreResonanceOf< R >;
    double awri, apl; long l;
    std::vector< ReichMooreResonance > rs;
    std::vector< double > j;
    ReichMooreLValue( double awri, double apl, long l, std::vector< ReichMooreResonance > r ) :
      awri( awri ), apl( apl ), l( l ), rs( std::move( r ) ) {
      for ( const auto& x : rs ) { j.push_back( x.aj ); }
    }
    double AWRI() const { return awri; } double atomicWeightRatio() const { return awri; }
    double APL() const { return apl; } double lDependentScatteringRadius() const { return apl; }
    long L() const { return l; } long orbitalMomentum() const { return l; }
    long NRS() const { return rs.size(); } long numberResonances() const { return rs.size(); }
    const std::vector< double >& spinValues() const { return j; }
    const std::vector< ReichMooreResonance >& resonances() const { return rs; }
  };
  struct ReichMoore {
    using LValue = ReichMooreLValue;
    double spi, ap; long lad, nlsc;
    std::vector< LValue > ls;
    double SPI() const { return spi; } double spin() const { return spi; }
    double AP() const { return ap; } double scatteringRadius() const { return ap; }
    long LAD() const { return lad; }
    long NLS() const { return ls.size(); } long numberLValues() const { return ls.size(); }
    long NLSC() const { return nlsc; } long numberLValuesForConvergence() const { return nlsc; }
    const std::vector< LValue >& lValues() const { return ls; }
  };

  struct RMatrixLimited {
    struct ParticlePairs {
      std::vector< double > ma, mb, za, zb, ia, ib, q;
      std::vector< int > pnt, shf, mt, pa, pb;
      const auto& massParticleA() const { return ma; } const auto& massParticleB() const { return mb; }
      const auto& chargeParticleA() const { return za; } const auto& chargeParticleB() const { return zb; }
      const auto& spinParticleA() const { return ia; } const auto& spinParticleB() const { return ib; }
      const auto& Q() const { return q; }
      const auto& penetrabilityFlag() const { return pnt; }
      const auto& shiftFactorFlag() const { return shf; }
      const auto& MT() const { return mt; }
      const auto& parityParticleA() const { return pa; } const auto& parityParticleB() const { return pb; }
      long NPP() const { return ma.size(); } long numberParticlePairs() const { return ma.size(); }
    };
    struct ResonanceChannels {
      double aj; int pj;
      std::vector< unsigned int > ppi, l;
      std::vector< double > sch, bnd, ape, apt;
      double AJ() const { return aj; } double spin() const { return aj; }
      int PJ() const { return pj; } int parity() const { return pj; }
      long numberChannels() const { return ppi.size(); }
      const auto& particlePairNumbers() const { return ppi; }
      const auto& orbitalMomentumValues() const { return l; }
      const auto& channelSpinValues() const { return sch; }
      const auto& boundaryConditionValues() const { return bnd; }
      const auto& effectiveChannelRadii() const { return ape; }
      const auto& trueChannelRadii() const { return apt; }
    };
    struct ResonanceParameters {
      std::vector< double > er;
      std::vector< std::vector< double > > gam;
      long numberResonances() const { return er.size(); }
      const auto& resonanceEnergies() const { return er; }
      const auto& resonanceParameters() const { return gam; }
    };
    struct SpinGroup {
      ResonanceChannels ch; ResonanceParameters par;
      const ResonanceChannels& channels() const { return ch; }
      const ResonanceParameters& parameters() const { return par; }
    };
    long ifg, krm, krl;
    ParticlePairs pairs;
    std::vector< SpinGroup > groups;
    long IFG() const { return ifg; } long reducedWidths() const { return ifg; }
    long KRM() const { return krm; } long formalism() const { return krm; }
    long numberSpinGroups() const { return groups.size(); }
    const ParticlePairs& particlePairs() const { return pairs; }
    const std::vector< SpinGroup >& spinGroups() const { return groups; }
  };

  struct UnresolvedEnergyIndependent {
    struct AnyRange {};
    template< typename Range = AnyRange > struct JValue {
      double d, aj, amun, gno, gg;
      double spin() const { return aj; }
      double averageLevelSpacing() const { return d; }
      double averageNeutronWidth() const { return gno; }
      double averageGammaWidth() const { return gg; }
      double averageFissionWidth() const { return 0.; }
      double averageCompetitiveWidth() const { return 0.; }
      double neutronWidthDegreesFreedom() const { return amun; }
      double gammaWidthDegreesFreedom() const { return 0.; }
      double fissionWidthDegreesFreedom() const { return 0.; }
      double competitiveWidthDegreesFreedom() const { return 0.; }
    };
    struct LValue {
      double awri; long l; std::vector< JValue<> > js;
      double AWRI() const { return awri; } double atomicWeightRatio() const { return awri; }
      long L() const { return l; } long orbitalMomentum() const { return l; }
      long NJS() const { return js.size(); } long numberSpinValues() const { return js.size(); }
      const auto& jValues() const { return js; }
    };
    double spi, ap; long lssf; std::vector< LValue > ls;
    double SPI() const { return spi; } double spin() const { return spi; }
    double AP() const { return ap; } double scatteringRadius() const { return ap; }
    long LSSF() const { return lssf; }
    long NLS() const { return ls.size(); } long numberLValues() const { return ls.size(); }
    const auto& lValues() const { return ls; }
  };
  struct UnresolvedEnergyDependentFissionWidths {
    struct JValue {
      double d, aj, amun, gno, gg; long muf; std::vector< double > gf;
      double spin() const { return aj; }
      double averageLevelSpacing() const { return d; }
      double averageNeutronWidth() const { return gno; }
      double averageGammaWidth() const { return gg; }
      const std::vector< double >& averageFissionWidths() const { return gf; }
      double averageCompetitiveWidth() const { return 0.; }
      double neutronWidthDegreesFreedom() const { return amun; }
      double gammaWidthDegreesFreedom() const { return 0.; }
      double fissionWidthDegreesFreedom() const { return muf; }
      double competitiveWidthDegreesFreedom() const { return 0.; }
    };
    struct LValue {
      double awri; long l; std::vector< JValue > js;
      double AWRI() const { return awri; } double atomicWeightRatio() const { return awri; }
      long L() const { return l; } long orbitalMomentum() const { return l; }
      long NJS() const { return js.size(); } long numberSpinValues() const { return js.size(); }
      const auto& jValues() const { return js; }
    };
    double spi, ap; long lssf; std::vector< double > es; std::vector< LValue > ls;
    double SPI() const { return spi; } double spin() const { return spi; }
    double AP() const { return ap; } double scatteringRadius() const { return ap; }
    long LSSF() const { return lssf; }
    long NLS() const { return ls.size(); } long numberLValues() const { return ls.size(); }
    const std::vector< double >& energies() const { return es; }
    const auto& lValues() const { return ls; }
  };
  struct UnresolvedEnergyDependent {
    struct JValue {
      double aj; long interp; double amux, amun, amug, amuf;
      std::vector< double > es, d, gx, gno, gg, gf;
      double spin() const { return aj; }
      const auto& energies() const { return es; }
      const auto& averageLevelSpacings() const { return d; }
      const auto& averageNeutronWidths() const { return gno; }
      const auto& averageGammaWidths() const { return gg; }
      const auto& averageFissionWidths() const { return gf; }
      const auto& averageCompetitiveWidths() const { return gx; }
      double neutronWidthDegreesFreedom() const { return amun; }
      double gammaWidthDegreesFreedom() const { return amug; }
      double fissionWidthDegreesFreedom() const { return amuf; }
      double competitiveWidthDegreesFreedom() const { return amux; }
    };
    struct LValue {
      double awri; long l; std::vector< JValue > js;
      double AWRI() const { return awri; } double atomicWeightRatio() const { return awri; }
      long L() const { return l; } long orbitalMomentum() const { return l; }
      long NJS() const { return js.size(); } long numberSpinValues() const { return js.size(); }
      const auto& jValues() const { return js; }
    };
    double spi, ap; long lssf; std::vector< LValue > ls;
    double SPI() const { return spi; } double spin() const { return spi; }
    double AP() const { return ap; } double scatteringRadius() const { return ap; }
    long LSSF() const { return lssf; }
    long NLS() const { return ls.size(); } long numberLValues() const { return ls.size(); }
    const auto& lValues() const { return ls; }
  };

  using Parameters = std::variant< SpecialCase, SingleLevelBreitWigner, MultiLevelBreitWigner,
                                   ReichMoore, RMatrixLimited, UnresolvedEnergyIndependent,
                                   UnresolvedEnergyDependentFissionWidths, UnresolvedEnergyDependent >;

  class ResonanceRange {
    double el_, eh_; long lru_, lrf_, nro_, naps_;
    Parameters parameters_;
    std::optional< ScatteringRadius > radius_;
  public:
    ResonanceRange( double el, double eh, long lru, long lrf, long nro, long naps,
                    Parameters p, std::optional< ScatteringRadius > r = std::nullopt ) :
      el_( el ), eh_( eh ), lru_( lru ), lrf_( lrf ), nro_( nro ), naps_( naps ),
      parameters_( std::move( p ) ), radius_( std::move( r ) ) {}
    double EL() const { return el_; } double lowerEnergy() const { return el_; }
    double EH() const { return eh_; } double upperEnergy() const { return eh_; }
    long LRU() const { return lru_; } long type() const { return lru_; }
    long LRF() const { return lrf_; } long representation() const { return lrf_; }
    long NRO() const { return nro_; }
    long NAPS() const { return naps_; } long scatteringRadiusCalculationOption() const { return naps_; }
    const Parameters& parameters() const { return parameters_; }
    const std::optional< ScatteringRadius >& scatteringRadius() const { return radius_; }
  };
  struct Isotope {
    double zai, abn; std::vector< ResonanceRange > ranges;
    double ZAI() const { return zai; } double ABN() const { return abn; }
    const std::vector< ResonanceRange >& resonanceRanges() const { return ranges; }
  };

private:
  HeadRecord head_;
  std::vector< Isotope > isotopes_;

  template< typename It > static BreitWigner breitWigner( It& it, const It& end ){
    auto c = detail::cont( it, end );
    BreitWigner bw{ c.c1, c.c2, {} };
    for ( long i = 0; i < c.n1; ++i ) {
      auto l = detail::list( it, end );
      std::vector< BreitWignerResonance > rs;
      for ( std::size_t k = 0; k + 6 <= l.data.size(); k += 6 ) {
        const auto* d = &l.data[k];
        rs.push_back( { d[0], d[1], d[2], d[3], d[4], d[5] } );
      }
      bw.ls.emplace_back( l.c1, l.c2, l.l1, l.l2, std::move( rs ) );
    }
    return bw;
  }
  template< typename It > static ReichMoore reichMoore( It& it, const It& end ){
    auto c = detail::cont( it, end );
    ReichMoore rm{ c.c1, c.c2, c.l1, c.n2, {} };
    for ( long i = 0; i < c.n1; ++i ) {
      auto l = detail::list( it, end );
      std::vector< ReichMooreResonance > rs;
      for ( std::size_t k = 0; k + 6 <= l.data.size(); k += 6 ) {
        const auto* d = &l.data[k];
        rs.push_back( { d[0], d[1], d[2], d[3], d[4], d[5] } );
      }
      rm.ls.emplace_back( l.c1, l.c2, l.l1, std::move( rs ) );
    }
    return rm;
  }
  template< typename It > static RMatrixLimited rMatrix( It& it, const It& end ){
    auto c = detail::cont( it, end );
    RMatrixLimited rml{ c.l1, c.l2, c.n2, {}, {} };
    auto p = detail::list( it, end );
    for ( std::size_t k = 0; k + 12 <= p.data.size(); k += 12 ) {
      const auto* d = &p.data[k];
      auto& q = rml.pairs;
      q.ma.push_back( d[0] ); q.mb.push_back( d[1] ); q.za.push_back( d[2] ); q.zb.push_back( d[3] );
      q.ia.push_back( d[4] ); q.ib.push_back( d[5] ); q.q.push_back( d[6] ); q.pnt.push_back( d[7] );
      q.shf.push_back( d[8] ); q.mt.push_back( d[9] ); q.pa.push_back( d[10] ); q.pb.push_back( d[11] );
    }
    for ( long i = 0; i < c.n1; ++i ) {
      auto h = detail::list( it, end );
      RMatrixLimited::SpinGroup g;
      g.ch.aj = h.c1; g.ch.pj = h.c2;
      for ( std::size_t k = 0; k + 6 <= h.data.size(); k += 6 ) {
        const auto* d = &h.data[k];
        g.ch.ppi.push_back( d[0] ); g.ch.l.push_back( d[1] ); g.ch.sch.push_back( d[2] );
        g.ch.bnd.push_back( d[3] ); g.ch.ape.push_back( d[4] ); g.ch.apt.push_back( d[5] );
      }
      auto r = detail::list( it, end );
      const long nch = g.ch.ppi.size(), stride = ( ( nch + 1 + 5 ) / 6 ) * 6;
      for ( long k = 0; k < r.l2; ++k ) {
        g.par.er.push_back( r.data.at( k * stride ) );
        g.par.gam.emplace_back( r.data.begin() + k * stride + 1,
                                r.data.begin() + k * stride + 1 + nch );
      }
      rml.groups.push_back( std::move( g ) );
    }
    return rml;
  }
  template< typename It > static Parameters unresolvedA( It& it, const It& end ){
    auto c = detail::cont( it, end );
    UnresolvedEnergyIndependent u{ c.c1, c.c2, c.l1, {} };
    for ( long i = 0; i < c.n1; ++i ) {
      auto l = detail::list( it, end );
      UnresolvedEnergyIndependent::LValue v{ l.c1, l.l1, {} };
      for ( std::size_t k = 0; k + 6 <= l.data.size(); k += 6 ) {
        const auto* d = &l.data[k];
        v.js.push_back( { d[0], d[1], d[2], d[3], d[4] } );
      }
      u.ls.push_back( std::move( v ) );
    }
    return u;
  }
  template< typename It > static Parameters unresolvedB( It& it, const It& end ){
    auto h = detail::list( it, end );
    UnresolvedEnergyDependentFissionWidths u{ h.c1, h.c2, h.l1, h.data, {} };
    for ( long i = 0; i < h.n2; ++i ) {
      auto c = detail::cont( it, end );
      UnresolvedEnergyDependentFissionWidths::LValue v{ c.c1, c.l1, {} };
      for ( long j = 0; j < c.n1; ++j ) {
        auto l = detail::list( it, end );
        v.js.push_back( { l.data[0], l.data[1], l.data[2], l.data[3], l.data[4], l.l2,
                          { l.data.begin() + 6, l.data.end() } } );
      }
      u.ls.push_back( std::move( v ) );
    }
    return u;
  }
  template< typename It > static Parameters unresolvedC( It& it, const It& end ){
    auto c = detail::cont( it, end );
    UnresolvedEnergyDependent u{ c.c1, c.c2, c.l1, {} };
    for ( long i = 0; i < c.n1; ++i ) {
      auto cl = detail::cont( it, end );
      UnresolvedEnergyDependent::LValue v{ cl.c1, cl.l1, {} };
      for ( long j = 0; j < cl.n1; ++j ) {
        auto l = detail::list( it, end );
        UnresolvedEnergyDependent::JValue q{ l.c1, l.l1, l.data[2], l.data[3], l.data[4], l.data[5],
                                             {}, {}, {}, {}, {}, {} };
        for ( std::size_t k = 6; k + 6 <= l.data.size(); k += 6 ) {
          const auto* d = &l.data[k];
          q.es.push_back( d[0] ); q.d.push_back( d[1] ); q.gx.push_back( d[2] );
          q.gno.push_back( d[3] ); q.gg.push_back( d[4] ); q.gf.push_back( d[5] );
        }
        v.js.push_back( std::move( q ) );
      }
      u.ls.push_back( std::move( v ) );
    }
    return u;
  }

public:
  Type( std::vector< Isotope > isotopes ) :
    head_( detail::Cont{ 0., 0., 0, 0, long( isotopes.size() ), 0 } ),
    isotopes_( std::move( isotopes ) ) {}
  template< typename It >
  Type( const HeadRecord& head, It& it, const It& end, long&, int ) : head_( head ) {
    for ( long i = 0; i < head.N1(); ++i ) {
      auto c = detail::cont( it, end );
      Isotope iso{ c.c1, c.c2, {} };
      const long lfw = c.l2;
      for ( long r = 0; r < c.n1; ++r ) {
        auto h = detail::cont( it, end );
        const long lru = h.l1, lrf = h.l2, nro = h.n1, naps = h.n2;
        std::optional< ScatteringRadius > radius;
        if ( nro ) {
          auto t = detail::cont( it, end );
          auto b = detail::values( it, end, 2 * t.n1 );
          std::vector< long > bo, in;
          for ( std::size_t k = 0; k < b.size(); k += 2 ) { bo.push_back( b[k] ); in.push_back( b[k+1] ); }
          auto p = detail::values( it, end, 2 * t.n2 );
          std::vector< double > x, y;
          for ( std::size_t k = 0; k < p.size(); k += 2 ) { x.push_back( p[k] ); y.push_back( p[k+1] ); }
          radius = ScatteringRadius( std::move( bo ), std::move( in ), std::move( x ), std::move( y ) );
        }
        auto parameters = [&]() -> Parameters {
          if ( lru == 0 ) { auto s = detail::cont( it, end ); return SpecialCase{ s.c1, s.c2 }; }
          if ( lru == 1 ) {
            switch ( lrf ) {
              case 1 : return SingleLevelBreitWigner( breitWigner( it, end ) );
              case 2 : return MultiLevelBreitWigner( breitWigner( it, end ) );
              case 3 : return reichMoore( it, end );
              case 7 : return rMatrix( it, end );
            }
            throw std::runtime_error( "unsupported LRF" );
          }
          if ( lrf == 2 ) { return unresolvedC( it, end ); }
          return lfw ? unresolvedB( it, end ) : unresolvedA( it, end );
        }();
        iso.ranges.emplace_back( h.c1, h.c2, lru, lrf, nro, naps, std::move( parameters ),
                                 std::move( radius ) );
      }
      isotopes_.push_back( std::move( iso ) );
    }
  }
  double ZA() const { return head_.ZA(); }
  double AWR() const { return head_.AWR(); }
  const std::vector< Isotope >& isotopes() const { return isotopes_; }
};
}
}
}
#endif
