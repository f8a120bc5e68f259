// Resonance ranges as the specifications describe them.
#ifndef VERIF_ENDFREAD_HPP
#define VERIF_ENDFREAD_HPP
using MF2 = njoy::ENDFtk::section::Type< 2, 151 >;

std::vector< MF2::BreitWignerLValue > readBreitWigner( Items& r ){
  std::vector< MF2::BreitWignerLValue > ls;
  for ( long k = 0, n = r.I(); k < n; ++k ) {
    const auto l = r.I(), lrx = r.I();
    const auto awri = r.R(), qx = r.R(); r.R();
    std::vector< MF2::BreitWignerResonance > rs;
    for ( long i = 0, m = r.I(); i < m; ++i ) {
      const auto j = r.I();
      const auto e = r.R(), gt = r.R(), gn = r.R(), gg = r.R(), gf = r.R();
      rs.push_back( { e, 0.5 * j, gt, gn, gg, gf } );
    }
    ls.emplace_back( awri, qx, l, lrx, std::move( rs ) );
  }
  return ls;
}
std::vector< MF2::ReichMooreLValue > readReichMoore( Items& r ){
  std::vector< MF2::ReichMooreLValue > ls;
  for ( long k = 0, n = r.I(); k < n; ++k ) {
    const auto l = r.I(); r.I();
    const auto awri = r.R(); r.R(); const auto apl = r.R();
    std::vector< MF2::ReichMooreResonance > rs;
    for ( long i = 0, m = r.I(); i < m; ++i ) {
      const auto j = r.I();
      const auto e = r.R(), gn = r.R(), gg = r.R(), gfa = r.R(), gfb = r.R();
      rs.push_back( { e, 0.5 * j, gn, gg, gfa, gfb } );
    }
    ls.emplace_back( awri, apl, l, std::move( rs ) );
  }
  return ls;
}
MF2::RMatrixLimited readLimited( Items& r ){
  MF2::RMatrixLimited x;
  x.ifg = r.I(); x.krm = r.I(); x.krl = 0;
  auto& p = x.pairs;
  for ( long k = 0, n = r.I(); k < n; ++k ) {
    p.za.push_back( r.I() ); p.zb.push_back( r.I() ); p.ia.push_back( 0.5 * r.I() ); p.ib.push_back( 0.5 * r.I() );
    p.pnt.push_back( r.I() ); p.shf.push_back( r.I() ); p.mt.push_back( r.I() ); p.pa.push_back( r.I() ); p.pb.push_back( r.I() );
    p.ma.push_back( r.R() ); p.mb.push_back( r.R() ); p.q.push_back( r.R() );
  }
  for ( long k = 0, n = r.I(); k < n; ++k ) {
    MF2::RMatrixLimited::SpinGroup g;
    g.ch.aj = 0.5 * r.I(); g.ch.pj = r.I();
    const auto nch = r.I();
    for ( long c = 0; c < nch; ++c ) {
      g.ch.ppi.push_back( r.I() ); g.ch.l.push_back( r.I() ); g.ch.sch.push_back( 0.5 * r.I() );
      g.ch.bnd.push_back( r.R() ); g.ch.ape.push_back( r.R() ); g.ch.apt.push_back( r.R() );
    }
    for ( long i = 0, m = r.I(); i < m; ++i ) {
      g.par.er.push_back( r.R() );
      g.par.gam.emplace_back();
      for ( long c = 0; c < nch; ++c ) { g.par.gam.back().push_back( r.R() ); }
    }
    x.groups.push_back( std::move( g ) );
  }
  return x;
}
// unresolved: l values, J values with degrees of freedom (n, g, f, x) and rows of ( e, d, n, g, f, x )
template < typename U, typename F > void readUnresolved( Items& r, U& u, F&& makeJ ){
  for ( long k = 0, n = r.I(); k < n; ++k ) {
    typename U::LValue v;
    v.l = r.I(); v.awri = r.R();
    for ( long i = 0, m = r.I(); i < m; ++i ) {
      const auto j = r.I(); const auto dn = r.I(), dg = r.I(), df = r.I(), dx = r.I();
      std::vector< std::array< double, 6 > > rows;
      for ( long q = 0, nq = r.I(); q < nq; ++q ) {
        std::array< double, 6 > row; for ( auto& y : row ) { y = r.R(); } rows.push_back( row ); }
      v.js.push_back( makeJ( 0.5 * j, dn, dg, df, dx, rows ) );
    }
    u.ls.push_back( std::move( v ) );
  }
}
using Rows = std::vector< std::array< double, 6 > >;
std::vector< double > column( const Rows& rows, int c ){
  std::vector< double > v; for ( const auto& x : rows ) { v.push_back( x[c] ); } return v; }

MF2::ResonanceRange readRange( Items& r ){
  const auto lru = r.I(), lrf = r.I(), naps = r.I(), kind = r.I();
  const auto lower = r.R(), upper = r.R();
  std::optional< MF2::ScatteringRadius > radius;
  const auto regions = r.I();
  if ( regions ) {
    std::vector< long > b, laws; std::vector< double > x, y;
    for ( long k = 0; k < regions; ++k ) {
      laws.push_back( r.I() ); const auto m = r.I();
      for ( long j = 0; j < m; ++j ) {
        const auto a = r.R(), c = r.R();
        if ( k == 0 or j > 0 ) { x.push_back( a ); y.push_back( c ); }   // regions share their border
      }
      b.push_back( x.size() );
    }
    radius = MF2::ScatteringRadius( std::move( b ), std::move( laws ), std::move( x ), std::move( y ) );
  }
  else { r.R(); }
  const auto spi = 0.5 * r.I(); const auto ap = r.R(); const auto nlsc = r.I();
  auto parameters = [&]() -> MF2::Parameters {
    switch ( kind ) {
      case 1: return MF2::SingleLevelBreitWigner( MF2::BreitWigner{ spi, ap, readBreitWigner( r ) } );
      case 2: return MF2::MultiLevelBreitWigner( MF2::BreitWigner{ spi, ap, readBreitWigner( r ) } );
      case 3: return MF2::ReichMoore{ spi, ap, 0, nlsc, readReichMoore( r ) };
      case 4: return readLimited( r );
      case 5: {
        MF2::UnresolvedEnergyIndependent u{ spi, ap, 0, {} };
        readUnresolved( r, u, []( double j, long dn, long, long, long, const Rows& x ){
          return MF2::UnresolvedEnergyIndependent::JValue<>{ x[0][1], j, double( dn ), x[0][2], x[0][3] }; } );
        return u;
      }
      case 6: {
        MF2::UnresolvedEnergyDependentFissionWidths u{ spi, ap, 0, {}, {} };
        readUnresolved( r, u, [&]( double j, long dn, long, long df, long, const Rows& x ){
          u.es = column( x, 0 );
          return MF2::UnresolvedEnergyDependentFissionWidths::JValue{ x[0][1], j, double( dn ), x[0][2], x[0][3], df, column( x, 4 ) }; } );
        return u;
      }
      case 7: {
        MF2::UnresolvedEnergyDependent u{ spi, ap, 0, {} };
        readUnresolved( r, u, []( double j, long dn, long dg, long df, long dx, const Rows& x ){
          return MF2::UnresolvedEnergyDependent::JValue{ j, 2, double( dx ), double( dn ), double( dg ), double( df ),
            column( x, 0 ), column( x, 1 ), column( x, 5 ), column( x, 2 ), column( x, 3 ), column( x, 4 ) }; } );
        return u;
      }
      default: return MF2::SpecialCase{ spi, ap };
    }
  }();
  return MF2::ResonanceRange( lower, upper, lru, lrf, regions ? 1 : 0, naps, std::move( parameters ), std::move( radius ) );
}
#endif
