/// Average cross sections in the unresolved region: Porter-Thomas averages by a ten point quadrature
/// for each number of degrees of freedom, parameters linear between the energies of a table, and the
/// energies at which to evaluate.
module averages {
  import num.* from "./num"
  import io.* from "./io"
  import sphere.* from "./sphere"
  import kinematics.* from "./kinematics"
  import coulombwave.* from "./coulombwave"
  import rmodel.* from "./rmodel"
  import bwmodel.* from "./bwmodel"

  // the quadrature of MC^2-II (as in NJOY), eight digits, for 1 to 4 degrees of freedom
  pure def decimal(m: int, k: int): int = m * ONE / 10^k
  pure val WEIGHT: List[List[int]] = [
    [decimal(11120413, 8), decimal(23546798, 8), decimal(28440987, 8), decimal(22419127, 8), decimal(10967668, 8),
     decimal(30493789, 9), decimal(42930874, 10), decimal(25827047, 11), decimal(49031965, 13), decimal(14079206, 15)],
    [decimal(33773418, 9), decimal(79932171, 9), decimal(12835937, 8), decimal(17652616, 8), decimal(21347043, 8),
     decimal(21154965, 8), decimal(13365186, 8), decimal(22630659, 9), decimal(16313638, 12), decimal(27453830, 38)],
    [decimal(33376214, 11), decimal(18506108, 9), decimal(12309946, 8), decimal(29918923, 8), decimal(33431475, 8),
     decimal(17766657, 8), decimal(42695894, 9), decimal(40760575, 10), decimal(11766115, 11), decimal(50989546, 14)],
    [decimal(17623788, 10), decimal(21517749, 9), decimal(80979849, 9), decimal(18797998, 8), decimal(30156335, 8),
     decimal(29616091, 8), decimal(10775649, 8), decimal(25171914, 10), decimal(89630388, 17), 0]]
  pure val NODES2: List[int] = [decimal(13219203, 9), decimal(72349624, 9), decimal(19089473, 8), decimal(39528842, 8), decimal(74083443, 8),
     decimal(13498293, 7), decimal(25297983, 7), decimal(52384894, 7), decimal(13821772, 6), decimal(75647525, 6)]
  pure val NODE: List[List[int]] = [
    [decimal(30013465, 10), decimal(78592886, 9), decimal(43282415, 8), decimal(13345267, 7), decimal(30481846, 7),
     decimal(58263198, 7), decimal(99452656, 7), decimal(15782128, 6), decimal(23996824, 6), decimal(36216208, 6)],
    NODES2,
    [decimal(10004488, 10), decimal(26197629, 9), decimal(14427472, 8), decimal(44484223, 8), decimal(10160615, 7),
     decimal(19421066, 7), decimal(33150885, 7), decimal(52607092, 7), decimal(79989414, 7), decimal(12072069, 6)],
    NODES2]

  /// a fluctuating width: value times x, with weight w
  type Point = { x: int, w: int }
  pure def spread(width: int, degrees: int): List[Point] =
    if (width == 0) [{ x: 0, w: ONE }]
    else range(0, 10).foldl([], (l, i) => l.append({ x: NODE[degrees - 1][i], w: WEIGHT[degrees - 1][i] }))

  /// elastic, capture, fission, competition
  type Quad = { n: int, g: int, f: int, x: int }
  /// < xn xj / (xn Gn + Gg + xf Gf + xx Gx) >, with xj = xn, 1, xf, xx
  pure def integrals(widths: Quad, degrees: Quad): Quad =
    range(0, 10).foldl({ n: 0, g: 0, f: 0, x: 0 }, (s, i) => {
      pure val p = { x: NODE[degrees.n - 1][i], w: WEIGHT[degrees.n - 1][i] }
      spread(widths.f, degrees.f).foldl(s, (t, q) => spread(widths.x, degrees.x).foldl(t, (u, r) => {
        pure val den = mul(p.x, widths.n) + widths.g + mul(q.x, widths.f) + mul(r.x, widths.x)
        pure val v = dvd(mul(mul(mul(p.w, q.w), r.w), p.x), den)
        { n: u.n + mul(v, p.x), g: u.g + v, f: u.f + mul(v, q.x), x: u.x + mul(v, r.x) } })) })

  /// parameters at an energy: spacing, reduced elastic width, capture, fission, competition
  type Node = { e: int, d: int, n: int, g: int, f: int, x: int }
  type Band = { channel: Channel, nodes: List[Node], degrees: Quad }
  pure def flatBand(b: Band): Flat =
    all_([flatChannel(b.channel), fi([b.nodes.length()]),
          fr(b.nodes.foldl([], (l, r) => l.concat([r.e, r.d, r.n, r.g, r.f, r.x]))),
          fi([b.degrees.n, b.degrees.g, b.degrees.f, b.degrees.x])])
  pure def first(b: Band): int = b.nodes[0].e
  pure def last(b: Band): int = b.nodes[b.nodes.length() - 1].e
  pure def sound(b: Band): bool = b.nodes.length() >= 2 and
    [b.degrees.n, b.degrees.g, b.degrees.f, b.degrees.x].select(k => k > 4).length() == 0

  pure def at(b: Band, e: int): Node = {
    pure val i = range(1, b.nodes.length()).select(k => b.nodes[k].e >= e)[0]
    pure val u = b.nodes[i - 1]
    pure val v = b.nodes[i]
    pure def line(y0: int, y1: int): int = y0 + (y1 - y0) * (e - u.e) / (v.e - u.e)
    { e: e, d: line(u.d, v.d), n: line(u.n, v.n), g: line(u.g, v.g), f: line(u.f, v.f), x: line(u.x, v.x) }
  }
  /// how much the straight line between two values may cancel
  pure def slack(b: Band, e: int): int = {
    pure val i = range(1, b.nodes.length()).select(k => b.nodes[k].e >= e)[0]
    pure val u = b.nodes[i - 1]
    pure val v = b.nodes[i]
    pure val x = at(b, e)
    pure def one(y0: int, y1: int, y: int): int = if (y == 0) 1 else maxi(y0, y1) / y + 1
    one(u.d, v.d, x.d) + one(u.n, v.n, x.n) + one(u.g, v.g, x.g) + one(u.f, v.f, x.f) + one(u.x, v.x, x.x)
  }

  pure def average(b: Band, e: int): List[Item] = {
    pure val st = channelState(b.channel, e)
    pure val x = at(b, e)
    pure val gn = b.degrees.n * mul(mul(x.n, sqrt(e)), dvd(st.P, mul(st.k, st.aP)))
    pure val w = { n: gn, g: x.g, f: x.f, x: x.x }
    pure val none = { n: 0, g: 0, f: 0, x: 0 }
    pure val I = if (b.degrees.n == 0) none else integrals(w, b.degrees)
    pure val factor = dvd(mul(2 * dvd(sq(PI), sq(st.k)), spinFactor(b.channel)), x.d)
    pure val s = absi(sin(st.phi))
    pure val more = 8 * (b.channel.l + 1) + 2 * slack(b, e)
    pure def portion(key: Text, v: int): Item = { key: key, v: mul(factor, v), mag: more * mul(factor, v) }
    [{ key: elasticText(b.channel), v: mul(factor, mul(gn, mul(gn, I.n) - 2 * sq(s))),
       mag: more * mul(factor, mul(gn, mul(gn, I.n) + 2 * sq(s) + 4 * mul(s, st.rho))) },
     portion(captureKey(b.channel), mul(mul(gn, x.g), I.g))]
      .concat(if (x.f == 0) [] else [portion(fissionKey(b.channel), mul(mul(gn, x.f), I.f))])
  }

  // ---- energies
  pure val SCHEME = [100, 125, 150, 170, 200, 250, 300, 350, 400, 500, 600, 720, 850]
  /// scheme points of the decades 10^0 to 10^8, as fixed point
  pure val SCHEMES: List[int] = range(0, 9).foldl([], (l, d) =>
    SCHEME.foldl(l, (k, p) => k.append(p * 10^d * ONE / 100)))
  pure val POWERS: Set[int] = 0.to(9).map(d => 10^d * ONE)
  pure def wide(a: int, b: int): bool = 4 * b > 5 * a
  /// points between two energies: those of the scheme, as long as what is left is wide
  pure def between_(a: int, b: int): List[int] =
    if (not(wide(a, b))) [] else {
      pure val inside = SCHEMES.select(x => a < x and x < b)
      pure val n = inside.length()
      // the last 8.5 is close enough to what follows, and the next power of ten is left out
      if (n >= 2 and POWERS.contains(inside[n - 1]) and not(wide(inside[n - 2], b))) inside.slice(0, n - 1) else inside
    }
  pure def gridOf(bands: List[Band]): List[int] = {
    pure val es = sorted(bands.foldl([], (l, b) => b.nodes.foldl(l, (k, r) => k.append(r.e))))
    range(1, es.length()).foldl([es[0]], (l, i) => l.concat(between_(es[i - 1], es[i])).append(es[i]))
  }
  /// energies so close to a limit that rounding decides
  pure def doubtful(bands: List[Band]): bool = {
    pure val es = sorted(bands.foldl([], (l, b) => b.nodes.foldl(l, (k, r) => k.append(r.e))))
    pure def brink(x: int, y: int): bool = x != y and absi(x - y) * 10^12 < x
    or {
      es.select(x => SCHEMES.select(y => brink(x, y) or (x == y and y % ONE != 0)).length() > 0).length() > 0,
      es.select(x => SCHEMES.concat(es).select(y => brink(4 * x, 5 * y)).length() > 0).length() > 0,
    }
  }

  run averagesTest = {
    val c = testChannel(0, 1, NEUTRON, "")
    def band(es: List[int]): Band = { channel: c, degrees: { n: 1, g: 0, f: 0, x: 0 },
      nodes: es.foldl([], (l, e) => l.append({ e: e * ONE, d: ONE, n: ONE, g: ONE, f: 0, x: 0 })) }
    val w = { n: HALF, g: ONE, f: 2 * ONE, x: ONE / 3 }
    val d = { n: 1, g: 0, f: 2, x: 4 }
    val I = integrals(w, d)
    val whole = mul(I.n, w.n) + mul(I.g, w.g) + mul(I.f, w.f) + mul(I.x, w.x)
    all {
      // the quadratures integrate 1 and x, to their own precision
      assert(0.to(3).forall(k => absi(WEIGHT[k].foldl(0, (s, x) => s + x) - ONE) < ONE / 10^3)),
      assert(0.to(3).forall(k => absi(range(0, 10).foldl(0, (s, i) => s + mul(WEIGHT[k][i], NODE[k][i])) - ONE) < ONE / 500)),
      // the widths' shares of < xn > add up to 1
      assert(absi(whole - ONE) < ONE / 200),
      assert(gridOf([band([1, 10])]) == [100, 125, 150, 170, 200, 250, 300, 350, 400, 500, 600, 720, 850, 1000].foldl([], (l, x) => l.append(x * ONE / 100))),
      assert(gridOf([band([10, 12])]) == [10 * ONE, 12 * ONE]),
      assert(gridOf([band([10, 12]), band([12, 15])]) == [10 * ONE, 12 * ONE, 15 * ONE]),
      assert(gridOf([band([80, 105])]) == [80 * ONE, 85 * ONE, 105 * ONE]),
      assert(gridOf([band([80, 107])]) == [80 * ONE, 85 * ONE, 100 * ONE, 107 * ONE]),
      assert(gridOf([band([90, 120])]) == [90 * ONE, 100 * ONE, 120 * ONE]),
      assert(gridOf([band([130, 180])]) == [130 * ONE, 150 * ONE, 170 * ONE, 180 * ONE]),
      assert(gridOf([band([1000, 1250])]) == [1000 * ONE, 1250 * ONE]),
    }
  }
}
