/// Breit-Wigner resonances of a neutron channel. A level has the collision function
///   U(r) = exp(-2 i phi) (1 + i Gn / (E(r)' - E - i G / 2))
/// with Gn, Gx proportional to the penetrability and E(r)' following the shift factor. With many
/// levels, the single-level cross sections add up those of each level alone, the multi-level ones
/// use one collision function for all levels of the spin group.
module bwmodel {
  import num.* from "./num"
  import io.* from "./io"
  import sphere.* from "./sphere"
  import kinematics.* from "./kinematics"
  import coulombwave.* from "./coulombwave"
  import rmodel.* from "./rmodel"

  /// energy, widths (elastic, capture, fission, competition) at it, and P, P of the competition, S there
  type Level = { e: int, n: int, g: int, f: int, x: int, p: int, q: int, s: int }
  type Series = { channel: Channel, levels: List[Level], qx: int }

  pure def flatSeries(t: Series): Flat =
    all_([flatChannel(t.channel), fi([t.levels.length()]),
          fr(t.levels.foldl([], (l, r) => l.concat([r.e, r.n, r.g, r.f, r.x, r.p, r.q, r.s]))), fr([t.qx])])

  pure def elasticText(c: Channel): Text = pairText(c.pair).concat(["->"]).concat(pairText(c.pair))
  pure def captureKey(c: Channel): Text = pairText(c.pair).concat(["->", "capture"])
  pure def fissionKey(c: Channel): Text = pairText(c.pair).concat(["->", "fission"])

  /// a level at an energy; err: uncertainty of d in last places, amp: relative one of 1 / den
  type Dressed = { n: int, g: int, f: int, t: int, d: int, den: int, err: int, amp: int }
  pure def dress(r: Level, e: int, P: int, Q: int, S: int): Dressed = {
    pure val n = r.n * P / r.p
    pure val t = n + r.g + r.f + r.x * Q / r.q
    pure val moved = r.n * (r.s - S) / r.p / 2
    pure val d = e - r.e - moved
    pure val den = sq(d) + sq(t) / 4
    pure val err = absi(e) + absi(r.e) + r.n * (absi(r.s) + absi(S)) / r.p
    { n: n, g: r.g, f: r.f, t: t, d: d, den: den, err: err, amp: dvd(2 * mul(absi(d), err), den) }
  }
  /// i Gn / (E' - E - i G / 2)
  pure def amplitude(x: Dressed): Cplx = cmul(cx(0, ONE), cdiv(cx(x.n, 0), cx(-x.d, -x.t / 2)))

  /// contributions of a spin group to its three reactions
  pure def levels(t: Series, st: State, Q: int, e: int): List[Dressed] =
    t.levels.foldl([], (l, r) => l.append(dress(r, e, st.P, Q, st.S)))
  pure def competing(t: Series, st: State, e: int): int =
    if (t.qx == 0) st.P else channelState(t.channel, e - t.qx).P
  pure def sigmas(t: Series, e: int, multi: bool): List[Item] = {
    pure val st = channelState(t.channel, e)
    sigmasWith(t, st, competing(t, st, e), e, multi)
  }
  /// Q: penetrability of the competing channel
  pure def sigmasWith(t: Series, st: State, Q: int, e: int, multi: bool): List[Item] = {
    pure val xs = levels(t, st, Q, e)
    pure val factor = mul(dvd(PI, sq(st.k)), spinFactor(t.channel))
    pure val outside = cis(-2 * st.phi)
    pure def scattered(a: Cplx): int = cnorm(csub(C1, cmul(outside, cadd(C1, a)))) - cnorm(csub(C1, outside))
    pure val el = if (multi) scattered(xs.foldl(C0, (s, x) => cadd(s, amplitude(x))))
                  else xs.foldl(0, (s, x) => s + scattered(amplitude(x)))
    pure val cap = xs.foldl(0, (s, x) => s + x.n * x.g / x.den)
    pure val fis = xs.foldl(0, (s, x) => s + x.n * x.f / x.den)
    // the last digits of P, S and phi
    pure val more = 8 * (t.channel.l + 1) * ONE
    pure val angle = absi(sin(2 * st.phi)) + 4 * st.rho
    pure val elMag = xs.foldl(0, (s, x) => s +
      mul(mul(more + x.amp, x.n), dvd(x.n + 2 * mul(x.t, mini(ONE, angle)) + 2 * mul(absi(x.d), angle), x.den)) +
      mul(2 * x.n, dvd(mul(x.err, angle), x.den)))
    pure val crossMag = if (not(multi)) 0 else xs.foldl(0, (s, x) => xs.foldl(s, (u, y) => u +
      mul(dvd(mul(x.n, y.n), x.den), dvd(mul(more + x.amp + y.amp, mul(absi(x.d), absi(y.d)) + mul(x.t, y.t)) +
        mul(absi(x.d), y.err) + mul(absi(y.d), x.err), y.den))))
    pure val capMag = xs.foldl(0, (s, x) => s + mul(more + x.amp, x.n * x.g / x.den))
    pure val fisMag = xs.foldl(0, (s, x) => s + mul(more + x.amp, x.n * x.f / x.den))
    [{ key: elasticText(t.channel), v: mul(factor, el), mag: mul(factor, elMag + crossMag) },
     { key: captureKey(t.channel), v: mul(factor, cap), mag: mul(factor, capMag) }]
      .concat(if (t.levels.select(r => r.f != 0 and r.n != 0).length() == 0) [] else [{ key: fissionKey(t.channel), v: mul(factor, fis), mag: mul(factor, fisMag) }])
  }

  /// what a hard sphere scatters in some waves, and in all up to an l
  pure def potentialOf(c: Channel, ls: List[int], e: int): Item = {
    pure val st = channelState(c, e)
    pure val rho = mul(st.k, st.aF)
    pure val factor = 4 * dvd(PI, sq(st.k))
    pure val sums = ls.foldl({ v: 0, m: 0 }, (s, l) => {
      pure val x = sin(hard(l, rho).phi)
      { v: s.v + (2 * l + 1) * sq(x), m: s.m + (2 * l + 1) * (4 * sq(x) + 4 * mul(absi(x), rho) + sq(rho) / 10^15) } })
    { key: elasticText(c), v: mul(factor, sums.v), mag: mul(factor, sums.m) }
  }
  pure def potential(c: Channel, lmax: int, e: int): Item = potentialOf(c, range(0, lmax + 1), e)

  pure def points(t: Series): List[int] =
    t.levels.select(r => r.e > 0).foldl([], (l, r) => {
      pure val half = (r.n + r.g + r.f + r.x) / 2
      l.concat([r.e - half, r.e, r.e + half]) })

  pure def onlyOnce(cs: List[Channel]): bool = and {
    cs.length() > 0,
    0.to(cs.length() - 1).forall(i => 0.to(i - 1).forall(k => cs[i].l != cs[k].l or cs[i].j != cs[k].j)) }

  run bwmodelTest = {
    // a single level takes as much from the elastic wave as goes to the other reactions, and the
    // textbook form of the elastic cross section of a level and of the interference of two
    val c = testChannel(1, 1, NEUTRON, "")
    val r: Level = { e: 1000 * ONE, n: 2 * ONE, g: HALF, f: ONE, x: 0, p: HALF, q: HALF, s: -HALF }
    val t: Series = { channel: c, levels: [r], qx: 0 }
    val u: Series = { channel: c, levels: [r, { ...r, e: 1004 * ONE }], qx: 0 }
    val e = 1001 * ONE
    val st = channelState(c, e)
    val x = dress(r, e, st.P, st.P, st.S)
    val y = dress(u.levels[1], e, st.P, st.P, st.S)
    val factor = mul(dvd(PI, sq(st.k)), spinFactor(c))
    val a = cadd(C1, amplitude(x))
    val one = sigmas(t, e, false)
    val both = sigmas(u, e, true)[0].v - sigmas(u, e, false)[0].v
    val el = dvd(mul(x.n, x.n - 2 * mul(x.t, sq(sin(st.phi))) + 2 * mul(x.d, sin(2 * st.phi))), x.den)
    val inter = 2 * mul(dvd(mul(x.n, y.n), x.den), dvd(mul(x.d, y.d) + mul(x.t, y.t) / 4, y.den))
    all {
      assert(absi(ONE - cnorm(a) - (x.n * (x.g + x.f) / x.den)) < 2^40),
      assert(absi(one[0].v - mul(factor, el)) < mul(factor, 2^60)),
      assert(absi(both - mul(factor, inter)) < mul(factor, 2^60)),
      assert(one.length() == 3),
    }
  }
}
