/// Coulomb wave functions F (regular) and G (irregular) from their power series
/// in rho with the logarithmic term, carried in 416-bit fixed point because the
/// two parts of G cancel, and raised in l with the first-order ladder. Nothing
/// here resembles the asymptotic expansions and the step-wise integration that
/// the code uses.
module coulombwave {
  import num.* from "./num"
  import sphere.* from "./sphere"

  // ---- 416-bit fixed point
  pure val WB = 416
  pure val W: int = 2^416
  pure val WPI: int = 531652755241760931110077815278855423207745231269348324382552295841151772614589841325786618981699866815861016476210140036213175
  pure val EULER: int = 97682396303971916885396862826095295461435484592349189453304542386274773137224398764865538290472521209623145610842720890695313
  pure def wmul(a: int, b: int): int = a * b / W
  pure def wdvd(a: int, b: int): int = a * W / b
  pure def wsqrt(a: int): int = isqrt(a * W)
  pure def widen(a: int): int = a * 2^224
  pure def narrow(a: int): int = a / 2^224

  pure def wexp(x: int): int = {
    pure val y = x / 65536
    pure val e = range(1, 34).foldl({ t: W * 2^64, s: W * 2^64 }, (a, n) => {
      pure val t = wmul(a.t, y) / n
      { t: t, s: a.s + t } }).s
    range(0, 16).foldl(e, (a, i) => a * a / (W * 2^64)) / 2^64
  }
  pure def wln(x: int): int = {
    pure val r = range(0, 9).foldl({ m: x, k: 0 }, (s, i) => {
      pure val e = 2^(8 - i)
      if (s.m >= W * 2^e) { m: s.m / 2^e, k: s.k + e }
      else if (s.m * 2^e < 2 * W) { m: s.m * 2^e, k: s.k - e }
      else s })
    pure def series(m: int): int = {
      pure val z = wdvd(m - W, m + W)
      pure val z2 = wmul(z, z)
      2 * range(1, 135).foldl({ p: z, s: z }, (a, n) => {
        pure val p = wmul(a.p, z2)
        { p: p, s: a.s + p / (2 * n + 1) } }).s
    }
    series(r.m) + r.k * series(2 * W)
  }

  /// B(2n) / 2n
  pure val BERNOULLI: List[{ n: int, d: int }] = [
    { n: 1, d: 12 }, { n: -1, d: 120 }, { n: 1, d: 252 },
    { n: -1, d: 240 }, { n: 1, d: 132 }, { n: -691, d: 32760 },
    { n: 1, d: 12 }, { n: -3617, d: 8160 }, { n: 43867, d: 14364 },
    { n: -174611, d: 6600 }, { n: 77683, d: 276 }, { n: -236364091, d: 65520 },
    { n: 657931, d: 12 }, { n: -3392780147, d: 3480 }, { n: 1723168255201, d: 85932 },
    { n: -7709321041217, d: 16320 }, { n: 151628697551, d: 12 }, { n: -26315271553053477373, d: 69090840 },
    { n: 154210205991661, d: 12 }, { n: -261082718496449122051, d: 541200 }, { n: 1520097643918070802691, d: 75852 },
    { n: -2530297234481911294093, d: 2760 }, { n: 25932657025822267968607, d: 564 }, { n: -5609403368997817686249127547, d: 2227680 },
    { n: 19802288209643185928499101, d: 132 }, { n: -61628132164268458257532691681, d: 6360 }, { n: 29149963634884862421418123812691, d: 43092 },
    { n: -354198989901889536240773677094747, d: 6960 }, { n: 2913228046513104891794716413587449, d: 708 }, { n: -1215233140483755572040304994079820246041491, d: 3407203800 },
    { n: 396793078518930920708162576045270521, d: 12 }, { n: -106783830147866529886385444979142647942017, d: 32640 }, { n: 133872729284212332186510857141084758385627191, d: 388332 },
    { n: -4633713579924631067171126424027918014373353, d: 120 }, { n: 43010895638096200108659330496510205957469661721, d: 9372 }, { n: -5827954961669944110438277244641067365282488301844260429, d: 10087262640 },
    { n: 923038305114085622008920911661422572613197507651, d: 12 }, { n: -1297636253996598563562484002136063152861329885729779, d: 120 }, { n: 31911258890415448330398387349964774884015336567107729499, d: 19908 },
    { n: -4603784299479457646935574969019046849794257872751288919656867, d: 18400800 } ]

  /// real part of the digamma function at 1 + i eta
  pure def repsi(eta: int): int = {
    pure val N = 100
    pure val e2 = wmul(eta, eta)
    // shift the argument to N + i eta, then Stirling's series
    pure val shift = range(1, N).foldl(0, (s, k) => s + wdvd(k * W, k * k * W + e2))
    pure val n2 = N * N * W + e2
    pure val zi = { re: wdvd(N * W, n2), im: -wdvd(eta, n2) }       // 1 / z
    pure val zz = { re: wmul(zi.re, zi.re) - wmul(zi.im, zi.im), im: 2 * wmul(zi.re, zi.im) }
    pure val stirling = BERNOULLI.foldl({ p: zz, s: 0 }, (a, b) =>
      { s: a.s + a.p.re * b.n / b.d,
        p: { re: wmul(a.p.re, zz.re) - wmul(a.p.im, zz.im), im: wmul(a.p.re, zz.im) + wmul(a.p.im, zz.re) } }).s
    wln(n2) / 2 - zi.re / 2 - stirling - shift
  }

  type Waves = { f: int, df: int, g: int, dg: int }

  /// F, F', G, G' for l = 0 (eta and rho in 416-bit fixed point, eta > 0)
  pure def swave(eta: int, rho: int): Waves = {
    pure val x = wexp(wmul(2 * WPI, eta))
    pure val c2 = wdvd(wmul(2 * WPI, eta), x - W)          // C0 squared
    pure val c = wsqrt(c2)
    pure val terms = 90 + 6 * (rho / W) + 3 * (eta / W)
    // F / C0 = sum of t(k) with t(1) = rho, k (k-1) t(k) = 2 eta rho t(k-1) - rho^2 t(k-2)
    // and the companion sum u(k), u(0) = 1, u(1) = 0,
    //   k (k-1) u(k) = 2 eta rho u(k-1) - rho^2 u(k-2) - 2 eta (2k-1) t(k)
    pure val er = 2 * wmul(eta, rho)
    pure val r2 = wmul(rho, rho)
    pure val s = range(2, terms).foldl(
      { t0: 0, t1: rho, u0: W, u1: 0, f: rho, df: rho, u: W, du: 0 }, (a, k) => {
        pure val t = (wmul(er, a.t1) - wmul(r2, a.t0)) / (k * (k - 1))
        pure val u = (wmul(er, a.u1) - wmul(r2, a.u0) - (2 * k - 1) * wmul(2 * eta, t)) / (k * (k - 1))
        { t0: a.t1, t1: t, u0: a.u1, u1: u, f: a.f + t, df: a.df + k * t, u: a.u + u, du: a.du + k * u } })
    // df and du hold rho times the derivatives
    pure val log = wln(2 * rho) + repsi(eta) + 2 * EULER - W
    pure val k = wdvd(2 * eta, c)
    { f: wmul(c, s.f), df: wdvd(wmul(c, s.df), rho),
      g: wmul(k, wmul(s.f, log)) + wdvd(s.u, c),
      dg: wdvd(wmul(k, wmul(s.df, log) + s.f) + wdvd(s.du, c), rho) }
  }

  /// the ladder: R u(l) = S u(l-1) - u'(l-1),  u'(l) = R u(l-1) - S u(l)
  pure def ladder(p: Waves, l: int, eta: int, rho: int): Waves =
    range(1, l + 1).foldl(p, (a, k) => {
      pure val S = wdvd(k * W, rho) + eta / k
      pure val R = wsqrt(W + wmul(eta, eta) / (k * k))
      pure val f = wdvd(wmul(S, a.f) - a.df, R)
      pure val g = wdvd(wmul(S, a.g) - a.dg, R)
      { f: f, df: wmul(R, a.f) - wmul(S, f), g: g, dg: wmul(R, a.g) - wmul(S, g) } })

  pure def waves(l: int, eta: int, rho: int): Waves =
    ladder(swave(widen(eta), widen(rho)), l, widen(eta), widen(rho))

  type Values = { P: int, S: int, phi: int, ok: bool }
  pure def surface(l: int, eta: int, rho: int): Values = {
    pure val w = waves(l, eta, rho)
    pure val a = wmul(w.f, w.f) + wmul(w.g, w.g)
    pure val P = wdvd(widen(rho), a)
    { P: P, S: narrow(wmul(P, wmul(w.f, w.df) + wmul(w.g, w.dg))),
      phi: if (absi(w.g) > absi(w.f)) atan(narrow(wdvd(w.f, w.g))) + (if (w.g > 0) 0 else if (w.f >= 0) PI else -PI)
           else (if (w.f > 0) PI / 2 else -PI / 2) - atan(narrow(wdvd(w.g, w.f))),
      // Wronskian
      ok: absi(wmul(w.df, w.g) - wmul(w.f, w.dg) - W) < 2^(WB - 60) }
  }

  /// the Coulomb phase difference: sum of atan(eta / n), n = 1 .. l
  pure def coulombPhase(l: int, eta: int): int =
    range(1, l + 1).foldl(0, (s, n) => s + atan(eta / n))

  /// sphere's recurrence in the wider numbers
  pure def uncharged(l: int, rho: int): { P: int, S: int } =
    range(1, l + 1).foldl({ P: rho, S: 0 }, (w, k) => {
      pure val u = k * W - w.S
      pure val m = wmul(u, u) + wmul(w.P, w.P)
      pure val q = wdvd(wmul(rho, rho), m)
      { P: wmul(q, w.P), S: wmul(q, u) - k * W } })

  /// how far the code's stepwise integration may be off, in units of 10^-7 (ratios are
  /// eta / rho in fixed point): it starts at max(rho, 2 eta + 10) for eta < 5
  pure def allowance(eta: int, rho: int): int =
    if (eta < 5 * ONE and rho >= 2 * eta + 10 * ONE) 2
    else 400 + dvd(1000 * eta, rho) / ONE

  pure def near(x: int, y: int): bool = absi(x * 10^24 / ONE - y) <= 2

  run coulombwaveTest = {
    // tables of the functions (computed elsewhere to 25 digits)
    val a = surface(0, real(2), real(5))
    val b = surface(3, HALF, real(4))
    val d = surface(1, real(17), real(20))
    val e = surface(2, real(25), real(45))
    val g = surface(0, dyadic(1, 9), real(3))
    all {
      assert(near(narrow(a.P), 2579494874663591442117858)), assert(near(a.S, -507538576030800634269283)),
      assert(near(a.phi, 963536591575684804001188)),
      assert(near(narrow(b.P), 1882252053816898818911355)), assert(near(b.S, -847702216034171671156617)),
      assert(near(b.phi, 505320025559268438870330)),
      assert(near(narrow(d.P), 13453569413133599297)), assert(near(d.S, -16163522718902054619806637)),
      assert(near(narrow(e.P), 1341782781483448216184247)), assert(near(e.S, -12045016578096665855416476)),
      assert(near(e.phi, 45901727991494235343521)),
      assert(near(narrow(g.P), 2998132687456510832266699)), assert(near(g.phi, 2995325767748889692454539)),
      // with hardly any charge the waves are those of the sphere
      assert(absi(narrow(surface(3, dyadic(1, 60), real(2)).P) - hard(3, real(2)).P) < 2^140),
    }
  }
}
