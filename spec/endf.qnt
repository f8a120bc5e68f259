/// Resonance ranges of ENDF files are read (or refused), and the reconstructor that comes out is
/// evaluated, asked for its energies, and inspected; a refused range leaves the earlier one as it was.
module endf {
  import num.* from "./num"
  import io.* from "./io"
  import draw.* from "./draw"
  import kinematics.* from "./kinematics"
  import coulombwave.* from "./coulombwave"
  import rmodel.* from "./rmodel"
  import nuclei.* from "./nuclei"
  import ledger.* from "./ledger"
  import bwmodel.* from "./bwmodel"
  import averages.* from "./averages"
  import endfmodel.* from "./endfmodel"
  import endffiles.* from "./endffiles"

  /// what a range means; kind 0: nothing was read
  type Model = { kind: int, lower: int, upper: int, groups: List[Group], shift: bool,
                 series: List[Bw], wrong: List[Bw], bands: List[Band], radius: bool }
  var call: Call
  var out: Out
  var deviation: Deviation
  var m: Model

  pure val NOTHING: Model = { kind: 0, lower: 0, upper: 0, groups: [], shift: false, series: [], wrong: [], bands: [], radius: false }
  pure def modelOf(f: File): Model = {
    pure val base = { ...NOTHING, kind: f.kind, lower: f.lower, upper: f.upper, radius: tabulated(f) }
    if (f.kind <= 2) { ...base, series: seriesOf(f, 0), wrong: if (competes(f)) seriesOf(f, 1) else [] }
    else if (f.kind == 3) { ...base, groups: assemble(moored(f, false)), shift: true }
    else if (f.kind == 4) { ...base, groups: assemble(limited(f)), shift: pairOf(f, 2).shf == 0 }
    else { ...base, bands: bandsOf(f) }
  }
  pure def accepted(f: File): Out =
    { throws: false, ints: if (f.kind >= 5) [0, 1] else [1, 0], reals: [fixed(f.lower), fixed(f.upper)], strs: [] }

  action plain_(c: Call, o: Out): bool = all { call' = c, out' = o, deviation' = noDeviation }
  action quiet = all { plain_(noCall, silence), m' = m }

  action read(op: str, f: File): bool =
    if (namesakes(f)) all {
      call' = toCall("readTwice", flatFile(f)), out' = accepted(f),
      deviation' = { id: "fission-namesakes", out: refusal }, m' = m }
    else if (readable(f)) all { plain_(toCall(op, flatFile(f)), accepted(f)), m' = modelOf(f) }
    else all { plain_(toCall(op, flatFile(f)), refusal), m' = m }

  // ---- cross sections
  pure val COARSE = ONE / 10^26
  pure val FINE = ONE / 10^40
  pure def lmaxOf(cs: List[Channel]): int = largest(cs.foldl([], (l, c) => l.append(c.l)))
  pure def total_(x: Model, e: int, wrong: bool): List[Item] = {
    pure val s = if (wrong) x.wrong else x.series
    addItem(s.foldl([], (a, b) => addItems(a, bwSigmas(b, e, x.kind == 2, if (wrong) 1 else 0))),
            potential(s[0].series.channel, lmaxOf(s.foldl([], (l, b) => l.append(b.series.channel))), e))
  }
  action evaluate(e: int): bool =
    if (e < m.lower or e > m.upper) all {
      plain_({ op: "outside", ints: [], reals: [e], strs: [] }, { throws: false, ints: [0], reals: [], strs: [] }), m' = m }
    else if (m.kind <= 2) {
      val s = total_(m, e, false)
      all {
        call' = { op: if (m.wrong.length() > 0) "atCompeting" else "at", ints: [], reals: [e], strs: itemKeys(s) },
        out' = itemsOut(s, COARSE),
        deviation' = if (m.wrong.length() == 0) noDeviation
                     else { id: "competing-energy", out: itemsOut(total_(m, e, true), COARSE) },
        m' = m }
    }
    else if (m.kind <= 4) {
      val zs = solveAll(m.groups, m.shift, e)
      if (not(tame(m.groups, zs, e))) quiet else {
        val s = range(0, m.groups.length()).foldl([], (a, k) => addItems(a, crossSections(m.groups[k], zs[k])))
        all {
          plain_({ op: if (isCharged(m.groups)) "atCharged" else if (someClosed(m.groups, e)) "atClosed" else "at",
                   ints: [], reals: [e], strs: itemKeys(s) }, itemsOut(s, FINE)),
          m' = m }
      }
    }
    else if (m.bands.select(b => e < first(b) or e > last(b)).length() > 0) quiet
    else {
      val s = addItem(m.bands.foldl([], (a, b) => addItems(a, average(b, e))),
                      potential(m.bands[0].channel, lmaxOf(m.bands.foldl([], (l, b) => l.append(b.channel))), e))
      all { plain_({ op: "at", ints: [], reals: [e], strs: itemKeys(s) }, itemsOut(s, COARSE)), m' = m }
    }

  // ---- energies
  def allPoints: List[int] =
    if (m.kind <= 2) sorted(m.series.foldl([], (l, b) => l.concat(points(b.series))))
    else if (m.kind <= 4) sorted(m.groups.foldl([], (l, g) => l.concat(gridPoints(g))))
    else gridOf(m.bands)
  def anyPositive: List[int] =
    m.series.foldl(m.groups.foldl([], (l, g) => g.resonances.foldl(l, (k, r) => k.append(absi(r.e)))),
                   (l, b) => b.series.levels.foldl(l, (k, r) => k.append(absi(r.e))))
  action grid = {
    val safe = if (m.kind <= 2) true else if (m.kind <= 4) gridable(m.groups) else not(doubtful(m.bands))
    if (not(safe)) quiet else {
      val pts = allPoints
      val limits = [m.lower, m.upper]
      val brink = pts.select(x => limits.select(y => x != y and absi(x - y) * 10^9 < absi(y)).length() > 0).length() > 0
      val far = largest(anyPositive)
      if (crowded(pts) or brink) quiet else all {
        plain_({ op: "grid", ints: [], reals: [], strs: [] },
               answer(pts.select(x => m.lower <= x and x <= m.upper).foldl([], (l, x) =>
                 l.append(if (m.kind >= 5) fixed(x) else scaled(x, 16 * absi(x) + far))))),
        m' = m }
    }
  }

  // ---- inspection
  def howMany: int = if (m.kind <= 2) m.series.length() else if (m.kind <= 4) m.groups.length() else m.bands.length()
  action groups = all {
    plain_({ op: "groups", ints: [], reals: [], strs: [] }, { throws: false, ints: [howMany], reals: [], strs: [] }), m' = m }
  type Part = { i: List[int], r: List[Real], s: List[Text] }
  pure def channelPart(c: Channel, e: int): Part = {
    pure val n = c.radii.length()
    pure val a = lookup(c.radii[0], e)
    { s: [channelText(c), reactionText(c)],
      i: [c.l, if (c.positive) 1 else -1, c.pair.a.parity, c.pair.b.parity],
      r: [exact(c.s, 2), exact(c.j, 2), fixed(a), fixed(lookup(c.radii[if (n == 3) 1 else 0], e)), fixed(lookup(c.radii[n - 1], e)),
          fixed(c.q), fixed(c.b), fixed(c.pair.a.mass), fixed(c.pair.b.mass), exact(c.pair.a.spin, 2), exact(c.pair.b.spin, 2)] }
  }
  pure def fixeds(l: List[int]): List[Real] = l.foldl([], (r, x) => r.append(fixed(x)))
  action describe(g: int, e: int): bool = {
    val c = { op: "describe", ints: [g], reals: [e], strs: [] }
    if (m.kind <= 2) {
      val s = m.series[g].series
      val p = channelPart(s.channel, e)
      all { plain_(c, { throws: false, ints: p.i, strs: p.s,
                        reals: p.r.concat(fixeds(s.levels.foldl([], (l, r) => l.concat([r.e, r.n, r.g, r.f, r.x, r.p, r.s])))) }), m' = m }
    }
    else if (m.kind <= 4) {
      val x = m.groups[g]
      val ps = x.channels.foldl([], (l, y) => l.append(channelPart(y, e)))
      all { plain_(c, { throws: false,
                        ints: ps.foldl([x.channels.length()], (l, p) => l.concat(p.i)),
                        strs: ps.foldl([], (l, p) => l.concat(p.s)),
                        reals: ps.foldl([], (l, p) => l.concat(p.r)).concat(fixeds(x.resonances.foldl([], (l, r) =>
                          l.append(r.e).concat(r.w).append(r.g)))) }), m' = m }
    }
    else {
      val b = m.bands[g]
      val p = channelPart(b.channel, e)
      all { plain_(c, { throws: false, ints: p.i.concat([b.degrees.n, b.degrees.g, b.degrees.f, b.degrees.x]), strs: p.s,
                        reals: p.r.concat(fixeds(b.nodes.foldl([], (l, r) => l.concat([r.e, r.d, r.n, r.g, r.f, r.x])))) }), m' = m }
    }
  }

  // ---- energies: the limits, next to the limits, near a resonance, in between
  def anEnergy(seed: int): int = {
    val what = draw(seed, 1, 8)
    val es = anyPositive
    if (what == 0) m.lower
    else if (what == 1) m.upper
    else if (what < 5 and es.length() > 0) {
      val e = es[draw(seed, 3, es.length())]
      rough(e + e / 2^between(seed, 4, 2, 16) * sign(seed, 5))
    }
    else maxi(m.lower, rough(m.lower + (m.upper - m.lower) / 2^between(seed, 7, 0, 20) / 2^20 * between(seed, 6, 1, 2^20)))
  }
  def anyEnergy(seed: int): int = {
    val what = draw(seed, 10, 8)
    if (what == 0) rough(m.lower - m.lower / 2^between(seed, 11, 1, 20))
    else if (what == 1) rough(m.upper + m.upper / 2^between(seed, 11, 1, 20))
    else if (what == 2) rough(m.upper - m.upper / 2^between(seed, 11, 1, 20))
    else if (what == 3) rough(m.lower + m.lower / 2^between(seed, 11, 1, 20))
    else anEnergy(seed)
  }

  action init = all { plain_(noCall, silence), m' = NOTHING }
  pure val SEEDS = 2^48
  action life(what: int, rereads: int): bool = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet k = 0.to(9).oneOf()
    if (m.kind == 0 or k < rereads) read("read", makeFile(seed, what))
    else if (k == 8) groups
    else if (k == 9) describe(draw(seed, 40, howMany), magnitude(seed, 41, -8, 17))
    else evaluate(anEnergy(seed))
  }
  action stepWaves = life(0, 3)
  action stepMoore = life(1, 3)
  action stepLimited = life(2, 3)
  action stepCharged = life(3, 3)
  action stepAverages = life(4, 3)
  /// what the numbers of the file become
  action look(what: int): bool = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet k = 0.to(4).oneOf()
    if (m.kind == 0 or k < 2) read("read", makeFile(seed, if (what == 9) among(seed, 110, [0, 0, 1, 1, 4]) else what))
    else if (k == 2) groups
    else describe(draw(seed, 40, howMany), magnitude(seed, 41, -8, 17))
  }
  action lookAny = look(9)
  /// limits of the range
  action stepRange = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet k = 0.to(9).oneOf()
    if (m.kind == 0 or k < 2) read("read", makeFile(seed, among(seed, 111, [0, 0, 1, 2, 4])))
    else if (k < 4) grid
    else evaluate(anyEnergy(seed))
  }
  action stepBroken = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet k = 0.to(9).oneOf()
    val what = among(seed, 111, [0, 0, 1, 2, 4])
    if (m.kind == 0 or k < 1) read("read", makeFile(seed, what))
    else if (k < 7) read("readBroken", damage(makeFile(seed, what), seed))
    else if (k == 7) groups
    else describe(draw(seed, 40, howMany), magnitude(seed, 41, -8, 17))
  }

  val inv = m.lower <= m.upper
}
