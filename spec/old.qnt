/// The evaluators that go straight from a Breit-Wigner or Reich-Moore range to elastic, capture and
/// fission cross sections. A range is read by one of them or refused, and evaluated as often as one
/// likes; a refused range leaves the evaluator of the one before.
module old {
  import num.* from "./num"
  import io.* from "./io"
  import draw.* from "./draw"
  import kinematics.* from "./kinematics"
  import coulombwave.* from "./coulombwave"
  import rmodel.* from "./rmodel"
  import nuclei.* from "./nuclei"
  import ledger.* from "./ledger"
  import bwmodel.* from "./bwmodel"
  import endfmodel.* from "./endfmodel"
  import endffiles.* from "./endffiles"

  /// kind 0: nothing was read. Reich-Moore: every l and (signed) J on its own
  type Model = { kind: int, lower: int, upper: int, groups: List[Group], channel: Channel, ls: List[int],
                 series: List[Bw], competing: bool, near: List[int] }
  var call: Call
  var out: Out
  var deviation: Deviation
  var m: Model

  // ---- neutrons with sqrt(2 m) = 5.787793139e-14 sqrt(kg); 1.00866491582 dalton in the radius formula
  pure val NEUTRONMASS = 5787793139^2 * ONE / (2 * DA * 10^10)
  pure val MRADIUS = ratio(100866491582, 10^11)
  pure def own(f: File): File = { ...f, mn: NEUTRONMASS, mr: MRADIUS }

  pure val NOWHERE: Channel = elasticChannel(own(EMPTYFILE), 10 * ONE, 0, 1, 1, [constant(ONE)])
  pure val NOTHING: Model = { kind: 0, lower: 0, upper: 0, groups: [], channel: NOWHERE, ls: [], series: [], competing: false, near: [] }

  /// levels of one l and |J| interfere, whatever the sign in the file
  pure def unsigned(f: File): File =
    { ...f, waves: f.waves.foldl([], (l, w) => l.append({ ...w, rows: w.rows.foldl([], (k, r) => k.append({ ...r, j: absi(r.j) })) })) }
  pure def lsOf(f: File): List[int] = f.waves.foldl([], (l, w) => l.append(w.l))
  pure def mooreGroups(f: File): List[Group] = {
    pure val d = f.waves.foldl([], (l, w) => jsOf(w).foldl(l, (k, j) => k.append(toData(f, w, j, true))))
    pure val claimed = d.foldl([], (l, x) => l.concat(x))
    pure val ls = lsOf(f)
    d.concat(silentChannels({ ...f, nlsc: largest(ls) + 1 }, claimed).select(x => ls.select(l => l == x.channel.l).length() > 0)
       .foldl([], (l, x) => l.append([x])))
     .foldl([], (l, x) => l.append(assembleGroup(x)))
  }
  pure def modelOf(g: File): Model = {
    pure val f = if (g.kind <= 2) unsigned(own(g)) else own(g)
    pure val base = { ...NOTHING, kind: f.kind, lower: f.lower, upper: f.upper, ls: lsOf(f),
                      channel: elasticChannel(f, f.waves[0].awri, 0, 1, 1, radiiFor(f, f.ap, f.waves[0].awri)),
                      near: f.waves.foldl([], (l, w) => w.rows.foldl(l, (k, r) => k.append(absi(r.e)))) }
    if (f.kind <= 2) { ...base, series: seriesOf(f, 0), competing: competes(f) }
    else { ...base, groups: mooreGroups(f) }
  }
  /// how: 1 single level, 2 multi level, 3 Reich-Moore
  pure def legible(f: File, how: int): bool = and {
    f.kind == how,
    f.naps <= (if (tabulated(f)) 2 else 1),
    f.radius.regions.select(r => r.law < 1 or r.law > 5).length() == 0,
    f.waves.select(w => w.l > 4).length() == 0,
  }

  action plain_(c: Call, o: Out): bool = all { call' = c, out' = o, deviation' = noDeviation }
  action quiet = all { plain_(noCall, silence), m' = m }
  action read(op: str, f: File, how: int): bool = {
    val c = toCall(op, cat(flatFile(f), fi([how])))
    if (legible(f, how)) all { plain_(c, { throws: false, ints: [1], reals: [], strs: [] }), m' = modelOf(f) }
    else all { plain_(c, refusal), m' = m }
  }

  // ---- cross sections
  pure val FLOOR = ONE / 10^26
  pure def found(s: List[Item], key: Text): Item =
    if (s.select(x => x.key == key).length() == 0) { key: key, v: 0, mag: 0 } else s.select(x => x.key == key)[0]
  pure def keysOf(c: Channel): List[Text] = [elasticText(c), captureKey(c), fissionKey(c)]
  pure def three(c: Channel, s: List[Item]): List[Item] = keysOf(c).foldl([], (l, k) => l.append(found(s, k)))
  pure def waves_(x: Model, e: int): List[Item] =
    three(x.channel, addItem(x.series.foldl([], (a, b) => addItems(a, bwSigmas(b, e, x.kind == 2, 0))),
                             potentialOf(x.channel, x.ls, e)))
  /// capture is what is left of the total; 1 - U is as good as U
  pure def moore(x: Model, e: int, zs: List[Solved]): List[Item] = {
    pure val s = three(x.channel, range(0, x.groups.length()).foldl([], (a, k) => addItems(a, crossSections(x.groups[k], zs[k]))))
    pure val whole = mul(dvd(PI, sq(channelState(x.channel, e).k)), total(x.ls.foldl([], (l, k) => l.append((2 * k + 1) * ONE))))
    pure val cond = largest(zs.foldl([], (l, z) => l.append(z.cond)))
    pure val slack = 4 * mul(whole, ONE + cond)
    [{ ...s[0], mag: s[0].mag + sqrt(mul(slack, maxi(0, s[0].v))) },
     { ...s[1], mag: s[1].mag + s[0].mag + s[2].mag + slack },
     { ...s[2], mag: s[2].mag + sqrt(mul(slack, maxi(0, s[2].v))) }]
  }
  pure def values(s: List[Item]): Out =
    answer(s.foldl([], (l, x) => l.append(scaled(x.v, x.mag + FLOOR))))
  action evaluate(e: int): bool =
    if (m.kind <= 2) {
      all { plain_({ op: if (m.competing) "atCompeting" else "at", ints: [], reals: [e], strs: [] }, values(waves_(m, e))), m' = m }
    }
    else {
      val zs = solveAll(m.groups, true, e)
      if (not(tame(m.groups, zs, e))) quiet
      else all { plain_({ op: "at", ints: [], reals: [e], strs: [] }, values(moore(m, e, zs))), m' = m }
    }
  /// cross sections at two energies, added and subtracted
  action combine(e: int, d: int): bool =
    if (m.kind > 2) quiet
    else {
      val a = waves_(m, e)
      val b = waves_(m, d)
      all { plain_({ op: "combine", ints: [], reals: [e, d], strs: [] }, answer(
              range(0, 3).foldl([], (l, k) => l.append(scaled(a[k].v + b[k].v, a[k].mag + b[k].mag + absi(a[k].v) + absi(b[k].v) + FLOOR)))
              .concat(range(0, 3).foldl([], (l, k) => l.append(scaled(a[k].v - b[k].v, a[k].mag + b[k].mag + absi(a[k].v) + absi(b[k].v) + FLOOR)))))),
            m' = m }
    }

  // ---- ranges
  /// the waves of some other l, up to 4
  pure def lifted(f: File, seed: int): File = {
    pure val up = if (chance(seed, 120, 2)) 0 else draw(seed, 121, 5)
    pure val n = f.waves.length()
    { ...f, naps: if (tabulated(f)) f.naps else f.naps % 2, nlsc: 5,
      waves: f.waves.select(w => w.l + up <= 4 or n == 1).foldl([], (l, w) => {
        pure val k = mini(4, w.l + up)
        l.append({ ...w, l: k, rows: range(0, w.rows.length()).foldl([], (rs, i) =>
          rs.append({ ...w.rows[i], j: aJ(branch(seed, 130 + 10 * w.l + i), f, k, draw(seed, 140 + w.l, 2)) })) }) }) }
  }
  /// one resonance of a J at an energy; neutron widths are not negative
  pure def regular(f: File): File =
    { ...f, waves: f.waves.foldl([], (l, w) => l.append({ ...w, rows: w.rows.foldl([], (rs, r) => {
        pure val c = elasticChannel(f, w.awri, w.l, spinOf(f, w.l, r.j), absi(r.j), radiiFor(f, if (w.apl != 0) w.apl else f.ap, w.awri))
        if (rs.select(y => y.e == r.e and y.j == r.j).length() > 0) rs
        else rs.append({ ...r, w: r.w.replaceAt(0, boundedWidth(absi(r.w[0]), c, r.e)) }) }) })) }
  pure def make(seed: int, how: int): File =
    if (how == 3) { pure val f = regular(lifted(makeMoore(seed), seed)) if (f.waves.length() == 0) regular(makeMoore(5)) else f }
    else { pure val f = lifted({ ...makeWaves(seed), lrf: how, kind: how }, seed)
           if (f.waves.length() == 0) { ...makeWaves(5), lrf: how, kind: how } else f }
  pure def spoilt(f: File, seed: int): File = {
    pure val what = draw(seed, 150, 6)
    if (what == 0) { ...f, naps: 3 }
    else if (what == 1) { ...f, naps: 2 }
    else if (what == 2) { ...f, radius: aTable(seed), naps: between(seed, 151, 2, 4),
                          waves: f.waves.foldl([], (l, w) => l.append({ ...w, rows: w.rows.select(r => r.e > 0) })) }
    else if (what == 3) { pure val w = f.waves[f.waves.length() - 1]
                          { ...f, waves: f.waves.append({ ...w, l: between(seed, 151, 5, 7), rows: [] }) } }
    else if (what == 4 and tabulated(f)) { ...f, radius: { ...f.radius, regions: f.radius.regions.replaceAt(0, { ...f.radius.regions[0], law: among(seed, 151, [0, 6, 7]) }) } }
    else f
  }
  def anEnergy(seed: int): int = {
    val what = draw(seed, 1, 8)
    if (what == 0) m.lower
    else if (what == 1) m.upper
    else if (what < 5 and m.near.length() > 0) {
      val e = m.near[draw(seed, 3, m.near.length())]
      rough(e + e / 2^between(seed, 4, 2, 16) * sign(seed, 5))
    }
    else maxi(m.lower, rough(m.lower + (m.upper - m.lower) / 2^between(seed, 7, 0, 20) / 2^20 * between(seed, 6, 1, 2^20)))
  }

  action init = all { plain_(noCall, silence), m' = NOTHING }
  pure val SEEDS = 2^48
  action life(low: int, high: int): bool = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet k = 0.to(9).oneOf()
    val how = between(seed, 160, low, high)
    if (m.kind == 0 or k < 3) read("read", make(seed, how), how)
    else if (k == 3) combine(anEnergy(seed), anEnergy(branch(seed, 1)))
    else evaluate(anEnergy(seed))
  }
  action stepSingle = life(1, 1)
  action stepMulti = life(2, 2)
  action stepMoore = life(3, 3)
  action stepBroken = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet k = 0.to(9).oneOf()
    val how = between(seed, 160, 1, 3)
    if (m.kind == 0) read("read", make(seed, how), how)
    else if (k < 7) read("readBroken", spoilt(make(seed, how), seed), if (k < 5) how else between(seed, 161, 1, 3))
    else evaluate(anEnergy(seed))
  }
  val inv = m.lower <= m.upper
  run oldTest = all {
    // in 10^-12 cm, as for the mass of the neutron
    assert(absi(NEUTRONMASS - ratio(1008665, 10^6)) < ratio(1, 10^5)),
    assert(0.to(8).forall(k => legible(make(k * 31 + 5, 1 + k % 3), 1 + k % 3))),
  }
}
