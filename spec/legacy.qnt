/// A system of Breit-Wigner spin groups is built (or refused), evaluated at any energies into a map
/// that outlives it, rebuilt and inspected.
module legacy {
  import num.* from "./num"
  import io.* from "./io"
  import draw.* from "./draw"
  import kinematics.* from "./kinematics"
  import rmodel.* from "./rmodel"
  import nuclei.* from "./nuclei"
  import ledger.* from "./ledger"
  import bwmodel.* from "./bwmodel"

  var call: Call
  var out: Out
  var sys: List[Series]
  var multi: bool
  var acc: List[Item]

  pure val FLOOR = ONE / 10^26
  pure def itemOut(m: List[Item]): Out = itemsOut(m, FLOOR)

  action unchanged = all { sys' = sys, multi' = multi, acc' = acc }
  action quiet = all { call' = noCall, out' = silence, unchanged }

  pure def channelsOf(s: List[Series]): List[Channel] = s.foldl([], (l, t) => l.append(t.channel))
  action build(op: str, s: List[Series], m: bool): bool = all {
    call' = toCall(op, cat(fi([if (m) 1 else 0, s.length()]), all_(s.foldl([], (l, t) => l.append(flatSeries(t)))))),
    if (onlyOnce(channelsOf(s))) all { out' = silence, sys' = s, multi' = m }
    else all { out' = refusal, sys' = sys, multi' = multi },
    acc' = acc,
  }

  /// group: -1 for the whole system, which also scatters like a hard sphere
  action evaluate(e: int, group: int, copy: bool): bool = {
    val part = if (group < 0) sys else [sys[group]]
    val lmax = largest(sys.foldl([], (l, t) => l.append(t.channel.l)))
    val ms = part.foldl(acc, (a, t) => addItems(a, sigmas(t, e, multi)))
    val m = if (group < 0) addItem(ms, potential(sys[0].channel, lmax, e)) else ms
    all {
      call' = { op: if (part.select(t => t.qx != 0).length() > 0) "evaluateCompeting" else "evaluate",
                ints: [group, if (copy) 1 else 0], reals: [e], strs: itemKeys(m) },
      out' = itemOut(m),
      acc' = m, sys' = sys, multi' = multi,
    }
  }
  action keep = all { call' = { op: "keep", ints: [], reals: [], strs: itemKeys(acc) }, out' = itemOut(acc), unchanged }
  action clear = all {
    call' = { op: "clear", ints: [], reals: [], strs: [] }, out' = silence, acc' = [], sys' = sys, multi' = multi }

  action grid(group: int): bool = {
    val part = if (group < 0) sys else [sys[group]]
    val pts = sorted(part.foldl([], (l, t) => l.concat(points(t))))
    if (crowded(pts)) quiet else all {
      call' = { op: if (group < 0) "grid" else "groupGrid", ints: [group], reals: [], strs: [] },
      out' = answer(pts.foldl([], (l, x) => l.append(scaled(x, 16 * absi(x) +
               largest(part.foldl([], (k, t) => k.append(largest(t.levels.foldl([], (m, r) => m.append(absi(r.e))))))))))),
      unchanged,
    }
  }
  action groups = all {
    call' = { op: "groups", ints: [], reals: [], strs: [] },
    out' = { throws: false, ints: [sys.length()], reals: [], strs: [] }, unchanged }
  action describe(group: int): bool = {
    val t = sys[group]
    all {
      call' = { op: "describe", ints: [group], reals: [], strs: [] },
      out' = { throws: false, ints: [t.channel.l, t.levels.length()], strs: [],
               reals: t.levels.foldl(t.levels.foldl([exact(t.channel.j, 2)], (l, r) => l.append(fixed(r.e))).append(fixed(t.qx)), (l, r) =>
                 l.append(fixed(r.n)).append(fixed(r.g)).append(fixed(r.f)).append(fixed(r.x)).append(fixed(r.n + r.g + r.f + r.x))
                  .append(fixed(r.p)).append(fixed(r.s))) },
      unchanged,
    }
  }
  /// widths and energy of a resonance for given P, Q, S
  action width(group: int, k: int, P: int, Q: int, S: int): bool = {
    val r = sys[group].levels[k]
    val n = r.n * P / r.p
    val x = r.x * Q / r.q
    val moved = r.n * (r.s - S) / r.p / 2
    all {
      call' = { op: "width", ints: [group, k], reals: [P, Q, S], strs: [] },
      out' = answer([fixed(n), fixed(x), fixed(n + x + r.g + r.f),
                     scaled(r.e + moved, absi(r.e) + r.n * (absi(r.s) + absi(S)) / r.p)]),
      unchanged,
    }
  }

  // ---- choices
  pure def makeLevel(seed: int, c: Channel, near: int, qx: int): Level = {
    pure val e = (if (chance(seed, 1, 6)) -1 else 1) *
                 (if (chance(seed, 2, 3)) rough(near + near / 256 * between(seed, 3, -64, 64)) else magnitude(seed, 4, -1, 17))
    pure def width(k: int): int = rough(absi(e) / 2^between(seed, 20 + k, 2, 14))
    pure val st = channelState(c, absi(e))
    { e: e, n: width(0), g: width(1), f: if (chance(seed, 5, 2)) 0 else width(2), x: if (chance(seed, 6, 2)) 0 else width(3),
      p: maxi(2^90, rough(st.P)), q: maxi(2^90, rough(if (qx == 0) st.P else channelState(c, e - qx).P)),
      s: if (c.l == 0 and not(chance(seed, 7, 5))) 0 else rough(st.S) }
  }
  pure def makeSeries(seed: int, f: Family, l: int, j: int): Series = {
    pure val qx = if (chance(seed, 1, 3)) sign(seed, 2) * magnitude(seed, 3, 2, 16) else 0
    pure val made = makeChannel(branch(seed, 1), f, 0, between(seed, 4, 0, 9), j, chance(seed, 5, 2))
    pure val c = { ...made, l: l, radii: if (qx == 0) made.radii else range(0, made.radii.length()).foldl([], (k, i) => k.append(constantRadius(seed, i))) }
    pure val near = magnitude(seed, 50, 2, 17)
    { channel: c, qx: qx,
      levels: range(0, among(seed, 6, [0, 1, 1, 2, 2, 3, 4, 5])).foldl([], (k, i) => k.append(makeLevel(branch(seed, 20 + i), c, near, qx))) }
  }
  /// spin groups with different l and j, in any order
  pure def makeSystem2(seed: int): List[Series] = {
    pure val f = family(seed)
    pure val start = draw(seed, 8, 15)
    pure val jump = among(seed, 9, [1, 2, 4, 7, 8, 11, 13, 14])
    pure val j0 = between(seed, 10, 0, 7)
    range(0, among(seed, 11, [1, 1, 2, 3, 4])).foldl([], (l, g) => {
      pure val k = (start + g * jump) % 15
      l.append(makeSeries(branch(seed, 30 + g), f, k / 3, j0 + 2 * (k % 3))) })
  }
  pure def spoiled(seed: int): List[Series] = {
    pure val s = makeSystem2(seed)
    pure val a = draw(seed, 90, s.length())
    pure val copy = { ...makeSeries(branch(seed, 91), family(seed), s[a].channel.l, s[a].channel.j), qx: 0 }
    pure val at = draw(seed, 92, s.length() + 1)
    if (chance(seed, 93, 6)) []
    // almost twice the same, but for l or j
    else if (chance(seed, 94, 3)) s.append({ ...copy, channel: { ...copy.channel, j: copy.channel.j + 20 } })
    else if (chance(seed, 95, 3)) [{ ...copy, channel: { ...copy.channel, l: (copy.channel.l + 1) % 5, j: copy.channel.j + 40 } }].concat(s)
    else s.slice(0, at).append(copy).concat(s.slice(at, s.length()))
  }
  def anEnergy(seed: int): int = {
    val g = sys[draw(seed, 1, sys.length())]
    if (g.levels.length() > 0 and chance(seed, 2, 2)) {
      val r = g.levels[draw(seed, 3, g.levels.length())]
      rough(absi(r.e) + absi(r.e) / 2^between(seed, 4, 2, 16) * sign(seed, 5))
    } else magnitude(seed, 6, -8, 18)
  }
  def someLevel(seed: int): int = draw(seed, 3, maxi(1, sys[draw(seed, 1, sys.length())].levels.length()))

  action init = all { call' = noCall, out' = silence, sys' = [], multi' = false, acc' = [] }
  pure val SEEDS = 2^48
  action evaluations(m: bool): bool = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(11).oneOf()
    if (what < 3 or sys.length() == 0) build("build", makeSystem2(seed), m)
    else if (what == 3 or (acc.length() > 0 and not(chance(seed, 43, 3)))) clear
    else evaluate(anEnergy(seed), if (what < 8) draw(seed, 40, sys.length()) else -1, false)
  }
  action stepSingle = evaluations(false)
  action stepMulti = evaluations(true)
  action step = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(15).oneOf()
    if (what < 2 or sys.length() == 0) build("build", makeSystem2(seed), chance(seed, 41, 2))
    else if (what == 2) clear
    else if (what == 3) keep
    else if (what == 4) grid(-1)
    else if (what == 5) describe(draw(seed, 42, sys.length()))
    else if (what == 6) build("buildBroken", spoiled(seed), chance(seed, 41, 2))
    else evaluate(anEnergy(seed), if (what < 9) draw(seed, 40, sys.length()) else -1, what > 13)
  }
  action stepGrid = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(5).oneOf()
    if (what < 2 or sys.length() == 0) build("build", makeSystem2(seed), chance(seed, 41, 2))
    else if (what < 4) grid(-1)
    else grid(draw(seed, 42, sys.length()))
  }
  action stepBuild = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(9).oneOf()
    if (what < 2 or sys.length() == 0) build("build", makeSystem2(seed), chance(seed, 41, 2))
    else if (what < 5) build("buildBroken", spoiled(seed), chance(seed, 41, 2))
    else if (what == 5) groups
    else if (what < 8) describe(draw(seed, 42, sys.length()))
    else {
      val g = draw(seed, 1, sys.length())
      if (sys[g].levels.length() == 0) quiet
      else width(g, draw(seed, 3, sys[g].levels.length()), magnitude(seed, 4, -20, 4), magnitude(seed, 6, -20, 4),
                 -magnitude(seed, 8, -20, 2))
    }
  }

  /// capture and fission never turn negative
  val inv = acc.select(x => x.v < 0 and x.key[x.key.length() - 1] == "capture").length() == 0
  run legacyTest = all {
    assert(0.to(40).forall(k => onlyOnce(channelsOf(makeSystem2(k * 31 + 5))))),
  }
}
