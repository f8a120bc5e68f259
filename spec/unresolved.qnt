/// A system of unresolved spin groups is built (or refused), evaluated, and asked for its energies.
module unresolved {
  import num.* from "./num"
  import io.* from "./io"
  import draw.* from "./draw"
  import kinematics.* from "./kinematics"
  import rmodel.* from "./rmodel"
  import nuclei.* from "./nuclei"
  import ledger.* from "./ledger"
  import bwmodel.* from "./bwmodel"
  import averages.* from "./averages"

  var call: Call
  var out: Out
  var sys: List[Band]
  var acc: List[Item]

  pure val FLOOR = ONE / 10^26
  pure def itemOut(m: List[Item]): Out = itemsOut(m, FLOOR)

  action unchanged = all { sys' = sys, acc' = acc }
  action quiet = all { call' = noCall, out' = silence, unchanged }

  pure def channelsOf(s: List[Band]): List[Channel] = s.foldl([], (l, t) => l.append(t.channel))
  pure def soundBands(s: List[Band]): bool = onlyOnce(channelsOf(s)) and s.select(b => not(sound(b))).length() == 0
  action build(op: str, s: List[Band]): bool = all {
    call' = toCall(op, cat(fi([2, s.length()]), all_(s.foldl([], (l, t) => l.append(flatBand(t)))))),
    if (soundBands(s)) all { out' = silence, sys' = s } else all { out' = refusal, sys' = sys },
    acc' = acc,
  }
  action evaluate(e: int, group: int, copy: bool): bool = {
    val part = if (group < 0) sys else [sys[group]]
    if (part.select(b => e < first(b) or e > last(b)).length() > 0) quiet else {
      val lmax = largest(sys.foldl([], (l, t) => l.append(t.channel.l)))
      val ms = part.foldl(acc, (a, b) => addItems(a, average(b, e)))
      val m = if (group < 0) addItem(ms, potential(sys[0].channel, lmax, e)) else ms
      all {
        call' = { op: "evaluate", ints: [group, if (copy) 1 else 0], reals: [e], strs: itemKeys(m) },
        out' = itemOut(m), acc' = m, sys' = sys,
      }
    }
  }
  action keep = all { call' = { op: "keep", ints: [], reals: [], strs: itemKeys(acc) }, out' = itemOut(acc), unchanged }
  action clear = all { call' = { op: "clear", ints: [], reals: [], strs: [] }, out' = silence, acc' = [], sys' = sys }
  action grid = if (doubtful(sys)) quiet else all {
    call' = { op: "grid", ints: [], reals: [], strs: [] },
    out' = answer(gridOf(sys).foldl([], (l, x) => l.append(fixed(x)))),
    unchanged,
  }
  action parameters(group: int, e: int): bool = {
    val b = sys[group]
    if (e < first(b) or e > last(b)) quiet else {
      val x = at(b, e)
      val m = slack(b, e)
      all {
        call' = { op: "parameters", ints: [group], reals: [e], strs: [] },
        out' = answer([fixed(x.e), scaled(x.d, m * x.d), scaled(x.n, m * x.n), scaled(x.g, m * x.g), scaled(x.f, m * x.f), scaled(x.x, m * x.x)]),
        unchanged,
      }
    }
  }
  action integral(w: Quad, d: Quad): bool = {
    val I = integrals(w, d)
    all {
      call' = { op: "integrals", ints: [d.n, d.g, d.f, d.x], reals: [w.n, w.g, w.f, w.x], strs: [] },
      out' = answer([fixed(I.n), fixed(I.g), fixed(I.f), fixed(I.x)]),
      unchanged,
    }
  }
  action groups = all {
    call' = { op: "groups", ints: [], reals: [], strs: [] },
    out' = { throws: false, ints: [sys.length()], reals: [], strs: [] }, unchanged }
  action describe(group: int): bool = {
    val b = sys[group]
    all {
      call' = { op: "describe", ints: [group], reals: [], strs: [] },
      out' = { throws: false, ints: [b.channel.l, b.nodes.length(), b.degrees.n, b.degrees.g, b.degrees.f, b.degrees.x], strs: [],
               reals: b.nodes.foldl(b.nodes.foldl([exact(b.channel.j, 2)], (l, r) => l.append(fixed(r.e))), (l, r) =>
                 l.append(fixed(r.d)).append(fixed(r.n)).append(fixed(r.g)).append(fixed(r.f)).append(fixed(r.x))) },
      unchanged,
    }
  }

  // ---- choices
  /// an energy between 1 eV and 2^20 eV, often one of the scheme or near a limit of it
  pure def anyEnergy(seed: int): int = {
    pure val s = 10^between(seed, 1, 0, 3) * 100 * SCHEME[among(seed, 2, [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 12])] * ONE / 100
    pure val what = draw(seed, 3, 6)
    if (what == 0) s
    else if (what == 1 and s % (4 * ONE) == 0) s / 4 * 5
    else if (what == 2) s + sign(seed, 4) * s / 2^between(seed, 5, 4, 12)
    else magnitude(seed, 6, 4, 19)
  }
  pure def energies(seed: int): List[int] = {
    pure val l = sorted(range(0, between(seed, 1, 2, 6)).foldl([], (k, i) => k.append(rough(anyEnergy(branch(seed, i))))))
    if (l.length() > 1) l else [l[0], 2 * l[0]]
  }
  pure def makeBand(seed: int, f: Family, l: int, j: int, es: List[int]): Band = {
    pure val made = makeChannel(branch(seed, 1), f, 0, between(seed, 4, 0, 9), j, chance(seed, 5, 2))
    pure val fissile = chance(seed, 6, 2)
    pure val competes = chance(seed, 7, 2)
    { channel: { ...made, l: l },
      degrees: { n: if (chance(seed, 8, 12)) 0 else between(seed, 9, 1, 4), g: draw(seed, 10, 5),
                 f: if (fissile) between(seed, 11, 1, 4) else draw(seed, 12, 5),
                 x: if (competes) between(seed, 13, 1, 4) else draw(seed, 14, 5) },
      nodes: range(0, es.length()).foldl([], (k, i) => {
        pure val t = branch(seed, 30 + i)
        pure val d = magnitude(t, 1, -2, 8)
        k.append({ e: es[i], d: d, n: magnitude(t, 3, -14, -4), g: magnitude(t, 5, -10, 0),
                   f: if (not(fissile) or chance(t, 7, 5)) 0 else magnitude(t, 8, -12, 1),
                   x: if (not(competes) or chance(t, 10, 5)) 0 else magnitude(t, 11, -12, 1) }) }) }
  }
  pure def makeBands(seed: int): List[Band] = {
    pure val f = family(seed)
    pure val start = draw(seed, 8, 12)
    pure val jump = among(seed, 9, [1, 5, 7, 11])
    pure val j0 = between(seed, 10, 0, 7)
    pure val es = energies(branch(seed, 1))
    pure val mixed = chance(seed, 12, 3)
    range(0, among(seed, 11, [1, 2, 3, 4])).foldl([], (l, g) => {
      pure val k = (start + g * jump) % 12
      l.append(makeBand(branch(seed, 30 + g), f, k / 3, j0 + 2 * (k % 3), if (mixed) energies(branch(seed, 50 + g)) else es)) })
  }
  pure def spoiled(seed: int): List[Band] = {
    pure val s = makeBands(seed)
    pure val a = draw(seed, 90, s.length())
    pure val b = s[a]
    pure val what = draw(seed, 93, 6)
    if (what == 0) []
    else if (what == 1) s.replaceAt(a, { ...b, nodes: b.nodes.slice(0, draw(seed, 91, 2)) })
    else if (what == 2) {
      pure val d = b.degrees
      pure val k = between(seed, 92, 5, 9)
      pure val w = draw(seed, 94, 4)
      s.replaceAt(a, { ...b, degrees: if (w == 0) { ...d, n: k } else if (w == 1) { ...d, g: k } else if (w == 2) { ...d, f: k } else { ...d, x: k } })
    }
    else if (what == 3) s.append({ ...b, channel: { ...b.channel, l: (b.channel.l + 1) % 4, j: b.channel.j + 30 } })
    else {
      pure val at_ = draw(seed, 95, s.length() + 1)
      s.slice(0, at_).append({ ...b, channel: { ...b.channel, s: b.channel.s + 2, positive: not(b.channel.positive) } }).concat(s.slice(at_, s.length()))
    }
  }
  /// an energy that all groups cover, if there is one
  def anEnergy(seed: int, group: int): int = {
    val part = if (group < 0) sys else [sys[group]]
    val lo = largest(part.foldl([], (l, b) => l.append(first(b))))
    val hi = part.foldl(2^40 * ONE, (m, b) => mini(m, last(b)))
    val b = part[draw(seed, 1, part.length())]
    if (chance(seed, 2, 4)) b.nodes[draw(seed, 3, b.nodes.length())].e
    else if (lo >= hi) lo
    else maxi(lo, rough(lo + (hi - lo) / 2^20 * between(seed, 4, 0, 2^20)))
  }
  pure def anyWidths(seed: int, d: Quad): Quad =
    { n: magnitude(seed, 1, -12, 2), g: magnitude(seed, 3, -10, 0),
      f: if (d.f == 0 or chance(seed, 5, 3)) 0 else magnitude(seed, 6, -12, 2),
      x: if (d.x == 0 or chance(seed, 8, 3)) 0 else magnitude(seed, 9, -12, 2) }

  action init = all { call' = noCall, out' = silence, sys' = [], acc' = [] }
  pure val SEEDS = 2^48
  action stepAverage = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(9).oneOf()
    if (what < 3 or sys.length() == 0) build("build", makeBands(seed))
    else if (acc.length() > 0 and not(chance(seed, 43, 4))) clear
    else {
      val g = if (what < 7) draw(seed, 40, sys.length()) else -1
      evaluate(anEnergy(seed, g), g, what == 9)
    }
  }
  action stepIntegral = {
    nondet seed = 0.to(SEEDS).oneOf()
    val d = { n: between(seed, 20, 1, 4), g: draw(seed, 21, 5), f: draw(seed, 22, 5), x: draw(seed, 23, 5) }
    integral(anyWidths(seed, d), d)
  }
  action stepTable = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(4).oneOf()
    if (what == 0 or sys.length() == 0) build("build", makeBands(seed))
    else { val g = draw(seed, 40, sys.length()) parameters(g, anEnergy(seed, g)) }
  }
  action stepGrid = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(1).oneOf()
    if (what == 0 or sys.length() == 0) build("build", makeBands(seed)) else grid
  }
  action stepBuild = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(9).oneOf()
    if (what < 3 or sys.length() == 0) build("build", makeBands(seed))
    else if (what < 7) build("buildBroken", spoiled(seed))
    else if (what == 7) groups
    else describe(draw(seed, 42, sys.length()))
  }
  action step = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(15).oneOf()
    if (what < 2 or sys.length() == 0) build("build", makeBands(seed))
    else if (what == 2) clear
    else if (what == 3) keep
    else if (what == 4) grid
    else if (what == 5) describe(draw(seed, 42, sys.length()))
    else if (what == 6) build("buildBroken", spoiled(seed))
    else {
      val g = if (what < 9) draw(seed, 40, sys.length()) else -1
      evaluate(anEnergy(seed, g), g, what > 13)
    }
  }

  /// no two energies of a grid are more than a quarter apart
  val inv = and {
    acc.select(x => x.v < 0 and x.key[x.key.length() - 1] == "capture").length() == 0,
    sys.length() == 0 or {
      val l = gridOf(sys)
      range(1, l.length()).select(i => l[i] <= l[i - 1] or wide(l[i - 1], l[i])).length() == 0 },
  }
  run unresolvedTest = all {
    assert(0.to(40).forall(k => soundBands(makeBands(k * 31 + 5)))),
  }
}
