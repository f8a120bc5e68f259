/// A compound system is built (or refused), evaluated at any energies in any
/// order into maps that outlive it, rebuilt, and inspected.
module compound {
  import num.* from "./num"
  import io.* from "./io"
  import draw.* from "./draw"
  import kinematics.* from "./kinematics"
  import rmodel.* from "./rmodel"
  import nuclei.* from "./nuclei"
  import ledger.* from "./ledger"

  var call: Call
  var out: Out
  /// the current system (none: no groups) and whether B follows S
  var sys: List[Group]
  var shift: bool
  /// what the two result maps hold
  var acc: List[Item]
  var tm: List[Element]

  /// fixed point has no smaller numbers, doubles have
  pure val FLOOR = ONE / 10^40
  // ---- result maps
  pure def setElement(m: List[Element], x: Element): List[Element] =
    if (m.select(y => y.key == x.key).length() == 0) m.append(x)
    else m.foldl([], (l, y) => l.append(if (y.key == x.key) x else y))
  pure def setElements(m: List[Element], xs: List[Element]): List[Element] = xs.foldl(m, (a, x) => setElement(a, x))
  pure def itemOut(m: List[Item]): Out = itemsOut(m, FLOOR)

  action unchanged = all { sys' = sys, shift' = shift, acc' = acc, tm' = tm }
  action quiet = all { call' = noCall, out' = silence, unchanged }

  // ---- building
  pure def flatSystem(s: List[Group], sh: bool): Flat =
    cat(fi([if (sh) 0 else 1, s.length()]), all_(s.foldl([], (l, g) => l.append(flatGroup(g)))))
  action build(op: str, s: List[Group], sh: bool): bool = all {
    call' = toCall(op, flatSystem(s, sh)),
    if (soundSystem(s)) all { out' = silence, sys' = s, shift' = sh }
    else all { out' = refusal, sys' = sys, shift' = shift },
    acc' = acc, tm' = tm,
  }
  action buildData(op: str, d: List[Data], sh: bool): bool = all {
    call' = toCall(op, cat(fi([if (sh) 0 else 1]), flatData(d))),
    if (soundData(d)) all { out' = silence, sys' = assemble(d), shift' = sh }
    else all { out' = refusal, sys' = sys, shift' = shift },
    acc' = acc, tm' = tm,
  }

  // ---- evaluating

  /// group: -1 for the whole system
  action evaluate(e: int, group: int, copy: bool): bool = {
    val part = if (group < 0) sys else [sys[group]]
    val ch = isCharged(sys)
    val zs = solveAll(part, shift, e)
    if (tame(part, zs, e)) {
      val m = range(0, part.length()).foldl(acc, (a, k) => addItems(a, crossSections(part[k], zs[k])))
      all {
        call' = { op: if (ch) "evaluateCharged" else if (someClosed(part, e)) "evaluateClosed" else "evaluate",
                  ints: [group, if (copy) 1 else 0], reals: [e], strs: itemKeys(m) },
        out' = itemOut(m),
        acc' = m, sys' = sys, shift' = shift, tm' = tm,
      }
    } else quiet
  }
  /// the map is not touched by anything but evaluations
  action keep = all {
    call' = { op: "keep", ints: [], reals: [], strs: itemKeys(acc) },
    out' = itemOut(acc), unchanged,
  }
  action clear = all {
    call' = { op: "clear", ints: [], reals: [], strs: [] }, out' = silence,
    acc' = [], sys' = sys, shift' = shift, tm' = tm,
  }
  action clearT = all {
    call' = { op: "clearT", ints: [], reals: [], strs: [] }, out' = silence,
    tm' = [], sys' = sys, shift' = shift, acc' = acc,
  }
  action evaluateMatrix(e: int): bool = {
    val ch = isCharged(sys)
    val zs = solveAll(sys, shift, e)
    if (tame(sys, zs, e)) {
      val m = range(0, sys.length()).foldl(tm, (a, k) => setElements(a, transitions(sys[k], zs[k])))
      all {
        call' = { op: if (ch) "tmatrixCharged" else "tmatrix", ints: [], reals: [e],
                  strs: m.foldl([], (l, x) => l.append(x.key)) },
        out' = { throws: false, ints: [m.length()], strs: [],
                 reals: m.foldl([], (l, x) => l.append(scaled(x.re, x.mag + FLOOR))
                                               .append(scaled(x.im, x.mag + FLOOR))) },
        tm' = m, sys' = sys, shift' = shift, acc' = acc,
      }
    } else quiet
  }

  // ---- looking

  action grid(group: int): bool =
    if (gridable(sys)) {
      val part = if (group < 0) sys else [sys[group]]
      val pts = sorted(part.foldl([], (l, g) => l.concat(gridPoints(g))))
      if (crowded(pts)) quiet else all {
        call' = { op: if (group < 0) "grid" else "groupGrid", ints: [group], reals: [], strs: [] },
        out' = answer(pts.foldl([], (l, x) => l.append(scaled(x, 16 * absi(x) +
                 largest(part.foldl([], (k, g) => k.append(largest(g.resonances.foldl([], (m, r) => m.append(absi(r.e)))))))))) ),
        unchanged,
      }
    } else quiet
  action groups = all {
    call' = { op: "groups", ints: [], reals: [], strs: [] },
    out' = { throws: false, ints: [sys.length()], reals: [], strs: [] }, unchanged,
  }
  action describe(group: int): bool = {
    val g = sys[group]
    all {
      call' = { op: "describe", ints: [group], reals: [], strs: [] },
      out' = { throws: false,
               ints: [g.channels.length(), g.channels.select(c => isIncident(c)).length(), g.channels.length(), g.resonances.length()],
               reals: g.resonances.foldl([], (l, r) => [r.e, r.g].concat(r.w).foldl(l, (k, x) => k.append(fixed(x)))),
               strs: g.ids.concat(g.channels.foldl([], (l, c) => l.append(reactionText(c)))).append(captureText(g.channels[0])).concat(g.ids) },
      unchanged,
    }
  }

  // ---- energies: anything, or close to a resonance
  pure def anyEnergy(seed: int, s: List[Group]): int = {
    pure val every = s.foldl([], (l, g) => l.concat(g.resonances.select(r => r.e > 0)))
    if (isCharged(s) and chance(seed, 9, 2)) magnitude(seed, 5, 10, 21)
    else if (every.length() == 0 or chance(seed, 1, 3)) magnitude(seed, 2, -6, 19)
    else {
      pure val r = every[draw(seed, 3, every.length())]
      rough(maxi(r.e / 16, r.e + r.e / 2^between(seed, 4, 3, 12) * between(seed, 6, -64, 64) / 64))
    }
  }
  /// the same energy as one of few, so that histories return to it
  pure def fewEnergies(seed: int, s: List[Group]): int = anyEnergy(draw(seed, 90, 3) + 7, s)

  // ---- channel data of a system, in another order
  pure def toData(s: List[Group], seed: int): List[Data] = {
    pure val every = range(0, s.length()).foldl([], (l, i) => {
      pure val g = s[i]
      pure val t = branch(seed, 40 + i)
      pure val own = range(0, g.channels.length()).foldl([], (k, c) => {
        pure val some = g.resonances.select(r => r.w[c] != 0 or chance(t + r.e / ONE, c, 2))
        pure val turned = if (chance(t, 100 + c, 2)) some else some.foldl([], (m, r) => [r].concat(m))
        k.append({ channel: g.channels[c], energies: turned.foldl([], (m, r) => m.append(r.e)),
                   widths: turned.foldl([], (m, r) => m.append(r.w[c])), eliminated: false }) })
      pure val lost = if (g.resonances.select(r => r.g != 0).length() == 0 and chance(t, 200, 2)) [] else
        [{ channel: makeChannel(t, family(seed), 2, 30, g.channels[0].j, g.channels[0].positive),
           energies: g.resonances.select(r => r.g != 0).foldl([], (m, r) => m.append(r.e)),
           widths: g.resonances.select(r => r.g != 0).foldl([], (m, r) => m.append(r.g)), eliminated: true }]
      if (chance(t, 201, 2)) l.concat(own).concat(lost) else lost.concat(l).concat(own) })
    // deal them out again
    if (chance(seed, 300, 2)) every
    else range(0, every.length()).select(i => i % 2 == 0).concat(range(0, every.length()).select(i => i % 2 == 1))
           .foldl([], (l, i) => l.append(every[i]))
  }

  // ---- things that must be refused (and some that must not)
  pure def damage(s: List[Group], k: int, seed: int): List[Group] = {
    pure val gi = draw(seed, 1, s.length())
    pure val g = s[gi]
    pure val ci = draw(seed, 2, g.channels.length())
    pure val c = g.channels[ci]
    pure val n = g.ids.length()
    pure def again(h: Group): List[Group] = s.replaceAt(gi, h)
    pure def swap(d: Channel): List[Group] = {
      pure val cs = g.channels.replaceAt(ci, d)
      again({ ...g, channels: cs, ids: cs.foldl([], (l, x) => l.append(channelText(x))) }) }
    if (k == 0) []
    else if (k == 1) again({ channels: [], ids: [], resonances: [] })
    else if (k == 2) again({ channels: g.channels.append(c), ids: g.ids.append(g.ids[ci]),
                             resonances: g.resonances.foldl([], (l, r) => l.append({ ...r, w: r.w.append(ONE) })) })
    else if (k == 3) swap({ ...c, j: c.j + 2 })
    else if (k == 4) swap({ ...c, positive: not(c.positive) })
    else if (k == 5) swap({ ...c, incident: { ...c.incident, a: P } })
    else if (k == 6) {
      pure val cs = g.channels.foldl([], (l, x) => l.append(if (isIncident(x)) { ...x, pair: { ...x.pair, given: true, id: "other" } } else x))
      again({ ...g, channels: cs, ids: cs.foldl([], (l, x) => l.append(channelText(x))) }) }
    else if (k == 7) again({ ...g, ids: g.ids.replaceAt(0, g.ids[n - 1]).replaceAt(n - 1, g.ids[0]) })
    else if (k == 8) again({ ...g, ids: g.ids.slice(0, n - 1),
                             resonances: g.resonances.foldl([], (l, r) => l.append({ ...r, w: r.w.slice(0, n - 1) })) })
    else if (k == 9) again({ ...g, ids: g.ids.append(["more"]),
                             resonances: g.resonances.foldl([], (l, r) => l.append({ ...r, w: r.w.append(ONE) })) })
    else if (k == 10 and g.resonances.length() > 0) {
      pure val ri = draw(seed, 3, g.resonances.length())
      again({ ...g, resonances: g.resonances.replaceAt(ri, { ...g.resonances[ri], w: g.resonances[ri].w.slice(0, n - 1) }) }) }
    else if (k == 11 and g.resonances.length() > 0) {
      pure val ri = draw(seed, 3, g.resonances.length())
      again({ ...g, resonances: g.resonances.replaceAt(ri, { ...g.resonances[ri], w: g.resonances[ri].w.append(ONE) }) }) }
    else if (k == 12) s.append(g)
    else if (k == 13) swap({ ...c, pair: { ...c.pair, b: { ...c.pair.b, mass: -c.pair.b.mass - ONE } } })
    else if (k == 14) swap({ ...c, pair: { ...c.pair, b: { ...c.pair.b, z: -c.pair.b.z - 1 } } })
    else if (k == 15) again({ ...g, ids: g.ids.replaceAt(ci, g.ids[ci].append("'")) })
    else if (k == 16) s.append({ ...g, channels: g.channels.foldl([], (l, x) => l.append({ ...x, positive: not(x.positive), j: x.j + 20 })),
                                 ids: g.channels.foldl([], (l, x) => l.append(channelText({ ...x, positive: not(x.positive), j: x.j + 20 }))) })
    else if (k == 17) swap({ ...c, s: c.s + 40 })
    else s
  }
  pure def damageData(d: List[Data], k: int, seed: int): List[Data] = {
    pure val i = draw(seed, 1, d.length())
    pure val x = d[i]
    if (k == 0) d.replaceAt(i, { ...x, widths: x.widths.append(ONE) })
    else if (k == 1) d.replaceAt(i, { ...x, energies: x.energies.append(ONE) })
    else if (k == 2) d.append(x)
    else if (k == 3) d.replaceAt(i, { ...x, eliminated: true })
    else if (k == 4) d.foldl([], (l, y) => l.append({ ...y, eliminated: y.eliminated or y.channel.kind == PHOTON }))
    else if (k == 5) d.replaceAt(i, { ...x, channel: { ...x.channel, j: x.channel.j + 2 } })
    else if (k == 6) d.select(y => not(isIncident(y.channel)))
    else d
  }

  action init = all { call' = noCall, out' = silence, sys' = [], shift' = false, acc' = [], tm' = [] }

  pure val SEEDS = 2^48
  /// histories of neutral systems
  action step = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(19).oneOf()
    nondet sh = Set(true, false).oneOf()
    if (sys.length() == 0 or what == 0) build("build", makeSystem(seed, false), sh)
    else if (what < 8) evaluate(anyEnergy(seed, sys), -1, false)
    else if (what < 11) evaluate(fewEnergies(seed, sys), -1, sh)
    else if (what < 13) evaluate(anyEnergy(seed, sys), draw(seed, 5, sys.length()), false)
    else if (what == 13) keep
    else if (what == 14) clear
    else if (what < 17) evaluateMatrix(anyEnergy(seed, sys))
    else if (what == 17) evaluateMatrix(fewEnergies(seed, sys))
    else if (what == 18) clearT
    else describe(draw(seed, 5, sys.length()))
  }
  /// systems with charged particles in the exit, or in the entrance
  action stepCharged = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(9).oneOf()
    nondet sh = Set(true, false).oneOf()
    if (sys.length() == 0 or what == 0)
      build("build", if (chance(seed, 99, 3)) [makeProtonGroup(seed, family(seed), 3, true)] else makeSystem(seed, true), sh)
    else if (what < 7) evaluate(anyEnergy(seed, sys), -1, false)
    else if (what == 7) clear
    else if (what == 8) clearT
    else evaluateMatrix(anyEnergy(seed, sys))
  }
  /// the T matrix alone
  action stepMatrix = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(7).oneOf()
    nondet sh = Set(true, false).oneOf()
    if (sys.length() == 0 or what < 2) build("build", makeSystem(seed, false), sh)
    else if (what == 2) clearT
    else evaluateMatrix(anyEnergy(seed, sys))
  }
  action stepMatrixCharged = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(7).oneOf()
    nondet sh = Set(true, false).oneOf()
    if (sys.length() == 0 or what < 2)
      build("build", if (chance(seed, 99, 3)) [makeProtonGroup(seed, family(seed), 3, true)] else makeSystem(seed, true), sh)
    else if (what == 2) clearT
    else evaluateMatrix(anyEnergy(seed, sys))
  }
  /// long lives: few systems, few energies, everything in between
  action stepHistory = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(29).oneOf()
    nondet sh = Set(true, false).oneOf()
    if (sys.length() == 0 or what == 0) build("build", makeSystem(draw(seed, 1, 4) + 31, false), sh)
    else if (what < 4) evaluate(anyEnergy(seed, sys), -1, false)
    else if (what < 12) evaluate(fewEnergies(seed, sys), -1, sh)
    else if (what < 16) evaluate(fewEnergies(seed, sys), draw(seed, 5, sys.length()), false)
    else if (what < 19) keep
    else if (what < 21) clear
    else if (what < 24) evaluateMatrix(fewEnergies(seed, sys))
    else if (what == 24) clearT
    else if (what < 27) grid(-1)
    else if (what == 27) groups
    else describe(draw(seed, 5, sys.length()))
  }
  /// energies around the thresholds
  action stepClosed = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(6).oneOf()
    nondet sh = Set(true, false).oneOf()
    val qs = sys.foldl([], (l, g) => l.concat(g.channels.select(c => c.q < 0)))
    if (qs.length() == 0 or what == 0) build("build", makeSystem(seed, false), sh)
    else if (what == 6) clear
    else {
      val q = -qs[draw(seed, 1, qs.length())].q
      evaluate(rough(q + q / 64 * between(seed, 2, -60, 40)), -1, false)
    }
  }
  action stepGrid = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(5).oneOf()
    nondet sh = Set(true, false).oneOf()
    if (sys.length() == 0 or what < 3) build("build", makeSystem(seed, false), sh)
    else if (what < 5) grid(-1)
    else grid(draw(seed, 5, sys.length()))
  }
  action stepData = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(9).oneOf()
    nondet sh = Set(true, false).oneOf()
    if (sys.length() == 0 or what < 2) buildData("buildData", toData(makeSystem(seed, false), seed), sh)
    else if (what < 7) describe(draw(seed, 5, sys.length()))
    else if (what == 7) groups
    else if (what == 8) evaluate(anyEnergy(seed, sys), -1, false)
    else grid(-1)
  }
  /// attempts at building inconsistent systems; what was there stays
  action stepBroken = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(9).oneOf()
    nondet sh = Set(true, false).oneOf()
    nondet kind = 0.to(18).oneOf()
    if (sys.length() == 0) build("build", makeSystem(seed, false), sh)
    else if (what < 5) build("buildBroken", damage(makeSystem(seed, false), kind, seed), sh)
    else if (what < 8) buildData("buildDataBroken", damageData(toData(makeSystem(seed, false), seed), kind % 8, seed), sh)
    else if (what == 8) groups
    else describe(draw(seed, 5, sys.length()))
  }

  // flux: what is lost is never more than what came in, and nothing is lost without eliminated widths
  pure def near0(x: Item): bool = x.v >= -x.mag / 10^30
  val inv = acc.select(x => not(near0(x))).length() == 0

  run compoundTest = init.then(build("build", makeSystem(5, false), true)).then(evaluate(1000 * ONE, -1, false)).then(all {
    assert(acc.length() > 1), call' = call, out' = out, unchanged })
}
