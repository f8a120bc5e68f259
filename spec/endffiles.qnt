/// Resonance ranges of all sorts, made up from a seed, and what can be wrong with them.
module endffiles {
  import num.* from "./num"
  import io.* from "./io"
  import draw.* from "./draw"
  import kinematics.* from "./kinematics"
  import rmodel.* from "./rmodel"
  import nuclei.* from "./nuclei"
  import bwmodel.* from "./bwmodel"
  import averages.* from "./averages"
  import endfmodel.* from "./endfmodel"

  // ---- files
  pure val EMPTYFILE: File = { lru: 1, lrf: 1, naps: 0, kind: 1, lower: 0, upper: 0, radius: constant(0), spi: 0, ap: HALF, nlsc: 0,
    waves: [], ifg: 0, krm: 3, pairs: [], groups: [], us: [], mn: N.mass, mr: N.mass, target: "" }
  /// one of the draws of a radius that is a table; regions share the point at their border
  pure def aTable(seed: int): Radius = {
    pure val t = range(0, 40).foldl(constant(0), (r, k) => if (r.regions.length() > 0) r else {
      pure val t = anyRadius(branch(seed, k), 0)
      if (t.regions.length() > 0) t else r })
    { ...t, regions: t.regions.foldl([], (l, g) => l.append(if (l.length() == 0) g else {
        pure val before = l[l.length() - 1]
        { ...g, y: g.y.replaceAt(0, before.y[before.y.length() - 1]) } })) }
  }
  pure def header(seed: int, kind: int): File = {
    pure val f = family(seed)
    pure val table = chance(seed, 1, 3) and kind != 4
    { ...EMPTYFILE, lru: if (kind >= 5) 2 else 1, lrf: if (kind == 4) 7 else if (kind >= 5) between(seed, 2, 1, 2) else kind, kind: kind,
      naps: draw(seed, 3, 3), radius: if (table) aTable(branch(seed, 9)) else constant(0), spi: f.target.b.spin,
      ap: magnitude(seed, 20, -3, -1), lower: magnitude(seed, 22, -17, 3), upper: magnitude(seed, 24, 8, 18), target: f.target.b.id }
  }
  pure def awriOf(seed: int): int = rough(dvd(family(seed).target.b.mass, N.mass))

  pure def anEr(seed: int, near: int, bound: bool): int =
    (if (bound and chance(seed, 1, 6)) -1 else 1) *
    (if (chance(seed, 2, 3)) rough(near + near / 256 * between(seed, 3, -64, 64)) else magnitude(seed, 4, -1, 17))
  /// a j of an l, with a sign when there are two channel spins for it
  pure def aJ(seed: int, f: File, l: int, turn: int): int = {
    pure val s = if (f.spi == 0) 1 else f.spi - 1 + 2 * draw(seed, 5, 2)
    pure val j = absi(2 * l - s) + 2 * draw(seed, 6, mini(2 * l, s) + 1)
    if (spinsFor(f, l, j).length() > 1 and turn == 1) -j else j
  }
  pure def wideRow(seed: int, f: File, w: Wave, near: int, turn: int): Row = {
    pure val e = anEr(seed, near, not(tabulated(f)))
    pure def width(k: int): int = rough(absi(e) / 2^between(seed, 20 + k, 2, 14))
    pure val n = width(0)
    pure val g = width(1)
    pure val fi_ = if (chance(seed, 7, 2)) 0 else width(2)
    // no decay into a closed channel
    pure val x = if (w.lrx == 0 or e < 0 or competingEnergy(w, e) <= e / 100 or chance(seed, 8, 3)) 0 else width(3)
    { e: e, j: aJ(seed, f, w.l, turn), w: [n + g + fi_ + x, n, g, fi_] }
  }
  pure def inOrder(seed: int, k: int, n: int): List[int] =
    if (chance(seed, k, 3)) range(0, n).foldl([], (l, i) => [i].concat(l)) else range(0, n)
  pure def makeWaves(seed: int): File = {
    pure val h = header(seed, between(seed, 30, 1, 2))
    pure val lrx = chance(seed, 31, 3)
    pure val f = if (lrx) { ...h, radius: constant(0) } else h
    pure val near = magnitude(seed, 50, 2, 17)
    pure val nls = between(seed, 32, 1, 4)
    pure val turns = draw(seed, 33, 2)
    { ...f, waves: inOrder(seed, 34, nls).foldl([], (l, k) => {
        pure val t = branch(seed, 60 + k)
        pure val w = { l: k, lrx: if (lrx and not(chance(t, 1, 3))) 1 else 0, awri: awriOf(seed), apl: 0, rows: [],
                       qx: if (lrx) (if (chance(t, 2, 3)) 0 else sign(t, 3) * magnitude(t, 4, 2, 16)) else 0 }
        l.append({ ...w, rows: range(0, if (nls == 1) between(t, 5, 1, 4) else among(t, 6, [0, 1, 2, 3, 4, 5])).foldl([], (r, i) =>
          r.append(wideRow(branch(t, i), f, w, near, (k + turns) % 2))) }) }) }
  }
  pure def boundedWidth(width: int, c: Channel, e: int): int =
    rough(mini(width, 2 * 10^6 * channelState(c, e).P))
  pure def narrowRow(seed: int, f: File, w: Wave, near: int, fissile: int): Row = {
    pure val e = anEr(seed, near, not(tabulated(f)))
    pure def width(k: int): int = rough(absi(e) / 2^between(seed, 20 + k, 2, 14))
    pure val j = aJ(seed, f, w.l, draw(seed, 9, 2))
    pure val c = elasticChannel(f, w.awri, w.l, spinOf(f, w.l, j), absi(j), radiiFor(f, if (w.apl != 0) w.apl else f.ap, w.awri))
    pure def fission(k: int): int = if (chance(seed, k, 3)) 0 else sign(seed, 40 + k) * width(k)
    { e: e, j: j, w: [boundedWidth(width(0), c, e) * (if (chance(seed, 10, 5)) -1 else 1),
                      if (chance(seed, 11, 12)) 0 else width(1),
                      if (fissile == 1 or fissile == 3) fission(2) else 0, if (fissile >= 2) fission(3) else 0] }
  }
  pure def makeMoore(seed: int): File = {
    pure val f = header(seed, 3)
    pure val near = magnitude(seed, 50, 2, 17)
    pure val nls = between(seed, 32, 1, 3)
    pure val fissile = among(seed, 33, [0, 0, 1, 2, 3])
    { ...f, nlsc: nls + among(seed, 35, [0, 0, 1, 2]), waves: inOrder(seed, 34, nls).foldl([], (l, k) => {
        pure val t = branch(seed, 60 + k)
        pure val w = { l: k, lrx: 0, awri: awriOf(seed), qx: 0, rows: [], apl: if (chance(t, 1, 3)) magnitude(t, 2, -3, -1) else 0 }
        l.append({ ...w, rows: range(0, among(t, 6, [0, 1, 2, 2, 3, 4])).foldl([], (r, i) =>
          r.append(narrowRow(branch(t, i), f, w, near, fissile))) }) }) }
  }
  pure def toFilePair(p: Pair, mt: int, q: int, shf: int): FilePair = {
    pure def spin(x: Particle): int = if (x.spin == 0) 0 else x.parity * x.spin
    { za: p.a.z, zb: p.b.z, ia: spin(p.a), ib: spin(p.b), pnt: if (mt == 102 or mt == 18) 0 else 1, shf: if (mt == 102 or mt == 18) 0 else shf,
      mt: mt, pa: p.a.parity, pb: p.b.parity,
      ma: rough(dvd(p.a.mass, N.mass)), mb: rough(dvd(p.b.mass, N.mass)), q: q, ida: p.a.id, idb: p.b.id }
  }
  pure def shuffled(l: List[FilePair], seed: int): List[FilePair] =
    l.foldl([], (r, p) => { pure val k = draw(seed, 70 + r.length(), r.length() + 1) r.slice(0, k).append(p).concat(r.slice(k, r.length())) })
  pure def makeFileGroup(seed: int, f: File, aj: int, pj: int, s0: int): FileGroup = {
    pure val mts = f.pairs.foldl([], (l, p) => l.append(p.mt))
    pure def number(mt: int): int = range(0, mts.length()).select(i => mts[i] == mt)[0] + 1
    pure val n = between(seed, 1, 1, 4)
    pure val here = draw(seed, 2, n)
    pure val other = f.pairs.select(p => p.mt != 102)
    pure val gone = if (has(f, 102) and not(chance(seed, 3, 4))) draw(seed, 4, n + 1) else -1
    pure def one(c: int, mt: int): FileChannel = {
      pure val t = branch(seed, c)
      { ppi: number(mt), l: draw(t, 1, if (mt == 103 or mt == 107) 4 else 5), s: s0 + 2 * c,
        b: if (chance(t, 2, 2)) 0 else sign(t, 3) * magnitude(t, 4, -4, 1), ape: magnitude(t, 6, -3, -1), apt: magnitude(t, 8, -3, -1) } }
    pure val own = range(0, n).foldl([], (l, c) =>
      (if (c == gone) l.append(one(10 + c, 102)) else l).append(one(c, if (c == here) 2 else other[draw(seed, 20 + c, other.length())].mt)))
    pure val cs = if (gone == n) own.append(one(10 + n, 102)) else own
    pure val g = { aj: aj, pj: pj, channels: cs, rows: [] }
    pure val chs = cs.foldl([], (l, c) => l.append(toChannel(f, g, c)))
    pure val near = magnitude(seed, 50, 2, 17)
    { ...g, rows: range(0, among(seed, 5, [0, 1, 2, 2, 3, 4])).foldl([], (l, i) => {
        pure val t = branch(seed, 30 + i)
        pure val e = anEr(t, near, true)
        l.append({ e: e, j: 0, w: range(0, cs.length()).foldl([], (k, c) => {
          pure val width = rough(absi(e) / 2^between(t, 20 + c, 2, 12))
          k.append(if (chance(t, 50 + c, 6)) 0
                   else sign(t, 60 + c) * (if (f.ifg == 0) maxi(2^100, boundedWidth(width, chs[c], e)) else reduced(width, channelState(chs[c], e).P))) }) }) }) }
  }
  pure def makeLimited(seed: int, charged: bool): File = {
    pure val h = header(seed, 4)
    pure val fam = family(seed)
    pure val shf = draw(seed, 31, 2)
    pure val ps = [toFilePair(fam.target, 2, 0, shf)]
      .concat(if (chance(seed, 32, 4)) [] else [toFilePair(fam.capture, 102, magnitude(seed, 40, 19, 22), shf)])
      .concat(if (chance(seed, 33, 2)) [] else [toFilePair(fam.inelastic, 51, -magnitude(seed, 42, 4, 15), shf)])
      .concat(if (chance(seed, 34, 2)) [] else [toFilePair(fam.fission, 18, magnitude(seed, 44, 19, 22), shf)])
      .concat(if (not(charged) or chance(seed, 35, 3)) [] else [toFilePair(fam.proton, 103, magnitude(seed, 46, 19, 22), shf)])
      .concat(if (not(charged) or chance(seed, 36, 2)) [] else [toFilePair(fam.alpha, 107, magnitude(seed, 48, 19, 22), shf)])
    pure val f = { ...h, ifg: if (charged) 1 else draw(seed, 37, 2), naps: 0, spi: 0, pairs: shuffled(ps, seed) }
    pure val j0 = between(seed, 38, 0, 9)
    pure val order = draw(seed, 39, 2)
    pure val n = among(seed, 22, [1, 1, 2, 3])
    pure val s0 = draw(seed, 23, 4)
    { ...f, groups: range(0, n).foldl([], (l, g) => {
        pure val twin = g == 1 and chance(seed, 24, 5)
        pure val k = if (twin) 0 else g
        pure val j = j0 + 2 * (k / 2)
        pure val p = if ((k + order) % 2 == 0) 1 else -1
        l.append(makeFileGroup(branch(seed, 80 + g), f, j * p, if (j == 0) p else 0, if (twin) s0 + 40 else s0)) }) }
  }
  pure def makeAverages(seed: int): File = {
    pure val kind = between(seed, 30, 5, 7)
    pure val h = header(seed, kind)
    pure def energiesOf(t: int): List[int] = {
      pure val l = sorted(range(0, between(t, 1, 2, 6)).foldl([], (k, i) => k.append(magnitude(branch(t, i), 1, 5, 15))))
      if (l.length() > 1) l else [l[0], 2 * l[0]] }
    pure val es = energiesOf(branch(seed, 1))
    pure val lo = es[0]
    pure val hi = es[es.length() - 1]
    // mostly the ends of the table, as in files
    pure val lower = if (chance(seed, 31, 4)) rough(lo + (hi - lo) / 16) else lo
    pure val upper = if (chance(seed, 32, 4)) rough(hi - (hi - lo) / 16) else hi
    { ...h, lower: lower, upper: upper,
      us: inOrder(seed, 33, between(seed, 34, 1, 3)).foldl([], (l, k) => {
        pure val t = branch(seed, 40 + k)
        pure val s = if (h.spi == 0) 1 else h.spi + 1
        pure val j0 = absi(2 * k - s)
        pure val start = draw(t, 1, mini(2 * k, s) + 1)
        l.append({ l: k, awri: awriOf(seed), js: range(0, between(t, 2, 1, 3)).foldl([], (js, i) => {
          pure val u = branch(t, 20 + i)
          pure val own = if (kind == 7 and chance(u, 1, 3)) [lo].concat(energiesOf(u).select(x => lo < x and x < hi)).append(hi) else es
          pure def node(v: int, e: int): Node = {
            pure val fissile = not(chance(u, 2, 2))
            pure val competes_ = not(chance(u, 3, 2))
            { e: e, d: magnitude(v, 1, -2, 8), n: magnitude(v, 3, -14, -4), g: magnitude(v, 5, -10, 0),
              f: if (not(fissile) or chance(v, 7, 5)) 0 else magnitude(v, 8, -12, 1),
              x: if (not(competes_) or chance(v, 10, 5)) 0 else magnitude(v, 11, -12, 1) } }
          pure val base = node(branch(u, 30), lo)
          js.append({ j: j0 + 2 * (start + i),
            degrees: { n: if (chance(u, 8, 12)) 0 else between(u, 9, 1, 4), g: if (kind == 7) draw(u, 10, 5) else 0,
                       f: if (kind == 5) 0 else between(u, 11, 1, 4), x: if (kind == 7) between(u, 12, 1, 4) else 0 },
            nodes: if (kind == 5) [{ ...base, f: 0, x: 0 }]
                   else range(0, if (kind == 6) es.length() else own.length()).foldl([], (r, q) => {
                     pure val y = node(branch(u, 31 + q), if (kind == 6) es[q] else own[q])
                     r.append(if (kind == 6) { ...base, e: y.e, f: y.f, x: 0 } else y) }) }) }) }) }) }
  }
  pure def makeFile(seed: int, what: int): File =
    if (what == 0) makeWaves(seed) else if (what == 1) makeMoore(seed) else if (what == 2) makeLimited(seed, false)
    else if (what == 3) makeLimited(seed, true) else makeAverages(seed)

  // ---- files that must be refused (and some that must not)
  pure def damage(f: File, seed: int): File = {
    pure val what = draw(seed, 100, 12)
    pure def onWave(k: int, w: Wave): File = { ...f, waves: f.waves.replaceAt(k, w) }
    if (what == 0) { ...f, lru: among(seed, 101, [0, 3, if (f.lru == 1) 2 else 1]) }
    else if (what == 1 and f.lru == 1) { ...f, lrf: among(seed, 101, [0, 1, 2, 3, 4, 5, 6, 7, 8]) }
    else if (what == 2) { ...f, naps: 3 }
    else if (what == 3 and f.kind != 4) { ...f, naps: 3, radius: aTable(seed) }
    else if (f.kind <= 3) {
      pure val k = draw(seed, 102, f.waves.length())
      pure val w = f.waves[k]
      pure def rowed(j: int): Row = { e: magnitude(seed, 60, 2, 10), j: j, w: [4 * ONE, ONE, ONE, ONE] }
      pure val s = if (f.spi == 0) 1 else f.spi + 1
      if (what == 4) onWave(k, { ...w, rows: w.rows.append(rowed(2 * w.l + s + 2)) })
      else if (what == 5) onWave(k, { ...w, rows: w.rows.append(rowed(2 * w.l + s + 1)) })
      else if (what == 6 and w.rows.length() > 0) onWave(k, { ...w, rows: w.rows.append({ ...rowed(-w.rows[0].j), w: [3 * ONE, ONE, ONE, 0] }) })
      else if (what == 7) onWave(k, { ...w, l: if (f.kind == 3) f.nlsc else f.waves.length(), rows: [rowed(absi(2 * f.nlsc - s))] })
      else if (what == 8) { ...f, waves: f.waves.foldl([], (l, x) => l.append({ ...x, rows: [] })) }
      else if (what == 9 and f.kind == 3) { ...f, nlsc: 0 }
      // an l that is given twice (where a J can only mean one channel spin)
      else if (what == 10 and w.rows.select(r => spinsFor(f, w.l, absi(r.j)).length() == 1).length() > 0) { ...f, waves: f.waves.append({ ...w, apl: 0 }) }
      else { ...f, kind: 0 }
    }
    else if (f.kind == 4) {
      pure val k = draw(seed, 102, f.groups.length())
      pure val g = f.groups[k]
      pure def onGroup(x: FileGroup): File = { ...f, groups: f.groups.replaceAt(k, x) }
      if (what == 4 or what == 5) { ...f, krm: among(seed, 103, [0, 1, 2, 4]) }
      else if (what == 6) { ...f, pairs: f.pairs.foldl([], (l, p) => l.append(if (p.mt == 2) { ...p, mt: 51, q: -ONE } else p)) }
      else if (what < 9) onGroup({ ...g, channels: g.channels.append(g.channels[0]),
                                   rows: g.rows.foldl([], (l, r) => l.append({ ...r, w: r.w.append(ONE) })) })
      else if (what == 9) onGroup({ ...g, channels: g.channels.foldl([], (l, c) => l.append({ ...c, s: g.channels[0].s, l: g.channels[0].l })) })
      else if (what == 10) { ...f, groups: f.groups.append(g) }
      else { ...f, pairs: f.pairs.foldl([], (l, p) => l.append(if (p.mt == 2) { ...p, mb: -p.mb } else p)) }
    }
    else {
      pure val k = draw(seed, 102, f.us.length())
      pure val u = f.us[k]
      pure val i = draw(seed, 103, u.js.length())
      pure val j = u.js[i]
      pure def onJ(x: FileJ): File = { ...f, us: f.us.replaceAt(k, { ...u, js: u.js.replaceAt(i, x) }) }
      if (what < 7) onJ({ ...j, degrees: { ...j.degrees, n: between(seed, 104, 4, 9) } })
      else if (what < 10) { ...f, us: f.us.replaceAt(k, { ...u, js: u.js.append(j) }) }
      else if (what == 10 and f.kind == 7) onJ({ ...j, nodes: [j.nodes[0]] })
      else if (what == 11) { ...f, us: f.us.append({ ...u, js: [{ ...j, j: j.j + 40 }] }) }
      else { ...f, kind: 0 }
    }
  }

  run endffilesTest = all {
    assert(0.to(8).forall(k => readable(makeWaves(k * 31 + 5)))),
    assert(0.to(6).forall(k => readable(makeMoore(k * 31 + 5)))),
    assert(0.to(6).forall(k => readable(makeLimited(k * 31 + 5, k % 2 == 0)))),
    assert(0.to(6).forall(k => readable(makeAverages(k * 31 + 5)))),
  }
}
