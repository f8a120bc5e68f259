/// What the resonance ranges of an ENDF file mean (ENDF-6 manual, file 2): from the numbers in the
/// file to channels, radii and resonances.
module endfmodel {
  import num.* from "./num"
  import io.* from "./io"
  import kinematics.* from "./kinematics"
  import coulombwave.* from "./coulombwave"
  import rmodel.* from "./rmodel"
  import bwmodel.* from "./bwmodel"
  import averages.* from "./averages"

  // ---- the file: spins in units of one half, negative ones carry a parity or a channel spin
  /// w: GT GN GG GF (Breit-Wigner), GN GG GFA GFB (Reich-Moore), one per channel (R-matrix limited)
  type Row = { e: int, j: int, w: List[int] }
  type Wave = { l: int, lrx: int, awri: int, qx: int, apl: int, rows: List[Row] }
  /// ida, idb: the names the reaction gives to the particles
  type FilePair = { za: int, zb: int, ia: int, ib: int, pnt: int, shf: int, mt: int, pa: int, pb: int,
                    ma: int, mb: int, q: int, ida: str, idb: str }
  type FileChannel = { ppi: int, l: int, s: int, b: int, ape: int, apt: int }
  type FileGroup = { aj: int, pj: int, channels: List[FileChannel], rows: List[Row] }
  type FileJ = { j: int, degrees: Quad, nodes: List[Node] }
  type FileL = { l: int, awri: int, js: List[FileJ] }
  /// mn: mass of the neutron, mr: the one in the radius formula;
  /// kind: 0 only a radius, 1 single level, 2 multi level, 3 Reich-Moore, 4 R-matrix limited,
  /// 5, 6, 7 unresolved (all constant, fission depends on the energy, everything does)
  type File = { lru: int, lrf: int, naps: int, kind: int, lower: int, upper: int, radius: Radius, spi: int, ap: int, nlsc: int,
                waves: List[Wave], ifg: int, krm: int, pairs: List[FilePair], groups: List[FileGroup], us: List[FileL],
                mn: int, mr: int, target: str }

  pure def flatWave(w: Wave): Flat =
    all_([fi([w.l, w.lrx]), fr([w.awri, w.qx, w.apl]), fi([w.rows.length()]),
          fi(w.rows.foldl([], (l, r) => l.append(r.j))), fr(w.rows.foldl([], (l, r) => l.append(r.e).concat(r.w)))])
  pure def flatFilePair(p: FilePair): Flat =
    cat(fi([p.za, p.zb, p.ia, p.ib, p.pnt, p.shf, p.mt, p.pa, p.pb]), fr([p.ma, p.mb, p.q]))
  pure def flatFileGroup(g: FileGroup): Flat =
    all_([fi([g.aj, g.pj, g.channels.length()]), fi(g.channels.foldl([], (l, c) => l.concat([c.ppi, c.l, c.s]))),
          fr(g.channels.foldl([], (l, c) => l.concat([c.b, c.ape, c.apt]))), fi([g.rows.length()]),
          fr(g.rows.foldl([], (l, r) => l.append(r.e).concat(r.w)))])
  pure def flatFileJ(j: FileJ): Flat =
    cat(fi([j.j, j.degrees.n, j.degrees.g, j.degrees.f, j.degrees.x, j.nodes.length()]),
        fr(j.nodes.foldl([], (l, x) => l.concat([x.e, x.d, x.n, x.g, x.f, x.x]))))
  pure def flatFileL(u: FileL): Flat =
    all_([fi([u.l]), fr([u.awri]), fi([u.js.length()]), all_(u.js.foldl([], (l, j) => l.append(flatFileJ(j))))])
  pure def flatFile(f: File): Flat =
    all_([fi([f.lru, f.lrf, f.naps, f.kind]), fr([f.lower, f.upper]), flatRadius(f.radius), fi([f.spi]), fr([f.ap]), fi([f.nlsc]),
          if (f.kind == 4) all_([fi([f.ifg, f.krm, f.pairs.length()]), all_(f.pairs.foldl([], (l, p) => l.append(flatFilePair(p)))),
                                 fi([f.groups.length()]), all_(f.groups.foldl([], (l, g) => l.append(flatFileGroup(g))))])
          else if (f.kind >= 5) cat(fi([f.us.length()]), all_(f.us.foldl([], (l, u) => l.append(flatFileL(u)))))
          else if (f.kind >= 1) cat(fi([f.waves.length()]), all_(f.waves.foldl([], (l, w) => l.append(flatWave(w)))))
          else EMPTY,
          fr([f.mn]), fs([["n"], [f.target]])])

  // ---- radii
  pure def tabulated(f: File): bool = f.radius.regions.length() > 0
  pure def constant(x: int): Radius = { value: x, regions: [] }
  /// 0.123 A^(1/3) + 0.08 with the mass of the target in dalton
  pure def formula(f: File, awri: int): int =
    ratio(123, 1000) * exp(ln(mul(awri, f.mr)) / 3) / ONE + ratio(8, 100)
  /// the first for P and S, the second for phi
  pure def radiiFor(f: File, ap: int, awri: int): List[Radius] =
    if (tabulated(f)) (if (f.naps == 0) [constant(formula(f, awri)), f.radius]
                       else if (f.naps == 1) [f.radius] else [constant(ap), f.radius])
    else if (f.naps == 0) [constant(formula(f, awri)), constant(ap)] else [constant(ap)]

  // ---- neutron channels
  pure def neutronPair(f: File, awri: int): Pair =
    { a: { id: "n", mass: f.mn, z: 0, spin: 1, parity: 1 },
      b: { id: f.target, mass: mul(awri, f.mn), z: 0, spin: f.spi, parity: 1 }, given: false, id: "" }
  pure def elasticChannel(f: File, awri: int, l: int, s: int, j: int, radii: List[Radius]): Channel =
    { kind: NEUTRON, incident: neutronPair(f, awri), pair: neutronPair(f, awri), alias: [], q: 0,
      l: l, s: s, j: j, positive: l % 2 == 0, radii: radii, b: 0 }
  pure def couples(l: int, s: int, j: int): bool =
    j >= absi(2 * l - s) and j <= 2 * l + s and (2 * l + s + j) % 2 == 0
  /// channel spins of a neutron and the target that make j out of l
  pure def spinsFor(f: File, l: int, j: int): List[int] =
    (if (f.spi == 0) [1] else [f.spi - 1, f.spi + 1]).select(s => couples(l, s, j))
  /// a negative j stands for the lower channel spin, where there is a choice
  pure def spinOf(f: File, l: int, j: int): int = {
    pure val ss = spinsFor(f, l, absi(j))
    if (j < 0) ss[0] else ss[ss.length() - 1]
  }
  pure def jsOf(w: Wave): List[int] = sorted(w.rows.foldl([], (l, r) => l.append(r.j)))
  /// the waves a file talks about: each j possible, and claimed once
  pure def assignable(f: File, w: Wave, lmax: int): bool = {
    pure val js = jsOf(w)
    and { w.l < lmax or js.length() == 0,
          js.select(j => spinsFor(f, w.l, absi(j)).length() == 0).length() == 0,
          js.select(j => j < 0 and js.select(k => k == -j).length() > 0 and spinsFor(f, w.l, -j).length() < 2).length() == 0 }
  }

  // ---- Breit-Wigner
  /// the energy of the competing channel that corresponds to a neutron energy, in the laboratory
  pure def competingEnergy(w: Wave, e: int): int = e + dvd(mul(w.qx, w.awri + ONE), w.awri)
  /// law 0: closed below its threshold; 1: at e - QX, open everywhere
  pure def competingP(c: Channel, w: Wave, e: int, law: int): int = {
    pure val x = competingEnergy(w, e)
    if (law == 1) channelState(c, e - w.qx).P
    else if (x <= 0) 0 else channelState(c, x).P
  }
  type Bw = { series: Series, wave: Wave }
  pure def toSeries(f: File, w: Wave, j: int, law: int): Series = {
    pure val c = elasticChannel(f, w.awri, w.l, spinOf(f, w.l, j), absi(j), radiiFor(f, f.ap, w.awri))
    { channel: c, qx: w.qx,
      levels: w.rows.select(r => r.j == j).foldl([], (l, r) => {
        pure val st = channelState(c, r.e)
        pure val q = if (w.lrx == 0) st.P else competingP(c, w, r.e, law)
        pure val x = if (w.lrx == 0) 0 else r.w[0] - r.w[1] - r.w[2] - r.w[3]
        l.append({ e: r.e, n: r.w[1], g: r.w[2], f: r.w[3], x: if (q == 0) 0 else x, p: st.P, q: if (q == 0) ONE else q, s: st.S }) }) }
  }
  pure def seriesOf(f: File, law: int): List[Bw] = f.waves.foldl([], (l, w) =>
    jsOf(w).foldl(l, (k, j) => k.append({ series: toSeries(f, w, j, law), wave: w })))
  pure def competes(f: File): bool = f.waves.select(w => w.lrx != 0).length() > 0
  pure def bwSigmas(b: Bw, e: int, multi: bool, law: int): List[Item] = {
    pure val st = channelState(b.series.channel, e)
    sigmasWith(b.series, st, if (b.wave.lrx == 0) st.P else competingP(b.series.channel, b.wave, e, law), e, multi)
  }

  // ---- Reich-Moore
  pure def fromWidth(width: int, P: int): int =
    (if (width < 0) -1 else 1) * sqrt(dvd(absi(width) / 2, P))
  /// capture and fission channels: of the elastic pair, with their own names
  pure def otherChannel(c: Channel, kind: int, name: str, alias: Text, s: int): Channel =
    { ...c, kind: kind, pair: { ...c.pair, given: true, id: name }, alias: alias, s: s }
  /// aside: the fission channels of both channel spins of an l and J need different names
  pure def toData(f: File, w: Wave, j: int, aside: bool): List[Data] = {
    pure val c = elasticChannel(f, w.awri, w.l, spinOf(f, w.l, j), absi(j),
                                radiiFor(f, if (w.apl != 0) w.apl else f.ap, w.awri))
    pure val rows = w.rows.select(r => r.j == j)
    pure val es = rows.foldl([], (l, r) => l.append(r.e))
    pure val s = if (aside) c.s else 0
    pure def column(k: int): List[int] = rows.foldl([], (l, r) => l.append(fromWidth(r.w[k], ONE)))
    pure def fissile(k: int): bool = rows.select(r => r.w[k] != 0).length() > 0
    pure def fission(k: int, name: str): Data =
      { channel: otherChannel(c, FISSION, "fission", [name], s), energies: es, widths: column(k), eliminated: false }
    [{ channel: c, energies: es, eliminated: false,
       widths: rows.foldl([], (l, r) => l.append(fromWidth(r.w[0], channelState(c, r.e).P))) },
     { channel: otherChannel(c, PHOTON, "capture", [], s), energies: es, widths: column(1), eliminated: true }]
      .concat(if (fissile(2)) [fission(2, "fission1")] else [])
      .concat(if (fissile(3)) [fission(3, if (fissile(2)) "fission2" else "fission1")] else [])
  }
  /// eliminated channels of one J and parity act as one
  pure def merged(d: List[Data]): List[Data] = {
    pure val gone = d.select(x => x.eliminated)
    d.select(x => not(x.eliminated)).concat(sorted(gone.foldl([], (l, x) => l.append(rank(x.channel)))).foldl([], (l, k) => {
      pure val same = gone.select(x => rank(x.channel) == k)
      l.append({ ...same[0], energies: same.foldl([], (m, x) => m.concat(x.energies)),
                 widths: same.foldl([], (m, x) => m.concat(x.widths)) }) }))
  }
  /// every l and channel spin scatters, with resonances or without
  pure def silentChannels(f: File, claimed: List[Data]): List[Data] =
    range(0, f.nlsc).foldl([], (l, k) => {
      pure val ws = f.waves.select(w => w.l == k and w.apl != 0)
      pure val radii = radiiFor(f, if (ws.length() > 0) ws[0].apl else f.ap, f.waves[0].awri)
      (if (f.spi == 0) [1] else [f.spi - 1, f.spi + 1]).foldl(l, (m, s) =>
        range(absi(2 * k - s), 2 * k + s + 1).select(j => couples(k, s, j)).foldl(m, (n, j) =>
          if (claimed.select(d => d.channel.kind == NEUTRON and d.channel.l == k and d.channel.s == s and d.channel.j == j).length() > 0) n
          else n.append({ channel: elasticChannel(f, f.waves[0].awri, k, s, j, radii), energies: [], widths: [], eliminated: false }))) })
  pure def moored(f: File, aside: bool): List[Data] = {
    pure val d = f.waves.foldl([], (l, w) => jsOf(w).foldl(l, (k, j) => k.concat(toData(f, w, j, aside))))
    merged(d.concat(silentChannels(f, d)))
  }

  // ---- R-matrix limited
  pure def signed(spin: int, parity: int): int = if (spin == 0) (if (parity >= 0) 1 else -1) else if (spin > 0) 1 else -1
  pure def toPair(f: File, p: FilePair): Pair =
    { a: { id: p.ida, mass: mul(p.ma, f.mn), z: p.za, spin: absi(p.ia), parity: signed(p.ia, p.pa) },
      b: { id: p.idb, mass: mul(p.mb, f.mn), z: p.zb, spin: absi(p.ib), parity: signed(p.ib, p.pb) },
      given: p.mt == 18, id: if (p.mt == 18) "fission" else "" }
  pure def has(f: File, mt: int): bool = f.pairs.select(p => p.mt == mt).length() > 0
  pure def pairOf(f: File, mt: int): FilePair = f.pairs.select(p => p.mt == mt)[0]
  pure def toChannel(f: File, g: FileGroup, c: FileChannel): Channel = {
    pure val p = f.pairs[c.ppi - 1]
    { kind: if (p.mt == 102) PHOTON else if (p.mt == 18) FISSION else if (p.za > 0) CHARGED else NEUTRON,
      incident: toPair(f, pairOf(f, 2)), pair: toPair(f, p), alias: [], q: p.q, l: c.l, s: c.s, j: absi(g.aj),
      positive: signed(g.aj, g.pj) > 0, radii: [constant(c.apt), constant(c.ape)], b: c.b }
  }
  pure def groupData(f: File, g: FileGroup): List[Data] = range(0, g.channels.length()).foldl([], (l, k) => {
    pure val c = toChannel(f, g, g.channels[k])
    pure val gone = c.kind == PHOTON and range(0, k).select(i => f.pairs[g.channels[i].ppi - 1].mt == 102).length() == 0
    pure val rows = g.rows.select(r => r.w[k] != 0)
    if (rows.length() == 0 and not(isIncident(c))) l
    else l.append({ channel: c, energies: rows.foldl([], (m, r) => m.append(r.e)), eliminated: gone and rows.length() > 0,
                    widths: rows.foldl([], (m, r) => m.append(
                      if (f.ifg != 0) r.w[k] else fromWidth(r.w[k], channelState(c, r.e).P))) }) })
  pure def limited(f: File): List[Data] = merged(f.groups.foldl([], (l, g) => l.concat(groupData(f, g))))

  // ---- unresolved
  pure def toBand(f: File, u: FileL, j: FileJ): Band = {
    pure val c = elasticChannel(f, f.us[0].awri, u.l, 1, j.j, radiiFor(f, f.ap, f.us[0].awri))
    pure val x = j.nodes[0]
    { channel: c, degrees: j.degrees,
      nodes: if (f.kind == 5) [{ ...x, e: f.lower }, { ...x, e: f.upper }] else j.nodes }
  }
  pure def bandsOf(f: File): List[Band] = f.us.foldl([], (l, u) => u.js.foldl(l, (k, j) => k.append(toBand(f, u, j))))

  // ---- what can be read
  pure def goodRadii(f: File): bool = not(tabulated(f)) or f.naps <= 2
  pure def form(f: File): int =
    if (f.lru == 1 and f.lrf == f.kind and f.kind >= 1 and f.kind <= 3) f.kind
    else if (f.lru == 1 and f.lrf == 7 and f.kind == 4 and f.krm == 3) 4
    else if (f.lru == 2 and f.kind >= 5) f.kind else 0
  pure def readable(f: File): bool = {
    pure val k = form(f)
    if (k == 0) false
    else if (k == 1 or k == 2) and {
      goodRadii(f), f.waves.select(w => not(assignable(f, w, f.waves.length()))).length() == 0,
      onlyOnce(seriesOf(f, 0).foldl([], (l, b) => l.append(b.series.channel))) }
    else if (k == 3) and {
      goodRadii(f), f.waves.select(w => not(assignable(f, w, f.nlsc))).length() == 0, soundData(moored(f, true)) }
    else if (k == 4) has(f, 2) and soundData(limited(f))
    else and { goodRadii(f), onlyOnce(bandsOf(f).foldl([], (l, b) => l.append(b.channel))),
               bandsOf(f).select(b => not(sound(b))).length() == 0 }
  }
  /// both channel spins of an l and J with fission: different channels, with the same name
  pure def namesakes(f: File): bool = form(f) == 3 and readable(f) and not(soundData(moored(f, false)))

  run endfmodelTest = {
    val f: File = { lru: 1, lrf: 1, naps: 0, kind: 1, lower: 0, upper: ONE, radius: constant(0), spi: 1, ap: HALF, nlsc: 2, waves: [],
                    ifg: 0, krm: 3, pairs: [], groups: [], us: [], mn: ONE, mr: ONE, target: "Fe56" }
    all {
      // 125^(1/3) = 5, 1000^(1/3) = 10
      assert(absi(formula(f, 125 * ONE) - ratio(695, 1000)) < 2^20),
      assert(absi(formula(f, 1000 * ONE) - ratio(131, 100)) < 2^20),
      // spin 1/2 on spin 1/2, l = 1: 0- and 1- with spin 1 and 0
      assert(spinsFor(f, 1, 2) == [0, 2]), assert(spinOf(f, 1, 2) == 2), assert(spinOf(f, 1, -2) == 0),
      assert(spinOf(f, 1, 0) == 2), assert(spinOf(f, 0, 0) == 0), assert(spinOf(f, 0, -2) == 2), assert(spinsFor(f, 0, 4) == []),
      // all channels of l < 2: two for l = 0, four for l = 1, weights 2 l + 1 in total
      assert(silentChannels({ ...f, waves: [{ l: 0, lrx: 0, awri: 50 * ONE, qx: 0, apl: 0, rows: [] }] }, []).length() == 6),
      assert(silentChannels({ ...f, waves: [{ l: 0, lrx: 0, awri: 50 * ONE, qx: 0, apl: 0, rows: [] }] }, []).foldl(0, (s, d) => s + spinFactor(d.channel)) == 4 * ONE),
      assert(fromWidth(-8 * ONE, ONE) == -2 * ONE),
      assert(radiiFor({ ...f, naps: 1 }, ONE, ONE) == [constant(ONE)]),
      assert(radiiFor(f, ONE, ONE)[1] == constant(ONE)),
    }
  }
}
