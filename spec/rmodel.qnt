/// Reich-Moore R-matrix theory: radii, channels, spin groups and what they
/// predict. The cross sections come from the level matrix
///   (A^-1)(i,j) = (E(i) - E - i g(i)^2) delta(i,j) - sum over c of w(i,c) L(c) w(j,c)
/// and not from the channel matrix (1 - R L)^-1 R that the code inverts.
module rmodel {
  import num.* from "./num"
  import io.* from "./io"
  import sphere.* from "./sphere"
  import coulombwave.* from "./coulombwave"
  import kinematics.* from "./kinematics"

  pure def total(l: List[int]): int = l.foldl(0, (s, x) => s + x)
  pure def largest(l: List[int]): int = l.foldl(0, (s, x) => maxi(s, x))

  // ---- flat descriptions
  type Flat = { i: List[int], r: List[int], s: List[Text] }
  pure val EMPTY: Flat = { i: [], r: [], s: [] }
  pure def cat(a: Flat, b: Flat): Flat = { i: a.i.concat(b.i), r: a.r.concat(b.r), s: a.s.concat(b.s) }
  pure def fi(i: List[int]): Flat = { i: i, r: [], s: [] }
  pure def fr(r: List[int]): Flat = { i: [], r: r, s: [] }
  pure def fs(s: List[Text]): Flat = { i: [], r: [], s: s }
  pure def all_(l: List[Flat]): Flat = l.foldl(EMPTY, (x, y) => cat(x, y))
  pure def toCall(op: str, f: Flat): Call = { op: op, ints: f.i, reals: f.r, strs: f.s }

  // ---- radii: a constant, or regions of a table with an interpolation law each
  type Region = { law: int, x: List[int], y: List[int] }
  type Radius = { value: int, regions: List[Region] }
  pure def interpolate(law: int, x: int, x0: int, x1: int, y0: int, y1: int): int =
    if (law == 1) y0
    else if (law == 2) y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    else if (law == 3) y0 + mul(y1 - y0, dvd(ln(dvd(x, x0)), ln(dvd(x1, x0))))
    else if (law == 4) mul(y0, exp(ln(dvd(y1, y0)) * (x - x0) / (x1 - x0)))
    else mul(y0, exp(mul(ln(dvd(y1, y0)), dvd(ln(dvd(x, x0)), ln(dvd(x1, x0))))))
  pure def inRange(r: Radius, e: int): bool = or {
    r.regions.length() == 0,
    and { e >= r.regions[0].x[0],
          { pure val t = r.regions[r.regions.length() - 1]
            e <= t.x[t.x.length() - 1] } } }
  pure def lookup(r: Radius, e: int): int =
    if (r.regions.length() == 0) r.value else {
      pure val t = r.regions.select(q => e <= q.x[q.x.length() - 1])[0]
      pure val i = range(0, t.x.length()).select(k => t.x[k] >= e)[0]
      if (t.x[i] == e) t.y[i] else interpolate(t.law, e, t.x[i - 1], t.x[i], t.y[i - 1], t.y[i])
    }
  pure def flatRadius(r: Radius): Flat =
    if (r.regions.length() == 0) cat(fi([0]), fr([r.value]))
    else cat(fi([r.regions.length()]), all_(r.regions.foldl([], (r1, t) => r1.append(cat(fi([t.law, t.x.length()]),
      fr(range(0, t.x.length()).foldl([], (l, k) => l.append(t.x[k]).append(t.y[k]))))))))

  // ---- channels
  pure val NEUTRON = 0
  pure val PHOTON = 1
  pure val CHARGED = 2
  pure val FISSION = 3
  /// radii: one for everything; one for P and S, one for phi; or one for each of P, S, phi
  type Channel = { kind: int, incident: Pair, pair: Pair, alias: Text, q: int,
                   l: int, s: int, j: int, positive: bool, radii: List[Radius], b: int }

  pure def flatParticle(p: Particle): Flat =
    { i: [p.z, p.spin, p.parity], r: [p.mass], s: [[p.id]] }
  pure def flatPair(p: Pair): Flat =
    cat(cat(flatParticle(p.a), flatParticle(p.b)), if (p.given) { i: [1], r: [], s: [[p.id]] } else fi([0]))
  pure def flatChannel(c: Channel): Flat =
    all_([fi([c.kind]), flatPair(c.incident), flatPair(c.pair),
          if (c.alias.length() > 0) cat(fi([1]), fs([c.alias])) else fi([0]),
          fr([c.q]), fi([c.l, c.s, c.j, if (c.positive) 1 else -1]),
          fi([c.radii.length()]), all_(c.radii.foldl([], (r2, r) => r2.append(flatRadius(r)))), fr([c.b])])

  pure def channelText(c: Channel): Text =
    (if (c.alias.length() > 0) c.alias else pairText(c.pair)).concat(label(c.l, c.s, c.j, c.positive))
  pure def isIncident(c: Channel): bool = pairText(c.incident) == pairText(c.pair)
  pure def reactionText(c: Channel): Text = pairText(c.incident).concat(["->"]).concat(pairText(c.pair))
  pure def captureText(c: Channel): Text = pairText(c.incident).concat(["->", "capture"])
  /// (2 J + 1) / (2 i + 1) / (2 I + 1)
  pure def spinFactor(c: Channel): int = ratio(c.j + 1, (c.pair.a.spin + 1) * (c.pair.b.spin + 1))

  /// everything about a channel at an energy; amp: how much the rounding of E * ratio + q is amplified
  type State = { open: bool, k: int, eta: int, aP: int, aS: int, aF: int, P: int, S: int, phi: int,
                 rho: int, amp: int, allow: int }
  pure def channelState(c: Channel, e: int): State = {
    pure val x = available(c.incident, c.q, e)
    pure val mu = reducedMass(c.pair)
    pure val k = momentum(mu, absi(x))
    pure val zz = c.pair.a.z * c.pair.b.z
    pure val eta = if (zz == 0 or k == 0) 0 else sommerfeld(zz, mu, k)
    pure val n = c.radii.length()
    pure val aP = lookup(c.radii[0], e)
    pure val aS = lookup(c.radii[if (n == 3) 1 else 0], e)
    pure val aF = lookup(c.radii[n - 1], e)
    pure val amp = if (x == 0) 1 else 1 + (absi(e) + absi(c.q)) / absi(x)
    pure val base = { open: not(closed(c.incident, c.q, e)), k: k, eta: eta, aP: aP, aS: aS, aF: aF,
                      P: ONE, S: 0, phi: 0, rho: mul(k, maxi(aP, maxi(aS, aF))), amp: amp, allow: 0 }
    if (c.kind == PHOTON or c.kind == FISSION) base
    else if (c.kind == NEUTRON) {
      pure val h = hard(c.l, mul(k, aP))
      { ...base, P: h.P,
        S: if (aS == aP) h.S else hard(c.l, mul(k, aS)).S,
        phi: if (aF == aP) h.phi else hard(c.l, mul(k, aF)).phi }
    } else if (eta == 0) {
      pure val h = hard(c.l, mul(k, aP))
      { ...base, P: h.P, S: hard(c.l, mul(k, aS)).S, phi: hard(c.l, mul(k, aF)).phi, allow: 1 }
    } else if (eta > 12 * ONE or base.rho > 40 * ONE or mul(k, mini(aP, mini(aS, aF))) < ONE / 16) {
      // outside the domain in which coulombwave is compared with the code
      { ...base, P: 0, allow: -1 }
    } else {
      pure val w = surface(c.l, eta, mul(k, aP))
      { ...base, P: narrow(w.P), allow: allowance(eta, mul(k, mini(aP, mini(aS, aF)))),
        S: if (aS == aP) w.S else surface(c.l, eta, mul(k, aS)).S,
        phi: if (aF == aP) w.phi else surface(c.l, eta, mul(k, aF)).phi }
    }
  }
  /// whether the library knows the wave
  pure def known(c: Channel): bool = c.kind != NEUTRON or c.l <= 4
  /// whether a charged channel lies where coulombwave is checked against the code
  pure def comfortable(c: Channel, s: State): bool =
    c.kind != CHARGED or (s.allow > 0 and s.P > ONE / 10^18)

  // ---- resonances and spin groups
  type Resonance = { e: int, w: List[int], g: int }
  type Group = { channels: List[Channel], ids: List[Text], resonances: List[Resonance] }

  pure def flatGroup(g: Group): Flat =
    all_([fi([g.channels.length()]), all_(g.channels.foldl([], (r3, c) => r3.append(flatChannel(c)))),
          fi([g.ids.length()]), fs(g.ids), fi([g.resonances.length()]),
          all_(g.resonances.foldl([], (r4, r) => r4.append(cat(fi([r.w.length()]), fr([r.e].concat(r.w).append(r.g))))))])

  // ---- small complex matrices
  /// inverse by Gauss-Jordan elimination with row exchange
  pure def inverse(a: List[List[Cplx]]): List[List[Cplx]] = {
    pure val n = a.length()
    pure val start = range(0, n).foldl([], (m5, i) => m5.append(range(0, 2 * n).foldl([], (m5r, j) =>
      m5r.append(if (j < n) a[i][j] else if (j - n == i) C1 else C0))))
    pure val done = range(0, n).foldl(start, (rows, k) => {
      pure val p = range(k, n).foldl(k, (b, i) => if (cnorm(rows[i][k]) > cnorm(rows[b][k])) i else b)
      // (a resonance without any width at its own energy: nobody asks for the answer)
      pure val by = if (cnorm(rows[p][k]) == 0) C1 else rows[p][k]
      pure val pivot = rows[p].foldl([], (r6, x) => r6.append(cdiv(x, by)))
      pure val swapped = rows.replaceAt(p, rows[k]).replaceAt(k, pivot)
      range(0, n).foldl([], (m7, i) => m7.append(range(0, 2 * n).foldl([], (m7r, j) =>
      m7r.append(if (i == k) pivot[j] else csub(swapped[i][j], cmul(swapped[i][k], pivot[j])))))) })
    range(0, n).foldl([], (m8, i) => m8.append(range(0, n).foldl([], (m8r, j) =>
      m8r.append(done[i][n + j]))))
  }
  pure def modulus(a: Cplx): int = sqrt(cnorm(a))

  /// X = (1 - R L)^-1 R, and how far a computation in double precision may be from it, in units
  /// of a few last places: dX = X dL X for the waves, and for the inversion of M = 1 - R L
  /// |M^-1| |R| + |M^-1| |M| |M^-1| |R| with M^-1 = 1 + X L (nothing where no resonance couples)
  type Solved = { st: List[State], X: List[List[Cplx]], dX: List[List[int]], rootP: List[int], cond: int, unsure: List[int] }
  pure def solve(g: Group, e: int, shift: bool): Solved = {
    pure val st = g.channels.foldl([], (r9, c) => r9.append(channelState(c, e)))
    pure val n = g.channels.length()
    pure val m = g.resonances.length()
    pure val L = range(0, n).foldl([], (l, c) =>
      l.append(cx(if (shift) 0 else st[c].S - g.channels[c].b, st[c].P)))
    pure def w(i: int, c: int): int = if (st[c].open) g.resonances[i].w[c] else 0
    pure val A = inverse(range(0, m).foldl([], (m101, i) => m101.append(range(0, m).foldl([], (m101r, j) =>
      m101r.append({
      pure val sum = range(0, n).foldl(C0, (s, c) => cadd(s, csmul(mul(w(i, c), w(j, c)), L[c])))
      pure val r = g.resonances[i]
      csub(if (i == j) cx(r.e - e, -sq(r.g)) else C0, sum) })))))
    pure val X = range(0, n).foldl([], (m102, c) => m102.append(range(0, n).foldl([], (m102r, d) =>
      m102r.append(range(0, m).foldl(C0, (s, i) =>
      range(0, m).foldl(s, (t, j) => cadd(t, csmul(mul(w(i, c), w(j, d)), A[i][j]))))))))
    // absolute values from here on
    pure val R = range(0, n).foldl([], (m103, c) => m103.append(range(0, n).foldl([], (m103r, d) =>
      m103r.append(modulus(range(0, m).foldl(C0, (s, i) => {
      pure val r = g.resonances[i]
      pure val den = cx(r.e - e, -sq(r.g))
      if (den == C0) cadd(s, cx(10^12 * ONE, 0)) else cadd(s, cdiv(cx(mul(w(i, c), w(i, d)), 0), den)) }))))))
    // sums of terms that may cancel
    pure val R1 = range(0, n).foldl([], (m104, c) => m104.append(range(0, n).foldl([], (m104r, d) =>
      m104r.append(range(0, m).foldl(0, (s, i) => {
      pure val r = g.resonances[i]
      pure val den = modulus(cx(r.e - e, -sq(r.g)))
      if (den == 0) s + 10^12 * ONE else s + dvd(absi(mul(w(i, c), w(i, d))), den) })))))
    pure val unsure = st.foldl([], (r14, s) => r14.append(maxi(s.amp, s.allow * 10^5)))
    pure val L1 = range(0, n).foldl([], (l, c) => l.append(st[c].P + (if (shift) 0 else absi(st[c].S) + absi(g.channels[c].b))))
    pure val inv = range(0, n).foldl([], (m105, c) => m105.append(range(0, n).foldl([], (m105r, d) =>
      m105r.append(modulus(cadd(if (c == d) C1 else C0, cmul(X[c][d], L[d])))))))
    pure val col = range(0, n).foldl([], (l, d) => l.append(ONE + largest(range(0, n).foldl([], (k, c) => k.append(mul(R1[c][d], L1[d]))))))
    pure val left = range(0, n).foldl([], (m106, c) => m106.append(range(0, n).foldl([], (m106r, b) =>
      m106r.append(mul(total(inv[c]), col[b])))))
    pure val right = range(0, n).foldl([], (m107, b) => m107.append(range(0, n).foldl([], (m107r, d) =>
      m107r.append(total(range(0, n).foldl([], (k, f) => k.append(mul(inv[b][f], R1[f][d]))))))))
    pure val coupled = range(0, n).foldl([], (l, c) => l.append(total(R[c]) > 0))
    pure val half = range(0, n).foldl([], (m108, c) => m108.append(range(0, n).foldl([], (m108r, d) =>
      m108r.append(if (not(coupled[c]) or not(coupled[d])) 0 else
        maxi(unsure[c], unsure[d]) * modulus(X[c][d]) + right[c][d]
        + total(range(0, n).foldl([], (k, b) => k.append(mul(left[c][b], right[b][d]))))
        + total(range(0, n).foldl([], (k, b) => k.append(mul(mul(modulus(X[c][b]), unsure[b] * L1[b]), modulus(X[b][d])))))))))
    // whichever of the two triangles is computed
    pure val dX = range(0, n).foldl([], (m201, c) => m201.append(range(0, n).foldl([], (m201r, d) =>
      m201r.append(maxi(half[c][d], half[d][c])))))
    { st: st, X: X, dX: dX, rootP: st.foldl([], (r109, s) => r109.append(sqrt(s.P))), unsure: unsure,
      cond: mul(total(inv.foldl([], (r110, k) => r110.append(total(k)))), total(col)) }
  }

  /// a contribution to the cross section of a reaction, with its uncertainty
  type Item = { key: Text, v: int, mag: int }
  pure def evaluateGroup(g: Group, e: int, shift: bool): List[Item] = crossSections(g, solve(g, e, shift))
  pure def crossSections(g: Group, z: Solved): List[Item] = {
    pure val n = g.channels.length()
    pure val incidents = range(0, n).select(c => isIncident(g.channels[c]))
    pure val first = incidents[0]
    pure val factor = mul(dvd(PI, sq(z.st[first].k)), spinFactor(g.channels[first]))
    incidents.foldl([], (items, c) => {
      pure val rows = range(0, n).foldl([], (l, d) => {
        pure val t = csmul(mul(z.rootP[c], z.rootP[d]), z.X[c][d])
        pure val W = cadd(if (c == d) C1 else C0, cx(-2 * t.im, 2 * t.re))
        pure val omega = cis(-z.st[c].phi - z.st[d].phi)
        pure val U = cmul(omega, W)
        pure val diff = csub(if (c == d) C1 else C0, U)
        pure val err = 2 * mul(mul(z.rootP[c], z.rootP[d]), z.dX[c][d]) + 4 * modulus(t) +
          mul(modulus(W), z.unsure[c] * (absi(z.st[c].phi) + ONE / 1000) + z.unsure[d] * (absi(z.st[d].phi) + ONE / 1000)) + (if (c == d) ONE else 0)
        l.append({ key: reactionText(g.channels[d]), v: mul(factor, cnorm(diff)), u: cnorm(U),
                   mag: mul(factor, (2 + z.st[first].amp) * cnorm(diff) + 2 * mul(modulus(diff), err) + sq(err) / 10^12),
                   umag: 2 * mul(modulus(U), err) + sq(err) / 10^12 }) })
      pure val capture = { key: captureText(g.channels[c]), v: mul(factor, ONE - total(rows.foldl([], (r111, r) => r111.append(r.u)))),
                           mag: mul(factor, ONE + total(rows.foldl([], (r112, r) => r112.append(r.u + r.umag)))) }
      items.concat(rows.foldl([], (r113, r) => r113.append({ key: r.key, v: r.v, mag: r.mag }))).append(capture) })
  }
  /// sqrt(P) X sqrt(P), every channel to every channel
  type Element = { key: Text, re: int, im: int, mag: int }
  pure def transitions(g: Group, z: Solved): List[Element] = {
    pure val n = g.channels.length()
    range(0, n).foldl([], (l, c) => range(0, n).foldl(l, (k, d) => {
      pure val pp = mul(z.rootP[c], z.rootP[d])
      pure val t = csmul(pp, z.X[c][d])
      k.append({ key: channelText(g.channels[c]).concat(["->"]).concat(channelText(g.channels[d])),
                 re: t.re, im: t.im, mag: modulus(t) + mul(pp, z.dX[c][d]) }) }))
  }

  /// resonance energies above zero, with half the total width on both sides
  pure def gridPoints(g: Group): List[int] =
    g.resonances.select(r => r.e > 0).foldl([], (l, r) => {
      pure val half = sq(r.g) + total(range(0, g.channels.length()).foldl([], (k, c) =>
        k.append(mul(channelState(g.channels[c], r.e).P, sq(r.w[c])))))
      l.concat([r.e - half, r.e, r.e + half]) })
  pure def insert(l: List[int], x: int): List[int] =
    l.select(y => y < x).append(x).concat(l.select(y => y > x))
  pure def sorted(l: List[int]): List[int] = l.foldl([], (r, x) => insert(r, x))

  // ---- what can be built
  pure def distinct(l: List[Text]): bool =
    0.to(l.length() - 1).forall(i => 0.to(i - 1).forall(j => l[i] != l[j]))
  pure def soundParticle(p: Particle): bool = p.mass >= 0 and p.z >= 0
  pure def soundPair(p: Pair): bool = soundParticle(p.a) and soundParticle(p.b)
  pure def soundChannel(c: Channel): bool = soundPair(c.incident) and soundPair(c.pair)
  pure def soundGroup(g: Group): bool = and {
    g.channels.length() > 0,
    g.channels.select(c => not(soundChannel(c))).length() == 0,
    g.channels.select(c => pairText(c.incident) != pairText(g.channels[0].incident)).length() == 0,
    distinct(g.channels.foldl([], (r19, c) => r19.append(channelText(c)))),
    g.channels.select(c => c.j != g.channels[0].j or c.positive != g.channels[0].positive).length() == 0,
    g.channels.select(c => isIncident(c)).length() > 0,
    g.channels.foldl([], (r20, c) => r20.append(channelText(c))) == g.ids,
    g.resonances.select(r => r.w.length() != g.ids.length()).length() == 0,
  }
  pure def soundSystem(s: List[Group]): bool = and {
    s.length() > 0,
    s.select(g => not(soundGroup(g))).length() == 0,
    0.to(s.length() - 1).forall(i => 0.to(i - 1).forall(k =>
      s[i].channels[0].j != s[k].channels[0].j or s[i].channels[0].positive != s[k].channels[0].positive)),
  }

  // ---- assembly from channel data
  type Data = { channel: Channel, energies: List[int], widths: List[int], eliminated: bool }
  pure def flatData(d: List[Data]): Flat = cat(fi([d.length()]), all_(d.foldl([], (r21, x) => r21.append(all_([flatChannel(x.channel), fi([x.energies.length()]), fr(x.energies), fi([x.widths.length()]), fr(x.widths),
          fi([if (x.eliminated) 1 else 0])])))))
  pure def widthAt(d: Data, e: int): int =
    // a later value for the same energy replaces an earlier one
    range(0, d.energies.length()).foldl(0, (w, i) => if (d.energies[i] == e) d.widths[i] else w)
  pure def assembleGroup(d: List[Data]): Group = {
    pure val kept = d.select(x => not(x.eliminated))
    pure val gone = d.select(x => x.eliminated)
    pure val energies = sorted(d.foldl([], (l, x) => l.concat(x.energies)))
    { channels: kept.foldl([], (r22, x) => r22.append(x.channel)), ids: kept.foldl([], (r23, x) => r23.append(channelText(x.channel))),
      resonances: energies.foldl([], (r25, e) => r25.append({ e: e, w: kept.foldl([], (r24, x) => r24.append(widthAt(x, e))),
                                        g: if (gone.length() == 0) 0 else widthAt(gone[0], e) })) }
  }
  /// spin groups in the order of J, negative parity first
  pure def rank(c: Channel): int = 2 * c.j + (if (c.positive) 1 else 0)
  pure def assemble(d: List[Data]): List[Group] =
    sorted(d.foldl([], (r26, x) => r26.append(rank(x.channel)))).foldl([], (r27, k) => r27.append(assembleGroup(d.select(x => rank(x.channel) == k))))
  pure def soundData(d: List[Data]): bool = and {
    d.select(x => not(soundChannel(x.channel)) or x.energies.length() != x.widths.length()).length() == 0,
    sorted(d.foldl([], (r28, x) => r28.append(rank(x.channel)))).select(k =>
      d.select(x => x.eliminated and rank(x.channel) == k).length() > 1).length() == 0,
    soundSystem(assemble(d)),
  }

  // ---- checks of the model itself: one channel against the closed form, and unitarity
  pure val TESTN: Particle = { id: "n", mass: ratio(1009, 1000), z: 0, spin: 1, parity: 1 }
  pure val TESTT: Particle = { id: "Fe56", mass: 55 * ONE, z: 26, spin: 0, parity: 1 }
  pure val TESTP: Pair = { a: TESTN, b: TESTT, given: false, id: "" }
  pure def testChannel(l: int, s: int, kind: int, id: str): Channel =
    { kind: kind, incident: TESTP, pair: if (id == "") TESTP else { ...TESTP, given: true, id: id }, alias: [], q: 0,
      l: l, s: s, j: 1, positive: true, radii: [{ value: HALF, regions: [] }], b: 0 }
  run rmodelTest = {
    val one = { channels: [testChannel(0, 1, NEUTRON, "")], ids: [], resonances: [{ e: 1000 * ONE, w: [3 * ONE], g: HALF }] }
    val e = 998 * ONE
    val z = solve(one, e, true)
    val R = cdiv(cx(9 * ONE, 0), cx(2 * ONE, -QUARTER))
    val expected = cdiv(R, csub(C1, cmul(R, cx(0, z.st[0].P))))
    val two = { channels: [testChannel(1, 1, NEUTRON, ""), testChannel(0, 3, FISSION, "fission"), testChannel(2, 5, NEUTRON, "")],
                ids: [], resonances: [{ e: 1000 * ONE, w: [3 * ONE, ONE, -ONE], g: 0 }, { e: 990 * ONE, w: [-ONE, HALF, ONE], g: 0 }] }
    val items = evaluateGroup(two, e, false)
    all {
      assert(close(z.X[0][0].re, expected.re)), assert(close(z.X[0][0].im, expected.im)),
      assert(items.length() == 8),
      assert(absi(items[3].v) < 2^60), assert(absi(items[7].v) < 2^60),   // no capture without eliminated widths
      assert(sorted([3, 1, 2, 1]) == [1, 2, 3]),
    }
  }
}
