/// Particles, pairs and channels on their own: what is refused, what they are
/// called, when they open, and which radius each wave quantity is computed with.
module channel {
  import num.* from "./num"
  import io.* from "./io"
  import draw.* from "./draw"
  import kinematics.* from "./kinematics"
  import coulombwave.* from "./coulombwave"
  import rmodel.* from "./rmodel"
  import nuclei.* from "./nuclei"

  var call: Call
  var out: Out
  /// the channel at hand (at most one)
  var cur: List[Channel]

  action unchanged = cur' = cur
  action quiet = all { call' = noCall, out' = silence, unchanged }

  // ---- particles and pairs
  pure val NAMES = ["Fe56", "U235_e2", "n", "p", "O16_e11", "he4", "Am242_e1"]
  pure def anyParticle(seed: int): Particle = {
    pure val m = among(seed, 1, [0, 1, 1, 1, 2, 2, 2, 2, 3])
    { id: NAMES[draw(seed, 2, 7)],
      mass: if (m == 0) 0 else if (m == 3) -magnitude(seed, 3, -40, 7) else magnitude(seed, 3, if (m == 1) -10 else 0, 7),
      z: among(seed, 4, [0, 0, 1, 2, 3, 8, 26, 92, 92, -1]), spin: between(seed, 5, 0, 13), parity: sign(seed, 6) }
  }
  action particle(p: Particle): bool = all {
    call' = toCall("particle", flatParticle(p)),
    out' = if (soundParticle(p)) { throws: false, ints: [p.parity], reals: [fixed(p.mass), exact(p.z, 1), exact(p.spin, 2)], strs: [[p.id]] }
           else refusal,
    unchanged,
  }
  action pair(p: Pair): bool = all {
    call' = toCall("pair", flatPair(p)),
    out' = if (soundPair(p)) { throws: false, ints: [],
             reals: [exact(p.b.mass, p.a.mass + p.b.mass), exact(p.a.mass * p.b.mass, (p.a.mass + p.b.mass) * ONE), fixed(p.a.mass), fixed(p.b.mass)],
             strs: [pairText(p), [p.a.id], [p.b.id]] } else refusal,
    unchanged,
  }

  // ---- channels
  action build(c: Channel): bool = all {
    call' = toCall("channel", flatChannel(c)),
    if (soundChannel(c)) all {
      cur' = [c],
      out' = { throws: false, ints: [if (isIncident(c)) 1 else 0, c.l, if (c.positive) 1 else -1],
               reals: [exact(c.s, 2), exact(c.j, 2), fixed(c.q), fixed(c.b), exact(c.j + 1, (c.pair.a.spin + 1) * (c.pair.b.spin + 1))],
               strs: [channelText(c), reactionText(c), pairText(c.pair), pairText(c.incident)] },
    } else all { cur' = cur, out' = refusal },
  }
  /// whether it is open, its wave number and its Sommerfeld parameter
  action kin(e: int): bool = {
    val c = cur[0]
    val s = channelState(c, e)
    val x = e * c.incident.b.mass + c.q * (c.incident.a.mass + c.incident.b.mass)
    // E m + q is rounded: the threshold itself is only exact where the mass ratio is
    val sharp = absi(x) * 10^12 > absi(e) * c.incident.b.mass or exactRatio(c.incident)
    if (not(sharp) or (s.k == 0 and c.pair.a.z * c.pair.b.z != 0)) quiet else all {
      call' = { op: "kin", ints: [], reals: [e], strs: [] },
      out' = { throws: false, ints: [if (s.open) 0 else 1], strs: [],
               reals: if (exactRatio(c.incident)) [fixed(s.k), fixed(s.eta)]
                      else [scaled(s.k, s.amp * s.k), scaled(s.eta, s.amp * s.eta)] },
      unchanged,
    }
  }
  /// the mass ratio and its product with any energy drawn here are doubles
  pure def exactRatio(p: Pair): bool = {
    pure val m = p.a.mass + p.b.mass
    pure val r = p.b.mass * 2^20 / m
    and { p.a.mass == ONE, r * m == p.b.mass * 2^20 }
  }
  action radii(e: int): bool = {
    val c = cur[0]
    val s = channelState(c, e)
    all {
      call' = { op: "radii", ints: [], reals: [e], strs: [] },
      out' = answer([fixed(s.aP), fixed(s.aS), fixed(s.aF)]),
      unchanged,
    }
  }
  action ask(e: int): bool = {
    val c = cur[0]
    val s = channelState(c, e)
    val charged = c.kind == CHARGED
    if (s.amp > 1000 or not(comfortable(c, s)) or s.k == 0 or not(known(c))) quiet else {
      val u = maxi(s.amp, s.allow * 10^5)
      all {
        call' = { op: if (charged) "askCharged" else "ask", ints: [], reals: [e], strs: [] },
        out' = { throws: false, ints: [if (s.open) 0 else 1, if (isIncident(c)) 1 else 0], strs: [],
                 reals: [scaled(s.k, s.amp * s.k), scaled(s.eta, s.amp * s.eta), fixed(s.aP), fixed(s.aS), fixed(s.aF),
                         scaled(s.P, (2 * c.l + 1) * u * s.P + ONE / 10^44), scaled(s.S, (2 * c.l + 1) * u * (absi(s.S) + s.P)),
                         angle(s.phi, (2 * c.l + 1) * u * (absi(s.phi) + (if (charged) ONE / 1000 else s.rho)), if (charged) 2 else 1)] },
        unchanged,
      }
    }
  }

  // ---- choices
  pure def anyPair(seed: int): Pair =
    { a: anyParticle(branch(seed, 1)), b: anyParticle(branch(seed, 2)), given: chance(seed, 3, 3), id: "fission" }
  /// masses 1 and 2^k - 1, so that the mass ratio is a double
  pure def easyFamily(seed: int): Family = {
    pure val f = family(seed)
    pure val t = { ...f.target, a: { ...f.target.a, mass: ONE }, b: { ...f.target.b, mass: real(2^between(seed, 77, 1, 8) - 1) } }
    { ...f, target: t }
  }
  pure def anyChannel(seed: int): Channel = {
    pure val easy = chance(seed, 80, 2)
    pure val f = if (easy) easyFamily(seed) else family(seed)
    pure val c = makeChannel(branch(seed, 9), f, draw(seed, 81, 7), between(seed, 82, 0, 9), between(seed, 83, 0, 15), chance(seed, 84, 2))
    pure val some = if (chance(seed, 85, 2)) c else { ...c, q: sign(seed, 86) * magnitude(seed, 87, -4, 18) }
    if (chance(seed, 88, 12)) { ...some, pair: anyPair(branch(seed, 11)) } else some
  }
  pure def threshold(c: Channel): int =
    // exactly where the mass ratio allows it, if q < 0
    -c.q * (c.incident.a.mass + c.incident.b.mass) / c.incident.b.mass
  /// a q value that makes the threshold a double: q = - n ratio
  pure def atThreshold(seed: int, c: Channel): Channel = {
    pure val t = dyadic(between(seed, 90, 1, 2^18), between(seed, 91, 0, 12))
    { ...c, q: -t * c.incident.b.mass / (c.incident.a.mass + c.incident.b.mass) }
  }

  /// an energy in the tables, or a point of one that is inside a region
  pure def aNode(seed: int, c: Channel): int = {
    pure val r = c.radii[draw(seed, 7, c.radii.length())]
    if (chance(seed, 4, 2) or r.regions.length() == 0) magnitude(seed, 1, -24, 25)
    else {
      pure val t = r.regions[draw(seed, 5, r.regions.length())]
      if (t.x.length() == 2) magnitude(seed, 1, -24, 25) else t.x[between(seed, 6, 1, t.x.length() - 2)]
    }
  }

  action init = all { call' = noCall, out' = silence, cur' = [] }
  pure val SEEDS = 2^48
  action step = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(9).oneOf()
    if (what == 0) particle(anyParticle(seed))
    else if (what == 1) { val p = anyPair(seed) if (p.a.mass + p.b.mass == 0) quiet else pair(p) }
    else if (what < 4 or cur.length() == 0) {
      val c = anyChannel(seed)
      if (c.pair.a.mass + c.pair.b.mass == 0) quiet else build(c) }
    else if (what < 6) kin(magnitude(seed, 1, -14, 21))
    else if (what == 6 and cur[0].q < 0) kin(maxi(ONE / 2^20, rough(threshold(cur[0]) + sign(seed, 2) * threshold(cur[0]) / 2^between(seed, 3, 1, 24))))
    else if (what < 8) radii(aNode(seed, cur[0]))
    else ask(if (cur[0].kind == CHARGED) magnitude(seed, 1, 16, 22) else magnitude(seed, 1, -14, 21))
  }
  /// channels with an exact threshold, asked at it and one bit on either side
  action stepThreshold = {
    nondet seed = 0.to(SEEDS).oneOf()
    nondet what = 0.to(5).oneOf()
    if (what < 2 or cur.length() == 0)
      build(atThreshold(seed, makeChannel(branch(seed, 9), easyFamily(seed), among(seed, 81, [1, 1, 2, 3, 4, 5]), between(seed, 82, 0, 9), between(seed, 83, 0, 15), chance(seed, 84, 2))))
    else kin(threshold(cur[0]) + among(seed, 1, [0, 0, 1, -1, 1, -1]) * dyadic(1, 26))
  }

  val inv = cur.length() <= 1
  run channelTest = {
    val c = atThreshold(5, makeChannel(3, easyFamily(4), 1, 2, 3, true))
    all {
      assert(exactRatio(c.incident)),
      assert(not(closed(c.incident, c.q, threshold(c)))),
      assert(closed(c.incident, c.q, threshold(c) - 2^100)),
    }
  }
}
