/// Makes up nuclear systems from a seed: particles, pairs, channels, radii,
/// resonances, spin groups.
module nuclei {
  import num.* from "./num"
  import io.* from "./io"
  import draw.* from "./draw"
  import kinematics.* from "./kinematics"
  import rmodel.* from "./rmodel"

  pure val N: Particle = { id: "n", mass: rough(ratio(100866491588, 10^11)), z: 0, spin: 1, parity: 1 }
  pure val P: Particle = { id: "p", mass: rough(ratio(100727646688, 10^11)), z: 1, spin: 1, parity: 1 }
  pure val ALPHA: Particle = { id: "he4", mass: rough(ratio(4001506179, 10^9)), z: 2, spin: 0, parity: 1 }
  pure val GAMMA: Particle = { id: "photon", mass: 0, z: 0, spin: 2, parity: 1 }
  pure val TARGETS = ["Fe56", "Pu239", "Cl35", "O16", "Be9", "Pb208"]
  pure val EXCITED = ["Fe56_e1", "Pu239_e1", "Cl35_e1", "O16_e1", "Be9_e1", "Pb208_e1"]
  pure val HEAVIER = ["Fe57", "Pu240", "Cl36", "O17", "Be10", "Pb209"]
  pure val PROTONS = ["Mn56", "Np239", "S35", "N16", "Li9", "Tl208"]
  pure val ALPHAS = ["Cr53", "U236", "P32", "C13", "He6", "Hg205"]
  pure val CHARGE = [26, 94, 17, 8, 4, 82]
  pure val MASS = [56, 239, 35, 16, 9, 208]

  pure def plain(a: Particle, b: Particle): Pair = { a: a, b: b, given: false, id: "" }
  pure def nucleus(seed: int, name: str, z: int, a: int): Particle =
    { id: name, mass: rough(a * ONE + ratio(between(seed, 1, -90000, 10000), 10^6)), z: z,
      spin: between(seed, 2, 0, 9), parity: sign(seed, 3) }

  /// the nuclear family of a target
  type Family = { target: Pair, inelastic: Pair, capture: Pair, fission: Pair, proton: Pair, alpha: Pair, byProton: Pair }
  pure def family(seed: int): Family = {
    pure val k = draw(seed, 10, 6)
    pure val z = CHARGE[k]
    pure val a = MASS[k]
    pure val t = nucleus(seed, TARGETS[k], z, a)
    { target: plain(N, t),
      inelastic: plain(N, { ...nucleus(branch(seed, 1), EXCITED[k], z, a), mass: t.mass }),
      capture: plain(GAMMA, nucleus(branch(seed, 2), HEAVIER[k], z, a + 1)),
      fission: { a: N, b: nucleus(branch(seed, 3), HEAVIER[k], z, a + 1), given: true, id: "fission" },
      proton: plain(P, nucleus(branch(seed, 4), PROTONS[k], z - 1, a)),
      alpha: plain(ALPHA, nucleus(branch(seed, 5), ALPHAS[k], z - 2, a - 3)),
      byProton: plain(P, t) }
  }

  /// a radius in 10^-12 cm: a constant, or a table from 2^-24 eV to 2^26 eV
  pure def constantRadius(seed: int, k: int): Radius = { value: magnitude(seed, 40 + k, -3, -1), regions: [] }
  pure def anyRadius(seed: int, k: int): Radius =
    if (not(chance(seed, 50 + k, 3))) constantRadius(seed, k)
    else {
      pure val s = branch(seed, 60 + k)
      pure val mid = magnitude(s, 1, -4, 12)
      pure def region(t: int, x0: int, x1: int): Region = {
        pure val inner = range(0, draw(t, 1, 3)).foldl([], (l, i) => insert(l, x0 + (x1 - x0) / 64 * between(t, 10 + i, 1, 63)))
        pure val x = [x0].concat(inner).append(x1)
        { law: between(t, 2, 1, 5), x: x.foldl([], (r, y) => r.append(rough(y))),
          y: range(0, x.length()).foldl([], (r, i) => r.append(magnitude(t, 20 + i, -3, -1))) }
      }
      if (chance(s, 3, 2)) { value: 0, regions: [region(branch(s, 4), dyadic(1, 24), 2^26 * ONE)] }
      else { value: 0, regions: [region(branch(s, 4), dyadic(1, 24), mid), region(branch(s, 5), mid, 2^26 * ONE)] }
    }
  pure def anyRadii(seed: int): List[Radius] =
    range(0, between(seed, 30, 1, 3)).foldl([], (l, i) => l.append(anyRadius(seed, i)))

  /// a channel of a family; what: 0 elastic, 1 inelastic, 2 photon, 3 fission, 4 proton, 5 alpha,
  /// 6 elastic of an incident proton
  pure def makeChannel(seed: int, f: Family, what: int, s: int, j: int, positive: bool): Channel = {
    pure val l = if (what == 2 or what == 3) draw(seed, 1, 7) else draw(seed, 1, 5)
    { kind: if (what == 2) PHOTON else if (what == 3) FISSION else if (what > 3) CHARGED else NEUTRON,
      incident: if (what == 6) f.byProton else f.target,
      pair: if (what == 0) f.target else if (what == 1) f.inelastic else if (what == 2) f.capture
            else if (what == 3) f.fission else if (what == 4) f.proton else if (what == 5) f.alpha else f.byProton,
      alias: if (what == 3) [["fission1", "fission2", "fission3"][draw(seed, 2, 3)]]
             else if (what == 0 or not(chance(seed, 3, 6))) [] else ["other"],
      q: if (what == 0 or what == 6) 0 else if (what == 1) -magnitude(seed, 4, 4, 15)
         else if (what >= 4) magnitude(seed, 4, 19, 22)
         else if (chance(seed, 5, 4)) -magnitude(seed, 4, 4, 15) else magnitude(seed, 4, 10, 22),
      l: if (what >= 4) l % 4 else l, s: s, j: j, positive: positive,
      radii: if (what >= 4) [constantRadius(seed, 0)] else anyRadii(seed),
      b: if (chance(seed, 6, 3)) 0 else if (chance(seed, 7, 2)) real(-l) else sign(seed, 8) * magnitude(seed, 9, -4, 1) }
  }

  /// a reduced width that gives about the width at the resonance energy, below the Wigner limit
  pure def reduced(width: int, p: int): int =
    mini(1000 * ONE, rough(sqrt(dvd(width / 2, maxi(p, 2^110)))))

  pure def makeResonance(seed: int, channels: List[Channel], near: int): Resonance = {
    pure val e = (if (chance(seed, 1, 6)) -1 else 1) *
                 (if (chance(seed, 2, 3)) rough(near + near / 256 * between(seed, 3, -64, 64)) else magnitude(seed, 4, -1, 17))
    pure def width(k: int): int = rough(absi(e) / 2^between(seed, 20 + k, 2, 12))
    { e: e,
      w: range(0, channels.length()).foldl([], (l, c) =>
        l.append(if (chance(seed, 50 + c, 7)) 0
                 else sign(seed, 60 + c) * reduced(width(c), channelState(channels[c], absi(e)).P))),
      g: if (chance(seed, 5, 4)) 0 else rough(sqrt(width(30) / 2)) * sign(seed, 6) }
  }

  /// a spin group: channel spins differ, so that channels do
  pure def makeGroup(seed: int, f: Family, j: int, positive: bool, charged: bool): Group = {
    pure val n = between(seed, 1, 1, 4)
    pure val here = draw(seed, 2, n)          // at least this one is an entrance
    pure val channels = range(0, n).foldl([], (l, c) => {
      pure val w = if (c == here) 0 else if (charged and chance(seed, 10 + c, 2)) between(seed, 20 + c, 4, 5)
                   else among(seed, 30 + c, [0, 0, 1, 2, 3, 3])
      l.append(makeChannel(branch(seed, c), f, w, between(seed, 3, 0, 3) + 2 * c, j, positive)) })
    pure val near = magnitude(seed, 50, 2, 17)
    { channels: channels, ids: channels.foldl([], (l, c) => l.append(channelText(c))),
      resonances: range(0, among(seed, 4, [0, 1, 1, 2, 2, 3, 4])).foldl([], (l, i) =>
        l.append(makeResonance(branch(seed, 20 + i), channels, near))) }
  }
  pure def makeSystem(seed: int, charged: bool): List[Group] = {
    pure val f = family(seed)
    pure val j0 = between(seed, 20, 0, 9)
    pure val order = draw(seed, 21, 2)
    range(0, among(seed, 22, [1, 1, 2, 3])).foldl([], (l, g) =>
      l.append(makeGroup(branch(seed, 30 + g), f, j0 + 2 * (g / 2), (g + order) % 2 == 0, charged)))
  }
  /// an entrance channel of a charged particle, with other channels
  pure def makeProtonGroup(seed: int, f: Family, j: int, positive: bool): Group = {
    pure val n = between(seed, 1, 1, 3)
    pure val channels = range(0, n).foldl([], (l, c) =>
      l.append(if (c == 0 or chance(seed, 10 + c, 2)) makeChannel(branch(seed, c), f, 6, between(seed, 3, 0, 3) + 2 * c, j, positive)
               else { ...makeChannel(branch(seed, c), f, among(seed, 30 + c, [2, 3]), between(seed, 3, 0, 3) + 2 * c, j, positive),
                      incident: f.byProton }))
    { channels: channels, ids: channels.foldl([], (l, c) => l.append(channelText(c))),
      resonances: range(0, among(seed, 4, [0, 1, 2])).foldl([], (l, i) =>
        l.append(makeResonance(branch(seed, 20 + i), channels, magnitude(seed, 51, 19, 21)))) }
  }

  run nucleiTest = all {
    assert(0.to(60).forall(k => soundSystem(makeSystem(k * k + 17, k % 2 == 0)))),
    assert(0.to(20).forall(k => soundGroup(makeProtonGroup(k, family(k), 3, true)))),
  }
}
