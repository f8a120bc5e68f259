/// Particles, pairs and channels: masses in dalton, energies in eV, lengths in
/// 10^-12 cm, all in fixed point; spins in units of one half.
module kinematics {
  import num.* from "./num"
  import io.* from "./io"

  type Particle = { id: str, mass: int, z: int, spin: int, parity: int }
  /// given: the identifier is not made up from the particles
  type Pair = { a: Particle, b: Particle, given: bool, id: str }

  pure def pairText(p: Pair): Text = if (p.given) [p.id] else [p.a.id, ",", p.b.id]

  // 2014 CODATA: electron volt 1.6021766208e-19 J, dalton 1.660539040e-27 kg,
  // hbar 6.582119514e-16 eV s, vacuum permittivity 8.854187817e-12 F/m
  pure val EV = 16021766208
  pure val DA = 1660539040
  pure val HBAR = 6582119514
  pure val EPS0 = 8854187817

  /// mu = ma mb / (ma + mb)
  pure def reducedMass(p: Pair): int = p.a.mass * p.b.mass / (p.a.mass + p.b.mass)
  pure def massRatio(p: Pair): int = p.b.mass * ONE / (p.a.mass + p.b.mass)

  /// kinetic energy in the centre of mass of the outgoing pair
  pure def available(incident: Pair, q: int, e: int): int =
    e * incident.b.mass / (incident.a.mass + incident.b.mass) + q
  pure def closed(incident: Pair, q: int, e: int): bool =
    e * incident.b.mass + q * (incident.a.mass + incident.b.mass) < 0

  /// wave number of a pair with reduced mass mu at energy x > 0:
  /// hbar^2 k^2 = 2 mu x
  pure def momentum(mu: int, x: int): int =
    sqrt(mul(mu, x) * (2 * DA * 10^15) / (HBAR * HBAR * EV))
  /// Sommerfeld parameter z Z e^2 mu / (4 pi eps0 hbar^2 k)
  pure def sommerfeld(zz: int, mu: int, k: int): int =
    zz * dvd(dvd(mu, k) * (DA * 10^21) / (EPS0 * HBAR * HBAR), 4 * PI)

  run kinematicsTest = {
    // a neutron on an infinitely heavy target: k = 2.1968e-3 sqrt(E) in 10^12 / cm
    val k = momentum(ratio(100866491588, 10^11), ONE)
    all {
      assert(absi(k * 10^7 / ONE - 21968) <= 2),
      // protons of 1 MeV on a heavy charge: eta = 0.1575 zZ sqrt(mu / E)
      assert(absi(sommerfeld(1, ONE, momentum(ONE, 10^6 * ONE)) * 10^4 / ONE - 1574) <= 2),
    }
  }
}
