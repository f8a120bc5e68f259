/// Penetrability, shift factor, phase shift and phase difference of charged particle
/// channels, against the power series of coulombwave.
module coulomb {
  import num.* from "./num"
  import io.* from "./io"
  import sphere.* from "./sphere"
  import coulombwave.* from "./coulombwave"

  var call: Call
  var out: Out
  var deviation: Deviation

  pure def opName(fn: str): str =
    if (fn == "P") "P_charged" else if (fn == "S") "S_charged" else "phi_charged"

  /// comparison is relative to 10^-7 times mag
  pure def predict(fn: str, l: int, eta: int, rho: int): Out =
    if (eta == 0) {
      pure val w = uncharged(l, widen(rho))
      // without charge, the code's recurrences are good to rounding: 10^-11
      if (fn == "P") answer([exact(w.P, W)])
      else if (fn == "S") answer([scaled(narrow(w.S), rho)])
      else answer([angle(hard(l, rho).phi, ONE, 2)])
    } else {
      pure val s = surface(l, eta, rho)
      pure val k = allowance(eta, rho)
      if (fn == "P") answer([{ n: s.P, d: W, mag: k * narrow(s.P), per: 0 }])
      else if (fn == "S") answer([scaled(s.S, k * maxi(absi(s.S), maxi(rho, ONE)))])
      else answer([angle(s.phi, k * maxi(absi(s.phi), ONE / 1000), 2)])
    }

  action probe(fn: str, l: int, eta: int, rho: int): bool = all {
    call' = { op: opName(fn), ints: [l], reals: [rho, eta], strs: [] },
    out' = predict(fn, l, eta, rho),
    deviation' = noDeviation,
  }

  /// the documented deviation: the code adds cotangents of eta / n
  pure def cotangents(l: int, eta: int): int =
    range(1, l + 1).foldl(0, (s, n) => s + dvd(cos(eta / n), sin(eta / n)))
  pure def cotangentSize(l: int, eta: int): int =
    range(1, l + 1).foldl(ONE, (s, n) => s + absi(dvd(cos(eta / n), sin(eta / n))))

  action phaseDifference(l: int, eta: int): bool = all {
    call' = { op: "w_charged", ints: [l], reals: [0, eta], strs: [] },
    out' = answer([scaled(coulombPhase(l, eta), ONE)]),
    deviation' = if (l == 0) noDeviation
                 else { id: "cotangent-sum", out: answer([scaled(cotangents(l, eta), cotangentSize(l, eta))]) },
  }

  action init = all { call' = noCall, out' = silence, deviation' = noDeviation }

  /// whether the penetrability is large enough to be compared (above 10^-40)
  pure def notOpaque(l: int, eta: int, rho: int): bool = surface(l, eta, rho).P > W / 10^40

  /// any wave, any barrier the library is meant for
  action step = {
    nondet fn = Set("P", "S", "phi").oneOf()
    nondet l = Set(0, 0, 1, 2, 3, 4, 5, 6, 8, 12).oneOf()
    nondet e = 0.to(9).oneOf()
    nondet m = 524288.to(1048575).oneOf()
    nondet f = 0.to(12).oneOf()
    nondet h = 524288.to(1048575).oneOf()
    // rho from 1/16 to 45, eta from 1/256 to 24
    val rho = mini(dyadic(m, 24 - e), dyadic(45, 0))
    val eta = mini(dyadic(h, 28 - f), dyadic(24, 0))
    if (notOpaque(l, eta, rho)) probe(fn, l, eta, rho) else probe(fn, l % 3, ONE, rho)
  }
  /// where the code changes from one expansion to another
  action stepSeams = {
    nondet fn = Set("P", "S", "phi").oneOf()
    nondet l = Set(0, 1, 2, 3, 5).oneOf()
    nondet k = 0.to(15).oneOf()
    nondet d = (-64).to(64).oneOf()
    nondet a = 1.to(24).oneOf()
    val eta = if (k < 4) 5 * ONE + d * ONE / 64 else if (k < 8) 15 * ONE + d * ONE / 64
              else if (k < 12) a * ONE / 5 - a * ONE / 5 % (ONE / 256) else a * ONE - ONE / 2
    val seam = if (k % 4 == 0) 2 * eta else if (k % 4 == 1) 2 * eta + 10 * ONE
               else if (k % 4 == 2) 5 * eta / 2 + 15 * ONE / 2 else 16 * ONE
    val rho = mini(45 * ONE, maxi(ONE / 4, seam + d * ONE / 32))
    probe(fn, l, eta, rho - rho % (ONE / 1024))
  }
  /// no charge: the same functions reached by another route
  action stepUncharged = {
    nondet fn = Set("P", "S", "phi").oneOf()
    nondet l = 0.to(14).oneOf()
    nondet e = 0.to(12).oneOf()
    nondet m = 524288.to(1048575).oneOf()
    probe(fn, l, 0, mini(dyadic(m, 27 - e), 45 * ONE))
  }
  action stepDifference = {
    nondet l = 0.to(8).oneOf()
    nondet e = 0.to(9).oneOf()
    nondet m = 524288.to(1048575).oneOf()
    phaseDifference(l, dyadic(m, 26 - e))
  }

  // the model's own properties: unit Wronskian, positive penetrability, and, going
  // up the ladder, the logarithmic derivative L(l) = rho^2 R^2 / (T - L(l-1)) - T
  pure def ladderHolds(l: int, eta: int, rho: int): bool = {
    pure val a = surface(l, eta, rho)
    pure val b = surface(l + 1, eta, rho)
    pure val T = (l + 1) * ONE + mul(eta, rho) / (l + 1)
    pure val R2 = sq(rho) + mul(sq(rho), sq(eta)) / ((l + 1) * (l + 1))
    pure val L = csub(cdiv(cx(R2, 0), csub(cx(T, 0), cx(a.S, narrow(a.P)))), cx(T, 0))
    absi(L.re - b.S) < 2^112 and absi(L.im - narrow(b.P)) < 2^112 and a.ok and b.ok and a.P > 0 and b.P > 0
  }
  val inv = (call.op != "none" and call.op != "w_charged" and call.reals[1] > 0)
              implies ladderHolds(call.ints[0], call.reals[1], call.reals[0])

  run coulombTest = init.then(probe("P", 0, ONE, 5 * ONE)).then(all {
    assert(out.reals[0].n > 0), call' = call, out' = out, deviation' = deviation })
}
