/// Hard-sphere penetrability, shift factor and phase shift for uncharged
/// particles, from the recurrence of the outgoing wave and not from the closed
/// forms the code uses. With L = S + iP the logarithmic derivative at rho,
///   L(0) = i rho,   L(l) = rho^2 / (l - L(l-1)) - l,
///   phi(0) = rho,   phi(l) = phi(l-1) - arg(l - conj L(l-1)),
/// evaluated in exact rational arithmetic for rho = n / 2^b.
module hardsphere {
  import num.* from "./num"
  import io.* from "./io"
  import sphere.* from "./sphere"

  pure val LMAX = 4          // the library knows waves up to l = 4
  pure val FORMS = ["neutron", "plain", "factory"]

  var call: Call
  var out: Out

  pure def opName(fn: str, form: str): str =
    if (form == "neutron") (if (fn == "P") "P_neutron" else if (fn == "S") "S_neutron" else "phi_neutron")
    else if (form == "plain") (if (fn == "P") "P_plain" else if (fn == "S") "S_plain" else "phi_plain")
    else (if (fn == "P") "P_factory" else "S_factory")

  pure def predict(fn: str, l: int, n: int, b: int): Out =
    if (l > LMAX) refusal
    else {
      pure val w = wave(l, n, b)
      // the closed forms subtract two numbers of the size of rho
      if (fn == "P") answer([exact(w.c, w.d)])
      else if (fn == "S") answer([exact(w.a, w.d)])
      else answer([angle(w.phi, maxi(dyadic(n, b), 0), 1)])
    }

  pure def ask(fn: str, form: str, l: int, n: int, b: int): Call =
    { op: opName(fn, form), ints: [l], reals: [dyadic(n, b), 0], strs: [] }

  action probe(fn: str, form: str, l: int, n: int, b: int): bool = all {
    not(fn == "phi" and form == "factory"),
    call' = ask(fn, form, l, n, b),
    out' = predict(fn, l, n, b),
  }

  /// a ratio that is not positive has no penetrability (channels that are closed)
  action closed(form: str, l: int, n: int, b: int): bool = all {
    call' = { op: opName("P", form), ints: [l], reals: [dyadic(-n, b), 0], strs: [] },
    out' = answer([exact(0, 1)]),
  }

  /// the shift factor depends on the square of the ratio
  action closedShift(form: str, l: int, n: int, b: int): bool = all {
    call' = { op: opName("S", form), ints: [l], reals: [dyadic(-n, b), 0], strs: [] },
    out' = predict("S", l, n, b),
  }

  /// channels that are neither neutron nor charged particle channels
  action neutral(fn: str, kind: str, l: int, n: int, b: int, eta: int): bool = all {
    call' = { op: (if (fn == "P") (if (kind == "photon") "P_photon" else "P_fission")
                   else if (fn == "S") (if (kind == "photon") "S_photon" else "S_fission")
                   else if (fn == "phi") (if (kind == "photon") "phi_photon" else "phi_fission")
                   else (if (kind == "photon") "w_photon" else if (kind == "fission") "w_fission" else "w_neutron")),
              ints: [l], reals: [dyadic(n, b), dyadic(eta, 10)], strs: [] },
    out' = answer([exact(if (fn == "P") 1 else 0, 1)]),
  }

  action init = all { call' = noCall, out' = silence }

  /// rho = m / 2^20 * 2^e, between 2^-24 and 2^12, l up to 7
  action step = {
    nondet fn = Set("P", "S", "phi").oneOf()
    nondet form = Set("neutron", "plain", "factory").oneOf()
    nondet l = 0.to(4).oneOf()
    nondet e = (-24).to(12).oneOf()
    nondet m = 524288.to(1048575).oneOf()
    probe(fn, if (fn == "phi" and form == "factory") "plain" else form, l,
          if (e > 0) m * 2^e else m, if (e > 0) 20 else 20 - e)
  }
  /// rho of order one, where all terms of the closed forms matter
  action stepMiddle = {
    nondet fn = Set("P", "S", "phi").oneOf()
    nondet form = Set("neutron", "plain", "factory").oneOf()
    nondet l = 0.to(4).oneOf()
    nondet m = 1.to(12 * 1048576).oneOf()
    probe(fn, if (fn == "phi" and form == "factory") "plain" else form, l, m, 20)
  }
  /// squares of rho at which a closed form of the phase divides by zero: 3, 5/2 and the
  /// roots of 105 - 45 x + x^2; approached from both sides down to 2^-30
  pure def pole(k: int): int =
    if (k == 0) sqrt(3 * ONE) else if (k == 1) sqrt(ratio(5, 2))
    else if (k == 2) sqrt((45 * ONE - sqrt(1605 * ONE)) / 2)
    else if (k == 3) sqrt((45 * ONE + sqrt(1605 * ONE)) / 2)
    else if (k == 4) sqrt(15 * ONE) else sqrt(ratio(105, 10))
  action stepPoles = {
    nondet fn = Set("P", "S", "phi", "phi").oneOf()
    nondet form = Set("neutron", "plain").oneOf()
    nondet k = 0.to(5).oneOf()
    nondet e = 6.to(30).oneOf()
    nondet m = (-63).to(63).oneOf()
    nondet any_l = 0.to(9).oneOf()
    val l = if (any_l < 5) any_l else if (k == 0) 2 else if (k == 1 or k == 4) 3 else 4
    // nearest multiple of 2^-34 to the pole, plus m 2^-e / 64
    probe(fn, form, l, pole(k) / 2^(192 - 36) + m * 2^(30 - e), 36)
  }
  /// corner cases: zero, exact integers, closed channels, waves beyond the library, other channel types
  action stepEdge = {
    nondet fn = Set("P", "S", "phi").oneOf()
    nondet form = Set("neutron", "plain", "factory").oneOf()
    nondet l = 0.to(7).oneOf()
    nondet n = 0.to(12).oneOf()
    nondet m = 1.to(1048576).oneOf()
    nondet kind = Set("photon", "fission").oneOf()
    nondet fn2 = Set("P", "S", "phi", "w").oneOf()
    nondet eta = 0.to(10240).oneOf()
    any {
      probe(fn, if (fn == "phi" and form == "factory") "plain" else form, l, n, 0),
      probe(fn, if (fn == "phi" and form == "factory") "neutron" else form, l, n, 1),
      closed(if (form == "neutron") "plain" else form, l % 5, m, 16),
      closedShift(form, l % 5, m, 16),
      neutral(fn2, kind, l, m, 16, eta),
      neutral("w", "neutron", l, m, 16, eta),
    }
  }

  // the model's own properties, for every wave it hands out
  pure def sane(w: Wave, l: int): bool = and {
    w.d > 0,
    w.c >= 0,                          // penetrability is not negative
    w.a <= 0,                          // shift factor is not positive
    w.a >= -l * w.d,                   // and at least -l
  }
  val inv = or {
    call.op == "none", out.throws,
    sane(wave(call.ints[0], call.reals[0], 192), call.ints[0]),
    call.reals[0] < 0,
  }

  run hardsphereTest = {
    // textbook forms at rho = 1/2 and 3
    val w1 = wave(1, 1, 1)
    val w2 = wave(2, 3, 0)
    val w4 = wave(4, 1, 0)
    all {
      assert(w1.c * 10 == w1.d),                         // rho^3/(1+rho^2) = 1/10
      assert(w1.a * 5 == -4 * w1.d),                     // -1/(1+rho^2) = -4/5
      assert(w2.c * (9 + 3 * 9 + 81) == 243 * w2.d),
      assert(w2.a * 117 == -(18 + 27) * w2.d),
      assert(w4.c * (11025 + 1575 + 135 + 10 + 1) == w4.d),
      assert(close(w1.phi, HALF - atan(HALF))),
    }
  }
}
