/// The outgoing wave of an uncharged particle at rho = n / 2^b, exactly: with
/// L = S + iP its logarithmic derivative (times rho),
///   L(0) = i rho,   L(l) = rho^2 / (l - L(l-1)) - l,
///   phi(0) = rho,   phi(l) = phi(l-1) - arg(l - conj L(l-1)).
module sphere {
  import num.* from "./num"

  /// L = (a + i c) / d
  type Wave = { a: int, c: int, d: int, phi: int }

  pure def wave(l: int, n: int, b: int): Wave =
    range(1, l + 1).foldl({ a: 0, c: n, d: 2^b, phi: dyadic(n, b) }, (w, k) => {
      pure val u = k * w.d - w.a
      pure val m = u * u + w.c * w.c
      { a: n * n * w.d * u - k * 4^b * m, c: n * n * w.d * w.c, d: 4^b * m,
        phi: w.phi - (if (w.c == 0) 0 else atan(ratio(w.c, u))) }
    })

  /// the same at a fixed-point rho, as fixed-point numbers
  type Surface = { P: int, S: int, phi: int }
  pure def hard(l: int, rho: int): Surface =
    range(1, l + 1).foldl({ P: rho, S: 0, phi: rho }, (w, k) => {
      pure val u = k * ONE - w.S
      pure val m = sq(u) + sq(w.P)
      { P: mul(sq(rho), dvd(w.P, m)), S: mul(sq(rho), dvd(u, m)) - k * ONE, phi: w.phi - atan(dvd(w.P, u)) } })

  run sphereTest = {
    val w = wave(3, 5, 1)
    val h = hard(3, ratio(5, 2))
    all { assert(close(h.P, ratio(w.c, w.d))), assert(close(h.S, ratio(w.a, w.d))), assert(close(h.phi, w.phi)) }
  }
}
