/// Exact and fixed-point arithmetic for the resonance reconstruction models.
///
/// Integers are unbounded. A "real" is an integer in units of 2^-192 (about 58
/// decimal digits), so that every value the models hand to the code (dyadic
/// rationals) is exact, and every value they predict is good to far more digits
/// than a double carries. Angular momenta are integers in units of one half.
module num {
  pure val BITS: int = 192
  pure val ONE: int = 2^192
  pure val HALF: int = 2^191
  pure val QUARTER: int = 2^190

  pure val PI: int = 314159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798 * ONE / 10^101

  pure def real(n: int): int = n * ONE
  /// n * 2^-b
  pure def dyadic(n: int, b: int): int = if (b <= 192) n * 2^(192 - b) else n / 2^(b - 192)
  /// a / b for two integers
  pure def ratio(a: int, b: int): int = a * ONE / b

  pure def absi(a: int): int = if (a < 0) -a else a
  pure def mini(a: int, b: int): int = if (a < b) a else b
  pure def maxi(a: int, b: int): int = if (a < b) b else a
  pure def sgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0

  pure def mul(a: int, b: int): int = a * b / ONE
  pure def dvd(a: int, b: int): int = a * ONE / b
  pure def sq(a: int): int = mul(a, a)

  /// integer square root of n >= 0 (n < 2^1024)
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      // power of two not below the root
      pure val start = range(0, 10).foldl({ x: 1, p: 2^512 }, (s, i) =>
        { x: if (s.x * s.p * s.x * s.p <= n) s.x * s.p else s.x, p: isqrtNext(s.p) }).x * 2
      range(0, 12).foldl(start, (x, i) => (x + n / x) / 2)
    }
  /// square root of a power of two 2^(2^k)
  pure def isqrtNext(p: int): int =
    if (p == 2^512) 2^256 else if (p == 2^256) 2^128 else if (p == 2^128) 2^64
    else if (p == 2^64) 2^32 else if (p == 2^32) 2^16 else if (p == 2^16) 2^8
    else if (p == 2^8) 2^4 else if (p == 2^4) 2^2 else if (p == 2^2) 2 else 1
  pure def sqrt(a: int): int = isqrt(a * ONE)

  /// integer part towards minus infinity of a / b, b > 0
  pure def fdiv(a: int, b: int): int =
    if (a >= 0) a / b else -((-a + b - 1) / b)

  /// x modulo 2 pi in [-pi, pi)
  pure def wrap(x: int): int = x - fdiv(x + PI, 2 * PI) * 2 * PI
  /// x modulo pi in [-pi/2, pi/2)
  pure def wrapPi(x: int): int = x - fdiv(x + PI / 2, PI) * PI

  pure def sin(x0: int): int = {
    pure val x = wrap(x0)
    pure val x2 = sq(x)
    range(1, 31).foldl({ t: x, s: x }, (a, n) => {
      pure val t = -mul(a.t, x2) / ((2 * n) * (2 * n + 1))
      { t: t, s: a.s + t } }).s
  }
  pure def cos(x0: int): int = {
    pure val x = wrap(x0)
    pure val x2 = sq(x)
    range(1, 31).foldl({ t: ONE, s: ONE }, (a, n) => {
      pure val t = -mul(a.t, x2) / ((2 * n - 1) * (2 * n))
      { t: t, s: a.s + t } }).s
  }
  /// principal value of the arc tangent
  pure def atan(x: int): int = {
    // halve the angle three times: |y| < 0.2
    pure val y = range(0, 3).foldl(x, (a, i) => dvd(a, ONE + sqrt(ONE + sq(a))))
    pure val y2 = sq(y)
    8 * range(1, 45).foldl({ p: y, s: y }, (a, n) => {
      pure val p = -mul(a.p, y2)
      { p: p, s: a.s + p / (2 * n + 1) } }).s
  }
  /// angle of the point (x, y)
  pure def atan2(y: int, x: int): int =
    if (x > 0) atan(dvd(y, x))
    else if (x < 0) (if (y >= 0) atan(dvd(y, x)) + PI else atan(dvd(y, x)) - PI)
    else if (y > 0) PI / 2 else if (y < 0) -PI / 2 else 0

  pure def exp(x: int): int = {
    // exp(x) = exp(x/2^10)^(2^10)
    pure val y = x / 1024
    pure val e = range(1, 30).foldl({ t: ONE, s: ONE }, (a, n) => {
      pure val t = mul(a.t, y) / n
      { t: t, s: a.s + t } }).s
    range(0, 10).foldl(e, (a, i) => sq(a))
  }
  /// natural logarithm of x > 0, by Newton's iteration on exp
  pure def ln(x: int): int = {
    // x = m * 2^k with m in [1, 2)
    pure val r = range(0, 10).foldl({ m: x, k: 0 }, (s, i) => {
      pure val e = 2^(9 - i)
      if (s.m >= ONE * 2^e) { m: s.m / 2^e, k: s.k + e }
      else if (s.m * 2^e < 2 * ONE) { m: s.m * 2^e, k: s.k - e }
      else s })
    // atanh series: ln m = 2 atanh((m-1)/(m+1)), |z| <= 1/3
    pure def series(m: int): int = {
      pure val z = dvd(m - ONE, m + ONE)
      pure val z2 = sq(z)
      2 * range(1, 65).foldl({ p: z, s: z }, (a, n) => {
        pure val p = mul(a.p, z2)
        { p: p, s: a.s + p / (2 * n + 1) } }).s
    }
    series(r.m) + r.k * series(2 * ONE)
  }
  /// cube root of x > 0 by Newton's iteration
  pure def cbrt(x: int): int =
    range(0, 200).foldl(maxi(x, ONE), (y, i) => (2 * y + dvd(x, sq(y))) / 3)

  // complex numbers
  type Cplx = { re: int, im: int }
  pure val C0: Cplx = { re: 0, im: 0 }
  pure val C1: Cplx = { re: ONE, im: 0 }
  pure def cx(re: int, im: int): Cplx = { re: re, im: im }
  pure def cadd(a: Cplx, b: Cplx): Cplx = { re: a.re + b.re, im: a.im + b.im }
  pure def csub(a: Cplx, b: Cplx): Cplx = { re: a.re - b.re, im: a.im - b.im }
  pure def cmul(a: Cplx, b: Cplx): Cplx =
    { re: (a.re * b.re - a.im * b.im) / ONE, im: (a.re * b.im + a.im * b.re) / ONE }
  pure def csmul(s: int, a: Cplx): Cplx = { re: mul(s, a.re), im: mul(s, a.im) }
  pure def cnorm(a: Cplx): int = (a.re * a.re + a.im * a.im) / ONE
  pure def cconj(a: Cplx): Cplx = { re: a.re, im: -a.im }
  pure def cdiv(a: Cplx, b: Cplx): Cplx = {
    pure val n = b.re * b.re + b.im * b.im
    { re: (a.re * b.re + a.im * b.im) * ONE / n, im: (a.im * b.re - a.re * b.im) * ONE / n }
  }
  /// exp(i x)
  pure def cis(x: int): Cplx = { re: cos(x), im: sin(x) }

  pure def close(a: int, b: int): bool = absi(a - b) <= 2^40   // within 2^-152

  run arithmeticTest = all {
    assert(isqrt(10^100) == 10^50),
    assert(close(sq(sqrt(2 * ONE)), 2 * ONE)),
    assert(close(sqrt(dyadic(1, 180)), dyadic(1, 90))),
    assert(close(sq(sin(3 * ONE)) + sq(cos(3 * ONE)), ONE)),
    assert(close(sin(PI / 6), HALF)),
    assert(close(cos(7 * PI / 3), HALF)),
    assert(close(4 * atan(ONE), PI)),
    assert(close(atan(dvd(sin(ONE), cos(ONE))), ONE)),
    assert(close(atan2(sin(-2 * ONE), cos(-2 * ONE)), -2 * ONE)),
    assert(close(ln(exp(3 * ONE)), 3 * ONE)),
    assert(close(ln(exp(-5 * ONE)) / 4, -5 * ONE / 4)),
    assert(close(cbrt(27 * ONE), 3 * ONE)),
    assert(close(exp(ONE), mul(exp(HALF), exp(HALF)))),
    assert(fdiv(-7, 2) == -4), assert(fdiv(7, 2) == 3), assert(fdiv(-8, 2) == -4),
    assert(close(cnorm(cdiv(cx(ONE, 2 * ONE), cx(2 * ONE, -ONE))), ONE)),
  }
}
