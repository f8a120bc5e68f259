/// Deterministic draws from one nondeterministic seed, so that a step can make
/// up a whole nuclear system out of a single choice.
module draw {
  import num.* from "./num"

  pure val MERSENNE = 2305843009213693951      // 2^61 - 1
  /// the k-th draw of a seed, in 0 .. n-1
  pure def draw(seed: int, k: int, n: int): int = {
    pure val x = (seed * 6364136223846793005 + (k + 1) * 1442695040888963407 + 99991) % MERSENNE
    pure val y = (x * x % MERSENNE * x + 7 * k) % MERSENNE
    pure val z = (y * y % MERSENNE * y + seed % 1000003) % MERSENNE
    z / 64 % n
  }
  /// in a .. b
  pure def between(seed: int, k: int, a: int, b: int): int = a + draw(seed, k, b - a + 1)
  /// one of a list
  pure def among(seed: int, k: int, l: List[int]): int = l[draw(seed, k, l.length())]
  pure def chance(seed: int, k: int, n: int): bool = draw(seed, k, n) == 0
  /// a double with 20 significant bits in [2^a, 2^(b+1))
  pure def magnitude(seed: int, k: int, a: int, b: int): int =
    dyadic(between(seed, 2 * k, 1048576, 2097151), 20 - between(seed, 2 * k + 1, a, b))
  pure def sign(seed: int, k: int): int = if (draw(seed, k, 2) == 0) 1 else -1
  /// another seed
  pure def branch(seed: int, k: int): int = draw(seed, 7000 + k, 2^50)

  /// x rounded to 24 significant bits (and to a double)
  pure def rough(x: int): int = {
    pure val a = absi(x)
    pure val m = range(0, 9).foldl({ p: 1, e: 2^8 }, (s, i) =>
      { p: if (s.p * 2^s.e * 2^24 <= a) s.p * 2^s.e else s.p, e: s.e / 2 }).p
    x / m * m
  }

  run drawTest = all {
    assert(rough(2^100 + 1) == 2^100),
    assert(rough(-(2^100 + 1)) == -(2^100)),
    assert(range(0, 2000).select(k => draw(5, k, 2) == 0).length() > 900),
    assert(range(0, 2000).select(k => draw(k, 5, 2) == 0).length() > 900),
    assert(range(0, 2000).select(k => draw(k, 5, 2) == 0 and draw(k, 6, 2) == 0).length() > 400),
    assert(range(0, 2000).select(k => draw(k, 5, 2) == 0 and draw(k, 6, 2) == 0).length() < 600),
  }
}
