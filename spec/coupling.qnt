/// Coupling of angular momenta (in units of one half) and the text labels of
/// channels. The model does not use the triangle rule: a total angular momentum
/// is possible exactly when some projection of the product space needs it.
module coupling {
  import num.* from "./num"
  import io.* from "./io"

  /// number of ways in which projections of the given momenta add up to m
  pure def ways2(a: int, b: int, m: int): int =
    range(0, a + 1).foldl(0, (n, i) => {
      pure val mb = m - (2 * i - a)
      if (absi(mb) <= b and (mb + b) % 2 == 0) n + 1 else n })
  pure def ways3(a: int, b: int, c: int, m: int): int =
    range(0, c + 1).foldl(0, (n, i) => n + ways2(a, b, m - (2 * i - c)))

  /// how often the momentum j occurs in the product of a and b (and c)
  pure def multiplicity2(a: int, b: int, j: int): int = ways2(a, b, j) - ways2(a, b, j + 2)
  pure def multiplicity3(a: int, b: int, c: int, j: int): int = ways3(a, b, c, j) - ways3(a, b, c, j + 2)

  pure def couple2(a: int, b: int): List[int] =
    range(0, a + b + 1).select(j => multiplicity2(a, b, j) > 0)
  pure def couple3(a: int, b: int, c: int): List[int] =
    range(0, a + b + c + 1).select(j => multiplicity3(a, b, c, j) > 0)

  pure def halves(l: List[int]): List[Real] = l.foldl([], (r, h) => r.append(exact(h, 2)))

  // largest values visited
  pure val SPIN = 18       // spins up to 9
  pure val WAVE = 7         // orbital momenta up to 7
  pure val LSPIN = 10      // spins in the three-way coupling (units of one half)
  pure val LABEL = 25      // labels: spins up to 12

  var call: Call
  var out: Out
  var deviation: Deviation
  var idx: int

  pure val nPairs = (SPIN + 1) * (SPIN + 1)
  pure val nTotals = (WAVE + 1) * (2 * SPIN + 1)
  pure val nTriples = (WAVE + 1) * (LSPIN / 2 + 1) * (LSPIN + 1)
  pure val total = nPairs + nTotals + nTriples

  pure def ask(op: str, a: List[int]): Call = { op: op, ints: a, reals: [], strs: [] }

  /// the documented deviation: coupling l with I first and i afterwards, the
  /// code takes | |l - I| - i | as the smallest momentum even when i lies inside
  /// the range of the first coupling
  pure def shortened(l: int, i: int, I: int): List[int] =
    range(absi(absi(2 * l - I) - i), 2 * l + i + I + 1).select(j => (j + i + I) % 2 == 0)

  /// everything about pairs (a, b)
  action channelSpins(a: int, b: int): bool = all {
    call' = ask("channelSpins", [a, b]),
    out' = answer(halves(couple2(a, b))),
    deviation' = noDeviation,
  }
  action totalFromSpin(l: int, s: int): bool = all {
    call' = ask("totalFromSpin", [l, s]),
    out' = answer(halves(couple2(2 * l, s))),
    deviation' = noDeviation,
  }
  action totalFromPair(l: int, i: int, I: int): bool = {
    val exactly = couple3(2 * l, i, I)
    all {
      call' = ask("totalFromPair", [l, i, I]),
      out' = answer(halves(exactly)),
      deviation' = if (i >= 2 and shortened(l, i, I) != exactly)
                     { id: "three-way-minimum", out: answer(halves(shortened(l, i, I))) }
                   else noDeviation,
    }
  }
  action name(l: int, s: int, J: int, positive: bool): bool = all {
    call' = ask("label", [l, s, J, if (positive) 1 else -1]),
    out' = { throws: false, ints: [l, if (positive) 1 else -1], reals: [exact(s, 2), exact(J, 2)],
             strs: [label(l, s, J, positive)] },
    deviation' = noDeviation,
  }

  action init = all { call' = noCall, out' = silence, deviation' = noDeviation, idx' = 0 }

  /// visits every pair and triple below the limits, once each
  action step = all {
    idx < total,
    idx' = idx + 1,
    if (idx < nPairs)
      channelSpins(idx / (SPIN + 1), idx % (SPIN + 1))
    else if (idx < nPairs + nTotals) {
      val k = idx - nPairs
      totalFromSpin(k / (2 * SPIN + 1), k % (2 * SPIN + 1))
    } else {
      val k = idx - nPairs - nTotals
      val n = LSPIN + 1
      val h = LSPIN / 2 + 1
      totalFromPair(k / (n * h), k / n % h, k % n)
    },
  }

  // labels in seven parts, so that they can be visited side by side
  action initPart(k: int): bool =
    all { call' = noCall, out' = silence, deviation' = noDeviation, idx' = k * 2 * LABEL * LABEL }
  action init0 = initPart(0)
  action init1 = initPart(1)
  action init2 = initPart(2)
  action init3 = initPart(3)
  action init4 = initPart(4)
  action init5 = initPart(5)
  action init6 = initPart(6)

  /// visits every label below the limits, once each
  action stepLabels = all {
    idx < 7 * LABEL * LABEL * 2,
    idx' = idx + 1,
    name(idx / (2 * LABEL * LABEL) * 2, idx / (2 * LABEL) % LABEL, idx / 2 % LABEL, idx % 2 == 0),
  }

  /// random visits far beyond the exhaustive limits
  action stepFar = {
    nondet a = 0.to(60).oneOf()
    nondet b = 0.to(60).oneOf()
    nondet l = 0.to(20).oneOf()
    all {
      idx' = idx + 1,
      any { channelSpins(a, b), totalFromSpin(l, a), totalFromPair(l, 1, b), totalFromPair(l, 0, b),
            totalFromPair(l, a / 8, b) },
    }
  }
  action stepFarLabels = {
    nondet s = 0.to(99).oneOf()
    nondet l = 0.to(120).oneOf()
    nondet J = 0.to(250).oneOf()
    nondet p = Set(true, false).oneOf()
    all { idx' = idx + 1, name(l, s, J, p) }
  }

  // the model's own properties
  pure def dimension(l: List[int]): int = l.foldl(0, (n, j) => n + j + 1)
  /// the triangle rule: consecutive in steps of one, each once, all states accounted for
  pure def triangle(a: int, b: int): bool = {
    val l = couple2(a, b)
    and {
      l.length() == mini(a, b) + 1,
      l[0] == absi(a - b),
      l[l.length() - 1] == a + b,
      dimension(l) == (a + 1) * (b + 1),
    }
  }
  /// three momenta couple to what the pairs of pairs couple to
  pure def associative(a: int, b: int, c: int): bool =
    couple3(a, b, c).foldl(Set(), (s, j) => s.union(Set(j)))
      == couple2(b, c).foldl(Set(), (s, k) => couple2(a, k).foldl(s, (t, j) => t.union(Set(j))))

  val inv = and {
    call.op == "channelSpins" implies triangle(call.ints[0], call.ints[1]),
    call.op == "totalFromSpin" implies triangle(2 * call.ints[0], call.ints[1]),
    call.op == "totalFromPair" implies associative(2 * call.ints[0], call.ints[1], call.ints[2]),
  }

  run couplingTest = all {
    assert(couple2(1, 7) == [6, 8]),
    assert(couple2(0, 5) == [5]),
    assert(couple3(2, 2, 2) == [0, 2, 4, 6]),
    assert(couple3(2, 1, 3) == [0, 2, 4, 6]),
    assert(label(1, 3, 4, false) == ["{", "1", ",", "3", "/2", ",", "2", "-", "}"]),
  }
}
