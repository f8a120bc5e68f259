/// Tuples of partial cross sections: a running tuple is built up from
/// contributions, slot by slot, and the model remembers every slot.
module pack {
  import num.* from "./num"
  import io.* from "./io"

  var call: Call
  var out: Out
  var total: List[int]

  pure val K = 2^20
  pure def texts(l: List[int]): List[Real] = l.foldl([], (r, x) => r.append(scaled(x, absi(x))))
  pure def zip(a: List[int], b: List[int], minus: bool): List[int] =
    range(0, a.length()).foldl([], (r, i) => r.append(if (minus) a[i] - b[i] else a[i] + b[i]))

  action init = all { call' = noCall, out' = silence, total' = [0, 0, 0, 0] }

  action act(op: str, args: List[int], result: List[int]): bool = all {
    call' = { op: op, ints: [result.length()], reals: args, strs: [] },
    out' = answer(texts(result)),
    total' = result,
  }
  pure def trim(v: List[int], n: int): List[int] = v.slice(0, n)

  /// start a new tuple of n slots, or add to, subtract from, or scale the running one
  action step = {
    nondet n = 1.to(4).oneOf()
    nondet a = (-K).to(K).oneOf()
    nondet b = (-K).to(K).oneOf()
    nondet c = (-K).to(K).oneOf()
    nondet d = (-K).to(K).oneOf()
    nondet s = Set(-3, -1, 0, 1, 2, 5).oneOf()
    nondet f = Set(1, 2, 4, 8).oneOf()
    val v = [dyadic(a, 20), dyadic(b, 20), dyadic(c, 20), dyadic(d, 20)]
    val m = total.length()
    val small = total.select(x => absi(x) > 2^12 * ONE).length() == 0
    any {
      act("packNew", trim(v, n), trim(v, n)),
      act("packPlus", trim(v, m), zip(total, trim(v, m), false)),
      act("packMinus", trim(v, m), zip(total, trim(v, m), true)),
      all { small, act("packTimes", [ratio(s, f)], total.foldl([], (r, x) => r.append(x * s / f))) },
      // the tuple on the right hand side is not disturbed
      act("packKeep", trim(v, m), total),
    }
  }
  // every slot is an exact double, so that the code has nothing to round
  val inv = total.select(x => x % 2^64 != 0 or absi(x) > 2^30 * ONE).length() == 0

  run packTest = init.then(act("packNew", [ONE, 2 * ONE], [ONE, 2 * ONE])).then(all {
    assert(total == [ONE, 2 * ONE]), call' = call, out' = out, total' = total })
}
