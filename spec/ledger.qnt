/// The maps in which cross sections are added up.
module ledger {
  import num.* from "./num"
  import io.* from "./io"
  import kinematics.* from "./kinematics"
  import rmodel.* from "./rmodel"

  pure def addItem(m: List[Item], x: Item): List[Item] =
    if (m.select(y => y.key == x.key).length() == 0) m.append(x)
    else m.foldl([], (l, y) => l.append(if (y.key == x.key) { key: y.key, v: y.v + x.v, mag: y.mag + x.mag } else y))
  pure def addItems(m: List[Item], xs: List[Item]): List[Item] = xs.foldl(m, (a, x) => addItem(a, x))
  pure def itemKeys(m: List[Item]): List[Text] = m.foldl([], (l, x) => l.append(x.key))
  /// least: fixed point has no smaller numbers, doubles have
  pure def itemsOut(m: List[Item], least: int): Out =
    { throws: false, ints: [m.length()],
      reals: m.foldl([], (l, x) => l.append(scaled(x.v, x.mag + least))), strs: [] }

  pure def isCharged(s: List[Group]): bool =
    s.select(g => g.channels.select(c => c.kind == CHARGED).length() > 0).length() > 0
  pure def someClosed(s: List[Group], e: int): bool =
    s.select(g => g.channels.select(c => closed(c.incident, c.q, e)).length() > 0).length() > 0
  /// what the code can answer to many digits, and is documented to answer
  pure def tame(s: List[Group], zs: List[Solved], e: int): bool = range(0, s.length()).select(k => or {
    s[k].resonances.select(r => r.e == e and r.g == 0).length() > 0,
    range(0, s[k].channels.length()).select(c => or { not(known(s[k].channels[c])),
      not(comfortable(s[k].channels[c], zs[k].st[c])), zs[k].st[c].amp > 10^4 }).length() > 0,
    zs[k].cond > 10^7 * ONE }).length() == 0
  pure def solveAll(s: List[Group], sh: bool, e: int): List[Solved] = s.foldl([], (l, g) => l.append(solve(g, e, sh)))
  /// grids: the half widths must be resolved, and the penetrabilities exact
  pure def gridable(s: List[Group]): bool = s.select(g => or {
    g.channels.select(c => c.kind == CHARGED).length() > 0,
    g.resonances.select(r => r.e > 0 and g.channels.select(c => channelState(c, r.e).amp > 10^3).length() > 0).length() > 0,
    gridPoints(g).select(x => absi(x) < ONE / 10^20).length() > 0 }).length() == 0
  /// points that rounding may put in another order
  pure def crowded(pts: List[int]): bool =
    range(1, maxi(1, pts.length())).select(i => (pts[i] - pts[i - 1]) * 10^9 < absi(pts[i])).length() > 0

  run ledgerTest = all {
    assert(addItems([], [{ key: ["a"], v: 1, mag: 2 }, { key: ["b"], v: 3, mag: 4 }, { key: ["a"], v: 5, mag: 6 }]) ==
           [{ key: ["a"], v: 6, mag: 8 }, { key: ["b"], v: 3, mag: 4 }]),
    assert(crowded([ONE, ONE + 1])), assert(not(crowded([ONE, 2 * ONE]))), assert(not(crowded([]))),
  }
}
