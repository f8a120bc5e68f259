/// The records through which a model step talks about one call on the code:
/// the call, the answer the model predicts, and (rarely) the answer of a
/// documented deviation of the code from the model.
module io {
  import num.* from "./num"

  /// a predicted value n / d; see lib/harness.py for mag and per
  type Real = { n: int, d: int, mag: int, per: int }
  type Text = List[str]
  type Call = { op: str, ints: List[int], reals: List[int], strs: List[Text] }
  type Out = { throws: bool, ints: List[int], reals: List[Real], strs: List[Text] }
  type Deviation = { id: str, out: Out }

  pure def exact(n: int, d: int): Real = { n: n, d: d, mag: 0, per: 0 }
  /// fixed-point value compared relative to itself
  pure def fixed(x: int): Real = { n: x, d: ONE, mag: 0, per: 0 }
  /// fixed-point value compared relative to max(|x|, mag)
  pure def scaled(x: int, mag: int): Real = { n: x, d: ONE, mag: absi(mag), per: 0 }
  /// angle compared modulo pi (k = 1) or 2 pi (k = 2)
  pure def angle(x: int, mag: int, k: int): Real = { n: x, d: ONE, mag: mag, per: k }

  pure def answer(r: List[Real]): Out = { throws: false, ints: [], reals: r, strs: [] }
  pure val refusal: Out = { throws: true, ints: [], reals: [], strs: [] }
  pure val silence: Out = { throws: false, ints: [], reals: [], strs: [] }
  pure val noCall: Call = { op: "none", ints: [], reals: [], strs: [] }
  pure val noDeviation: Deviation = { id: "", out: silence }

  // text
  pure def digit(n: int): str =
    ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"][n]
  pure def natural(n: int): Text =
    if (n < 10) [digit(n)] else if (n < 100) [digit(n / 10), digit(n % 10)]
    else [digit(n / 100), digit(n / 10 % 10), digit(n % 10)]
  /// text of h / 2
  pure def halfInteger(h: int): Text =
    if (h % 2 == 0) natural(h / 2) else natural(h).concat(["/2"])
  /// {l,s,J+-} with s and J in units of one half
  pure def label(l: int, s: int, J: int, positive: bool): Text =
    ["{"].concat(natural(l)).concat([","]).concat(halfInteger(s)).concat([","])
      .concat(halfInteger(J)).concat([if (positive) "+" else "-", "}"])
}
