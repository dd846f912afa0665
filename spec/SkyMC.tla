------------------------------- MODULE SkyMC -------------------------------
(* Design model: every window, tiling, padding and resampling of small arrays.
   A state is a slice being transformed again and again.                       *)
EXTENDS Sky
CONSTANTS N, MaxN, Vals, Steps
VARIABLES d, n, prev, pn, how, steps
vars == <<d, n, prev, pn, how, steps>>
\* arrays are sequences of doubles of 2^k / small, so everything below is exact to rounding
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : FNear(a[i], b[i], FLit("1e-12"), FLit("1e-12"))
Resample(x, a, b) == LET s == Smooth2(x, a, TopWidth(a, b, TRUE)) IN
   [i \in 1..(b * b) |-> IF a = b THEN s[i] ELSE Bilinear(s, a, LookAt(a, b, (i - 1) \div b), LookAt(a, b, (i - 1) % b))]
Tiled(x, a, b) == [i \in 1..(b * b) |-> x[1 + a * Tile(a, (i - 1) \div b) + Tile(a, (i - 1) % b)]]
Padded(x, a, p) == LET b == a + 2 * p IN [i \in 1..(b * b) |-> x[1 + a * PadSrc(a, p, (i - 1) \div b) + PadSrc(a, p, (i - 1) % b)]]
Init == d \in [1..(N * N) -> Vals] /\ n = N /\ prev = d /\ pn = N /\ how = <<"none", 0>> /\ steps = 0
Do(op, k, x, m) == d' = x /\ n' = m /\ how' = <<op, k>>
Next == /\ steps < Steps /\ steps' = steps + 1 /\ prev' = d /\ pn' = n
        /\ \/ \E m \in 1..MaxN : Do("resample", m, Resample(d, n, m), m)
           \/ \E m \in n..MaxN : Do("tile", m, Tiled(d, n, m), m)
           \/ \E p \in 0..2 : n + 2 * p <= MaxN /\ Do("pad", p, Padded(d, n, p), n + 2 * p)
Spec == Init /\ [][Next]_vars
Tr(x, a) == [i \in 1..(a * a) |-> x[1 + a * ((i - 1) % a) + (i - 1) \div a]]
Extreme(x, f(_, _)) == FoldLeft(LAMBDA m, v : f(m, v), x[1], x)
\* nothing goes beyond the values of the input; constants stay
Bounded == LET e == FLit("1e-12") IN \A i \in DOMAIN d : FLe(FSub(Extreme(prev, FMin), e), d[i]) /\ FLe(d[i], FAdd(Extreme(prev, FMax), e))
\* both sky axes are treated alike
Alike == steps > 0 => LET p == Tr(prev, pn) IN
  CASE how[1] = "resample" -> Same(Tr(d, n), Resample(p, pn, n))
    [] how[1] = "tile" -> Same(Tr(d, n), Tiled(p, pn, n))
    [] OTHER -> Same(Tr(d, n), Padded(p, pn, how[2]))
Identity == (steps > 0 /\ n = pn) => Same(d, prev)
\* the centre of a padded box is the box; the corner of a tiled sky is the box
Restores == (steps > 0 /\ how[1] \in {"tile", "pad"}) => LET o == IF how[1] = "pad" THEN how[2] ELSE 0 IN
  Same(prev, [i \in 1..(pn * pn) |-> d[1 + n * (o + (i - 1) \div pn) + o + ((i - 1) % pn)]])
Periodic == (steps > 0 /\ how[1] \in {"tile", "pad"}) => \A i \in DOMAIN d : LET x == (i - 1) \div n IN x + pn < n => FEq(d[i], d[i + n * pn])
\* smoothing is the top hat of E03 and keeps the total
AsConv == steps = 0 => \A w \in 1..n : LET s == Smooth2(d, n, w)  k == Cube(<<n, n>>, w) IN
  /\ FNear(FSum(s), FSum(d), FLit("1e-12"), FLit("1e-12"))
  /\ \A i \in DOMAIN d : FNear(s[i], ConvAt("same", "circular", <<n, n>>, <<n, n>>, <<n, n>>, d, k, i), FLit("1e-12"), FLit("1e-12"))
\* windows along the line of sight: s slices, centred, cut at the ends, covering everything
ASSUME \A m \in 1..7 : \A s \in 1..7 : \A k \in 0..m - 1 : LET w == Window(m, s, k) IN
   /\ k \in w /\ Cardinality(w) <= s /\ (Cardinality(w) = s \/ 0 \in w \/ m - 1 \in w)
   /\ \A j \in w : Abs(j - k) <= s \div 2
=============================================================================
