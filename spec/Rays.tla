-------------------------------- MODULE Rays --------------------------------
(* Straight rays of unit steps through a region of a grid.  The region's value
   at a real position is the multilinear interpolation of its indicator, zero
   outside the box; a ray that has just made its k-th step and finds a value
   not above one half ends in bin k-1.  Ray... operators return the set of
   bins a direction may end in: one bin, except where a value or a position is
   within 1e-9 of its limit and rounding decides.                              *)
EXTENDS Grid, Flt, SequencesExt
Pi == FLit("3.141592653589793")
Rad(d) == FDiv(FMul(d, Pi), 180)
Eps == FLit("1e-9")
\* per axis: <<status, lower index, weight of the upper cell>>; status 0 inside, 1 outside, 2 undecided
Axis(n, p) ==
  IF FLt(p, FNeg(Eps)) \/ FLt(FAdd(n - 1, Eps), p) THEN <<1, 0, 0>>
  ELSE LET f == FFloor(p)  i == IF f < 0 THEN 0 ELSE IF f > n - 2 THEN (IF n < 2 THEN 0 ELSE n - 2) ELSE f
       IN <<IF FLt(p, Eps) \/ FLt(FSub(n - 1, Eps), p) THEN 2 ELSE 0, i, FSub(p, i)>>
FOne == F(1)
FZero == F(0)
B2F(b) == IF b THEN FOne ELSE FZero
Val2(sh, reg, a, b) ==
  LET k == 1 + a[2] * sh[2] + b[2]
      v00 == reg[k]  v01 == reg[k + 1]  v10 == reg[k + sh[2]]  v11 == reg[k + sh[2] + 1]
  IN IF v00 = v01 /\ v00 = v10 /\ v00 = v11 THEN B2F(v00)
     ELSE LET lo == FAdd(FMul(B2F(v00), FSub(1, b[3])), FMul(B2F(v01), b[3]))
              hi == FAdd(FMul(B2F(v10), FSub(1, b[3])), FMul(B2F(v11), b[3]))
          IN FAdd(FMul(lo, FSub(1, a[3])), FMul(hi, a[3]))
Mix(u, v, w) == IF u = v THEN u ELSE FAdd(FMul(u, FSub(1, w)), FMul(v, w))
Val3(sh, reg, a, b, c) ==
  LET k == 1 + (a[2] * sh[2] + b[2]) * sh[3] + c[2]  s2 == sh[3]  s1 == sh[2] * sh[3]
      r(i) == B2F(reg[i])
      w(i) == Mix(r(i), r(i + 1), c[3])
      v(i) == Mix(w(i), w(i + s2), b[3])
  IN Mix(v(k), v(k + s1), a[3])
\* 1 goes on, 0 ends, 2 undecided
Judge1(st, val) == IF st = 1 THEN 0
  ELSE LET j == IF FLt(FAdd(FLit("0.5"), Eps), val) THEN 1 ELSE IF FLt(val, FSub(FLit("0.5"), Eps)) THEN 0 ELSE 2
       IN IF st = 2 /\ j = 1 THEN 2 ELSE j
Worst(s) == IF \E i \in DOMAIN s : s[i] = 1 THEN 1 ELSE IF \E i \in DOMAIN s : s[i] = 2 THEN 2 ELSE 0
State2(sh, reg, p) == LET a == Axis(sh[1], p[1])  b == Axis(sh[2], p[2])  st == Worst(<<a[1], b[1]>>)
                      IN IF st = 1 THEN 0 ELSE Judge1(st, Val2(sh, reg, a, b))
State3(sh, reg, p) == LET a == Axis(sh[1], p[1]) IN IF a[1] = 1 THEN 0 ELSE
                      LET b == Axis(sh[2], p[2]) IN IF b[1] = 1 THEN 0 ELSE
                      LET c == Axis(sh[3], p[3])  st == Worst(<<a[1], b[1], c[1]>>)
                      IN IF c[1] = 1 THEN 0 ELSE Judge1(st, Val3(sh, reg, a, b, c))
State(sh, reg, p) == IF Len(sh) = 2 THEN State2(sh, reg, p) ELSE State3(sh, reg, p)
Along(p0, d, k) == IF Len(p0) = 2 THEN <<FAdd(p0[1], FMul(k, d[1])), FAdd(p0[2], FMul(k, d[2]))>>
                   ELSE <<FAdd(p0[1], FMul(k, d[1])), FAdd(p0[2], FMul(k, d[2])), FAdd(p0[3], FMul(k, d[3]))>>
RECURSIVE RayBins(_, _, _, _, _)
RayBins(sh, reg, p0, d, k) ==
  LET s == State(sh, reg, Along(p0, d, k))
  IN CASE s = 0 -> {k - 1} [] s = 1 -> RayBins(sh, reg, p0, d, k + 1) [] OTHER -> {k - 1} \cup RayBins(sh, reg, p0, d, k + 1)
\* directions with their weights: whole degrees, all equally likely
Dirs2 == [t \in 1..360 |-> [d |-> <<FSin(Rad(t - 1)), FCos(Rad(t - 1))>>, w |-> 1]]
\* (theta, phi) in 0..359 twice; (360-theta, phi+180) is the same direction
Dirs3(step) == LET nt == 180 \div step  np == 360 \div step
               IN [n \in 1..((nt - 1) * np + 2) |->
                    IF n <= 2 THEN [d |-> <<0, 0, IF n = 1 THEN 1 ELSE -1>>, w |-> np]
                    ELSE LET t == (1 + (n - 3) \div np) * step  f == ((n - 3) % np) * step
                         IN [d |-> <<FMul(FSin(Rad(t)), FCos(Rad(f))), FMul(FSin(Rad(t)), FSin(Rad(f))), FCos(Rad(t))>>, w |-> 2]]
\* tally: for bins 0..m, the weight surely and possibly ending there
Tally(sh, reg, p0, dirs, m) ==
  LET add(q, dw) == LET r == RayBins(sh, reg, p0, dw.d, 1)  w == dw.w
                    IN [lo |-> IF Cardinality(r) = 1 THEN [q.lo EXCEPT ![CHOOSE b \in r : TRUE] = @ + w] ELSE q.lo,
                        hi |-> IF Cardinality(r) = 1 THEN [q.hi EXCEPT ![CHOOSE b \in r : TRUE] = @ + w]
                               ELSE [b \in 0..m |-> q.hi[b] + IF b \in r THEN w ELSE 0]]
  IN FoldLeft(add, [lo |-> [b \in 0..m |-> 0], hi |-> [b \in 0..m |-> 0]], dirs)
\* longest conceivable ray, in steps
RECURSIVE SqSum(_, _)
SqSum(sh, a) == IF a > Len(sh) THEN 0 ELSE sh[a] * sh[a] + SqSum(sh, a + 1)
MaxBin(sh) == FFloor(FSqrt(SqSum(sh, 1))) + 1
=============================================================================
