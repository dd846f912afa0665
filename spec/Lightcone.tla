----------------------------- MODULE Lightcone -----------------------------
(* Construction of a lightcone from coeval cubes (tools21cm/lightcone.py).

   A lightcone is built slice by slice, at increasing redshift.  The code walks
   with two cubes in memory and exchanges them when the slice leaves the
   interval between them: that walk is the state machine (lo, hi) below.  What
   a user relies on is declarative: slice k interpolates the two cubes that
   most tightly enclose it.  Redshifts may be integers (design model) or
   doubles (recorded traces); comparisons go through Flt.                    *)
EXTENDS Flt, Integers, Sequences, FiniteSets

\* ---- the declarative bracket: indices into the list of cube redshifts zs
MaxIdx(zs) == CHOOSE i \in DOMAIN zs : \A j \in DOMAIN zs : FLe(zs[j], zs[i])
MinIdx(zs) == CHOOSE i \in DOMAIN zs : \A j \in DOMAIN zs : FLe(zs[i], zs[j])
InRange(zs, z) == FLe(zs[MinIdx(zs)], z) /\ FLe(z, zs[MaxIdx(zs)])
HighIdx(zs, z) ==
  IF \E i \in DOMAIN zs : FLt(z, zs[i])
  THEN CHOOSE i \in DOMAIN zs : FLt(z, zs[i]) /\ \A j \in DOMAIN zs : FLt(z, zs[j]) => FLe(zs[i], zs[j])
  ELSE MaxIdx(zs)
LowIdx(zs, z) ==
  LET h == HighIdx(zs, z) IN
  CHOOSE i \in DOMAIN zs : FLt(zs[i], zs[h]) /\ \A j \in DOMAIN zs : FLt(zs[j], zs[h]) => FLe(zs[j], zs[i])

\* ---- the walk: which cube is held as the low and the high one (0: none yet)
Walk0 == [lo |-> 0, hi |-> 0, reads |-> 0]
WalkStep(zs, w, z) ==
  LET l == LowIdx(zs, z)   h == HighIdx(zs, z)
      \* a cube already in memory as the high one becomes the low one without reading
      needLow  == l # w.lo /\ l # w.hi
      needHigh == h # w.hi
  IN [lo |-> l, hi |-> h, reads |-> w.reads + (IF needLow THEN 1 ELSE 0) + (IF needHigh THEN 1 ELSE 0)]

\* ---- interpolation of one cell value between the low and the high cube
Linear(z, zl, zh, a, b) == FDiv(FAdd(FMul(FSub(z, zl), b), FMul(FSub(zh, z), a)), FSub(zh, zl))
Mid(zl, zh) == FDiv(FAdd(zl, zh), 2)
Step(z, zl, zh, a, b) == IF FLt(z, Mid(zl, zh)) THEN a ELSE b
StepTie(z, zl, zh) == FNear(z, Mid(zl, zh), FLit("1e-12"), 0)
Sigmoid(z, zl, zh, a, b) ==
  LET zp == FAdd(-10, FMul(20, FDiv(FSub(z, zl), FSub(zh, zl))))
      g  == FDiv(1, FAdd(1, FExp(FMul(-2, zp))))
  IN FAdd(FMul(a, FSub(1, g)), FMul(b, g))
Interp(kind, z, zl, zh, a, b) ==
  CASE kind = "linear" -> Linear(z, zl, zh, a, b)
    [] kind = "step" -> Step(z, zl, zh, a, b)
    [] OTHER -> Sigmoid(z, zl, zh, a, b)

\* ---- cell (i, j) of slice s of a cubic N-cube stored flat in C order, along axis los (0-based)
CellOf(cube, N, los, s, i, j) ==
  cube[1 + (CASE los = 0 -> (s * N + i) * N + j
              [] los = 1 -> (i * N + s) * N + j
              [] OTHER   -> (i * N + j) * N + s)]
=============================================================================
