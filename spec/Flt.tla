-------------------------------- MODULE Flt --------------------------------
(* IEEE-754 binary64 numbers in TLC.  TLC has only 32-bit integers, but what
   tools21cm returns are doubles, so a double is represented losslessly as the
   pair <<hi, lo>> of the signed 32-bit halves of its bit pattern.  Every
   operator below is a primitive evaluated by the module override
   java/Flt.java (one line of Java each); everything a property says is
   written in TLA+ on top of them.  Wherever a double is expected, a TLA+
   integer may be given and stands for its exact value.                     *)
LOCAL Prim == CHOOSE x : TRUE
F(a)        == Prim     \* the double of an integer (identity on doubles)
FLit(s)     == Prim     \* the double of a decimal string, e.g. FLit("1e-9")
FRat(n, d)  == Prim     \* n / d
FAdd(a, b)  == Prim
FSub(a, b)  == Prim
FMul(a, b)  == Prim
FDiv(a, b)  == Prim
FNeg(a)     == Prim
FAbs(a)     == Prim
FSqrt(a)    == Prim
FExp(a)     == Prim
FLn(a)      == Prim
FSin(a)     == Prim
FCos(a)     == Prim
FAsin(a)    == Prim
FPow(a, b)  == Prim
FMin(a, b)  == Prim
FMax(a, b)  == Prim
FFloor(a)   == Prim     \* an integer (clamped to +-2e9; NaN gives -2^31)
FRint(a)    == Prim     \* nearest integer, likewise
FLt(a, b)   == Prim     \* IEEE: FALSE when either is NaN
FLe(a, b)   == Prim
FEq(a, b)   == Prim
FIsNaN(a)   == Prim
FFinite(a)  == Prim
FNear(a, b, rtol, atol) == Prim  \* |a-b| <= atol + rtol*|b|, FALSE on NaN
FSum(s)     == Prim     \* sum of a sequence
FDot(s, t)  == Prim     \* sum of s[i]*t[i]
FShow(a)    == Prim     \* for messages
=============================================================================
