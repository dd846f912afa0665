---------------------------- MODULE LightconeMC ----------------------------
(* Exhaustive model: every list of 2..4 cubes at distinct redshifts in any
   order, every increasing sequence of slice redshifts inside their range.  The
   cubes actually held in memory (data_lo, data_hi: exchanged, never re-derived)
   must always be the declarative bracket.                                    *)
EXTENDS Lightcone, TLC
CONSTANTS CubeZ, SliceZ, MaxCubes
VARIABLES zs, z, w, dlo, dhi
vars == <<zs, z, w, dlo, dhi>>
Inj(n) == {f \in [1..n -> CubeZ] : \A i, j \in 1..n : f[i] = f[j] => i = j}
Init == /\ zs \in UNION {Inj(n) : n \in 2..MaxCubes}
        /\ z = -1 /\ w = Walk0 /\ dlo = 0 /\ dhi = 0
Slice(y) ==
  /\ y > z /\ InRange(zs, y)
  /\ LET n == WalkStep(zs, w, y) IN
       /\ w' = n
       \* low first (it may take over the cube held as high), then high
       /\ dlo' = IF n.lo = w.lo THEN dlo ELSE IF n.lo = w.hi THEN dhi ELSE n.lo
       /\ dhi' = IF n.hi = w.hi THEN dhi ELSE n.hi
  /\ z' = y /\ UNCHANGED zs
Next == \E y \in SliceZ : Slice(y)
Spec == Init /\ [][Next]_vars
HeldIsBracket == z = -1 \/ (dlo = LowIdx(zs, z) /\ dhi = HighIdx(zs, z) /\ zs[dlo] < zs[dhi])
Encloses == z = -1 \/ (zs[dlo] <= z /\ z <= zs[dhi] /\ \A i \in DOMAIN zs : ~(zs[dlo] < zs[i] /\ zs[i] < zs[dhi]))
\* a slice on a cube is that cube under linear and step interpolation
OnCube == z = -1 \/ \A i \in DOMAIN zs : zs[i] = z =>
            \A kind \in {"linear", "step"} : FEq(Interp(kind, z, zs[dlo], zs[dhi], 10*dlo, 10*dhi), 10*i)
\* linear interpolation stays between its two values, the sigmoid rises through the midpoint
Between == z = -1 \/ \A kind \in {"linear", "step", "sigmoid"} :
            LET v == Interp(kind, z, zs[dlo], zs[dhi], 0, 1) IN FLe(0, v) /\ FLe(v, 1)
\* no cube is read twice on the way up
ReadOnce == w.reads <= Len(zs)
=============================================================================
