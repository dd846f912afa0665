------------------------------- MODULE ConvMC -------------------------------
(* Every small signal and kernel: the direct sum under each boundary rule
   keeps what E03 says smoothing keeps.                                       *)
EXTENDS Conv
CONSTANTS N1, N2, M1, M2, Vals, Kers
VARIABLES a, k
S1 == <<N1, N2>>
S2 == <<M1, M2>>
Dot(x, y) == FoldLeft(LAMBDA s, j : s + x[j] * y[j], 0, [j \in DOMAIN x |-> j])
Total(x) == FoldLeft(LAMBDA s, v : s + v, 0, x)
Out(mode, bnd, d, w) == LET so == OutShape(mode, bnd, S1, S2) IN [i \in 1..Size(so) |-> Dot(Under(mode, bnd, S1, S2, so, d, i), w)]
\* convolution is bilinear, so signals and kernels with few non-zero cells stand for all
Few(f) == Cardinality({i \in DOMAIN f : f[i] # 0}) <= 2
Init == a \in {f \in [1..Size(S1) -> Vals] : Few(f)} /\ k \in {f \in [1..Size(S2) -> Kers] : Few(f)}
Next == FALSE /\ UNCHANGED <<a, k>>
Spec == Init /\ [][Next]_<<a, k>>
Bnds == {"constant", "circular", "reflect", "nearest", "mirror", "wrap"}
FlatOf(sh, c) == 1 + c[1] * sh[2] + c[2]
Centre == [i \in 1..Size(S2) |-> IF Off(S2, i, 1) = 0 /\ Off(S2, i, 2) = 0 THEN 1 ELSE 0]
Shift(d, u, v) == [i \in 1..Size(S1) |-> d[FlatOf(S1, <<(Co(S1, i, 1) + u) % N1, (Co(S1, i, 2) + v) % N2>>)]]
Conserves == Total(Out("same", "circular", a, k)) = Total(a) * Total(k) /\ Total(Out("full", "constant", a, k)) = Total(a) * Total(k)
\* constants are scaled by the kernel's sum under every boundary that extends the field by its own values
Constants == \A b \in Bnds \ {"constant"} : \A c \in Vals : \A i \in 1..Size(S1) : Out("same", b, [x \in 1..Size(S1) |-> c], k)[i] = c * Total(k)
DeltaKeeps == \A b \in Bnds : Out("same", b, a, Centre) = a
Commutes == \A u \in 0..N1 - 1, v \in 0..N2 - 1 : Out("same", "circular", Shift(a, u, v), k) = Shift(Out("same", "circular", a, k), u, v)
Periodic == Out("same", "wrap", a, k) = Out("same", "circular", a, k)
\* the cut of the full convolution that each mode returns
Cuts ==
  LET f == Out("full", "constant", a, k)  sf == OutShape("full", "constant", S1, S2)
      At(c, d) == f[FlatOf(sf, <<c, d>>)] IN
  /\ Out("same", "constant", a, k) = [i \in 1..Size(S1) |-> At(Co(S1, i, 1) + M1 \div 2, Co(S1, i, 2) + M2 \div 2)]
  /\ M1 <= N1 /\ M2 <= N2 => LET sv == OutShape("valid", "constant", S1, S2) IN
        Out("valid", "reflect", a, k) = [i \in 1..Size(sv) |-> At(Co(sv, i, 1) + M1 - 1, Co(sv, i, 2) + M2 - 1)]
ASSUME \A b \in Bnds \ {"constant"} : \A p \in -9..9 : \A n \in 1..4 : Ext(b, n, p) \in 0..n - 1 /\ (p \in 0..n - 1 => Ext(b, n, p) = p)
=============================================================================
