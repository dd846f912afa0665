------------------------------ MODULE SignalMC ------------------------------
(* A sightline is walked sample by sample: the brightness temperature of every
   slice depends on that slice alone, the optical depth only ever grows and its
   earlier values never change.                                                *)
EXTENDS Signal, TLC, FiniteSets
CONSTANTS XS, RS, TS, MaxLen
VARIABLES cells, taus, zl
vars == <<cells, taus, zl>>
q == [H0 |-> 70, Om |-> FRat(27, 100), lam |-> FRat(73, 100), c |-> 300000, nu0 |-> 1420, h |-> FRat(7, 10), meandt |-> 3, rhob |-> FRat(3, 2),
      Tcmb0 |-> FLit("2.725"), OmB |-> FRat(44, 1000), rhoc |-> FLit("9.2e-30"), abu_he |-> FLit("0.08"), mmol |-> FLit("1.2"),
      mp |-> FLit("1.67e-24"), H0cgs |-> FLit("2.3e-18")]
Z(k) == FAdd(zl, FMul(k, FRat(1, 2)))
Init == zl \in {5, 9} /\ cells = <<>> /\ taus = <<>>
Walk == /\ Len(cells) < MaxLen
        /\ \E x \in XS, r \in RS, t \in TS :
             LET n == Len(cells)  c == [x |-> FRat(x, 2), r |-> r, t |-> t] IN
             /\ cells' = Append(cells, c)
             /\ taus' = Append(taus, IF n = 0 THEN TauFull(q, Z(0))
                                     ELSE FAdd(taus[n], Step(q, cells[n].x, Z(n - 1), c.x, Z(n))))
        /\ UNCHANGED zl
Spec == Init /\ [][Walk]_vars
Grows == \A i \in 1..(Len(taus) - 1) : FLe(taus[i], taus[i + 1])
Neutral == \A i \in 1..(Len(taus) - 1) : (FEq(cells[i].x, 0) /\ FEq(cells[i + 1].x, 0)) => FEq(taus[i], taus[i + 1])
NoSignal == \A i \in DOMAIN cells : LET c == cells[i] IN
  (FEq(c.x, 1) \/ c.r = 0) => /\ FEq(DtCell(q, c.x, c.r, Z(i)), 0) /\ \A b \in BOOLEAN : FEq(DtFullCell(q, c.x, c.r, c.t, Z(i), b), 0)
Linear == \A i \in DOMAIN cells : LET c == cells[i] IN
  /\ FNear(DtCell(q, c.x, FMul(3, c.r), Z(i)), FMul(3, DtCell(q, c.x, c.r, Z(i))), FLit("1e-12"), 0)
  /\ FNear(DtCell(q, 0, c.r, Z(i)), FAdd(DtCell(q, c.x, c.r, Z(i)), DtCell(q, FSub(1, c.x), c.r, Z(i))), FLit("1e-12"), 0)
HotLimit == \A i \in DOMAIN cells : LET c == cells[i] IN
  FNear(DtFullCell(q, 0, c.r, FLit("1e9"), Z(i), FALSE), DtCell(q, 0, c.r, Z(i)), FLit("1e-6"), 0)
History == [][\A i \in DOMAIN taus : taus'[i] = taus[i]]_vars
=============================================================================
