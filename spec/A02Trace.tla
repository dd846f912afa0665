------------------------------ MODULE A02Trace ------------------------------
(* A02: redshift grids of lightcones, and subvolumes.                         *)
EXTENDS Cosmo, TraceDriver, FiniteSets
A02Begin(s) == s.init
A02After(t, e) == t
Tol == FLit("1e-9")
Tie(n, bound) == FNear(n, bound, FLit("1e-9"), 0)
Increasing(z) == \A i \in 1..(Len(z) - 1) : FLt(z[i], z[i + 1])
\* the grid of the request, cut to the cubes' range when there are cubes
CellGrid(q, e) ==
  LET z == e.v  n == Len(z) IN
  Broken([ starts_at_low |-> n > 0 /\ FEq(z[1], e.zlo),
           one_cell_steps |-> \A i \in 1..(n - 1) : FNear(z[i + 1], NextCell(q, z[i], e.cell), Tol, 0),
           equal_comoving |-> \A i \in 1..(n - 1) : i % 5 # 1 \/ FNear(FSub(Dc(q, z[i + 1]), Dc(q, z[i])), e.cell, FLit("0.05"), 0),
           below_high |-> \A i \in 1..n : FLt(z[i], e.zhi),
           filled |-> n > 0 /\ LET m == NextCell(q, z[n], e.cell) IN FLe(e.zhi, m) \/ Tie(m, e.zhi),
           increasing |-> Increasing(z) ])
ChanGrid(q, e) ==
  LET z == e.v  n == Len(z) IN
  Broken([ ends_at_high |-> n > 0 /\ FEq(z[n], e.zhi),
           one_channel_steps |-> \A i \in 1..(n - 1) : FNear(FSub(NuOf(q, z[i]), NuOf(q, z[i + 1])), e.dnu, FLit("1e-8"), 0),
           above_low |-> \A i \in 1..n : FLt(e.zlo, z[i]),
           filled |-> n > 0 /\ LET m == NextChan(q, z[1], e.dnu) IN FLe(m, e.zlo) \/ Tie(m, e.zlo),
           increasing |-> Increasing(z) ])
\* full grid of a request, as a sequence
RECURSIVE Up(_, _, _, _)
Up(q, z, hi, cell) == IF FLt(z, hi) THEN <<z>> \o Up(q, NextCell(q, z, cell), hi, cell) ELSE <<>>
RECURSIVE Down(_, _, _, _)
Down(q, z, lo, dnu) == IF FLt(lo, z) THEN Append(Down(q, NextChan(q, z, dnu), lo, dnu), z) ELSE <<>>
Cut(z, lo, hi) == SelectSeq(z, LAMBDA x : FLe(lo, x) /\ FLe(x, hi))
\* positions at which the last element is a tie with the bound may or may not be present: compare up to such elements
SameGrid(a, b, lo, hi) ==
  LET edge(x) == Tie(x, lo) \/ Tie(x, hi)
      ca == SelectSeq(a, LAMBDA x : ~ edge(x))  cb == SelectSeq(b, LAMBDA x : ~ edge(x))
  IN Len(ca) = Len(cb) /\ \A i \in DOMAIN ca : FNear(ca[i], cb[i], Tol, 0)
LightconeGrid(q, e) ==
  LET full == IF e.mode = "cell" THEN Up(q, e.zlo, e.zhi, e.cell) ELSE Down(q, e.zhi, e.zlo, e.dnu)
      want == Cut(full, e.zmin, e.zmax) IN
  IF Len(want) = 0 THEN Broken([empty_range_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE Broken([ cut_to_cubes |-> \A i \in DOMAIN e.v : FLe(e.zmin, e.v[i]) /\ FLe(e.v[i], e.zmax),
                grid |-> SameGrid(e.v, want, e.zmin, e.zmax),
                \* the anchor of the grid itself is exact and belongs to it whenever the cubes cover it
                anchored |-> IF e.mode = "cell" THEN (FLe(e.zmin, e.zlo) /\ FLe(e.zlo, e.zmax)) => Len(e.v) > 0 /\ FEq(e.v[1], e.zlo)
                             ELSE (FLe(e.zmin, e.zhi) /\ FLe(e.zhi, e.zmax)) => Len(e.v) > 0 /\ FEq(e.v[Len(e.v)], e.zhi),
                increasing |-> Increasing(e.v),
                one_slice_each |-> e.nslices = Len(e.v) ])
Sub(q, e) ==
  LET zs == e.zs  nz == Len(zs)
      lim == Limits(q, e.zc, e.kind, e.depth)
      slack == FMul(FLit("2e-4"), FAdd(1, e.zc))
      below == FLt(lim[1], zs[1])  above == FLt(zs[nz], lim[2])
      unsure == FNear(lim[1], zs[1], 0, FLit("1e-4")) \/ FNear(lim[2], zs[nz], 0, FLit("1e-4"))
      tol == IF e.kind = "mpc" THEN FLit("2e-4") ELSE FLit("1e-9")
      LoS == Nearest(zs, lim[1], tol)  HiS == Nearest(zs, lim[2], tol)
      at(i, j, k) == e.lc[((i * e.ny) + j) * nz + k]
      sums == [k \in 1..nz |-> IF e.sub THEN FDiv(FSum([m \in 1..(e.nx * e.ny) |-> e.lc[(m - 1) * nz + k]]), e.nx * e.ny) ELSE 0]
      matches(lo, n) ==
        /\ e.shape = <<e.nx, e.ny, n>> /\ lo + n - 1 <= nz
        /\ Len(e.z) = n /\ \A k \in 1..n : FEq(e.z[k], zs[lo + k - 1])
        /\ Len(e.v) = e.nx * e.ny * n
        /\ \A m \in 0..(e.nx * e.ny - 1) : \A k \in 1..n :
             FNear(e.v[m * n + k], FSub(e.lc[m * nz + lo + k - 1], sums[lo + k - 1]), FLit("1e-9"), FLit("1e-9"))
  IN IF e.kind = "both" \/ e.kind = "neither" THEN Broken([ambiguous_depth_refused |-> e.exc # ""])
     ELSE IF unsure THEN {}
     ELSE IF below \/ above THEN Broken([outside_range_refused |-> e.exc # ""])
     ELSE IF e.exc # "" THEN {"no_exception"}
     ELSE Broken([ slices_between_nearest |-> \E lo \in LoS, hi \in HiS : matches(lo, SubCount(lo, hi, e.odd)),
                   odd_count |-> ~ e.odd \/ Len(e.z) % 2 = 1,
                   dims |-> Len(e.dims) = 3 /\ FNear(e.dims[1], e.fov, Tol, 0) /\ FNear(e.dims[2], e.fov, Tol, 0)
                            /\ FNear(e.dims[3], lim[3], FLit("1e-5"), 0) ])
A02Verdict(t, e) ==
  CASE e.op = "comoving_grid" -> IF e.exc # "" THEN Broken([reversed_range_refused |-> FLe(e.zhi, e.zlo)]) ELSE IF FLe(e.zhi, e.zlo) THEN {"reversed_range_accepted"} ELSE CellGrid(t, e)
    [] e.op = "frequency_grid" -> IF e.exc # "" THEN Broken([reversed_range_refused |-> FLe(e.zhi, e.zlo)]) ELSE IF FLe(e.zhi, e.zlo) THEN {"reversed_range_accepted"} ELSE ChanGrid(t, e)
    [] e.op = "lightcone_grid" -> LightconeGrid(t, e)
    [] e.op = "subvolume" -> Sub(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
