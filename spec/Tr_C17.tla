------------------------------- MODULE Tr_C17 -------------------------------
(***************************************************************************)
(* Recorded homomorphic linear transforms.  A matrix is a sequence of      *)
(* diagonals [off, zr, zi, zero, enc]: its entries in fixed point and      *)
(* their encoding.  Single transforms are judged on phases, exactly up to  *)
(* the key-switching error of every rotation; products of several factors  *)
(* on slots, against the exact product of the matrices.                    *)
(***************************************************************************)
EXTENDS Embed, TraceLib
VARIABLES cur,            \* the chain being followed: size, key, scale
          zr, zi, err,    \* exact slots so far, and the error of the recorded ones, times 2^F
          row, nd, sz     \* of the open group: bound of the absolute row sums (times 2^F), number of diagonals, size of the slots before it
cvars == <<cur, zr, zi, err, row, nd, sz>>
TraceInit == l = 1 /\ cur = [k |-> 0] /\ zr = <<>> /\ zi = <<>> /\ err = BI(0) /\ row = BPow2(F) /\ nd = 1 /\ sz = BI(0)
Abs1(k, p) == VSumAbs(PSigned(k, p))
\* the encoding of a diagonal at scale 2^ld is right (as for C15)
EncOk(g, k, ld, d) ==
  /\ Len(d.enc) = 2 ^ g /\ PCanon(k, d.enc)
  /\ \E m \in {InvEmb(g, d.zr, d.zi)} :
       Within(VScale(PSigned(k, d.enc), BI(2 ^ (g - 1)) ** BPow2(2 * F)), VScale(m, BPow2(ld)),
              (BI(2 ^ (g - 1)) ** BPow2(2 * F)) ++ (BPow2(ld + F - 45) ** (VSumAbs(d.zr) ++ VSumAbs(d.zi))))
\* sum over the diagonals of the encoded diagonal times the rotated phase
RECURSIVE Apply(_, _, _, _, _)
Apply(k, n, ds, ph, i) ==
  IF i = 0 THEN PZero(n)
  ELSE VMod(VAdd(Apply(k, n, ds, ph, i - 1), IF ds[i].zero THEN PZero(n) ELSE PMul(k, ds[i].enc, VMod(VAuto(ph, Rot5(n, ds[i].off)), BPow2(k)))), BPow2(k))
\* twice the error: one key switching per rotation; in the dense transform the rotation by r takes r of them
Steps(e, d) == IF d.off = 0 THEN 0 ELSE IF e.var = "dense" THEN d.off ELSE 1
Err(e) == BSum([i \in 1..Len(e.A) |-> IF e.A[i].zero THEN BI(0) ELSE Abs1(e.k, e.A[i].enc) ** BI(Steps(e, e.A[i]) * SwitchErr(2 ^ e.g, e.s))])
\* the dense transform is given the matrix itself: diagonal r holds the entries A[j][j+r]
DenseOk(e) == e.var = "dense" =>
  LET n == 2 ^ (e.g - 1) IN Len(e.A) = n /\ \A r \in 1..n : e.A[r].off = r - 1 /\ ~e.A[r].zero
      /\ e.A[r].zr = [j \in 1..n |-> e.Mr[j][((j - 1 + r - 1) % n) + 1]] /\ e.A[r].zi = [j \in 1..n |-> e.Mi[j][((j - 1 + r - 1) % n) + 1]]
Single == /\ IsEvent("one") /\ UNCHANGED cvars /\ Ev.same /\ CtCanon(Ev.k, 2 ^ Ev.g, Ev.out) /\ DenseOk(Ev)
        /\ \A i \in 1..Len(Ev.A) : (~Ev.A[i].zero => EncOk(Ev.g, Ev.k, Ev.ld, Ev.A[i]))
        /\ \E ph \in {Phase(Ev.k, Ev.in, Ev.s)} :
             (VMaxAbs(VCenter(VSub(Phase(Ev.k, Ev.out, Ev.s), Apply(Ev.k, 2 ^ Ev.g, Ev.A, ph, Len(Ev.A))), BPow2(Ev.k))) ** BI(2)) \preceq Err(Ev)

-----------------------------------------------------------------------------
(* chains of factors, applied in groups: the exact slots are multiplied by every factor, and by the scale when a group ends *)
Entry(x, d, j) == IF d.zero THEN BI(0) ELSE x[j]
Pick(z, n, ds, j) == [i \in 1..Len(ds) |-> z[((j - 1 + ds[i].off) % n) + 1]]
MatRe(n, ds, x, y) == [j \in 1..n |-> (BDot([i \in 1..Len(ds) |-> Entry(ds[i].zr, ds[i], j)], Pick(x, n, ds, j)) -- BDot([i \in 1..Len(ds) |-> Entry(ds[i].zi, ds[i], j)], Pick(y, n, ds, j))) // One] \o <<>>
MatIm(n, ds, x, y) == [j \in 1..n |-> (BDot([i \in 1..Len(ds) |-> Entry(ds[i].zr, ds[i], j)], Pick(y, n, ds, j)) ++ BDot([i \in 1..Len(ds) |-> Entry(ds[i].zi, ds[i], j)], Pick(x, n, ds, j))) // One] \o <<>>
\* largest absolute row sum of a factor
RowSum(n, ds) == VMaxAbs([j \in 1..n |-> BSum([i \in 1..Len(ds) |-> BAbs(Entry(ds[i].zr, ds[i], j)) ++ BAbs(Entry(ds[i].zi, ds[i], j))])])
Size(x, y) == VMaxAbs(x) ++ VMaxAbs(y)
Begin == /\ IsEvent("begin") /\ Ternary(Ev.s) /\ cur' = [k |-> Ev.k, g |-> Ev.g, s |-> Ev.s, ld |-> Ev.ld]
         /\ \E ph \in {PSigned(Ev.k, Phase(Ev.k, Ev.in, Ev.s))} : zr' = EmbRe(Ev.g, ph) /\ zi' = EmbIm(Ev.g, ph)
         /\ err' = BI(0) /\ row' = BPow2(F) /\ nd' = 1 /\ sz' = Size(zr', zi')
Factor == /\ IsEvent("factor")
          /\ LET n == 2 ^ (cur.g - 1) IN
               /\ zr' = MatRe(n, Ev.A, zr, zi) /\ zi' = MatIm(n, Ev.A, zr, zi)
               /\ row' = FMul(row, RowSum(n, Ev.A)) ++ BI(1) /\ nd' = IF nd * Len(Ev.A) < n THEN nd * Len(Ev.A) ELSE n
          /\ UNCHANGED <<cur, err, sz>>
\* the product of the group is encoded (a slot of a diagonal is off by at most N, and 2^-40 of the row sum) and applied
Group == /\ IsEvent("group") /\ zr' = VScale(zr, BPow2(cur.ld)) /\ zi' = VScale(zi, BPow2(cur.ld))
         /\ LET N == 2 ^ cur.g IN
              err' = FMul((row ** BPow2(cur.ld)) ++ (BI(nd * N) ** One), err ++ (BI(N * SwitchErr(N, cur.s)) ** BPow2(F - 1)))
                     ++ (BI(nd * N) ** sz) ++ ((FMul(row, sz) ** BPow2(cur.ld)) // BPow2(40)) ++ BI(1)
         /\ row' = BPow2(F) /\ nd' = 1 /\ sz' = Size(zr', zi') /\ cur' = cur
End == /\ IsEvent("end") /\ Ev.same /\ nd = 1 /\ CtCanon(cur.k, 2 ^ cur.g, Ev.out)
       /\ \E ph \in {PSigned(cur.k, Phase(cur.k, Ev.out, cur.s))} :
            Within(EmbRe(cur.g, ph), zr, err) /\ Within(EmbIm(cur.g, ph), zi, err)
       /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][Single \/ Begin \/ Factor \/ Group \/ End]_<<cvars, l>>
=============================================================================
