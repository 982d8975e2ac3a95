------------------------------- MODULE Tr_C19 -------------------------------
(***************************************************************************)
(* Recorded basis changes and polynomial evaluations.  An evaluation is    *)
(* followed level by level: the exact values in every slot, and the error  *)
(* the ciphertexts may have by then.                                       *)
(***************************************************************************)
EXTENDS Embed, TraceLib, SequencesExt
VARIABLES cur, lev, tk, eL, eT
cvars == <<cur, lev, tk, eL, eT>>
TraceInit == l = 1 /\ cur = [lv |-> 0] /\ lev = <<>> /\ tk = <<>> /\ eL = BI(0) /\ eT = BI(0)
\* Chebyshev coefficients, times 2^k, of the polynomial with 2^k coefficients u in the basis of products T_1^b0 T_2^b1 T_4^b2 ...
Double(r, h) ==        \* r: blocks of width h, to blocks of width 2h
  [i \in 1..Len(r) |-> LET p == (i - 1) % (2 * h) IN
     IF p = 0 THEN r[i] ** BI(2)
     ELSE IF p < h THEN (r[i] ** BI(2)) ++ r[i - p + 2 * h - p]
     ELSE IF p = h THEN r[i] ** BI(2) ELSE r[i]] \o <<>>
RECURSIVE Widths(_, _)
Widths(h, n) == IF h = n THEN <<>> ELSE <<h>> \o Widths(2 * h, n)
ToCheb(u) == FoldLeft(Double, u, Widths(1, Len(u)))
Tou == /\ IsEvent("tou") /\ UNCHANGED cvars /\ Ev.same /\ Len(Ev.u) = Len(Ev.c)
       /\ \E r \in {VSub(ToCheb(Ev.u), VScale(Ev.c, BI(Len(Ev.c))))} :
            IF Ev.exact THEN VMaxAbs(r) = BI(0)
            ELSE (VMaxAbs(r) ** BPow2(48)) \preceq (BI(Len(Ev.c)) ** (VSumAbs(Ev.u) ++ VSumAbs(Ev.c)))

-----------------------------------------------------------------------------
Nn == 2 ^ cur.g
Sz(v) == VMaxAbs([j \in 1..Len(v) |-> BAbs(v[j][1]) ++ BAbs(v[j][2])])
RoundSlot == (BI(Nn * (RoundErr(cur.s) + 1)) ** BPow2(F - cur.ld)) // BI(2)
KsSlot    == (BI(Nn * SwitchErr(Nn, cur.s)) ** BPow2(F)) // BPow2(2 * cur.ld)
Begin == /\ IsEvent("begin") /\ Ternary(Ev.s) /\ Len(Ev.u) = 2 ^ Ev.lv
         /\ cur' = [k |-> Ev.k, g |-> Ev.g, ld |-> Ev.ld, lv |-> Ev.lv, s |-> Ev.s]
         /\ \E ph \in {PSigned(Ev.k, Phase(Ev.k, Ev.in, Ev.s))} : \E a \in {EmbRe(Ev.g, ph)} : \E b \in {EmbIm(Ev.g, ph)} :
              tk' = [j \in 1..Len(a) |-> <<a[j] // BPow2(Ev.ld), b[j] // BPow2(Ev.ld)>>] \o <<>>
         /\ lev' = [j \in 1..(2 ^ (Ev.g - 1)) |-> [i \in 1..Len(Ev.u) |-> <<Ev.u[i], BI(0)>>] \o <<>>] \o <<>>
         /\ eL' = BPow2(F - Ev.ld) /\ eT' = BI(1)
CAdd(u, v) == <<u[1] ++ v[1], u[2] ++ v[2]>>
Level == /\ IsEvent("level") /\ Len(lev[1]) > 1
         /\ lev' = [j \in 1..Len(lev) |-> [n \in 1..(Len(lev[j]) \div 2) |-> CAdd(lev[j][2 * n - 1], CMul(tk[j], lev[j][2 * n]))] \o <<>>] \o <<>>
         /\ tk' = [j \in 1..Len(tk) |-> LET q == CMul(tk[j], tk[j]) IN <<(q[1] ** BI(2)) -- One, q[2] ** BI(2)>>] \o <<>>
         /\ \E tm \in {Sz(tk)} : \E lm \in {VMaxAbs([j \in 1..Len(lev) |-> Sz(lev[j])])} :
              /\ eL' = FMul(One ++ tm ++ eT, eL) ++ FMul(lm, eT) ++ RoundSlot ++ KsSlot ++ BPow2(30)
              /\ eT' = FMul((BI(4) ** tm) ++ (BI(2) ** eT), eT) ++ RoundSlot ++ (BI(2) ** KsSlot) ++ BPow2(30)
         /\ cur' = cur
End == /\ IsEvent("end") /\ UNCHANGED cvars /\ Ev.same /\ Ev.silent /\ Len(lev[1]) = 1
       /\ CtCanon(cur.k - cur.lv * cur.ld, Nn, Ev.out)
       /\ \E ph \in {PSigned(cur.k - cur.lv * cur.ld, Phase(cur.k - cur.lv * cur.ld, Ev.out, cur.s))} :
            /\ Within(EmbRe(cur.g, ph), [j \in 1..Len(lev) |-> lev[j][1][1] ** BPow2(cur.ld)] \o <<>>, eL ** BPow2(cur.ld))
            /\ Within(EmbIm(cur.g, ph), [j \in 1..Len(lev) |-> lev[j][1][2] ** BPow2(cur.ld)] \o <<>>, eL ** BPow2(cur.ld))
TraceSpec == TraceInit /\ [][Tou \/ Begin \/ Level \/ End]_<<cvars, l>>
=============================================================================
