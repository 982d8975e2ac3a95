------------------------------- MODULE Tr_C25 -------------------------------
(* Recorded transforms: complex vectors and coefficient vectors are doubles written exactly in fixed point. *)
EXTENDS Embed, TraceLib
VARIABLE facs                               \* the factors last recorded
TraceInit == l = 1 /\ facs = <<>>
P2(g) == 2 ^ g
\* |error| <= 2^-45 times the sum of the magnitudes that enter
Eps(x) == (x // BPow2(45)) ++ BI(4)
\* columns in bit-reversed order, for both halves of the coefficients
Rev(g, m) == [k \in 1..P2(g) |-> IF k <= P2(g - 1) THEN m[BitRevN(k - 1, g - 1) + 1] ELSE m[P2(g - 1) + BitRevN(k - 1 - P2(g - 1), g - 1) + 1]] \o <<>>
Fwd == /\ Ev.e = "fwd" /\ Ev.same /\ Len(Ev.m) = P2(Ev.g)
       /\ LET m == IF Ev.nr THEN Rev(Ev.g, Ev.m) ELSE Ev.m
              tol == Eps(VSumAbs(m)) ** One
          IN Within(EmbRe(Ev.g, m), VScale(Ev.zr, One), tol) /\ Within(EmbIm(Ev.g, m), VScale(Ev.zi, One), tol)
Inv == /\ Ev.e = "inv" /\ Ev.same /\ Len(Ev.m) = P2(Ev.g)
       /\ LET m == IF Ev.nr THEN Rev(Ev.g, Ev.m) ELSE Ev.m
              tol == Eps(VSumAbs(Ev.zr) ++ VSumAbs(Ev.zi)) ** One
          IN Within(InvEmb(Ev.g, Ev.zr, Ev.zi), VScale(m, One ** BI(P2(Ev.g - 1))), tol)
\* long vectors, sampled: the logged outputs are those at the indices Ev.at
FwdS == /\ Ev.e = "fwds" /\ Ev.same /\ Len(Ev.m) = P2(Ev.g)
        /\ \E m \in {IF Ev.nr THEN Rev(Ev.g, Ev.m) ELSE Ev.m} : \E tol \in {Eps(VSumAbs(m)) ** One} :
              Within(EmbReAt(Ev.g, m, Ev.at), VScale(Ev.zr, One), tol) /\ Within(EmbImAt(Ev.g, m, Ev.at), VScale(Ev.zi, One), tol)
RevAt(g, at) == [k \in 1..Len(at) |-> IF at[k] < P2(g - 1) THEN BitRevN(at[k], g - 1) ELSE P2(g - 1) + BitRevN(at[k] - P2(g - 1), g - 1)] \o <<>>
InvS == /\ Ev.e = "invs" /\ Ev.same /\ Len(Ev.zr) = P2(Ev.g - 1)
        /\ LET tol == Eps(VSumAbs(Ev.zr) ++ VSumAbs(Ev.zi)) ** One
           IN Within(InvEmbAt(Ev.g, Ev.zr, Ev.zi, IF Ev.nr THEN RevAt(Ev.g, Ev.at) ELSE Ev.at), VScale(Ev.m, One ** BI(P2(Ev.g - 1))), tol)
\* a vector z through all the factors: the embedding with columns in bit-reversed order, applied to z as coefficients
Through_S == /\ Ev.e = "through" /\ Len(Ev.zr) = P2(Ev.g - 1)
             /\ LET g == Ev.g H == P2(g - 1)
                    P(v) == [k \in 1..P2(g) |-> IF k <= H THEN v[BitRevN(k - 1, g - 1) + 1] ELSE BI(0)] \o <<>>
                IN \E a \in {P(Ev.zr)} : \E b \in {P(Ev.zi)} : \E tol \in {Eps(VSumAbs(a) ++ VSumAbs(b)) ** One} :
                   /\ Within(VSub(EmbReAt(g, a, Ev.at), EmbImAt(g, b, Ev.at)), VScale(Ev.wr, One), tol)
                   /\ Within(VAdd(EmbImAt(g, a, Ev.at), EmbReAt(g, b, Ev.at)), VScale(Ev.wi, One), tol)
\* one after the other: the original
Round == /\ Ev.e = "round" /\ Within(Ev.a, Ev.b, Eps(VSumAbs(Ev.a)))
\* factors: a sequence of matrices, each a sequence of diagonals <<offset, entries re, entries im>>
Factors == /\ Ev.e = "factors" /\ Len(Ev.f) = Ev.g - 1 /\ \A i \in 1..Len(Ev.f) : Len(Ev.f[i]) = 3
MatVec(A, n, zr, zi) ==
  << [i \in 1..n |-> BSum([d \in 1..3 |-> LET j == ((i - 1 + A[d].off) % n) + 1 IN FMul(A[d].re[i], zr[j]) -- FMul(A[d].im[i], zi[j])])] \o <<>>,
     [i \in 1..n |-> BSum([d \in 1..3 |-> LET j == ((i - 1 + A[d].off) % n) + 1 IN FMul(A[d].re[i], zi[j]) ++ FMul(A[d].im[i], zr[j])])] \o <<>> >>
RECURSIVE Through(_, _, _, _)
Through(f, n, i, z) == IF i = 0 THEN z ELSE Through(f, n, i - 1, MatVec(f[i], n, z[1], z[2]))
\* column c of the product of the factors is column bitrev(c) of the embedding
Column == /\ Ev.e = "column" /\ facs # <<>>
          /\ LET g == facs.g n == P2(g - 1) rc == BitRevN(Ev.c, g - 1)
             IN \E z \in {Through(facs.f, n, g - 1, << [i \in 1..n |-> IF i = Ev.c + 1 THEN One ELSE BI(0)], [i \in 1..n |-> BI(0)] >>)} :
                \A j \in 1..n : LET t == ((rc * FiveT[g][j]) % P2(g + 1)) + 1 IN
                   BAbs(z[1][j] -- CosT[g][t]) \preceq BPow2(F - 45) /\ BAbs(z[2][j] -- SinT[g][t]) \preceq BPow2(F - 45)
Step == /\ l <= Len(Trace) /\ (Fwd \/ Inv \/ FwdS \/ InvS \/ Through_S \/ Round \/ Factors \/ Column) /\ l' = l + 1
        /\ facs' = IF Ev.e = "factors" THEN Ev ELSE facs
TraceSpec == TraceInit /\ [][Step]_<<l, facs>>
=============================================================================
