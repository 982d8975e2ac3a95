------------------------------- MODULE MC_NTT -------------------------------
(***************************************************************************)
(* The in-place transform as a state machine, one butterfly stage a step,  *)
(* over a small prime field: Cooley-Tukey stages with the bit-reversed     *)
(* table of powers of a 2N-th root of unity found by the primitive-root    *)
(* search, then Gentleman-Sande stages, then the division by N.  In the    *)
(* middle the array holds the values at the roots of x^N+1, and in the end *)
(* the input again.                                                        *)
(***************************************************************************)
EXTENDS NTT, TLC
CONSTANTS N, Q, Entries, BitRev
VARIABLES a0, a, m, t, ph
vars == <<a0, a, m, t, ph>>

RECURSIVE Pw(_, _)
Pw(x, e) == IF e = 0 THEN 1 ELSE (x * Pw(x, e - 1)) % Q
LogN == CHOOSE k \in 0..10 : 2 ^ k = N
RECURSIVE Rev(_, _)
Rev(i, d) == IF d = 0 THEN 0 ELSE (i % 2) * 2 ^ (d - 1) + Rev(i \div 2, d - 1)
Prime(x) == x > 1 /\ \A d \in 2..(x - 1) : x % d # 0
PrimRoot == CHOOSE r \in 2..(Q - 1) :
              /\ \A f \in 2..(Q - 1) : Prime(f) /\ (Q - 1) % f = 0 => Pw(r, (Q - 1) \div f) # 1
              /\ \A s \in 2..(r - 1) : \E f \in 2..(Q - 1) : Prime(f) /\ (Q - 1) % f = 0 /\ Pw(s, (Q - 1) \div f) = 1
Psi    == Pw(PrimRoot, (Q - 1) \div (2 * N))
InvM(x) == Pw(x, Q - 2)
IdxOf(i) == IF BitRev THEN Rev(i, LogN) ELSE i
PsiRev == [i \in 0..(N - 1) |-> Pw(Psi, IdxOf(i))]
IPsiRev == [i \in 0..(N - 1) |-> Pw(InvM(Psi), IdxOf(i))]

Vec == [0..(N - 1) -> Entries]
Init == a0 \in Vec /\ a = a0 /\ m = 1 /\ t = N \div 2 /\ ph = "ntt"

\* j of block i = j \div 2t, upper half when (j % 2t) >= t
Fwd == /\ ph = "ntt" /\ m < N
       /\ a' = [j \in 0..(N - 1) |->
                 LET i == j \div (2 * t)
                     lo == IF (j % (2 * t)) < t THEN j ELSE j - t
                     V == (a[lo + t] * PsiRev[m + i]) % Q
                 IN IF lo = j THEN (a[lo] + V) % Q ELSE (a[lo] + Q - V) % Q]
       /\ m' = 2 * m /\ t' = t \div 2 /\ UNCHANGED <<a0, ph>>
Turn == ph = "ntt" /\ m = N /\ ph' = "intt" /\ t' = 1 /\ UNCHANGED <<a0, a, m>>
Bwd == /\ ph = "intt" /\ m > 1
       /\ LET h == m \div 2 IN
          a' = [j \in 0..(N - 1) |->
                 LET i == j \div (2 * t)
                     lo == IF (j % (2 * t)) < t THEN j ELSE j - t
                     U == a[lo]
                     V == a[lo + t]
                 IN IF lo = j THEN (U + V) % Q ELSE ((U + Q - V) * IPsiRev[h + i]) % Q]
       /\ m' = m \div 2 /\ t' = 2 * t /\ UNCHANGED <<a0, ph>>
Scale == ph = "intt" /\ m = 1 /\ ph' = "done" /\ a' = [j \in 0..(N - 1) |-> (a[j] * InvM(N)) % Q] /\ UNCHANGED <<a0, m, t>>
Next == Fwd \/ Turn \/ Bwd \/ Scale
Spec == Init /\ [][Next]_vars

BV(v) == [i \in 1..N |-> BI(v[i - 1])]
\* the points this transform evaluates at: psi^(2*rev(j)+1)
Pts == [j \in 1..N |-> BI(Pw(Psi, 2 * Rev(j - 1, LogN) + 1))]
PointsOK == NPoints(N, BI(Q), Pts)
Values == ph = "ntt" /\ m = N => NForward(BI(Q), Pts, BV(a0), BV(a), 1..N)
Returns == ph = "done" => a = a0
\* after the stages with m blocks, block i holds a0 modulo x^(N/m) - w for a root w: its values at the points of the block are those of a0
Stage == ph = "ntt" => \A j \in 1..N :
           LET sz == N \div m
               blk == (j - 1) \div sz
               c == [i \in 1..sz |-> BI(a[blk * sz + i - 1])]
           IN VEval(c, Pts[j], BI(Q)) = VEval(BV(a0), Pts[j], BI(Q))
=============================================================================
