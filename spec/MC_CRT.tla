------------------------------- MODULE MC_CRT -------------------------------
(***************************************************************************)
(* The conversion algorithms at small sizes: Horner reduction of the       *)
(* magnitude word by word with the sign applied afterwards, and the sum of *)
(* scaled cofactors reduced by repeated subtraction with the sign decided  *)
(* at half the product, against RNS for every value and residue vector.    *)
(***************************************************************************)
EXTENDS RNS, Naturals
CONSTANTS W,       \* bits of a word
          Bases,   \* set of bases (sequences of small odd primes)
          MaxK,
          HalfOff, \* 0: sign decided at sum >= Q - sum; 1: a wrong threshold that must be rejected
          ReduceTop \* the top word is reduced too; FALSE (the code as first found) must be rejected
P2(n) == 2 ^ n
SomeBases == {<<5>>, <<3, 5>>, <<5, 7>>, <<7, 3, 5>>}
VARIABLES b, k, mode, x, r
vars == <<b, k, mode, x, r>>
RECURSIVE P(_, _)
P(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * P(q, i + 1)
Prod(q) == P(q, 1)
Residues(q) == [i \in 1..Len(q) |-> 0..q[i]]
Init == \/ /\ mode = "icrt" /\ b \in Bases /\ k \in 1..MaxK /\ x \in 0..(P2(k) - 1) /\ r = <<>>
        \/ /\ mode = "crt" /\ b \in Bases /\ k \in {1, 3, MaxK} /\ x = 0
           /\ r \in {f \in [1..Len(b) -> 0..31] : \A i \in 1..Len(b) : f[i] <= b[i]}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

NW == (k + W - 1) \div W
Word(v, j) == (v \div P2(W * j)) % P2(W)
RECURSIVE Horner(_, _, _, _)
Horner(v, j, acc, q) == IF j < 0 THEN acc ELSE Horner(v, j - 1, (acc * P2(W) + Word(v, j)) % q, q)
Reduce(v, q) == Horner(v, NW - 2, IF ReduceTop THEN Word(v, NW - 1) % q ELSE Word(v, NW - 1), q)
IsNeg(v) == 2 * v >= P2(k)
Icrt(v) == [i \in 1..Len(b) |-> IF IsNeg(v) THEN b[i] - (Reduce(P2(k) - v, b[i])) ELSE Reduce(v, b[i])]

BB == [i \in 1..Len(b) |-> BI(b[i])]
BV(f) == [i \in 1..Len(f) |-> BI(f[i])]
Decomposes == mode = "icrt" => /\ RWords(BB, BV(Icrt(x)))
                                  /\ Represents(BB, BV(Icrt(x)), ZSigned(k, BI(x)))

RECURSIVE InvMod(_, _, _)
InvMod(a, q, c) == IF (a * c) % q = 1 THEN c ELSE InvMod(a, q, c + 1)
Cof(i) == Prod(b) \div b[i]
RECURSIVE SumFrom(_)
SumFrom(i) == IF i > Len(b) THEN 0 ELSE ((r[i] * InvMod(Cof(i) % b[i], b[i], 1)) % b[i]) * Cof(i) + SumFrom(i + 1)
RECURSIVE Drop(_)
Drop(s) == IF s >= Prod(b) THEN Drop(s - Prod(b)) ELSE s
Crt == LET s == Drop(SumFrom(1))
           n == Prod(b) - s
       IN IF s + HalfOff >= n THEN (P2(k) - (n % P2(k))) % P2(k) ELSE s % P2(k)
Recombines == mode = "crt" => BI(Crt) = RCombine(BProd(BB), RIdem(BB), BV(r)) %% BPow2(k)
Idempotents == RIdemOK(BB, RIdem(BB))
=============================================================================
