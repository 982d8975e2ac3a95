--------------------------------- MODULE HE ---------------------------------
(***************************************************************************)
(* The homomorphic layer.  A ciphertext modulo 2^k is a pair of            *)
(* polynomials; what it means under a key s is its phase ct0 + s*ct1.      *)
(* Every operation is specified by what it does to phases, with the error  *)
(* it may add.                                                             *)
(***************************************************************************)
EXTENDS Poly, FiniteSets

Ints(s) == [i \in 1..Len(s) |-> BI(s[i])]
Ternary(s) == \A i \in 1..Len(s) : s[i] \in {-1, 0, 1}
Weight(s)  == Cardinality({i \in 1..Len(s) : s[i] # 0})

CtCanon(k, n, c) == Len(c) = 2 /\ Len(c[1]) = n /\ Len(c[2]) = n /\ PCanon(k, c[1]) /\ PCanon(k, c[2])
Phase(k, c, s)   == VMod(VAdd(c[1], VNegacyclic(Ints(s), c[2])), BPow2(k))

FreshNoise == 8
\* |a - b| <= num/2 modulo 2^k, in every coefficient
Near(k, a, b, num) == (VMaxAbs(VCenter(VSub(a, b), BPow2(k))) ** BI(2)) \preceq BI(num)
RoundErr(s)  == Weight(s) + 1                                 \* twice the rounding error of both components
SwitchErr(n, s) == 2 * FreshNoise * n + Weight(s) + 1         \* twice the error of key switching to s

\* relations between phases
EncRel(k, pt, ph)        == Near(k, ph, pt, 2 * FreshNoise)
\* dividing by 2^d: 2^d times the result is the argument up to 2^d times the rounding error
RescaleRel(kf, kt, s, ph, ph2) ==
  LET d == BPow2(kf - kt)
  IN (VMaxAbs(VCenter(VSub(VScale(ph2, d), ph), BPow2(kf))) ** BI(2)) \preceq (d ** BI(RoundErr(s)))
SwitchRel(k, n, s, ph, ph2)  == Near(k, ph2, ph, SwitchErr(n, s))
\* a switching key: encryption of 2^k * sfr modulo 2^(2k) under sto
SwkRel(k, sfr, sto, swk)     == Near(2 * k, Phase(2 * k, swk, sto), VScale(Ints(sfr), BPow2(k)), 2 * FreshNoise)
MulRel(k, n, s, pa, pb, pc)  == Near(k, pc, PMul(k, pa, pb), SwitchErr(n, s))
AutoRel(k, n, s, g, pa, pb)  == Near(k, pb, VMod(VAuto(pa, g), BPow2(k)), SwitchErr(n, s))
SquareKey(s) == VNegacyclic(Ints(s), Ints(s))
\* 5^r modulo 2n
Rot5(n, r)   == BToInt(BPowMod(BI(5), BI(r), BI(2 * n)))
\* raising the modulus from 2^a to 2^b
RaiseRel(a, b, s, ph, ph2) ==
  /\ VMod(ph2, BPow2(a)) = ph
  /\ VMaxAbs(VCenter(ph2, BPow2(b))) \preceq (BI(Weight(s) + 1) ** BPow2(a - 1))
=============================================================================
