------------------------------ MODULE Circuit ------------------------------
(***************************************************************************)
(* Errors of the circuits of bootstrapping.  e is a record with fields     *)
(* g (N = 2^g), s (the key), ld (bits of the scale) and, for the           *)
(* transforms, G (factors per group).                                      *)
(***************************************************************************)
EXTENDS Embed
Half2(g) == 2 ^ (g - 1)
ToSlots(g, ph) == <<EmbRe(g, ph), EmbIm(g, ph)>>
SizeOf(z) == ((VMaxAbs(z[1]) ++ VMaxAbs(z[2])) // One) ++ BI(1)

(* CoeffToSlot and SlotToCoeff: g-1 factors of three diagonals, applied in groups of G *)
Stages(e) == (e.g - 1) \div e.G
Diags(e) == IF 3 ^ e.G < Half2(e.g) THEN 3 ^ e.G ELSE Half2(e.g)
KsSlot(e) == BI(2 ^ e.g) ** BI((SwitchErr(2 ^ e.g, e.s) + 1) \div 2)      \* key switching, seen in a slot
\* error of t stages on slots of size z with error err: every stage multiplies by matrices of row sum at most 2^up, encoded at scale 2^ld
RECURSIVE Chain(_, _, _, _, _)
Chain(e, up, t, z, err) ==
  IF t = 0 THEN err
  ELSE LET nn == BI(Diags(e) * (2 ^ e.g))
       IN Chain(e, up, t - 1, z ** BPow2(up + e.ld),
                ((BPow2(up + e.ld) ++ nn) ** (err ++ KsSlot(e))) ++ (nn ** z) ++ ((z ** BPow2(up + e.ld)) // BPow2(45)) ++ BI(1))
Scale(e) == BPow2(e.ld * Stages(e))
CtsErr(e, z) == (BI(2) ** Chain(e, 0, Stages(e), z, BI(0))) ++ KsSlot(e)                 \* in a slot of an output
StcErr(e, z, err) == BI(2) ** (Chain(e, e.G, Stages(e), z, BI(0)) ++ (Scale(e) ** err))  \* in a coefficient or slot, per input
\* slots of CoeffToSlot(m), without the scale
CtsSlots(g, m, h) == [j \in 1..Half2(g) |-> m[h * Half2(g) + BitRevN(j - 1, g - 1) + 1]] \o <<>>
\* the coefficients that the slots of both inputs of SlotToCoeff name
Gather(g, x, y) == [c \in 1..(2 ^ g) |-> IF c <= Half2(g) THEN x[BitRevN(c - 1, g - 1) + 1] ELSE y[BitRevN(c - 1 - Half2(g), g - 1) + 1]] \o <<>>

(* EvalMod; numbers are fixed-point fractions of the scale 2^ld *)
\* error of one product or rescaling, in a slot
Unit(e) == ((BI(2 ^ e.g * (RoundErr(e.s) + 1)) ** BPow2(F - e.ld)) // BI(2)) ++ ((BI(2 ^ (e.g + 1) * SwitchErr(2 ^ e.g, e.s)) ** BPow2(F)) // BPow2(2 * e.ld))
\* T_1 is off by 32 2^-ld (the truncated 1/24 and 1/96) and one unit; T_2j by four times the error of T_j and a unit
RECURSIVE ErrT(_, _, _)
ErrT(i, e0, u) == IF i = 0 THEN e0 ELSE (BI(4) ** ErrT(i - 1, e0, u)) ++ u
\* the absolute values of the coefficients sum to less than 4
ErrPoly(e0, u) == BI(4) ** (ErrT(0, e0, u) ++ ErrT(1, e0, u) ++ ErrT(2, e0, u) ++ ErrT(3, e0, u) ++ ErrT(4, e0, u) ++ (BI(16) ** u))
\* four doublings, then (x + x^3/6) / 2 pi, and 2^-38 for the approximation itself; twice, for the products of errors
ErrMod(e) == (((BI(2) ** ErrT(4, ErrPoly((BI(32) ** BPow2(F - e.ld)) ++ Unit(e), Unit(e)), Unit(e))) // BI(6)) ++ (BI(4) ** Unit(e))) ++ BPow2(F - 38)
\* nearest integer of a fixed-point number, times 2^F
Nearest(x) == ((x ++ BPow2(F - 1)) // One) ** One
\* 0.1 (2 pi d)^5 / (2 pi) < 156 d^5
Arcsine(d) == BI(156) ** FMul(FMul(FMul(d, d), FMul(d, d)), d)
\* x, times 2^F, is at most 1/64 from an integer between -23 and 23
InReach(x) == \E n \in {Nearest(x)} : (BAbs(x -- n) ** BI(64)) \preceq (One ++ BPow2(F - 20)) /\ (BAbs(n) ++ One) \preceq (BI(24) ** One)
=============================================================================
