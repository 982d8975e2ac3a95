------------------------------ MODULE MC_Shift ------------------------------
(***************************************************************************)
(* The word-level shifts, resize and sign test agree with ZQ for every     *)
(* pair of sizes up to MaxK and every residue (words of W bits).           *)
(***************************************************************************)
EXTENDS Limbs, ZQ
CONSTANT MaxK
VARIABLES f, t, x
vars == <<f, t, x>>
Init == f \in 1..MaxK /\ t \in 1..MaxK /\ x \in 0..(P2(f) - 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Wd == LWords(f, BI(x))
Down == f >= t => LValue(LShiftRight(f, t, Wd)) = ZScaleDown(f, t, BI(x))
Up   == f <= t => LValue(LShiftLeft(f, t, Wd)) = ZScaleUp(f, t, BI(x))
Resz == LValue(LResize(f, t, Wd)) = ZResize(f, t, BI(x))
Sign == LIsNeg(f, Wd) = ZIsNeg(f, BI(x))
\* what the ZQ operators mean, on plain integers
Half == P2(f - t - 1)
Meaning == /\ f > t => ZScaleDown(f, t, BI(x)) = BI(((x + Half) \div P2(f - t)) % P2(t))
           /\ ZSigned(f, BI(x)) = IF 2 * x >= P2(f) THEN BI(x - P2(f)) ELSE BI(x)
           /\ f <= t => ZSigned(t, ZResize(f, t, BI(x))) = ZSigned(f, BI(x))
           /\ f >= t => ZResize(f, t, BI(x)) = BI(x % P2(t))
=============================================================================
