------------------------------ MODULE MC_Cheb ------------------------------
(***************************************************************************)
(* Chebyshev polynomials, from coefficients to a value.  A polynomial of   *)
(* 2^k Chebyshev coefficients is split into blocks, width by width, until  *)
(* every block is one number (convert_frc_tou); then the numbers are       *)
(* combined, level by level, with T_1, T_2, T_4, ... (eval_poly).  What    *)
(* the blocks denote at x never changes, so the value in the end is that   *)
(* of the polynomial.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS LgN,           \* 2^LgN coefficients
          Coefs, Points, \* their values, plus two; where the polynomial is evaluated, plus two
          Mirror         \* which coefficient of the low half loses the coefficient i of the high half: "h-i" (right), "h-1-i"
VARIABLES c,             \* the polynomial
          x,             \* where
          blocks, w,     \* 2^LgN / w blocks of width w; block b is multiplied by the T_(w*2^j) of the bits j of b
          L, t, pc       \* the values of the open level, the current T, and the stage
vars == <<c, x, blocks, w, L, t, pc>>
RECURSIVE Tn(_, _)
Tn(n, a) == IF n = 0 THEN 1 ELSE IF n = 1 THEN a ELSE 2 * a * Tn(n - 1, a) - Tn(n - 2, a)
RECURSIVE Sum(_, _, _)
Sum(p, a, i) == IF i = 0 THEN 0 ELSE p[i] * Tn(i - 1, a) + Sum(p, a, i - 1)
RECURSIVE Prod(_, _, _)                 \* the product of the T_(v*2^j) of the bits of b
Prod(b, v, a) == IF b = 0 THEN 1 ELSE (IF b % 2 = 1 THEN Tn(v, a) ELSE 1) * Prod(b \div 2, 2 * v, a)
RECURSIVE Denoted(_, _, _, _)
Denoted(bs, v, a, i) == IF i = 0 THEN 0 ELSE Sum(bs[i], a, v) * Prod(i - 1, v, a) + Denoted(bs, v, a, i - 1)

Init == /\ c \in [1..(2 ^ LgN) -> {v - 2 : v \in Coefs}] /\ x \in {v - 2 : v \in Points}
        /\ blocks = <<c>> /\ w = 2 ^ LgN /\ L = <<>> /\ t = x /\ pc = "split"
Low(p, h)  == [i \in 1..h |-> LET j == IF Mirror = "h-i" THEN h + 2 - i ELSE h + 1 - i IN IF i > 1 /\ j > 1 THEN p[i] - p[h + j] ELSE p[i]]
High(p, h) == [i \in 1..h |-> IF i = 1 THEN p[h + 1] ELSE 2 * p[h + i]]
Split == /\ pc = "split" /\ w > 1 /\ w' = w \div 2
         /\ blocks' = [b \in 1..(2 * Len(blocks)) |-> IF b % 2 = 1 THEN Low(blocks[(b + 1) \div 2], w \div 2) ELSE High(blocks[b \div 2], w \div 2)]
         /\ UNCHANGED <<c, x, L, t, pc>>
Start == /\ pc = "split" /\ w = 1 /\ pc' = "eval" /\ L' = [b \in 1..Len(blocks) |-> blocks[b][1]] /\ UNCHANGED <<c, x, blocks, w, t>>
Level == /\ pc = "eval" /\ Len(L) > 1
         /\ L' = [n \in 1..(Len(L) \div 2) |-> L[2 * n - 1] + t * L[2 * n]] /\ t' = 2 * t * t - 1
         /\ UNCHANGED <<c, x, blocks, w, pc>>
Next == Split \/ Start \/ Level
Spec == Init /\ [][Next]_vars
Blocks  == pc = "split" => Denoted(blocks, w, x, Len(blocks)) = Sum(c, x, 2 ^ LgN)
Value   == pc = "eval" /\ Len(L) = 1 => L[1] = Sum(c, x, 2 ^ LgN)
Ladder  == pc = "eval" => t = Tn(2 ^ LgN \div Len(L), x)
=============================================================================
