----------------------------- MODULE MC_Decimal -----------------------------
(***************************************************************************)
(* The base conversions of to_str and fr_str on words of W bits split in   *)
(* half words, for every residue of K bits and every numeral of up to      *)
(* three digits.                                                           *)
(***************************************************************************)
EXTENDS Limbs, Decimal
CONSTANT K
VARIABLE x, d
vars == <<x, d>>
Init == x \in 0..(P2(K) - 1) /\ d \in UNION { [1..n -> 0..9] : n \in 1..3 }
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* to_str: divide the half-word sequence by ten until nothing is left
Halves(ws) == [i \in 1..(2 * Len(ws)) |-> IF i % 2 = 1 THEN ws[(i + 1) \div 2] % HB ELSE ws[i \div 2] \div HB]
RECURSIVE DivTen(_, _, _)     \* from the top: <<quotient digits (least significant first), remainder>>
DivTen(h, i, rem) == IF i = 0 THEN <<h, rem>>
                     ELSE LET v == rem * HB + h[i] IN DivTen([h EXCEPT ![i] = v \div 10], i - 1, v % 10)
RECURSIVE Digits(_)
Digits(h) == LET qr == DivTen(h, Len(h), 0)
             IN IF \A i \in 1..Len(h) : qr[1][i] = 0 THEN <<qr[2]>> ELSE Digits(qr[1]) \o <<qr[2]>>
\* fr_str: divide the digit sequence by the half-word base until nothing is left
RECURSIVE DivHB(_, _, _)
DivHB(a, i, rem) == IF i > Len(a) THEN <<a, rem>>
                    ELSE LET v == rem * 10 + a[i] IN DivHB([a EXCEPT ![i] = v \div HB], i + 1, v % HB)
RECURSIVE HalvesOf(_)
HalvesOf(a) == LET qr == DivHB(a, 1, 0)
               IN IF \A i \in 1..Len(a) : qr[1][i] = 0 THEN <<qr[2]>> ELSE <<qr[2]>> \o HalvesOf(qr[1])
ToStrOK == IsTextOf(Digits(Halves(LWords(K, BI(x)))), BI(x))
HVal(h) == BSum([i \in 1..Len(h) |-> BI(h[i]) ** BPow2((i - 1) * (W \div 2))])
FrStrOK == HVal(HalvesOf(d)) = Denotes(d)
=============================================================================
