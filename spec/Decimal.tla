------------------------------ MODULE Decimal -------------------------------
(* Decimal numerals: sequences of digits, most significant first. *)
EXTENDS BigInt
MaxDigits == 520
\* Pow10[i] = 10^(i-1)
RECURSIVE Pow10From(_, _)
Pow10From(n, p) == IF n = 0 THEN <<>> ELSE <<p>> \o Pow10From(n - 1, p ** BI(10))
Pow10 == Pow10From(MaxDigits, BI(1))
IsNumeral(s) == /\ Len(s) >= 1 /\ Len(s) <= MaxDigits
                /\ \A i \in 1..Len(s) : s[i] \in 0..9
\* the integer a numeral denotes
Denotes(s) == BDot([i \in 1..Len(s) |-> BI(s[Len(s) - i + 1])], SubSeq(Pow10, 1, Len(s)))
Shortest(s) == Len(s) = 1 \/ s[1] # 0
IsTextOf(s, v) == IsNumeral(s) /\ Shortest(s) /\ Denotes(s) = v
=============================================================================
