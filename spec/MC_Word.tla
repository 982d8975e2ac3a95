------------------------------ MODULE MC_Word -------------------------------
(***************************************************************************)
(* The word-level modular arithmetic of conv/mod.h and the four-product    *)
(* multiplication, for every pair of W-bit words and every modulus.        *)
(***************************************************************************)
EXTENDS Limbs
VARIABLES a, b, q
vars == <<a, b, q>>
Init == a \in 0..(WB - 1) /\ b \in 0..(WB - 1) /\ q \in 1..(WB - 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

WMod(lo, hi, m) == (hi * WB + lo) % m                 \* two-word dividend
WAddMod(x, y, m) == LET lo == (x + y) % WB IN WMod(lo, IF lo < x THEN 1 ELSE 0, m)
WSubMod(x, y, m) == WAddMod(x, m - (y % m), m)
WMulMod(x, y, m) == LET p == LMul2(x, y) IN WMod(p[1], p[2], m)
RECURSIVE WPowMod(_, _, _)
WPowMod(x, n, m) == IF n = 0 THEN 1 % m
                    ELSE LET r == WPowMod(x, n \div 2, m)
                             s == WMulMod(r, r, m)
                         IN IF n % 2 = 1 THEN WMulMod(x, s, m) ELSE s
RECURSIVE IPow(_, _, _)
IPow(x, n, m) == IF n = 0 THEN 1 % m ELSE (x * IPow(x, n - 1, m)) % m
IsPrime(m) == m > 1 /\ \A d \in 2..(m - 1) : m % d # 0

MulOK == LMul2(a, b)[1] + WB * LMul2(a, b)[2] = a * b
AddOK == WAddMod(a, b, q) = (a + b) % q
SubOK == WSubMod(a, b, q) = (a - b) % q
ProdOK == WMulMod(a, b, q) = (a * b) % q
PowOK == b <= 9 => WPowMod(a, b, q) = IPow(a, b, q)
InvOK == b = 0 /\ IsPrime(q) /\ a % q # 0 => (WPowMod(a, q - 2, q) * a) % q = 1
=============================================================================
