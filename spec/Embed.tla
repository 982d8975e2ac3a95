------------------------------- MODULE Embed -------------------------------
(***************************************************************************)
(* The canonical embedding in fixed point.  A real number x is represented *)
(* by the integer nearest x * 2^F; a complex vector of N/2 slots by two    *)
(* sequences of them.  The slot j of a polynomial is its value at          *)
(* zeta^(5^j), zeta = exp(i*pi/N).  The tables of cosines and sines are    *)
(* computed here by half-angle formulas, with an error below 2^(20-F).     *)
(***************************************************************************)
EXTENDS HE, Integers
CONSTANT MaxLg                          \* tables for N = 2 .. 2^MaxLg
F == 128
One == BPow2(F)
\* product of two fixed-point numbers, rounded
FMul(x, y) == ((x ** y) ++ BPow2(F - 1)) // One
FSqrt(x)   == BSqrt(x ** One)
FHalf(x)   == (x ++ BI(1)) // BI(2)
\* <<cos, sin>> of pi / 2^g
RECURSIVE Half(_)
Half(g) == IF g = 0 THEN <<BNeg(One), BI(0)>>
           ELSE LET p == Half(g - 1) IN <<FSqrt(FHalf(One ++ p[1])), FSqrt(FHalf(One -- p[1]))>>
CMul(u, v) == << FMul(u[1], v[1]) -- FMul(u[2], v[2]), FMul(u[1], v[2]) ++ FMul(u[2], v[1]) >>
\* the powers 0 .. 2^(g+1)-1 of exp(i*pi/2^g)
RECURSIVE Powers(_)
Powers(g) == IF g = 0 THEN << <<One, BI(0)>>, <<BNeg(One), BI(0)>> >>
             ELSE LET T == Powers(g - 1) z == Half(g)
                  IN [t \in 1..(2 * Len(T)) |-> IF t % 2 = 1 THEN T[(t + 1) \div 2] ELSE CMul(T[t \div 2], z)] \o <<>>
Table == ([g \in 1..MaxLg |-> Powers(g)]) \o <<>>
CosT == ([g \in 1..MaxLg |-> [t \in 1..Len(Table[g]) |-> Table[g][t][1]] \o <<>>]) \o <<>>
SinT == ([g \in 1..MaxLg |-> [t \in 1..Len(Table[g]) |-> Table[g][t][2]] \o <<>>]) \o <<>>
\* 5^j mod 2N, j = 0 .. N/2-1
MulMod(a, b, m) == ((((a * (b \div 512)) % m) * 512) + (a * (b % 512))) % m       \* a, b, m <= 2^17: no overflow
RECURSIVE Fives(_, _)                    \* n a power of two
Fives(m, n) == IF n = 1 THEN <<1>> ELSE LET r == Fives(m, n \div 2) p == (5 * r[n \div 2]) % m
                                        IN r \o ([i \in 1..(n \div 2) |-> MulMod(r[i], p, m)] \o <<>>)
FiveT == ([g \in 1..MaxLg |-> Fives(2 ^ (g + 1), 2 ^ (g - 1))]) \o <<>>
Count == ([g \in 1..MaxLg |-> [i \in 1..(2 ^ g) |-> i - 1] \o <<>>]) \o <<>>

\* N = 2^g; m: N integers; the result is <<re, im>>, scaled by 2^F if m is a sequence of integers
EmbRe(g, m) == [j \in 1..(2 ^ (g - 1)) |-> BDotAt(m, CosT[g], Count[g], FiveT[g][j])] \o <<>>
EmbIm(g, m) == [j \in 1..(2 ^ (g - 1)) |-> BDotAt(m, SinT[g], Count[g], FiveT[g][j])] \o <<>>
\* coefficients of the polynomial with slots zr + i zi, times N/2 * 2^F
InvEmb(g, zr, zi) == [k \in 1..(2 ^ g) |-> BDotAt(zr, CosT[g], FiveT[g], k - 1) ++ BDotAt(zi, SinT[g], FiveT[g], k - 1)] \o <<>>

\* the same at some slots, or some coefficients, only (at: a sequence of indices from 0)
EmbReAt(g, m, at) == [j \in 1..Len(at) |-> BDotAt(m, CosT[g], Count[g], FiveT[g][at[j] + 1])] \o <<>>
EmbImAt(g, m, at) == [j \in 1..Len(at) |-> BDotAt(m, SinT[g], Count[g], FiveT[g][at[j] + 1])] \o <<>>
InvEmbAt(g, zr, zi, at) == [k \in 1..Len(at) |-> BDotAt(zr, CosT[g], FiveT[g], at[k]) ++ BDotAt(zi, SinT[g], FiveT[g], at[k])] \o <<>>

RECURSIVE BitRevN(_, _)
BitRevN(x, b) == IF b = 0 THEN 0 ELSE (x % 2) * (2 ^ (b - 1)) + BitRevN(x \div 2, b - 1)
BMax(x, y) == IF x \preceq y THEN y ELSE x
VMax2(u, v) == BMax(VMaxAbs(u), VMaxAbs(v))
Within(u, v, tol) == VMaxAbs(VSub(u, v)) \preceq tol
=============================================================================
