---------------------------- MODULE BigIntCheck -----------------------------
(***************************************************************************)
(* The Java override of BigInt against the definitions of BigInt (module   *)
(* BigIntDef is the same text under a name that has no override), on       *)
(* boundary and random integers.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
B == INSTANCE BigInt
D == INSTANCE BigIntDef
CONSTANT Rounds
VARIABLES i, x, y
Dig(c) == CASE c = 0 -> 0 [] c = 1 -> 32767 [] c = 2 -> 16384 [] c = 3 -> 1 [] OTHER -> RandomElement(0..32767)
Num(n, s) == D!Mk(s, [k \in 1..n |-> Dig(RandomElement(0..6))])
Some == Num(RandomElement(0..9), IF RandomElement(0..1) = 0 THEN -1 ELSE 1)
Vec(n) == [k \in 1..n |-> Some]
Init == i = 0 /\ x = <<>> /\ y = <<>>
Next == i < Rounds /\ i' = i + 1 /\ x' = Vec(RandomElement({1, 2, 4})) /\ y' = Vec(RandomElement({1, 2, 4}))
Spec == Init /\ [][Next]_<<i, x, y>>
a == x[1]
b == y[1]
m == D!BAdd(D!BAbs(b), <<1, 1>>)
e == D!BMod(a, <<1, 77>>)
Agree == i > 0 =>
  /\ B!BNeg(a) = D!BNeg(a) /\ B!BAbs(a) = D!BAbs(a) /\ B!BCmp(a, b) = D!BCmp(a, b) /\ B!BCmp(a, a) = 0
  /\ B!BAdd(a, b) = D!BAdd(a, b) /\ B!BSub(a, b) = D!BSub(a, b) /\ B!BSub(a, a) = <<0>> /\ B!BMul(a, b) = D!BMul(a, b)
  /\ B!BDiv(a, m) = D!BDiv(a, m) /\ B!BMod(a, m) = D!BMod(a, m)
  /\ D!BAdd(D!BMul(D!BDiv(a, m), m), D!BMod(a, m)) = a
  /\ B!BPowMod(a, e, m) = D!BPowMod(a, e, m)
  /\ B!BPow2(i) = D!BPow2(i) /\ B!BI(i - 40000 * i) = D!BI(i - 40000 * i) /\ B!BToInt(D!BI(-i * 7777)) = D!BToInt(D!BI(-i * 7777))
  /\ B!BCenter(a, m) = D!BCenter(a, m)
  /\ B!VNeg(x) = D!VNeg(x) /\ B!VScale(x, b) = D!VScale(x, b) /\ B!VMod(x, m) = D!VMod(x, m) /\ B!VDiv(x, m) = D!VDiv(x, m)
  /\ B!VCenter(x, m) = D!VCenter(x, m) /\ B!VMaxAbs(x) = D!VMaxAbs(x) /\ B!VSumAbs(x) = D!VSumAbs(x) /\ B!BSum(x) = D!BSum(x)
  /\ B!BOr(D!BAbs(a), D!BAbs(b)) = D!BOr(D!BAbs(a), D!BAbs(b)) /\ B!BAnd(D!BAbs(a), D!BAbs(b)) = D!BAnd(D!BAbs(a), D!BAbs(b))
  /\ \A g \in {1, -1, 3, 5, 25, -7} : B!VAuto(x, g) = D!VAuto(x, g)
  /\ B!BSqrt(D!BAbs(a)) = D!BSqrt(D!BAbs(a)) /\ B!BSqrt(D!BMul(a, a)) = D!BAbs(a)
  /\ \A g \in {0, 1, 5, 7} : B!BDotAt(x, y, [k \in 1..Len(x) |-> 3 * k], g) = D!BDotAt(x, y, [k \in 1..Len(x) |-> 3 * k], g)
  /\ B!VEval(x, b, m) = D!VEval(x, b, m)
  /\ Len(x) = Len(y) => /\ B!BDot(x, y) = D!BDot(x, y) /\ B!VAdd(x, y) = D!VAdd(x, y) /\ B!VSub(x, y) = D!VSub(x, y)
                        /\ B!VNegacyclic(x, y) = D!VNegacyclic(x, y)
\* the packed multiplication of long vectors
Long == i > 0 /\ i % 40 = 0 => LET u == Vec(64) v == Vec(64) IN B!VNegacyclic(u, v) = D!VNegacyclic(u, v)
=============================================================================
