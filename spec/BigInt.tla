------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers for TLC, whose own integers are 32 bits.   *)
(*                                                                         *)
(* A big integer is the sequence <<s, d1, ..., dk>>: s in {-1,0,1} is its  *)
(* sign and d1..dk its magnitude, little-endian in base 2^15, without      *)
(* leading zero digits (zero is <<0>>).  The representation is canonical,  *)
(* so "=" is equality of the integers.                                     *)
(*                                                                         *)
(* Everything below is ordinary TLA+.  For speed TLC evaluates the         *)
(* operators listed in java/BigInt.java by java.math.BigInteger; the model *)
(* BigIntCheck evaluates the very same definitions (module BigIntDef, a    *)
(* generated copy under another name, which has no Java class) and checks  *)
(* that both agree, so that the Java class is not part of the trusted base *)
(* unchecked.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL BASE == 32768
LOCAL MaxOf(a, b) == IF a >= b THEN a ELSE b

-----------------------------------------------------------------------------
(* magnitudes: little-endian digit sequences, <<>> is zero *)

LOCAL Dg(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MTrim(_)
MTrim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE MTrim(SubSeq(m, 1, Len(m) - 1))

RECURSIVE MOfNat(_)
MOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o MOfNat(n \div BASE)

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF Dg(a, i) # Dg(b, i) THEN (IF Dg(a, i) < Dg(b, i) THEN -1 ELSE 1)
                     ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == MCmpFrom(a, b, MaxOf(Len(a), Len(b)))

RECURSIVE MAddFrom(_, _, _, _)
MAddFrom(a, b, i, c) ==
  IF i > MaxOf(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Dg(a, i) + Dg(b, i) + c
       IN <<t % BASE>> \o MAddFrom(a, b, i + 1, t \div BASE)
MAdd(a, b) == MAddFrom(a, b, 1, 0)

RECURSIVE MSubFrom(_, _, _, _)           \* a >= b
MSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == Dg(a, i) - Dg(b, i) - c
       IN <<t % BASE>> \o MSubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
MSub(a, b) == MTrim(MSubFrom(a, b, 1, 0))

RECURSIVE MMul1From(_, _, _, _)          \* times one digit
MMul1From(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * d + c
       IN <<t % BASE>> \o MMul1From(a, d, i + 1, t \div BASE)
MMul1(a, d) == MTrim(MMul1From(a, d, 1, 0))

RECURSIVE MMul(_, _)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE LET rest == MMul(a, Tail(b))
                       sh   == IF rest = <<>> THEN <<>> ELSE <<0>> \o rest
                   IN MTrim(MAdd(MMul1(a, b[1]), sh))

\* the digit d in lo..hi with d*b <= r < (d+1)*b, by bisection
RECURSIVE MDigit(_, _, _, _)
MDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(MMul1(b, mid), r) <= 0 THEN MDigit(r, b, mid, hi) ELSE MDigit(r, b, lo, mid - 1)

\* <<quotient, remainder>> by long division; b # <<>>
RECURSIVE MDivMod(_, _)
MDivMod(a, b) ==
  IF MCmp(a, b) < 0 THEN << <<>>, a >>
  ELSE LET hi == MDivMod(Tail(a), b)
           r  == MTrim(<<a[1]>> \o hi[2])
           d  == MDigit(r, b, 0, BASE - 1)
       IN << MTrim(<<d>> \o hi[1]), MSub(r, MMul1(b, d)) >>

-----------------------------------------------------------------------------
(* integers *)

Mk(s, m) == LET t == MTrim(m) IN IF t = <<>> THEN <<0>> ELSE <<s>> \o t
BSgn(a)  == a[1]
BMag(a)  == Tail(a)

\* of a TLC integer, and back
BI(n)    == IF n >= 0 THEN Mk(1, MOfNat(n)) ELSE Mk(-1, MOfNat(-n))
RECURSIVE NatOfM(_)
NatOfM(m) == IF m = <<>> THEN 0 ELSE m[1] + BASE * NatOfM(Tail(m))
BToInt(a) == BSgn(a) * NatOfM(BMag(a))

BNeg(a)  == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Tail(a)
BAbs(a)  == IF a[1] < 0 THEN BNeg(a) ELSE a
BCmp(a, b) == IF BSgn(a) # BSgn(b) THEN (IF BSgn(a) < BSgn(b) THEN -1 ELSE 1)
              ELSE BSgn(a) * MCmp(BMag(a), BMag(b))
BAdd(a, b) == IF BSgn(a) = 0 THEN b ELSE IF BSgn(b) = 0 THEN a
              ELSE IF BSgn(a) = BSgn(b) THEN Mk(BSgn(a), MAdd(BMag(a), BMag(b)))
              ELSE IF MCmp(BMag(a), BMag(b)) >= 0 THEN Mk(BSgn(a), MSub(BMag(a), BMag(b)))
              ELSE Mk(BSgn(b), MSub(BMag(b), BMag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk(BSgn(a) * BSgn(b), MMul(BMag(a), BMag(b)))
\* floored division and remainder, for b > 0
BDiv(a, b) == LET qr == MDivMod(BMag(a), BMag(b))
              IN IF BSgn(a) >= 0 THEN Mk(1, qr[1])
                 ELSE IF qr[2] = <<>> THEN Mk(-1, qr[1])
                 ELSE Mk(-1, MAdd(qr[1], <<1>>))
BMod(a, b) == LET qr == MDivMod(BMag(a), BMag(b))
              IN IF BSgn(a) >= 0 \/ qr[2] = <<>> THEN Mk(1, qr[2])
                 ELSE Mk(1, MSub(BMag(b), qr[2]))
RECURSIVE Pow2Small(_)
Pow2Small(k) == IF k = 0 THEN 1 ELSE 2 * Pow2Small(k - 1)
BPow2(k) == Mk(1, [i \in 1..(k \div 15) |-> 0] \o <<Pow2Small(k % 15)>>)
\* a^e mod m, for e >= 0, m > 0
RECURSIVE BPowMod(_, _, _)
BPowMod(a, e, m) == IF BSgn(e) = 0 THEN BMod(BI(1), m)
                    ELSE LET h  == BPowMod(a, BDiv(e, BI(2)), m)
                             h2 == BMod(BMul(h, h), m)
                         IN IF BSgn(BMod(e, BI(2))) = 0 THEN h2 ELSE BMod(BMul(h2, a), m)

-----------------------------------------------------------------------------
(* vectors of integers: sequences of them *)

RECURSIVE BSumProdFrom(_, _, _)          \* sum of a[i]*b[i]
BSumProdFrom(a, b, i) == IF i > Len(a) THEN <<0>>
                         ELSE BAdd(BMul(a[i], b[i]), BSumProdFrom(a, b, i + 1))
BDot(a, b) == BSumProdFrom(a, b, 1)
BSum(a)    == BDot(a, [i \in 1..Len(a) |-> BI(1)])

VAdd(a, b)   == [i \in 1..Len(a) |-> BAdd(a[i], b[i])]
VSub(a, b)   == [i \in 1..Len(a) |-> BSub(a[i], b[i])]
VNeg(a)      == [i \in 1..Len(a) |-> BNeg(a[i])]
VScale(a, k) == [i \in 1..Len(a) |-> BMul(a[i], k)]
VMod(a, m)   == [i \in 1..Len(a) |-> BMod(a[i], m)]
VDiv(a, m)   == [i \in 1..Len(a) |-> BDiv(a[i], m)]
\* the representative of a[i] mod m in [-m/2, m/2)
BCenter(a, m) == LET r == BMod(a, m) IN IF BCmp(BMul(r, BI(2)), m) >= 0 THEN BSub(r, m) ELSE r
VCenter(a, m) == [i \in 1..Len(a) |-> BCenter(a[i], m)]
RECURSIVE VMaxFrom(_, _)
VMaxFrom(a, i) == IF i > Len(a) THEN <<0>>
                  ELSE LET r == VMaxFrom(a, i + 1)
                       IN IF BCmp(BAbs(a[i]), r) > 0 THEN BAbs(a[i]) ELSE r
VMaxAbs(a)   == VMaxFrom(a, 1)
VSumAbs(a)   == BSum([i \in 1..Len(a) |-> BAbs(a[i])])

\* product in Z[x]/(x^n+1), n = Len(a) = Len(b)
VNegacyclic(a, b) ==
  LET n == Len(a)
      coef(i) == BSum([k \in 1..n |->
                    IF k <= i THEN BMul(a[k], b[i - k + 1])
                    ELSE BNeg(BMul(a[k], b[n + i - k + 1]))])
  IN [i \in 1..n |-> coef(i)]

\* value of the polynomial with coefficients a at x, modulo m
RECURSIVE VEvalFrom(_, _, _, _)
VEvalFrom(a, x, m, i) == IF i > Len(a) THEN <<0>> ELSE BMod(BAdd(a[i], BMul(x, VEvalFrom(a, x, m, i + 1))), m)
VEval(a, x, m) == VEvalFrom(a, x, m, 1)

\* x -> x^g in Z[x]/(x^n+1), n = Len(a), g odd (any sign): the coefficient of x^i moves to x^(g*i)
VAuto(a, g) ==
  LET n == Len(a)
      \* i with g*i = j or j+n modulo 2n
      src(j) == CHOOSE i \in 0..(n - 1) : ((g % (2 * n)) * i) % n = j
  IN [j1 \in 1..n |-> LET i == src(j1 - 1)
                      IN IF (((g % (2 * n)) * i) % (2 * n)) < n THEN a[i + 1] ELSE BNeg(a[i + 1])]

\* bitwise or / and of naturals
RECURSIVE DOr(_, _, _)
DOr(x, y, w) == IF w = 0 THEN 0 ELSE (IF x % 2 = 1 \/ y % 2 = 1 THEN 1 ELSE 0) + 2 * DOr(x \div 2, y \div 2, w - 1)
RECURSIVE DAnd(_, _, _)
DAnd(x, y, w) == IF w = 0 THEN 0 ELSE (IF x % 2 = 1 /\ y % 2 = 1 THEN 1 ELSE 0) + 2 * DAnd(x \div 2, y \div 2, w - 1)
BOr(a, b)  == Mk(1, [i \in 1..MaxOf(Len(BMag(a)), Len(BMag(b))) |-> DOr(Dg(BMag(a), i), Dg(BMag(b), i), 15)])
BAnd(a, b) == Mk(1, [i \in 1..MaxOf(Len(BMag(a)), Len(BMag(b))) |-> DAnd(Dg(BMag(a), i), Dg(BMag(b), i), 15)])
VOr(a, b)  == [i \in 1..Len(a) |-> BOr(a[i], b[i])]
VAnd(a, b) == [i \in 1..Len(a) |-> BAnd(a[i], b[i])]

\* floor of the square root of a natural, bit by bit
RECURSIVE SqrtFrom(_, _, _)
SqrtFrom(a, r, b) == IF b < 0 THEN r
                     ELSE LET t == BAdd(r, BPow2(b)) IN SqrtFrom(a, IF BCmp(BMul(t, t), a) <= 0 THEN t ELSE r, b - 1)
BSqrt(a) == SqrtFrom(a, <<0>>, (15 * Len(a)) \div 2 + 1)

\* sum of a[i] * t[1 + (x[i]*g mod Len(t))]
BDotAt(a, t, x, g) == BDot(a, [i \in 1..Len(a) |-> t[((x[i] * g) % Len(t)) + 1]])

-----------------------------------------------------------------------------
(* notation *)
a ++ b == BAdd(a, b)
a -- b == BSub(a, b)
a ** b == BMul(a, b)
a // b == BDiv(a, b)
a %% b == BMod(a, b)
a \prec b   == BCmp(a, b) < 0
a \preceq b == BCmp(a, b) <= 0
=============================================================================
