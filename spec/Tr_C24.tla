------------------------------- MODULE Tr_C24 -------------------------------
(***************************************************************************)
(* The reference layer: messages are complex vectors, floating-point       *)
(* plaintexts vectors of reals, both in fixed point (times 2^F, exactly).  *)
(* Sums and products of the logged operands are exact in double precision, *)
(* so these steps are equalities; only roots, encodings and decodings have *)
(* a tolerance.                                                            *)
(***************************************************************************)
EXTENDS Embed, TraceLib
TraceInit == l = 1
Same == Ev.same
P2F == BPow2(2 * F)
\* messages <<re, im>>
SlotMul(a, b, i) == <<(a[1][i] ** b[1][i]) -- (a[2][i] ** b[2][i]), (a[1][i] ** b[2][i]) ++ (a[2][i] ** b[1][i])>>
SqSum(v) == BDot(v, v)
\* r >= 0 with r^2 = s up to a relative 2^-48
IsRoot(r, s) == r[1] >= 0 /\ BAbs((r ** r) -- s) ** BPow2(48) \preceq s ++ BPow2(F)
Msg == /\ Ev.e = "msg" /\ Same /\ LET n == Len(Ev.a[1]) IN
          CASE Ev.op = "add" -> Ev.c = <<VAdd(Ev.a[1], Ev.b[1]), VAdd(Ev.a[2], Ev.b[2])>>
            [] Ev.op = "sub" -> Ev.c = <<VSub(Ev.a[1], Ev.b[1]), VSub(Ev.a[2], Ev.b[2])>>
            [] Ev.op = "mul" -> \A i \in 1..n : <<Ev.c[1][i] ** One, Ev.c[2][i] ** One>> = SlotMul(Ev.a, Ev.b, i)
            [] Ev.op = "agg" -> Ev.c = <<Ev.a[1] \o Ev.b[1], Ev.a[2] \o Ev.b[2]>>
            [] Ev.op = "copy" -> Ev.c = Ev.a
            [] Ev.op = "init" -> Ev.c = <<[i \in 1..n |-> BI(0)], [i \in 1..n |-> BI(0)]>>
Num == /\ Ev.e = "num" /\ Same
       /\ CASE Ev.op = "sq"   -> Ev.x ** One = SqSum(Ev.a[1]) ++ SqSum(Ev.a[2])
            [] Ev.op = "norm" -> IsRoot(Ev.x, SqSum(Ev.a[1]) ++ SqSum(Ev.a[2]))
            [] Ev.op = "sup"  -> \E S \in {{(Ev.a[1][i] ** Ev.a[1][i]) ++ (Ev.a[2][i] ** Ev.a[2][i]) : i \in 1..Len(Ev.a[1])}} :
                                    \E m \in S : (\A x \in S : x \preceq m) /\ IsRoot(Ev.x, m)
            [] Ev.op = "psq"  -> Ev.x ** One = SqSum(Ev.a)
            [] Ev.op = "pnorm" -> IsRoot(Ev.x, SqSum(Ev.a))
\* matrix-vector product at the message level: diagonals <<off, re, im>>
RECURSIVE DiagSum(_, _, _, _, _)
DiagSum(A, z, n, i, d) ==
  IF d = 0 THEN <<BI(0), BI(0)>>
  ELSE LET r == DiagSum(A, z, n, i, d - 1) j == ((i - 1 + A[d].off) % n) + 1
       IN <<r[1] ++ ((A[d].re[i] ** z[1][j]) -- (A[d].im[i] ** z[2][j])), r[2] ++ ((A[d].re[i] ** z[2][j]) ++ (A[d].im[i] ** z[1][j]))>>
MsgMv == /\ Ev.e = "msgmv" /\ Same /\ LET n == Len(Ev.z[1]) IN
            \A i \in 1..n : <<Ev.c[1][i] ** One, Ev.c[2][i] ** One>> = DiagSum(Ev.A, Ev.z, n, i, Len(Ev.A))
\* floating-point plaintexts
Pt == /\ Ev.e = "pt" /\ Same /\ LET n == Len(Ev.a) IN
         CASE Ev.op = "add" -> Ev.c = VAdd(Ev.a, Ev.b)
           [] Ev.op = "sub" -> Ev.c = VSub(Ev.a, Ev.b)
           [] Ev.op = "conv" -> VScale(Ev.c, One) = VNegacyclic(Ev.a, Ev.b)
           [] Ev.op = "rot1" -> Ev.c = VAuto(Ev.a, 5)
           [] Ev.op = "rot" -> Ev.c = VAuto(Ev.a, Rot5(n, Ev.r))
\* within num/2 units of D times the exact coefficients, and rounded to integers or not
PtEnc == /\ Ev.e = "ptenc" /\ Same
         /\ \E m \in {InvEmb(Ev.g, Ev.z[1], Ev.z[2])} : LET S == BI(2 ^ (Ev.g - 1)) ** BPow2(F) IN
              Within(VScale(Ev.c, S), VScale(m, Ev.D),
                     (IF Ev.raw THEN BI(0) ELSE S ** BPow2(F)) ++ (Ev.D ** ((VSumAbs(Ev.z[1]) ++ VSumAbs(Ev.z[2])) ** BPow2(F - 45))))
         /\ (~Ev.raw => \A i \in 1..Len(Ev.c) : Ev.c[i] %% One = BI(0))
\* rounding: to the nearest integer, symmetrically about zero
PtRound == /\ Ev.e = "ptround" /\ Ev.d = VScale(Ev.c, BI(-1))
           /\ \A i \in 1..Len(Ev.c) : Ev.c[i] %% One = BI(0) /\ BAbs(Ev.c[i] -- Ev.x[i]) ** BI(2) \preceq One
           /\ Ev.exact => /\ Ev.x[1] = Ev.v ** Ev.D /\ BAbs(Ev.c[1]) = (((BAbs(Ev.x[1]) ** BI(2)) ++ One) // (BI(2) ** One)) ** One
                          /\ \A i \in 2..Len(Ev.c) : Ev.c[i] = BI(0) /\ Ev.x[i] = BI(0)
PtDec == /\ Ev.e = "ptdec" /\ Same
         /\ LET tol == (VSumAbs(Ev.a) ** BPow2(F - 45)) ++ (Ev.D ** One)
            IN Within(EmbRe(Ev.g, Ev.a), VScale(Ev.z[1], Ev.D ** One), tol) /\ Within(EmbIm(Ev.g, Ev.a), VScale(Ev.z[2], Ev.D ** One), tol)
\* message-level encode and decode are those of the vectors
Agree == Ev.e = "agree" /\ Same /\ Ev.x = Ev.y
\* plaintext matrix-vector product: the sum of the encoded diagonals times the rotated plaintext
RECURSIVE PSum(_, _, _, _)
PSum(k, E, pt, d) == IF d = 0 THEN PZero(Len(pt))
                     ELSE VMod(VAdd(PSum(k, E, pt, d - 1), VNegacyclic(E[d].enc, VAuto(pt, Rot5(Len(pt), E[d].off)))), BPow2(k))
PtMv == /\ Ev.e = "ptmv" /\ Same /\ Ev.c = PSum(Ev.k, Ev.E, Ev.pt, Len(Ev.E))
Step == l <= Len(Trace) /\ (Msg \/ Num \/ MsgMv \/ Pt \/ PtEnc \/ PtRound \/ PtDec \/ Agree \/ PtMv) /\ l' = l + 1
TraceSpec == TraceInit /\ [][Step]_l
=============================================================================
