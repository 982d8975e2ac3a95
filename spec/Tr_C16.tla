------------------------------- MODULE Tr_C16 -------------------------------
(* Recorded programs over sparse diagonal matrices; the state is the dense matrix of every register. *)
EXTENDS Mat, TraceLib
VARIABLES n, m
TraceInit == l = 1 /\ n = 0 /\ m = <<>>
E0 == 8                                      \* entries are logged times 2^8; products times 2^16, and so on
Reads(A, g, D) == Shape(n', A) /\ Dense(n', A) = D /\ g = D
\* the destination holds D, and reading it element by element gives D
Becomes(r, D) == /\ \E V \in {D} : Reads(Ev.A, Ev.g, V) /\ m' = [m EXCEPT ![r] = V]
                 /\ Ev.oth = <<>> /\ n' = n
Begin == IsEvent("begin") /\ n' = Ev.n /\ m' = [r \in 0..3 |-> Dense(n', Ev.regs[r + 1])] /\ \A r \in 0..3 : Shape(n', Ev.regs[r + 1])
SetEl == IsEvent("setel") /\ n' = n /\ Becomes(Ev.r, [m[Ev.r] EXCEPT ![Ev.i + 1][Ev.j + 1] = Ev.v])
Zero  == IsEvent("zero") /\ n' = n /\ Becomes(Ev.r, MZero(n))
Cpy   == IsEvent("copy") /\ n' = n /\ Becomes(Ev.r, m[Ev.s])
Add   == IsEvent("add") /\ n' = n /\ Becomes(Ev.r, MAdd2(m[Ev.r], m[Ev.s]))
Sub   == IsEvent("sub") /\ n' = n /\ Becomes(Ev.r, MSub2(m[Ev.r], m[Ev.s]))
Scale == IsEvent("scale") /\ n' = n /\ Becomes(Ev.r, MScale(m[Ev.r], BI(Ev.a)))
Neg   == IsEvent("neg") /\ n' = n /\ Becomes(Ev.r, MNeg(m[Ev.r]))
Trans == IsEvent("tr") /\ n' = n /\ Becomes(Ev.r, MT(m[Ev.r]))
\* products of registers, without and with the removal of unused diagonals, and a product of three
Prod  == /\ IsEvent("mul") /\ n' = n /\ m' = m /\ Ev.oth = <<>>
         /\ \E D \in {MProd(m[Ev.a], m[Ev.b])} :
               /\ Reads(Ev.C, Ev.g, D) /\ (Ev.R # <<>> => Reads(Ev.R, Ev.rg, D))
               /\ (Ev.T # <<>> => Reads(Ev.T, Ev.tg, MProd(D, m[Ev.c])))
CProd == /\ IsEvent("cmul") /\ n' = n /\ m' = m /\ Ev.oth = <<>>
         /\ Reads(Ev.Cr, Ev.gr, MSub2(MProd(m[0], m[2]), MProd(m[1], m[3])))
         /\ Reads(Ev.Ci, Ev.gi, MAdd2(MProd(m[0], m[3]), MProd(m[1], m[2])))
         /\ \A s \in 1..Len(Ev.Cr) : Ev.Cr[s].off = Ev.Ci[s].off
Mv    == /\ IsEvent("mv") /\ n' = n /\ m' = m /\ Ev.oth = <<>>
         /\ Ev.wr = VSub(MVec(m[0], Ev.zr), MVec(m[1], Ev.zi)) /\ Ev.wi = VAdd(MVec(m[0], Ev.zi), MVec(m[1], Ev.zr))
\* the product of dense matrices, all four given
DProd == /\ IsEvent("dense") /\ UNCHANGED <<n, m>>
         /\ Ev.Cr = MSub2(MProd(Ev.Ar, Ev.Br), MProd(Ev.Ai, Ev.Bi)) /\ Ev.Ci = MAdd2(MProd(Ev.Ar, Ev.Bi), MProd(Ev.Ai, Ev.Br))
-----------------------------------------------------------------------------
(* long matrices, diagonal by diagonal *)
RECURSIVE DiagAt(_, _, _, _), ProdAt(_, _, _, _, _)
DiagAt(N, A, o, s) == IF s = 0 THEN [i \in 1..N |-> BI(0)] \o <<>>
                      ELSE IF A[s].off = o THEN VAdd(DiagAt(N, A, o, s - 1), A[s].v) ELSE DiagAt(N, A, o, s - 1)
DiagOf(N, A, o) == DiagAt(N, A, o, Len(A))
\* sum over the pairs of diagonals whose offsets add up to o
Pair(N, a, b) == [i \in 1..N |-> a.v[i] ** b.v[((i - 1 + a.off) % N) + 1]] \o <<>>
ProdAt(N, A, B, o, p) ==
  IF p = 0 THEN [i \in 1..N |-> BI(0)] \o <<>>
  ELSE LET a == A[((p - 1) \div Len(B)) + 1] b == B[((p - 1) % Len(B)) + 1] r == ProdAt(N, A, B, o, p - 1)
       IN IF ((a.off + b.off) % N) = o THEN VAdd(r, Pair(N, a, b)) ELSE r
ProdOf(N, A, B, o) == ProdAt(N, A, B, o, Len(A) * Len(B))
Offs(A) == {A[s].off : s \in 1..Len(A)}
SumOffs(N, A, B) == {(x + y) % N : x \in Offs(A), y \in Offs(B)}
ReadsOk(N, A, g) == \A t \in 1..Len(g) : \E d \in {(g[t].j - g[t].i + N) % N} : g[t].v = BSum([s \in 1..Len(A) |-> IF A[s].off = d THEN A[s].v[g[t].i + 1] ELSE BI(0)])
Tr(N, A, o) == \E d \in {DiagOf(N, Ev.Ar, (N - o) % N)} : DiagOf(N, A, o) = [i \in 1..N |-> d[((i - 1 + o) % N) + 1]] \o <<>>
Big == /\ IsEvent("big") /\ UNCHANGED <<n, m>> /\ Ev.same
       /\ LET N == Ev.n IN
          CASE Ev.op = "mul" -> /\ Shape(N, Ev.Cr) /\ ReadsOk(N, Ev.Cr, Ev.g)
                                /\ \A o \in Offs(Ev.Cr) \cup SumOffs(N, Ev.Ar, Ev.Br) : DiagOf(N, Ev.Cr, o) = ProdOf(N, Ev.Ar, Ev.Br, o)
            [] Ev.op = "cmul" -> /\ Shape(N, Ev.Cr) /\ Shape(N, Ev.Ci) /\ ReadsOk(N, Ev.Cr, Ev.g) /\ ReadsOk(N, Ev.Ci, Ev.gi)
                                 /\ \A s \in 1..Len(Ev.Cr) : Ev.Cr[s].off = Ev.Ci[s].off
                                 /\ \A o \in Offs(Ev.Cr) \cup SumOffs(N, Ev.Ar, Ev.Br) :
                                      /\ DiagOf(N, Ev.Cr, o) = VSub(ProdOf(N, Ev.Ar, Ev.Br, o), ProdOf(N, Ev.Ai, Ev.Bi, o))
                                      /\ DiagOf(N, Ev.Ci, o) = VAdd(ProdOf(N, Ev.Ar, Ev.Bi, o), ProdOf(N, Ev.Ai, Ev.Br, o))
            [] Ev.op = "mv" -> LET row(A, z) == [i \in 1..N |-> BSum([s \in 1..Len(A) |-> A[s].v[i] ** z[((i - 1 + A[s].off) % N) + 1]])] \o <<>>
                               IN Ev.wr = VSub(row(Ev.Ar, Ev.zr), row(Ev.Ai, Ev.zi)) /\ Ev.wi = VAdd(row(Ev.Ar, Ev.zi), row(Ev.Ai, Ev.zr))
            [] OTHER -> /\ Shape(N, Ev.Cr) /\ ReadsOk(N, Ev.Cr, Ev.g)
                        /\ CASE Ev.op = "tr" -> \A o \in Offs(Ev.Cr) \cup {(N - x) % N : x \in Offs(Ev.Ar)} : Tr(N, Ev.Cr, o)
                             [] OTHER -> \A o \in Offs(Ev.Cr) \cup Offs(Ev.Ar) :
                                  DiagOf(N, Ev.Cr, o) = CASE Ev.op = "neg" -> VNeg(DiagOf(N, Ev.Ar, o)) [] Ev.op = "scale" -> VScale(DiagOf(N, Ev.Ar, o), BI(Ev.a))
                                                          [] Ev.op = "add" -> VAdd(DiagOf(N, Ev.Ar, o), DiagOf(N, Ev.Ai, o)) [] Ev.op = "sub" -> VSub(DiagOf(N, Ev.Ar, o), DiagOf(N, Ev.Ai, o))
TraceSpec == TraceInit /\ [][Begin \/ SetEl \/ Zero \/ Cpy \/ Add \/ Sub \/ Scale \/ Neg \/ Trans \/ Prod \/ CProd \/ Mv \/ DProd \/ Big]_<<l, n, m>>
=============================================================================
