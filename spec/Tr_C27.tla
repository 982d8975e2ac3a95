------------------------------- MODULE Tr_C27 -------------------------------
(***************************************************************************)
(* Inputs and reports of the experiments, and the utilities underneath.    *)
(* Random inputs are a machine: the state holds which parts of the range   *)
(* have been drawn, and the last message.                                  *)
(***************************************************************************)
EXTENDS Embed, Text, TraceLib
VARIABLES hr, hi, last
TraceInit == l = 1 /\ hr = {} /\ hi = {} /\ last = <<>>
\* ------------------------------------------------------------- utilities
Rev == /\ Ev.e = "rev"
       /\ \A i \in 1..32 : /\ Ev.out[i] = IF i <= Ev.d THEN Ev.x[Ev.d + 1 - i] ELSE 0
                           /\ Ev.all[i] = Ev.x[33 - i]
Log == Ev.e = "log" /\ Ev.out <= 31 /\ (IF Ev.out = 31 THEN TRUE ELSE Ev.n <= 2 ^ Ev.out) /\ (IF Ev.out = 0 THEN TRUE ELSE 2 ^ (Ev.out - 1) < Ev.n)
Rand == Ev.e = "rand" /\ Ev.or = BPow2(64) -- BI(1) /\ Ev.and = BI(0) /\ Ev.differ
Min == Ev.e = "min" /\ Ev.out = IF Ev.a < Ev.b THEN Ev.a ELSE Ev.b
Timing == /\ Ev.e = "timer" /\ Ev.lo <= Ev.ms /\ Ev.ms <= Ev.hi
          /\ Ev.text = Ev.name \o " start\n" \o Ev.name \o " : " \o ToString(Ev.ms) \o "[ms]\n"
\* -------------------------------------------------------------- printing
Print_ == \/ Ev.e = "array" /\ Ev.text = ArrayText(Ev.x)
          \/ Ev.e = "uarray" /\ Ev.text = Cat([i \in 1..Len(First10(Ev.x)) |-> ToString(Ev.x[i]) \o " "]) \o "\n"
          \/ Ev.e = "dense" /\ Ev.text = DenseText(Ev.x.r, Ev.x.i)
          \/ Ev.e = "sparse" /\ Ev.text = SparseText(Ev.name, Len(Ev.x[1].v), Ev.x)
          \/ Ev.e = "max" /\ Ev.text = MaxText(Ev.x)
          \/ Ev.e = "message" /\ Ev.text = MessageText(Ev.name, Ev.x.r, Ev.x.i)
          \/ Ev.e = "plain" /\ Ev.text = PlainText(Ev.name, Ev.x)
\* the greatest difference, by construction a power of two or zero
LogText(d) == IF d = BI(0) THEN "-inf" ELSE ToString(CHOOSE e \in -60..60 : d = BPow2(F + e))
MaxErr == /\ Ev.e = "maxerr" /\ Ev.same
          /\ Ev.text = "LOG2 MAX ERROR (REAL, IMAG) = [" \o LogText(VMaxAbs(VSub(Ev.ar, Ev.br))) \o ", " \o LogText(VMaxAbs(VSub(Ev.ai, Ev.bi))) \o "]\n"
\* ---------------------------------------------------------------- inputs
Tiny == BPow2(F - 45)
\* point k*i of 2n points on the circle of radius 1/sqrt(2)
Circle(g, k, T) == [i \in 1..(2 ^ (g - 1)) |-> FMul(T[g][((2 * k * (i - 1)) % (2 ^ (g + 1))) + 1], CosT[2][2])] \o <<>>
TestMsg == /\ Ev.e = "testmsg" /\ Within(Ev.zr, Circle(Ev.g, Ev.k, CosT), Tiny) /\ Within(Ev.zi, Circle(Ev.g, Ev.k, SinT), Tiny)
EvalMsg == /\ Ev.e = "evalmsg"
           /\ \A i \in 1..Len(Ev.zr) : /\ Ev.zi[i] = BI(0)
                 /\ BAbs(((Ev.zr[i] -- (BI((i - 1) % 24) ** One)) ** BI(10000)) -- One) \preceq BPow2(F - 30)
\* coefficients scaled by D are the integers nearest to those of the test message
Rounded == /\ Ev.e = "rounded"
           /\ \E m \in {InvEmb(Ev.g, Ev.zr, Ev.zi)} : \E m0 \in {InvEmb(Ev.g, Circle(Ev.g, 1, CosT), Circle(Ev.g, 1, SinT))} :
              LET S == BI(2 ^ (Ev.g - 1)) ** BPow2(2 * F) IN
              \E tol \in {(Ev.D ++ BI(1)) ** (BI(2 ^ Ev.g) ** BPow2(2 * F - 42))} :
              \A i \in 1..Len(m) : \E c \in {(((m[i] ** Ev.D) ** BI(2)) ++ S) // (S ** BI(2))} :
                 /\ BAbs((m[i] ** Ev.D) -- (c ** S)) \preceq tol
                 /\ BAbs((m0[i] ** Ev.D) -- (c ** S)) ** BI(2) \preceq S ++ (tol ** BI(2))
R == CosT[2][2]
Bin(x) == LET b == ((x ++ R) ** BI(64)) // (R ** BI(2)) IN IF b \preceq BI(0) THEN 0 ELSE IF BI(63) \preceq b THEN 63 ELSE CHOOSE i \in 1..62 : BI(i) = b
InRange(v) == \A i \in 1..Len(v) : BAbs(v[i]) \preceq (R ++ BPow2(F - 50))
Random == /\ Ev.e = "random" /\ InRange(Ev.zr) /\ InRange(Ev.zi)
          /\ Ev.zr # Ev.zi /\ Ev.zr # last
          /\ \A i \in 1..(Len(Ev.zr) - 1) : Ev.zr[i] # Ev.zr[i + 1] /\ Ev.zi[i] # Ev.zi[i + 1]
Spread == Ev.e = "spread" /\ hr = 0..63 /\ hi = 0..63
\* ------------------------------------------- adjoints of the factor matrices
Entry(A, n, i, j) == << BSum([d \in 1..3 |-> IF (i + A[d].offr) % n = j % n THEN A[d].re[i + 1] ELSE BI(0)] \o <<>>),
                        BSum([d \in 1..3 |-> IF (i + A[d].offi) % n = j % n THEN A[d].im[i + 1] ELSE BI(0)] \o <<>>) >>
Adjoint == /\ Ev.e = "adjoint"
           /\ LET n == 2 ^ (Ev.g - 1) cols(A, i) == {(i + A[d].offr) % n : d \in 1..3} \cup {(i + A[d].offi) % n : d \in 1..3}
              IN \A i \in 0..(n - 1) :
                   /\ \A j \in cols(Ev.A, i) : \E a \in {Entry(Ev.A, n, i, j)} : Entry(Ev.B, n, j, i) = <<a[1], BNeg(a[2])>>
                   /\ \A j \in cols(Ev.B, i) : \E a \in {Entry(Ev.B, n, i, j)} : Entry(Ev.A, n, j, i) = <<a[1], BNeg(a[2])>>
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (Rev \/ Log \/ Rand \/ Min \/ Timing \/ Print_ \/ MaxErr \/ TestMsg \/ EvalMsg \/ Rounded \/ Random \/ Spread \/ Adjoint)
        /\ IF Ev.e = "random" THEN /\ hr' = hr \cup {Bin(Ev.zr[i]) : i \in 1..Len(Ev.zr)} /\ hi' = hi \cup {Bin(Ev.zi[i]) : i \in 1..Len(Ev.zi)} /\ last' = Ev.zr
           ELSE UNCHANGED <<hr, hi, last>>
TraceSpec == TraceInit /\ [][Step]_<<l, hr, hi, last>>
=============================================================================
