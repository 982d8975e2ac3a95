------------------------------- MODULE Tr_C28 -------------------------------
(***************************************************************************)
(* What the experiment programs report.  A program is a machine writing    *)
(* sections, a section a sequence of lines, a line a label and the numbers *)
(* after it (v = m * 10^x, six digits).  Each number obeys the law its     *)
(* label names, stated over the parameters of the section and the numbers  *)
(* reported before it:                                                     *)
(*   - formulas (expected, bound, C1, the design of the scaling factor,    *)
(*     the modulus consumed) hold to the printed precision; irrational     *)
(*     ones after raising both sides to the power that makes them rational;*)
(*   - measurements obey the error law they are compared with.             *)
(***************************************************************************)
EXTENDS BigInt, Integers, TraceLib
VARIABLES prog, sec, pc, env
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN BI(1) ELSE b ** Pow(b, e - 1)
Ten(e) == Pow(BI(10), e)
\* ------------------------------------------------------------- rationals
Rat(n, d) == <<n, d>>                       \* d > 0
IntR(n) == <<BI(n), BI(1)>>
Two(e) == IF e >= 0 THEN <<BPow2(e), BI(1)>> ELSE <<BI(1), BPow2(0 - e)>>
Val(v) == IF v.x >= 0 THEN <<BI(v.m) ** Ten(v.x), BI(1)>> ELSE <<BI(v.m), Ten(0 - v.x)>>
Mul(a, b) == <<a[1] ** b[1], a[2] ** b[2]>>
Inv(a) == <<a[2], a[1]>>                    \* a > 0
RPow(a, k) == <<Pow(a[1], k), Pow(a[2], k)>>
Leq(a, b) == (a[1] ** b[2]) \preceq (b[1] ** a[2])
Less(a, b) == (a[1] ** b[2]) \prec (b[1] ** a[2])
Finite(v) == v.x < 99999
Positive(v) == Finite(v) /\ v.m > 0
\* v^k is w, up to ppm parts per million of v
NearK(v, k, w, ppm) == /\ Positive(v)
                       /\ Leq(RPow(Mul(Val(v), Rat(BI(1000000), BI(1000000 + ppm))), k), w)
                       /\ Leq(w, RPow(Mul(Val(v), Rat(BI(1000000 + ppm), BI(1000000))), k))
Near(v, k, w) == NearK(v, k, w, 6)          \* six printed digits
Between(v, lo, k, hi) == Positive(v) /\ Leq(lo, RPow(Val(v), k)) /\ Leq(RPow(Val(v), k), hi)
\* bounds of a square root, twelve digits
SqrtLo(n) == Rat(BSqrt(BI(n) ** Ten(24)), Ten(12))
SqrtHi(n) == Rat(BSqrt(BI(n) ** Ten(24)) ++ BI(1), Ten(12))
\* the least integer power of two that is not below w, w given by its k-th power
CeilLog(v, k, w) == v.x >= 0 /\ LET L == v.m * 10 ^ v.x IN Leq(w, Two(k * L)) /\ Less(Two(k * (L - 1)), w)
Num(v) == v.m * 10 ^ v.x                    \* of an integer
IsInt(v) == v.x >= 0 /\ v.x < 9
\* ---------------------------------------------------- parameters in common
LOGq == 60
LOGDELTA == 50
LOGDELTAboot == 60
Weight == 128
C2 == 5
\* --------------------------------------------------------------- sections
H_(s) == <<s, "title">>
Top(s) == <<H_(s), <<"LOGN", "logn">>>>
TopG(s) == Top(s) \o << <<"LOGDELTA_boot_tilde", "delta">>, <<"G", "G">> >>
Rep(n, x) == [i \in 1..n |-> x] \o <<>>
Script(p, n) ==
  CASE p = "lemma_conv_error" -> Top("Measuring error on convolution") \o << <<"", "convexp">> >> \o Rep(100, <<"", "convmeas">>)
    [] p = "lemma_conv_sum_error" -> Top("Measuring error on sum of convolution") \o << <<"", "sumexp">> >> \o Rep(100, <<"", "summeas">>)
    [] p = "theorem_single_matmul_error" -> Top("Measuring error on single matmul") \o << <<"", "matexp">> >> \o Rep(100, <<"", "matmeas">>)
    [] p = "theorem_serial_matmul_error" -> Top("Measuring error on serial matmul") \o << <<"", "serexp">>, <<"", "serbound">>, <<"", "sermeas">> >>
    [] p = "theorem_cts_error" -> TopG("Measuring coefftoslot error")
         \o << <<"C1", "C1">>, <<"norm(z_amb) expected", "ambexp">>, <<"norm(z_amb) measured", "ambmeas">>,
               <<"norm(e) expected", "ctsexp">>, <<"norm(e) measured", "ctsmeas">>, <<"norm(e) expected (sanity check)", "ctsexp">> >>
    [] p = "design_delta_tilde" -> Top("Designing delta_tilde")
         \o << <<"G", "G">>, <<"C1", "C1">>, <<"C2", "C2">>, <<"Delta_tilde (value is similar to rounding error)", "design">>,
               <<"given epsilon (max distance from multiple of q / Delta)", "one">>, <<"Delta_tilde (value + rounding error < epsilon = 1)", "tight">> >>
    [] p = "design_delta_tilde_lattigo" -> << <<"LOGDELTA_boot_tilde", "delta">>, <<"error expected", "lattigo">>, <<"we want error goes under", "want">> >>
    [] p = "example_sup_norm" /\ n <= 3 -> Top("Check sup norm is bounded as expected")
         \o << <<"max sup_norm / avg_norm ratio", "ratio">>, <<"C2(empirical)", "ceil">>, <<"C2", "C2">> >>
    [] p = "example_sup_norm" /\ n > 3 -> TopG("Measuring sup norm on cts input")
         \o << <<"C1", "C1">>, <<"sup_norm(pt) bounded", "ptbound">>, <<"sup_norm(pt) measured", "ptsup">>,
               <<"norm(rounding error) expected", "ctsexp">>, <<"norm(rounding error) measured", "ctsmeas">>,
               <<"sup_norm(rounding error) bounded", "supbound">>, <<"sup_norm(rounding error) measured", "supmeas">> >>
    [] p = "measure_b_evalmod" -> Top("Measuring error bound of evalmod result") \o << <<"sup_norm", "evalmod">> >>
    [] p = "proposal" -> Top(IF n % 2 = 1 THEN "Measuring error on conventional bootstrap" ELSE "Measuring error on proposed bootstrap")
         \o << <<"LOGDELTA_cts", "cts">>, <<"LOGDELTA_stc", "stc">>, <<"LOG2 MAX ERROR (REAL, IMAG) = ", "bootmax">>,
               <<"sup_norm(pt/Delta - pt_tilde/Delta)", "bootsup">>, <<"Modulus consumed", "modulus">> >>
\* the parameters of the paper, by section
Degrees(p) == CASE p \in {"lemma_conv_error", "lemma_conv_sum_error", "theorem_single_matmul_error", "theorem_serial_matmul_error"} -> <<15, 16>>
                [] p \in {"theorem_cts_error", "design_delta_tilde", "measure_b_evalmod"} -> <<9, 13, 17>>
                [] p = "example_sup_norm" -> <<9, 13, 17, 9, 13, 17>>
                [] p = "proposal" -> <<9, 9, 9, 9, 13, 13, 13, 13, 17, 17, 17, 17>>
                [] p = "design_delta_tilde_lattigo" -> <<16>>
Groups(g) == CASE g = 9 -> 2 [] g = 13 -> 3 [] g = 17 -> 4
SmallCts(g) == CASE g = 9 -> 22 [] g = 13 -> 25 [] g = 17 -> 29
\* ------------------------------------------------------------------- laws
lg == Degrees(prog)[sec]
N == BI(2 ^ lg)
G_ == Groups(lg)
D_ == (lg - 1) \div G_
\* 2D-th power of C1 = D sqrt((h+1) 3^G) / 12 * 2^(1/2D)
C1pow == Mul(RPow(Rat(BI(D_ * D_ * (Weight + 1) * 3 ^ G_), BI(144)), D_), IntR(2))
\* of C1 N^(1 + 1/2D) q / Delta
DesignPow == Mul(C1pow, Mul(Rat(Pow(N, 2 * D_ + 1), BI(1)), Two(2 * D_ * (LOGq - LOGDELTA))))
\* of the expected error of CoeffToSlot with 2^d
CtsPow(d) == Mul(DesignPow, Two(0 - (2 * D_ * d)))
Times(w, n, d, k) == Mul(w, RPow(Rat(BI(n), BI(d)), k))
Pct == 60000                                                        \* statistical laws: 6 parts in a hundred, ten deviations
\* 2^(n/d) to thirty digits: the root of an integer, by bisection
RECURSIVE RootB(_, _, _, _)
RootB(a, k, r, b) == IF b < 0 THEN r ELSE LET t == r ++ BPow2(b) IN RootB(a, k, IF Pow(t, k) \preceq a THEN t ELSE r, b - 1)
TwoTo(n, d) == Rat(RootB(BPow2(n + (100 * d)), d, BI(0), 100 + (n \div d) + 1), BPow2(100))
\* the design for N = 2^16, h = 192, groups of 4,4,4,3 factors and 2^34; a = norm of a factor = 2^(1/2 - 16/15)
LattigoSq == \* square of 2^10 sqrt(N/2) sqrt(193 N/12) * sqrt(N/12) / 2^34 * 10 / sqrt(N) * (27 a^11 + sqrt(27) a^12)
  LET a11 == Inv(TwoTo(187, 30)) a12 == Inv(TwoTo(204, 30)) r27 == SqrtLo(27)
      sum == <<(BI(27) ** (a11[1] ** (a12[2] ** r27[2]))) ++ (r27[1] ** (a12[1] ** a11[2])), a11[2] ** (a12[2] ** r27[2])>>
  IN Mul(RPow(sum, 2), Mul(Two(2 * (10 - 34)), Rat(Pow(BI(65536), 2) ** BI(193 * 100), BI(2 * 12 * 12))))
\* the coefficient error of a bootstrapping stays below 2^-24 unless the conventional one is given the small scaling factor
Coarse == prog = "proposal" /\ sec % 4 = 1
Decimal(v, ulp) == IF v.x >= 0 THEN Num(v) ELSE LET q == BI(v.m) // Ten(0 - v.x) IN IF ulp = 0 THEN BToInt(q) ELSE BToInt(BNeg(BNeg(BI(v.m)) // Ten(0 - v.x)))   \* floor, ceiling
Law(w, v) ==
  CASE w = "title" -> v = <<>>
    [] w = "logn" -> v[1] = [m |-> lg, x |-> 0] \/ (IsInt(v[1]) /\ Num(v[1]) = lg)
    [] w = "delta" -> IsInt(v[1]) /\ Num(v[1]) = IF prog = "design_delta_tilde_lattigo" THEN 34 ELSE 50
    [] w = "G" -> IsInt(v[1]) /\ Num(v[1]) = G_
    [] w = "C2" -> IsInt(v[1]) /\ Num(v[1]) = C2
    [] w = "one" -> IsInt(v[1]) /\ Num(v[1]) = 1
    \* the test message has squared norm 1/2 as a polynomial; a rounding error has variance 1/12 in each of N coefficients
    [] w = "convexp" -> NearK(v[1], 1, Mul(Two(2 * LOGDELTA), Rat(N, BI(24))), 20)
    [] w = "convmeas" -> NearK(v[1], 1, Val(env["convexp"][1]), Pct)
    [] w = "sumexp" -> NearK(v[1], 1, Mul(Two(2 * LOGDELTA), Rat(BI(16) ** N, BI(24))), 20)
    [] w = "summeas" -> NearK(v[1], 1, Val(env["sumexp"][1]), Pct)
    [] w = "matexp" -> Near(v[1], 2, Mul(Two(0 - (2 * LOGDELTA)), Rat(BI(16) ** (N ** N), BI(48))))
    [] w = "matmeas" -> NearK(v[1], 1, Val(env["matexp"][1]), Pct)
    \* sqrt(3N/12) |z| / Delta sqrt(D) sqrt(2)^(D-1), D = log N - 1
    [] w = "serexp" -> Near(v[1], 2, Mul(Two((lg - 2) - (2 * LOGDELTA)), Rat(BI(3 * (lg - 1)) ** (N ** N), BI(48))))
    [] w = "serbound" -> NearK(v[1], 2, Mul(RPow(Val(env["serexp"][1]), 2), IntR(lg - 1)), 12)
    [] w = "sermeas" -> Between(v[1], Times(Val(env["serexp"][1]), 1, 64, 1), 1, Val(env["serbound"][1]))
    [] w = "C1" -> Near(v[1], 2 * D_, C1pow)
    \* N/2 (h+1)/12 q^2 N / Delta^2
    [] w = "ambexp" -> Near(v[1], 2, Mul(Two(2 * (LOGq - LOGDELTA)), Rat(N ** (N ** BI(Weight + 1)), BI(24))))
    [] w = "ambmeas" -> Between(v[1], Times(Val(env["ambexp"][1]), 6, 10, 1), 1, Times(Val(env["ambexp"][1]), 14, 10, 1))
    [] w = "ctsexp" -> Near(v[1], 2 * D_, CtsPow(50))
    [] w = "ctsmeas" -> Between(v[1], Times(CtsPow(50), 1, 64, 2 * D_), 2 * D_, CtsPow(50))
    [] w = "design" -> IsInt(v[1]) /\ CeilLog(v[1], 2 * D_, DesignPow)
    \* ... / (sqrt(N) / C2 - 1)
    [] w = "tight" -> IsInt(v[1]) /\ LET f(r) == RPow(Rat(BI(C2) ** r[2], r[1] -- (BI(C2) ** r[2])), 2 * D_)
                                     IN CeilLog(v[1], 2 * D_, Mul(DesignPow, f(SqrtLo(2 ^ lg)))) /\ CeilLog(v[1], 2 * D_, Mul(DesignPow, f(SqrtHi(2 ^ lg))))
    [] w = "lattigo" -> Near(v[1], 2, LattigoSq)
    [] w = "want" -> Near(v[1], 1, Two((LOGq - LOGDELTA) - 16)) /\ Leq(Val(env["lattigo"][1]), Val(v[1]))
    \* largest over root mean square of N normal coefficients, a hundred times
    [] w = "ratio" -> Between(v[1], Rat(BI(35), BI(10)), 1, Rat(BI(75), BI(10)))
    [] w = "ceil" -> IsInt(v[1]) /\ LET r == Val(env["ratio"][1]) IN Leq(r, Mul(IntR(Num(v[1])), Rat(BI(100001), BI(100000)))) /\ Less(IntR(Num(v[1]) - 1), Mul(r, Rat(BI(100001), BI(100000))))
    \* slots uniform in the square of side sqrt(2): the polynomial has squared norm 1/3; up to a fifth
    [] w = "ptbound" -> Between(v[1], Rat(BI(25 * 16), BI(75) ** N), 2, Rat(BI(25 * 36), BI(75) ** N))
    [] w = "ptsup" -> Between(v[1], Times(Val(env["ptbound"][1]), 2, C2, 1), 1, Times(Val(env["ptbound"][1]), 7, C2, 1))
    [] w = "supbound" -> NearK(v[1], 2, Mul(RPow(Val(env["ctsexp"][1]), 2), Rat(BI(C2 * C2), N)), 12)
    [] w = "supmeas" -> /\ Between(v[1], Rat(BI(0), BI(1)), 1, Val(env["supbound"][1]))
                        /\ Leq(Mul(RPow(Val(env["ctsmeas"][1]), 2), Rat(BI(99), BI(100))), Mul(RPow(Val(v[1]), 2), Rat(N, BI(1))))
    [] w = "evalmod" -> Between(v[1], Two(0 - 40), 1, Two(0 - 24))
    [] w = "cts" -> IsInt(v[1]) /\ Num(v[1]) = IF (sec - 1) % 4 < 2 THEN SmallCts(lg) ELSE 60
    [] w = "stc" -> IsInt(v[1]) /\ Num(v[1]) = IF sec % 2 = 1 THEN 50 ELSE 60
    [] w = "bootmax" -> Finite(v[1]) /\ Finite(v[2]) /\ \A i \in 1..2 : IF Coarse THEN Decimal(v[i], 0) >= -8 ELSE Decimal(v[i], 1) <= (IF lg = 9 THEN -24 ELSE -18) /\ Decimal(v[i], 0) >= -45
    \* the error of the small scaling factor shows; and a slot is the sum of N coefficients, a coefficient at most twice the largest slot part
    [] w = "bootsup" -> LET cts == CtsPow(SmallCts(lg)) hi == IF Decimal(env["bootmax"][1], 1) > Decimal(env["bootmax"][2], 1) THEN Decimal(env["bootmax"][1], 1) ELSE Decimal(env["bootmax"][2], 1)
                            lo == IF Decimal(env["bootmax"][1], 0) > Decimal(env["bootmax"][2], 0) THEN Decimal(env["bootmax"][1], 0) ELSE Decimal(env["bootmax"][2], 0)
                        IN /\ IF Coarse THEN Between(v[1], Mul(Times(cts, 1, 16, 2 * D_), Rat(BI(1), Pow(N, D_))), 2 * D_, Mul(Times(cts, C2, 1, 2 * D_), Rat(BI(1), Pow(N, D_))))
                              ELSE Between(v[1], Two(0 - 50), 1, Two(0 - 24))
                           /\ Leq(Val(v[1]), Two(hi + 1)) /\ Leq(Two(lo), Mul(Val(v[1]), Rat(N, BI(1))))
    [] w = "modulus" -> IsInt(v[1]) /\ Num(v[1]) = (D_ * (Num(env["cts"][1]) + Num(env["stc"][1]))) + (12 * LOGDELTAboot)
TraceInit == l = 1 /\ prog = "" /\ sec = 0 /\ pc = 0 /\ env = <<>>
Program == IsEvent("program") /\ prog = "" /\ prog' = Ev.name /\ sec' = 1 /\ pc' = 0 /\ env' = ("" :> <<>>)
AtEnd == pc = Len(Script(prog, sec))
Line == /\ IsEvent("line") /\ prog # "" /\ UNCHANGED prog
        /\ sec' = IF AtEnd THEN sec + 1 ELSE sec
        /\ pc' = IF AtEnd THEN 1 ELSE pc + 1
        /\ sec' <= Len(Degrees(prog))
        /\ \E x \in {Script(prog, sec')[pc']} : x[1] = Ev.label
\* laws are over the new section: evaluated on the next step, with the line kept in the environment
        /\ env' = (Script(prog, sec')[pc'][2] :> Ev.v) @@ env
Exit == IsEvent("exit") /\ prog # "" /\ Ev.code = 0 /\ UNCHANGED <<sec, pc, env>> /\ prog' = ""
        /\ (Ev.stopped \/ (AtEnd /\ sec = Len(Degrees(prog))))
Next == Program \/ Line \/ Exit
Lawful == (prog # "" /\ pc > 0) => \E w \in {Script(prog, sec)[pc][2]} : Law(w, env[w])
TraceSpec == TraceInit /\ [][Next]_<<l, prog, sec, pc, env>>
=============================================================================
