------------------------------- MODULE Index --------------------------------
(***************************************************************************)
(* The index arithmetic of the library: for each loop family and parameter *)
(* the accesses [a: array, i: index (from 0), n: length, w: written].      *)
(* A family is safe when every index is in range, and complete when every  *)
(* element of its results is written.  Slip extends every loop by as many  *)
(* iterations: the off-by-one designs.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Slip
NW(k) == (k + W - 1) \div W
Upto(n) == 0..(n - 1 + Slip)
R(a, i, n) == [a |-> a, i |-> i, n |-> n, w |-> FALSE]
V(a, i, n) == [a |-> a, i |-> i, n |-> n, w |-> TRUE]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE BitRev(_, _)
BitRev(x, d) == IF d = 0 THEN 0 ELSE (x % 2) * Pow2(d - 1) + BitRev(x \div 2, d - 1)
RECURSIVE PowM(_, _)
PowM(r, m) == IF r = 0 THEN 1 % m ELSE (5 * PowM(r - 1, m)) % m

\* numbers: from f to t bits
ShiftRight(f, t) ==
  LET q == (f - t) \div W  r == (f - t) % W  nt == NW(t)
  IN IF f = t THEN {R("A", i, NW(f)) : i \in Upto(nt)} \cup {V("B", i, nt) : i \in Upto(nt)}
     ELSE {R("A", i + q, NW(f)) : i \in Upto(nt)} \cup {V("B", i, nt) : i \in Upto(nt)}
          \cup (IF r > 0 /\ NW(t + r) # nt THEN {R("A", nt + q, NW(f))} ELSE {})
          \cup {R("A", (f - t - 1) \div W, NW(f))}
ShiftLeft(f, t) ==
  LET q == (t - f) \div W  r == (t - f) % W
  IN {R("A", i, NW(f)) : i \in Upto(NW(f))} \cup {V("B", i + q, NW(t)) : i \in Upto(NW(f))} \cup {V("B", i, NW(t)) : i \in 0..(q - 1)}
     \cup (IF r > 0 /\ NW(f + r) # NW(f) THEN {V("B", NW(f) + q, NW(t))} ELSE {})
Resize(f, t) ==
  LET m == IF NW(f) < NW(t) THEN NW(f) ELSE NW(t)
  IN {R("A", i, NW(f)) : i \in Upto(m)} \cup {V("B", i, NW(t)) : i \in Upto(m)} \cup {V("B", i, NW(t)) : i \in m..(NW(t) - 1)}
\* a product with one word keeps the high halves one place up; shifting by whole words reads downwards
MulWord(k) == {V("data", i, NW(k)) : i \in Upto(NW(k))} \cup {V("Hi", i + 1, NW(k)) : i \in 0..(NW(k) - 2 + Slip)} \cup {V("Hi", 0, NW(k))}
MulWhole(k) == UNION {{V("ABi", j, NW(k)) : j \in 0..(NW(k) - 1)} \cup {R("ABi", j - i, NW(k)) : j \in i..(NW(k) - 1)} \cup {R("B", i, NW(k))} : i \in Upto(NW(k))}
\* decimal digits: base 2^(W/2) digits of a value of b bits (one at least); written digits of the largest value of k bits
Halves(b) == IF b = 0 THEN 1 ELSE (b + (W \div 2) - 1) \div (W \div 2)
RECURSIVE Digits(_)
Digits(v) == IF v < 10 THEN 1 ELSE 1 + Digits(v \div 10)
FromText(k, b) == {V("half", i, 2 * NW(k)) : i \in Upto(Halves(b))} \cup {V("half", i, 2 * NW(k)) : i \in Halves(b)..(2 * NW(k) - 1)}
                  \cup {R("half", 2 * i + 1, 2 * NW(k)) : i \in 0..(NW(k) - 1)} \cup {V("data", i, NW(k)) : i \in 0..(NW(k) - 1)}
ToText(k, d) == {V("B", i, (4 * k + 9) \div 10) : i \in Upto(d)} \cup {R("B", d - 1 - i, (4 * k + 9) \div 10) : i \in 0..(d - 1)}
Residues(k, L) == {R("A", NW(k) - 1, NW(k))} \cup {R("A", j, NW(k)) : j \in 0..(NW(k) - 2)} \cup {V("rns", i, L) : i \in Upto(L)} \cup {R("q", i, L) : i \in 0..(L - 1)}

\* rings of degree n = 2^g
Butterfly(n, m, t, table) == UNION {{R(table, m + i, n)} \cup UNION {{V("a", j, n), V("a", j + t, n)} : j \in (2*i*t)..(2*i*t + t - 1 + Slip)} : i \in 0..(m - 1)}
Ntt(g)  == LET n == Pow2(g) IN UNION {Butterfly(n, Pow2(s), n \div Pow2(s + 1), "psi") : s \in 0..(g - 1)}
Intt(g) == LET n == Pow2(g) IN UNION {Butterfly(n, n \div Pow2(s + 1), Pow2(s), "inv") : s \in 0..(g - 1)} \cup {V("a", j, n) : j \in Upto(n)}
Tables(g) == LET n == Pow2(g) IN UNION {{V("psi", i, n), R("orig", BitRev(i, g), n)} : i \in Upto(n)}
RotKey(g, r)  == LET n == Pow2(g)  p == PowM(r, 2 * n)
                 IN UNION {LET j == (i * p) % (2 * n) IN {R("s", i, n), V("out", IF j < n THEN j ELSE j - n, n)} : i \in Upto(n)}
RotOne(g)     == LET n == Pow2(g) IN {V("out", (5 * i) % n, n) : i \in 0..(n - 1)} \cup {R("s", i, n) : i \in Upto(n)}
Conj(g)       == LET n == Pow2(g) IN {V("out", 0, n)} \cup {V("out", i, n) : i \in 1..(n - 1 + Slip)} \cup {R("s", n - i, n) : i \in 1..(n - 1 + Slip)}
Order(g)      == LET h == Pow2(g - 1) IN UNION {{V("out", BitRev(i, g - 1), 2 * h), V("out", BitRev(i, g - 1) + h, 2 * h), R("in", i, 2 * h), R("in", i + h, 2 * h)} : i \in Upto(h)}

\* matrices of h = 2^(g-1) rows as diagonals
Apply(h, off)     == UNION {{V("out", i, h), R("vec", i, h), R("z", (i + off) % h, h)} : i \in Upto(h)}
Transpose(h, off) == UNION {{R("vec", i, h), V("temp", IF i < h - off THEN off + i ELSE i - (h - off), h)} : i \in Upto(h)}
MatMulVec(h, o1)  == UNION {{V("C", i, h), R("A", i, h), R("B", (i + o1) % h, h)} : i \in Upto(h)}
\* entry (i, j) of a matrix with these offsets lands on the first diagonal with j - i = off mod h; none is a failed assertion
Slot(h, offs, i, j) == LET S == {s \in 1..Len(offs) : (j - i - offs[s]) % h = 0} IN IF S = {} THEN Len(offs) ELSE (CHOOSE s \in S : \A u \in S : s <= u) - 1
Split(g, n) == LET h == Pow2(g - 1)  m == Pow2(g - n - 2)  offs == <<0, m, h - m>>
                   e(i, j) == {V("row", i, h), R("col", j, h), V("diag", Slot(h, offs, i, j), 3)}
               IN UNION {UNION {e(2*m*k + i, 2*m*k + i) \cup e(2*m*k + m + i, 2*m*k + i) \cup e(2*m*k + i, 2*m*k + m + i) \cup e(2*m*k + m + i, 2*m*k + m + i)
                         : i \in 0..(m - 1 + Slip)} : k \in 0..(Pow2(n) - 1)}
\* the products of two sets of offsets need no more diagonals than there are pairs
Sums(h, A, B) == {(a + b) % h : a \in A, b \in B}
Fill(h, A, B) == {V("diag", c, Cardinality(A) * Cardinality(B)) : c \in Upto(Cardinality(Sums(h, A, B)))}
\* D factors in groups of G
Groups(D, G) == UNION {{R("A", G * i + k, D) : k \in Upto(G)} \cup {V("B", i, D \div G)} : i \in 0..((D \div G) - 1)}
\* one level of the change of basis: halves of 2h coefficients, the upper ones folded into the lower
Fold(h) == UNION {{V("c0", h - i, h), V("c1", i, h)} : i \in 1..(h - 1 + Slip)}

Safe(acc) == \A x \in acc : x.i >= 0 /\ x.i < x.n
\* every element of the named results is written
Whole(acc, outs) == \A a \in outs : {x.i : x \in {y \in acc : y.a = a /\ y.w}} = 0..((CHOOSE x \in acc : x.a = a).n - 1)
=============================================================================
