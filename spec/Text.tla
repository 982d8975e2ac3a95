------------------------------- MODULE Text -------------------------------
(* The text the printing functions write, for numbers with few quarters.   *)
EXTENDS Integers, Sequences, TLC
\* q: a number of quarters; what an output stream writes for q/4
Abs(q) == IF q < 0 THEN -q ELSE q
Frac(q, pad) == LET r == Abs(q) % 4 IN
  IF pad = 0 THEN (CASE r = 0 -> "" [] r = 1 -> ".25" [] r = 2 -> ".5" [] r = 3 -> ".75")
  ELSE (CASE r = 0 -> ".00" [] r = 1 -> ".25" [] r = 2 -> ".50" [] r = 3 -> ".75")
Zeros(n) == SubSeq("000000000000", 1, n)
Stream(q) == (IF q < 0 THEN "-" ELSE "") \o ToString(Abs(q) \div 4) \o Frac(q, 0)
\* with a fixed number of decimals
Fixed(q, d) == (IF q < 0 THEN "-" ELSE "") \o ToString(Abs(q) \div 4) \o Frac(q, 1) \o Zeros(d - 2)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
First10(s) == SubSeq(s, 1, IF Len(s) < 10 THEN Len(s) ELSE 10)
Row(s) == Cat([i \in 1..Len(s) |-> Stream(s[i]) \o " "])
ArrayText(s) == Row(First10(s)) \o "\n"
MessageText(name, r, im) ==
  LET a == First10(r) IN "Message " \o name \o "\n" \o Cat([i \in 1..Len(a) |-> "(" \o Stream(r[i]) \o ", " \o Stream(im[i]) \o ") "]) \o "\n"
PlainText(name, s) == "SimplePlaintext " \o name \o "\n" \o ArrayText(s)
\* dense matrix
DenseRow(r, im) == "[" \o Cat([j \in 1..Len(r) |-> Fixed(r[j], 12) \o "+%i*" \o Fixed(im[j], 12) \o (IF j < Len(r) THEN "," ELSE "]")])
DenseText(r, im) == "matrix(" \o Cat([i \in 1..Len(r) |-> DenseRow(r[i], im[i]) \o (IF i < Len(r) THEN ", \n" ELSE ");\n")])
\* sparse matrix: diagonals [off, v]
DiagText(name, n, d) == Cat([i \in 1..n |-> IF d.v[i] = 0 THEN "" ELSE
  name \o "[" \o ToString(i) \o "][" \o ToString(((i - 1 + d.off) % n) + 1) \o "]:" \o Fixed(d.v[i], 6) \o "$\n"])
SparseText(name, n, D) == name \o ":zeromatrix(" \o ToString(n) \o "," \o ToString(n) \o ")$\n" \o Cat([s \in 1..Len(D) |-> DiagText(name, n, D[s])])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxText(D) == "Max " \o Stream(MaxOf(UNION {{Abs(D[s].v[i]) : i \in 1..Len(D[s].v)} : s \in 1..Len(D)})) \o "\n"
=============================================================================
