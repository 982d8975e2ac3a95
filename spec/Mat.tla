-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Sparse diagonal matrices and the dense matrices they denote.  Entries   *)
(* are integers (the doubles times 2^E, exactly).  A sparse matrix is a    *)
(* sequence of diagonals [off, zero, v]: entry i of a diagonal stands in   *)
(* row i, column i + off mod n; diagonals with the same offset add up.     *)
(***************************************************************************)
EXTENDS BigInt
Dense(n, A) == [i \in 1..n |-> [j \in 1..n |-> BSum([s \in 1..Len(A) |-> IF (i - 1 + A[s].off) % n = j - 1 THEN A[s].v[i] ELSE BI(0)])] \o <<>>] \o <<>>
\* a diagonal marked as zero has only zero entries, offsets are reduced
Shape(n, A) == \A s \in 1..Len(A) : Len(A[s].v) = n /\ A[s].off \in 0..(n - 1) /\ (A[s].zero => \A i \in 1..n : A[s].v[i] = BI(0))
MZero(n)     == [i \in 1..n |-> [j \in 1..n |-> BI(0)] \o <<>>] \o <<>>
MAdd2(X, Y)  == [i \in 1..Len(X) |-> VAdd(X[i], Y[i])] \o <<>>
MSub2(X, Y)  == [i \in 1..Len(X) |-> VSub(X[i], Y[i])] \o <<>>
MNeg(X)      == [i \in 1..Len(X) |-> VNeg(X[i])] \o <<>>
MScale(X, a) == [i \in 1..Len(X) |-> VScale(X[i], a)] \o <<>>
MT(X)        == [i \in 1..Len(X) |-> [j \in 1..Len(X) |-> X[j][i]] \o <<>>] \o <<>>
MProd(X, Y)  == \* not rescaled
  LET T == MT(Y) IN [i \in 1..Len(X) |-> [j \in 1..Len(X) |-> BDot(X[i], T[j])] \o <<>>] \o <<>>
MVec(X, z)   == [i \in 1..Len(X) |-> BDot(X[i], z)] \o <<>>
=============================================================================
