------------------------------- MODULE Limbs --------------------------------
(***************************************************************************)
(* The word algorithms of Z_Q.h and conv/mod.h, for words of W bits, on    *)
(* sequences of words (least significant first).  Small W lets TLC check   *)
(* them against ZQ on every input; the code is the case W = 64.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigInt

CONSTANT W               \* bits per word, even
WB == BToInt(BPow2(W))      \* number of words
HB == BToInt(BPow2(W \div 2))
NW(k) == (k + W - 1) \div W
P2(n) == BToInt(BPow2(n))

LValue(ws) == BSum([i \in 1..Len(ws) |-> BI(ws[i]) ** BPow2((i - 1) * W)])
LWords(k, v) == [i \in 1..NW(k) |-> BToInt((v // BPow2((i - 1) * W)) %% BPow2(W))]

\* remove_clutter: shift the unused bits of the top word out and back
LClean(k, ws) == LET r == W * NW(k) - k
                 IN [ws EXCEPT ![NW(k)] = ((ws[NW(k)] * P2(r)) % WB) \div P2(r)]

\* one word of the carry chain: <<sum word, carry out>>
LAddWord(x, a, c) == LET s == (x + a) % WB
                         t == IF c = 1 THEN (s + 1) % WB ELSE s
                     IN <<t, IF (c = 1 /\ t = 0) \/ s < a THEN 1 ELSE 0>>
RECURSIVE LAddFrom(_, _, _, _)
LAddFrom(x, a, i, c) == IF i > Len(x) THEN <<>>
                        ELSE LET r == LAddWord(x[i], a[i], c)
                             IN <<r[1]>> \o LAddFrom(x, a, i + 1, r[2])
LAdd(k, x, a) == LClean(k, LAddFrom(x, a, 1, 0))

RECURSIVE LIncFrom(_, _, _)
LIncFrom(x, i, c) == IF i > Len(x) THEN <<>>
                     ELSE LET t == IF c = 1 THEN (x[i] + 1) % WB ELSE x[i]
                          IN <<t>> \o LIncFrom(x, i + 1, IF c = 1 /\ t = 0 THEN 1 ELSE 0)
LNegate(k, x) == LET f == LClean(k, [i \in 1..Len(x) |-> WB - 1 - x[i]])
                 IN LClean(k, LIncFrom(f, 1, 1))
LSub(k, x, a) == LAdd(k, x, LNegate(k, a))

\* mul(a, b, lo, hi): four half-word products, every variable W bits wide
LMul2(a, b) == LET ah == a \div HB  al == a % HB
                   bh == b \div HB  bl == b % HB
                   ll == (al * bl) % WB   lh == (al * bh) % WB
                   hl == (ah * bl) % WB   hh == (ah * bh) % WB
                   hl2 == (hl + (ll \div HB) + (lh % HB)) % WB
                   hh2 == (hh + (hl2 \div HB) + (lh \div HB)) % WB
               IN <<((ll % HB) + hl2 * HB) % WB, hh2>>
LMulW(k, x, w) == LET lo == [i \in 1..Len(x) |-> LMul2(x[i], w)[1]]
                      hi == [i \in 1..Len(x) |-> IF i = 1 THEN 0 ELSE LMul2(x[i-1], w)[2]]
                  IN LAdd(k, lo, hi)
RECURSIVE LMulFrom(_, _, _, _, _)
LMulFrom(k, x, y, i, sum) ==
  IF i > Len(x) THEN sum
  ELSE LET p == LMulW(k, x, y[i])
           sh == [j \in 1..Len(x) |-> IF j >= i THEN p[j - i + 1] ELSE 0]
       IN LMulFrom(k, x, y, i + 1, LAdd(k, sum, sh))
LMul(k, x, y) == LMulFrom(k, x, y, 1, [i \in 1..Len(x) |-> 0])

\* shift_left, shift_right, is_bigger_than_halfQ, resize
LShl1(x, r, ext) ==   \* words of x shifted left by r < W bits, one more word when ext
  LET g(i) == IF i < 1 \/ i > Len(x) THEN 0 ELSE x[i]
      w(i) == ((g(i) * P2(r)) % WB) + (IF r = 0 THEN 0 ELSE g(i - 1) \div P2(W - r))
  IN [i \in 1..(Len(x) + ext) |-> w(i)]
LShiftLeft(f, t, x) ==
  LET q == (t - f) \div W   r == (t - f) % W
      ext == IF r # 0 /\ NW(f + r) # NW(f) THEN 1 ELSE 0
  IN [i \in 1..q |-> 0] \o LShl1(x, r, ext)
LShiftRight(f, t, x) ==
  IF f = t THEN x
  ELSE LET q == (f - t) \div W   r == (f - t) % W
           g(i) == IF i <= Len(x) THEN x[i] ELSE 0
           top == IF r > 0 /\ NW(t + r) # NW(t) THEN x[NW(t) + q + 1] ELSE 0
           b == [i \in 1..NW(t) |->
                  IF r = 0 THEN x[i + q]
                  ELSE x[i + q] \div P2(r)
                       + (((IF i = NW(t) THEN top ELSE x[i + q + 1]) * P2(W - r)) % WB)]
           idx == f - t - 1
           c == (x[idx \div W + 1] \div P2(idx % W)) % 2
       IN IF c = 1 THEN LAdd(t, b, [i \in 1..NW(t) |-> IF i = 1 THEN 1 ELSE 0]) ELSE b
LIsNeg(k, x) == LET r == k - (NW(k) - 1) * W IN x[NW(k)] \div P2(r - 1) = 1
LResize(f, t, x) ==
  LET cp(y) == [i \in 1..NW(t) |-> IF i <= NW(f) THEN y[i] ELSE 0]
  IN IF LIsNeg(f, x) THEN LClean(t, LNegate(t, cp(LNegate(f, x)))) ELSE LClean(t, cp(x))
=============================================================================
