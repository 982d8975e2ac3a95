------------------------------- MODULE Tr_C10 -------------------------------
(* Recorded key generations, encryptions and decryptions.  The state of one history: the ring, the key, the union and the  *)
(* intersection of the masks drawn so far, the coefficients in which noise of either sign has been seen, every mask and noise, and the set of keys drawn.               *)
EXTENDS HE, TraceLib
VARIABLES n, k, s, cnt, or, and, neg, pos,
          masks, noises,        \* one per encryption of this history
          weight, drawn         \* the weight asked for, and the keys drawn since
cvars == <<n, k, s, cnt, or, and, neg, pos, masks, noises, weight, drawn>>
TraceInit == l = 1 /\ n = 0 /\ k = 0 /\ s = <<>> /\ cnt = 0 /\ or = <<>> /\ and = <<>> /\ masks = <<>> /\ noises = <<>> /\ neg = {} /\ pos = {}
             /\ weight = 0 /\ drawn = {}
AllOnes == [i \in 1..n |-> BPow2(k) -- BI(1)]
KeyGen == IsEvent("keygen") /\ Len(Ev.s) = Ev.n /\ Ternary(Ev.s) /\ Weight(Ev.s) = Ev.h /\ UNCHANGED cvars
Start == IsEvent("start") /\ n' = Ev.n /\ weight' = Ev.h /\ drawn' = {} /\ UNCHANGED <<k, s, cnt, or, and, neg, pos, masks, noises>>
Keys == /\ IsEvent("keys") /\ (\A i \in 1..Len(Ev.ss) : Len(Ev.ss[i]) = n /\ Ternary(Ev.ss[i]) /\ Weight(Ev.ss[i]) = weight)
        /\ drawn' = drawn \union {Ev.ss[i] : i \in 1..Len(Ev.ss)} /\ UNCHANGED <<n, k, s, cnt, or, and, neg, pos, masks, noises, weight>>
RECURSIVE Binomial(_, _)
Binomial(a, b) == IF b = 0 THEN 1 ELSE (Binomial(a - 1, b - 1) * a) \div b
\* every key of the weight has been drawn
AllKeys == IsEvent("allkeys") /\ Cardinality(drawn) = Binomial(n, weight) * 2^weight /\ UNCHANGED cvars
\* every place has taken either sign, every pair of places every pair of signs
Signs == {-1, 1}
Places == IsEvent("places") /\ (\A i \in 1..n : {x[i] : x \in drawn} \ {0} = Signs) /\ UNCHANGED cvars
Pairs == /\ IsEvent("pairs") /\ UNCHANGED cvars
         /\ (\A i, j \in 1..n : i < j => (Signs \X Signs) \subseteq {<<x[i], x[j]>> : x \in drawn})
Begin == /\ IsEvent("begin") /\ n' = Ev.n /\ k' = Ev.k /\ s' = Ev.s /\ Ternary(s')
         /\ cnt' = 0 /\ or' = PZero(n') /\ and' = [i \in 1..n' |-> BPow2(k') -- BI(1)] /\ masks' = <<>> /\ noises' = <<>> /\ neg' = {} /\ pos' = {} /\ drawn' = {} /\ UNCHANGED weight
EncOk == CtCanon(k, n, Ev.ct) /\ EncRel(k, Ev.pt, Phase(k, Ev.ct, s)) /\ Ev.same
Enc == /\ IsEvent("enc") /\ EncOk /\ UNCHANGED <<n, k, s, weight, drawn>>
       /\ cnt' = cnt + 1 /\ or' = VOr(or, Ev.ct[2]) /\ and' = VAnd(and, Ev.ct[2])
       /\ (k * n >= 100 => \A i \in 1..Len(masks) : masks[i] # Ev.ct[2]) /\ masks' = Append(masks, Ev.ct[2])
       /\ \E noise \in {VCenter(VSub(Phase(k, Ev.ct, s), Ev.pt), BPow2(k))} :
            noises' = Append(noises, noise) /\ neg' = neg \union {i \in 1..n : noise[i][1] < 0} /\ pos' = pos \union {i \in 1..n : noise[i][1] > 0}
\* an encryption under chosen outcomes of the random generator
EncX == IsEvent("encx") /\ EncOk /\ UNCHANGED cvars
Dec == IsEvent("dec") /\ Ev.pt = Phase(k, Ev.ct, s) /\ Ev.same /\ UNCHANGED cvars
\* what one place held in the course of the history, up to sign: no two places share it
Bit(x, b) == IF Len(x) < 2 + b \div 15 THEN 0 ELSE (x[2 + b \div 15] \div 2^(b % 15)) % 2
BitColumn(i, b)  == [t \in 1..Len(masks) |-> (Bit(masks[t][i], b) + Bit(masks[1][i], b)) % 2] \o <<>>
MaskColumn(i)    == [t \in 1..Len(masks) |-> masks[t][i]] \o <<>>
NoiseColumn(i, sg) == [t \in 1..Len(noises) |-> IF sg = 1 THEN noises[t][i] ELSE BNeg(noises[t][i])] \o <<>>
Independent == /\ (k >= 20 => Cardinality({MaskColumn(i) : i \in 1..n}) = n)
               /\ (k * n <= 800 => Cardinality({BitColumn(i, b) : i \in 1..n, b \in 0..(k - 1)}) = n * k)
               /\ (k >= 5 => Cardinality({NoiseColumn(i, sg) : i \in 1..n, sg \in {-1, 1}}) = 2 * n)
Cover == /\ IsEvent("cover") /\ Independent /\ cnt >= 64 /\ or = AllOnes /\ and = PZero(n) /\ (k >= 5 => neg = 1..n /\ pos = 1..n) /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][KeyGen \/ Start \/ Keys \/ AllKeys \/ Places \/ Pairs \/ Begin \/ Enc \/ EncX \/ Dec \/ Cover]_<<cvars, l>>
=============================================================================
