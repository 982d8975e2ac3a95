------------------------------- MODULE Tr_C12 -------------------------------
(* Recorded switching keys and key switches; the state is the pair of keys and the switching key in use. *)
EXTENDS HE, TraceLib
VARIABLES n, k, sfr, sto, swk
cvars == <<n, k, sfr, sto, swk>>
TraceInit == l = 1 /\ n = 0 /\ k = 0 /\ sfr = <<>> /\ sto = <<>> /\ swk = <<>>
\* a key made by the library ("gen") or, with chosen noise and mask, by the driver ("own"): both must be switching keys
Key(nm) == /\ IsEvent(nm) /\ n' = Ev.n /\ k' = Ev.k /\ sfr' = Ev.sfr /\ sto' = Ev.sto /\ swk' = Ev.swk
           /\ Ternary(sto') /\ CtCanon(2 * k', n', swk') /\ SwkRel(k', sfr', sto', swk') /\ Ev.same
Gen == Key("gen") /\ (k' * n' >= 60 => swk'[2] # (IF swk = <<>> THEN <<>> ELSE swk[2]))
Own == Key("own")
Switch == /\ IsEvent("ks") /\ CtCanon(k, n, Ev.out) /\ Ev.same
          /\ SwitchRel(k, n, sto, Phase(k, Ev.ct, sfr), Phase(k, Ev.out, sto)) /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][Gen \/ Own \/ Switch]_<<cvars, l>>
=============================================================================
