----------------------------- MODULE HEMachine ------------------------------
(***************************************************************************)
(* Programs over ciphertext registers at several modulus sizes: the state  *)
(* is the key and the phase of every register.  Exact steps determine the  *)
(* next phase; rescaling allows any phase within its error.                *)
(***************************************************************************)
EXTENDS HE
CONSTANTS Reg, Lvl
VARIABLES n, size, key, ph          \* size[lv]: modulus size; ph[lv][r]: phase
hvars == <<n, size, key, ph>>
HSet(lv, d, v) == ph' = [ph EXCEPT ![lv][d] = v] /\ UNCHANGED <<n, size, key>>
HLoad(lv, d, v)   == PCanon(size[lv], v) /\ HSet(lv, d, v)
HCopy(lv, d, s)   == HSet(lv, d, ph[lv][s])
HZero(lv, d)      == HSet(lv, d, PZero(n))
HAdd(lv, d, s)    == HSet(lv, d, VMod(VAdd(ph[lv][d], ph[lv][s]), BPow2(size[lv])))
HSub(lv, d, s)    == HSet(lv, d, VMod(VSub(ph[lv][d], ph[lv][s]), BPow2(size[lv])))
HMulW(lv, d, w)   == HSet(lv, d, VMod(VScale(ph[lv][d], w), BPow2(size[lv])))
HMulP(lv, d, p)   == HSet(lv, d, PMul(size[lv], ph[lv][d], p))
HRescale(lv, d, s, v) == RescaleRel(size[lv], size[lv + 1], key, ph[lv][s], v) /\ HSet(lv + 1, d, v)
=============================================================================
