---------------------------- MODULE MCBubble ----------------------------
(***************************************************************************)
(* Design of the bubble: computing w >= 0 only and mirroring is the direct *)
(* computation; the three notations are relabelings of one another; the    *)
(* lattice bubble of a momentum-independent G is the local one.  Checked   *)
(* for every Green's function with values in a small set.                  *)
(***************************************************************************)
EXTENDS Bubble
CONSTANTS Nw, Vals, NV
VARIABLES g, w, v, notation
NB == NV + Nw + 1
Half == [1..NB -> Vals]
Sym(h) == [sh |-> <<2 * NB>>, re |-> [i \in 1..(2 * NB) |-> IF i > NB THEN h[i - NB][1] ELSE h[NB + 1 - i][1]],
                              im |-> [i \in 1..(2 * NB) |-> IF i > NB THEN h[i - NB][2] ELSE -h[NB + 1 - i][2]]]
Init == /\ g \in {Sym(h) : h \in Half} /\ w \in 0..Nw /\ v \in (-NV)..(NV - 1) /\ notation \in {"minus", "plus", "center"}
Next == UNCHANGED <<g, w, v, notation>>
MirrorOk == notation # "center" \/ w % 2 = 0   \* for odd w the center shifts are not mirror images: computed directly
Mirrored == MirrorOk => GG(g, notation, -w, v) = CConj(GG(g, notation, w, -v - 1))
Relabel == LET s == Shift(notation, w) IN GG(g, notation, w, v) = CMul(GAt(g, v + s[1]), GAt(g, v + s[1] + (IF notation = "plus" THEN w ELSE -w)))
Spec == Init /\ [][Next]_<<g, w, v, notation>>
ValsDef == {<<1, 2>>, <<-3, 1>>}
=============================================================================
