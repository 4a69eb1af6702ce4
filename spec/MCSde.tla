------------------------------- MODULE MCSde -------------------------------
(***************************************************************************)
(* C12 design: the momenta of the Brillouin zone are split over ranks and  *)
(* accumulated by each rank in any order; the partial self-energies are    *)
(* then added.  Whatever the split and the order, the total is the         *)
(* Schwinger-Dyson sum over the full zone; and if kernel and Green's       *)
(* function do not depend on momentum it is the local sum at every k.      *)
(***************************************************************************)
EXTENDS Sde, FiniteSets, TLC
CONSTANTS Ranks, NK, Vals, WSet, Local
Ks == {<<a, b, 0>> : a \in 0..(NK - 1), b \in 0..0}
mesh == <<NK, 1, 1>>
VARIABLES g, kern, own, todo, acc
vars == <<g, kern, own, todo, acc>>
Ws == SetToSeq(WSet)
Vs == -1..0
GRange == -2..0
G(k, v) == <<g[IF Local THEN 0 ELSE k[1]][v], 1>>
K(q, w) == <<kern[IF Local THEN 0 ELSE q[1]], w>>
Term(q) == [k \in Ks |-> [v \in Vs |-> SdeAt(mesh, <<q>>, Ws, LAMBDA i, j, x : K(q, Ws[j]), G, k, v)]]
Init == /\ g \in [0..(NK - 1) -> [GRange -> Vals]]
        /\ kern \in [0..(NK - 1) -> Vals]
        /\ (Local => \A i \in 1..(NK - 1) : g[i] = g[0] /\ kern[i] = kern[0])
        /\ own \in [Ks -> Ranks]
        /\ todo = Ks
        /\ acc = [r \in Ranks |-> [k \in Ks |-> [v \in Vs |-> CZero]]]
Step(q) == LET t == Term(q) r == own[q] IN
           /\ todo' = todo \ {q}
           /\ acc' = [acc EXCEPT ![r] = [k \in Ks |-> [v \in Vs |-> CAdd(acc[r][k][v], t[k][v])]]]
           /\ UNCHANGED <<g, kern, own>>
Next == \E q \in todo : Step(q)
Spec == Init /\ [][Next]_vars
RankSeq == SetToSeq(Ranks)
Total(k, v) == SumC(Len(RankSeq), LAMBDA r : acc[RankSeq[r]][k][v])
QSeq == SetToSeq(Ks)
Whole == todo = {} => \A k \in Ks, v \in Vs : Total(k, v) = SdeAt(mesh, QSeq, Ws, LAMBDA i, j, x : K(QSeq[i], Ws[j]), G, k, v)
LocalLimit == (Local /\ todo = {}) => \A k \in Ks, v \in Vs :
  Total(k, v) = CScale(NK, SumC(Len(Ws), LAMBDA j : CMul(K(<<0, 0, 0>>, Ws[j]), G(k, v - Ws[j]))))
=============================================================================
