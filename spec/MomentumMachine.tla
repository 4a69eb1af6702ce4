-------------------------- MODULE MomentumMachine --------------------------
(***************************************************************************)
(* C06: histories of mesh operations on one function F(k): shifts by mesh  *)
(* vectors and by half a reciprocal vector, mesh <-> list.  Actions move   *)
(* stored values; the invariant says which F(k) every position holds.      *)
(***************************************************************************)
EXTENDS Brillouin, TLC, Json
CONSTANTS NK, Depth
VARIABLES vals, off, repr, hist
mvars == <<vals, off, repr, hist>>
Init == vals = [j \in 1..NTot(NK) |-> j - 1] /\ off = <<0, 0, 0>> /\ repr = "mesh" /\ hist = <<>>
Roll(v, q) == [j \in 1..NTot(NK) |-> v[Flat(NK, Minus(NK, Pt(NK, j - 1), q)) + 1]]
Shift(q) == /\ repr = "mesh" /\ vals' = Roll(vals, q) /\ off' = Plus(NK, off, q)
            /\ UNCHANGED repr /\ hist' = Append(hist, [o |-> "shift", q |-> q])
Half(S) == <<IF 1 \in S THEN NK[1] \div 2 ELSE 0, IF 2 \in S THEN NK[2] \div 2 ELSE 0, IF 3 \in S THEN NK[3] \div 2 ELSE 0>>
Pi(S) == /\ repr = "mesh" /\ vals' = Roll(vals, Half(S)) /\ off' = Plus(NK, off, Half(S))
         /\ UNCHANGED repr /\ hist' = Append(hist, [o |-> "pi", q |-> SetToSortSeq(S, LAMBDA a, b : a < b)])
ToList == repr = "mesh" /\ repr' = "list" /\ UNCHANGED <<vals, off>> /\ hist' = Append(hist, [o |-> "list", q |-> <<>>])
ToMesh == repr = "list" /\ repr' = "mesh" /\ UNCHANGED <<vals, off>> /\ hist' = Append(hist, [o |-> "mesh", q |-> <<>>])
Shifts == {<<1, 0, 0>>, <<0, -1, 0>>, <<2, 1, 1>>, <<-3, 5, -1>>}
Next == Len(hist) < Depth /\ ((\E q \in Shifts : Shift(q)) \/ (\E S \in {{1}, {2}, {1, 2}, {1, 2, 3}} : Pi(S)) \/ ToList \/ ToMesh)
Spec == Init /\ [][Next]_mvars
Holds == \A j \in DOMAIN vals : vals[j] = Flat(NK, Minus(NK, Pt(NK, j - 1), off))
Emit == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
