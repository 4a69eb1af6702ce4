------------------------------- MODULE MCHb -------------------------------
(* The happens-before relation that DgaRun evaluates on recorded runs is exactly what the semantics of the collectives allows: every short  *)
(* program of collectives, every interleaving.  Sound: ordered steps never overtake each other.  Tight: steps that are not ordered do.      *)
EXTENDS DgaRun, TLC, TLCExt
CONSTANTS N, L
Ranks == 0..(N - 1)
Ops == {[name |-> "allreduce", root |-> 0]} \cup {[name |-> x, root |-> r] : x \in {"bcast", "gather"}, r \in Ranks}
VARIABLES prog, left, in
vars == <<prog, left, in>>
Init == prog \in [1..L -> Ops] /\ left = [r \in Ranks |-> 0] /\ in = [r \in Ranks |-> FALSE]
Enter(r) == left[r] < L /\ ~in[r] /\ in' = [in EXCEPT ![r] = TRUE] /\ UNCHANGED <<prog, left>>
Entered(q, k) == left[q] >= k \/ (left[q] = k - 1 /\ in[q])
Leave(r) == /\ in[r] /\ \A q \in WaitsFor(prog[left[r] + 1], r, Ranks) : Entered(q, left[r] + 1)
            /\ left' = [left EXCEPT ![r] = @ + 1] /\ in' = [in EXCEPT ![r] = FALSE] /\ UNCHANGED prog
Next == (\E r \in Ranks : Enter(r) \/ Leave(r)) \/ ((\A r \in Ranks : left[r] = L) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* r may still perform a step of its slot a (after its first a collectives) although t may have performed one of slot b
Overtaken(r, a, t, b) == left[t] >= b /\ (left[r] < a \/ (left[r] = a /\ ~in[r]))
Sound == \A r, t \in Ranks : \A a \in 0..L : \A b \in (a + 1)..L : t \in Reach(prog, Ranks, r, a, b) => ~Overtaken(r, a, t, b)
\* tightness: the pairs that have been seen overtaking are collected in a register and compared at the end
Pairs == {<<r, a, t, b>> \in Ranks \X (0..L) \X Ranks \X (0..L) : a < b /\ r # t}
Seen == TLCGet(1)
Note == TLCSet(1, Seen \cup {<<prog, x>> : x \in {x \in Pairs : Overtaken(x[1], x[2], x[3], x[4])}})
ASSUME TLCSet(1, {})
Tight == \A p \in [1..L -> Ops] : \A x \in Pairs : (<<p, x>> \in Seen) <=> x[3] \notin Reach(p, Ranks, x[1], x[2], x[4])
=============================================================================
