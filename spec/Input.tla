-------------------------------- MODULE Input --------------------------------
(***************************************************************************)
(* C19: the two-particle functions of a DMFT calculation on their way into *)
(* a run.  Stored box: 2W+1 bosonic, 2V fermionic frequencies; an entry is *)
(* named by its bosonic index -W..W and its odd fermionic frequencies      *)
(* 2n+1, so that the same entry has the same name in every box.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Bos(W) == (-W)..W
Odd(V) == {(2 * n) + 1 : n \in (-V)..(V - 1)}
Box(W, V) == Bos(W) \X Odd(V) \X Odd(V)
None == -1
\* request r = [w, v, sym] on a stored box b = [W, V]
Rejected(b, r) == (r.w # None /\ r.w > b.W) \/ (r.v # None /\ r.v > b.V)
After(b, r) == [W |-> IF r.w = None THEN b.W ELSE r.w, V |-> IF r.v = None THEN b.V ELSE r.v]
\* what an entry of the final object is made of: pairs of equal weight
Sources(e, sym) == IF sym THEN {e, <<e[1], e[3], e[2]>>} ELSE {e}
=============================================================================
