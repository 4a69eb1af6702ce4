--------------------------- MODULE MC_Partition ---------------------------
(* C01 on the design: every task count and rank count up to the bound. *)
EXTENDS Partition
CONSTANTS N, P
VARIABLES n, p
Init == n \in 0..N /\ p \in 1..P
Next == UNCHANGED <<n, p>>
Spec == Init /\ [][Next]_<<n, p>>
Ok == Admissible(n, [r \in 1..p |-> Block(n, p, r - 1)])
\* the design is the only balanced ordered partition whose long blocks come last
LastLong == \A r \in 1..(p - 1) : Size(n, p, r - 1) <= Size(n, p, r)
=============================================================================
