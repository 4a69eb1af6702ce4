---------------------------- MODULE Partition ----------------------------
(***************************************************************************)
(* C01: distribution of n tasks over p ranks.  Block(n,p,r) is what the    *)
(* design does (the last n % p ranks own one task more); Ok(...) is what   *)
(* any admissible distribution must satisfy.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Size(n, p, r) == n \div p + (IF r >= p - (n % p) THEN 1 ELSE 0)       \* r in 0..p-1
Start(n, p, r) == FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..r |-> Size(n, p, i - 1)])
Block(n, p, r) == [i \in 1..Size(n, p, r) |-> Start(n, p, r) + i - 1]

\* blocks: sequence (rank order) of sequences of tasks
Concat(blocks) == FlattenSeq(blocks)
Covers(n, blocks) == Concat(blocks) = [i \in 1..n |-> i - 1]
Balanced(blocks) == \A a, b \in DOMAIN blocks : Len(blocks[a]) - Len(blocks[b]) <= 1
Admissible(n, blocks) == Covers(n, blocks) /\ Balanced(blocks)
=============================================================================
