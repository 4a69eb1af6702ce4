------------------------------- MODULE T_Mpi -------------------------------
(* Conformance of the task distributor and its collectives (C01, C02).      *)
EXTENDS Conform, Partition, SequencesExt

Blocks(c) == [r \in 1..c.p |-> c.ranks[r].tasks]
Iota(a, b) == [i \in 1..(b - a) |-> a + i - 1]

PartitionFail(c) ==
  LET B == Blocks(c)
      lens == [r \in 1..c.p |-> Len(B[r])] IN
  (IF Len(c.ranks) # c.p THEN {"all ranks report"} ELSE
   (IF Covers(c.n, B) THEN {} ELSE {"blocks are exactly 0..n-1 in rank order"})
   \cup (IF Balanced(B) THEN {} ELSE {"block lengths differ by at most one"})
   \cup (IF \A r \in 1..c.p : c.ranks[r].sizes = lens THEN {} ELSE {"all ranks agree on the block lengths"})
   \cup (IF \A r \in 1..c.p : c.ranks[r].mysize = lens[r] THEN {} ELSE {"own size"})
   \cup (IF \A r \in 1..c.p : c.ranks[r].slice = B[r] THEN {} ELSE {"own slice"})
   \cup (IF \A r \in 1..c.p : c.ranks[r].ntasks = c.n /\ c.ranks[r].rank = r - 1 /\ c.ranks[r].size = c.p /\ (c.ranks[r].isroot = (r = 1))
         THEN {} ELSE {"rank identity"}))

\* many tasks: blocks given by first task and length
BigFail(c) ==
  LET R == c.ranks
      first(r) == FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..(r - 1) |-> R[i].tasks.len]) IN
  (IF first(c.p + 1) = c.n /\ \A r \in 1..c.p : R[r].tasks.dense /\ (R[r].tasks.len = 0 \/ R[r].tasks.first = first(r)) THEN {} ELSE {"blocks are exactly 0..n-1 in rank order"})
   \cup (IF \A a, b \in 1..c.p : R[a].tasks.len - R[b].tasks.len <= 1 THEN {} ELSE {"block lengths differ by at most one"})
   \cup (IF \A r \in 1..c.p : R[r].sizes = [i \in 1..c.p |-> R[i].tasks.len] THEN {} ELSE {"all ranks agree on the block lengths"})
   \cup (IF \A r \in 1..c.p : R[r].mysize = R[r].tasks.len /\ R[r].slice = R[r].tasks /\ R[r].ntasks = c.n THEN {} ELSE {"own size and slice"})

\* ------------------------------------------------------------ collectives
\* items: sequence of tasks, each item the flat sequence of its components
Items(rk) == rk.items
Conc(c, f(_)) == FlattenSeq([r \in 1..c.p |-> f(r)])
LocalLen(c, r) == c.sizes[r]
StartOf(c, r) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(c.sizes, 1, r - 1))
ChunkOf(c, full, r) == SubSeq(full, StartOf(c, r) + 1, StartOf(c, r) + c.sizes[r])
SumItems(c) == [i \in DOMAIN c.ranks[1].input |-> [e \in DOMAIN c.ranks[1].input[i] |->
                  FoldLeft(LAMBDA a, b : a + b, 0, [r \in 1..c.p |-> c.ranks[r].input[i][e]])]]

CollFail(c) ==
  LET R == 1..c.p
      allin == FlattenSeq([r \in R |-> c.ranks[r].input]) IN
  (IF Len(c.ranks) = c.p /\ \A r \in R : c.ranks[r].exc = "" THEN {} ELSE {"call completes on every rank"})
  \cup
  (IF Len(c.ranks) # c.p \/ \E r \in R : c.ranks[r].exc # "" THEN {} ELSE
   (CASE c.kind = "scatter" ->
          IF \A r \in R : c.ranks[r].out = ChunkOf(c, c.ranks[c.root + 1].input, r) THEN {} ELSE {"scatter gives each rank its own block"}
      [] c.kind = "gather" ->
          IF c.ranks[c.root + 1].out = allin THEN {} ELSE {"gather returns all blocks in task order on the root"}
      [] c.kind = "allgather" ->
          IF \A r \in R : c.ranks[r].out = allin THEN {} ELSE {"allgather returns all blocks in task order everywhere"}
      [] c.kind = "allreduce" ->
          IF \A r \in R : c.ranks[r].out = SumItems(c) THEN {} ELSE {"allreduce returns the elementwise sum everywhere"}
      [] c.kind = "bcast" ->
          IF \A r \in R : c.ranks[r].out = c.ranks[c.root + 1].input THEN {} ELSE {"bcast returns the root's object everywhere"})
   \cup (IF \A r \in R : c.ranks[r].same THEN {} ELSE {"inputs unchanged"})
   \cup (IF \A r \in R : (c.kind = "gather" /\ r # c.root + 1) \/ (c.ranks[r].dtype = c.dtype /\ c.ranks[r].rest = c.rest) THEN {} ELSE {"data type and trailing shape preserved"}))

Fail(c) == IF c.exc # "" THEN {"completes on every rank without an error or deadlock"}
           ELSE IF c.op = "partition" THEN PartitionFail(c)
           ELSE IF c.op = "bigpart" THEN BigFail(c) ELSE CollFail(c)
=============================================================================
