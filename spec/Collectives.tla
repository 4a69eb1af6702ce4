--------------------------- MODULE Collectives ---------------------------
(***************************************************************************)
(* C02: an SPMD program of collective operations over NRanks ranks.  Every *)
(* rank executes the same program; a rank enters a collective by           *)
(* contributing its data and leaves it when MPI allows it to: scatter and  *)
(* bcast need the root, gather needs everybody on the root only,           *)
(* allgather and allreduce need everybody.  Scatter is, as in the code,    *)
(* two small broadcasts (data type and trailing shape) before the transfer.*)
(* Checked: every rank always gets the result the property demands, in     *)
(* every interleaving, and no interleaving deadlocks.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Partition

CONSTANTS NRanks, MaxTasks, Ops, MaxLen

Ranks == 0..(NRanks - 1)

\* ---------------------------------------------------------------- meaning
\* full data: sequence of task items (length n); locals: [rank -> sequence]
\* dims as sequence index r+1.
Chunk(full, m, p, r) == [i \in 1..Size(m, p, r) |-> full[Start(m, p, r) + i]]
ScatterResult(full, m, p, r) == Chunk(full, m, p, r)
GatherResult(locals) == FlattenSeq(locals)                \* locals in rank order
ReduceResult(locals) == [i \in DOMAIN locals[1] |-> FoldLeft(LAMBDA a, b : a + b, 0, [r \in DOMAIN locals |-> locals[r][i]])]

\* ---------------------------------------------------------------- machine
VARIABLES n, prog, pc, phase, contrib, result
cvars == <<n, prog, pc, phase, contrib, result>>

\* an operation is [kind, root]; scatter expands into the three transfers of the implementation
Expand(op) == IF op.kind = "scatter"
              THEN << [kind |-> "bcast", root |-> op.root], [kind |-> "bcast", root |-> op.root], op >>
              ELSE << op >>
Steps == FlattenSeq([i \in DOMAIN prog |-> Expand(prog[i])])

Full(k) == [i \in 1..n |-> 10 * k + i]                     \* distinct item per task and step
MyBlock(k, r) == Chunk(Full(k), n, NRanks, r)
Input(k, r) == LET s == Steps[k] IN
  CASE s.kind = "scatter"  -> IF r = s.root THEN Full(k) ELSE <<>>
    [] s.kind = "bcast"    -> IF r = s.root THEN <<k, s.root>> ELSE <<>>
    [] s.kind = "gather"   -> MyBlock(k, r)
    [] s.kind = "allgather"-> MyBlock(k, r)
    [] s.kind = "allreduce"-> <<r + 1, (r + 1) * k>>

CInit == /\ n \in 0..MaxTasks
         /\ prog \in UNION {[1..l -> [kind : Ops, root : Ranks]] : l \in 1..MaxLen}
         /\ \A i \in DOMAIN prog : prog[i].kind \in {"allgather", "allreduce"} => prog[i].root = 0
         /\ pc = [r \in Ranks |-> 1]
         /\ phase = [r \in Ranks |-> "outside"]
         /\ contrib = [k \in 1..Len(Steps) |-> [r \in Ranks |-> [in |-> FALSE, d |-> <<>>]]]
         /\ result = [r \in Ranks |-> <<>>]

Enter(r) == /\ phase[r] = "outside" /\ pc[r] <= Len(Steps)
            /\ contrib' = [contrib EXCEPT ![pc[r]][r] = [in |-> TRUE, d |-> Input(pc[r], r)]]
            /\ phase' = [phase EXCEPT ![r] = "inside"]
            /\ UNCHANGED <<n, prog, pc, result>>

Entered(k, r) == contrib[k][r].in
MayLeave(k, r) == LET s == Steps[k] IN
  CASE s.kind \in {"scatter", "bcast"} -> Entered(k, s.root)
    [] s.kind = "gather" -> (r = s.root) => \A x \in Ranks : Entered(k, x)
    [] OTHER -> \A x \in Ranks : Entered(k, x)
InOrder(k) == [i \in 1..NRanks |-> contrib[k][i - 1].d]
Value(k, r) == LET s == Steps[k] IN
  CASE s.kind = "scatter"   -> ScatterResult(contrib[k][s.root].d, n, NRanks, r)
    [] s.kind = "bcast"     -> contrib[k][s.root].d
    [] s.kind = "gather"    -> IF r = s.root THEN GatherResult(InOrder(k)) ELSE <<>>
    [] s.kind = "allgather" -> GatherResult(InOrder(k))
    [] s.kind = "allreduce" -> ReduceResult(InOrder(k))

Leave(r) == /\ phase[r] = "inside" /\ MayLeave(pc[r], r)
            /\ result' = [result EXCEPT ![r] = Append(@, Value(pc[r], r))]
            /\ pc' = [pc EXCEPT ![r] = @ + 1]
            /\ phase' = [phase EXCEPT ![r] = "outside"]
            /\ UNCHANGED <<n, prog, contrib>>

Finished == \A r \in Ranks : pc[r] > Len(Steps)
Done == Finished /\ UNCHANGED cvars
CNext == (\E r \in Ranks : Enter(r) \/ Leave(r)) \/ Done
CSpec == CInit /\ [][CNext]_cvars

\* ---------------------------------------------------------------- properties
Tri == (NRanks * (NRanks + 1)) \div 2
Wanted(k, r) == LET s == Steps[k] IN
  CASE s.kind = "scatter"   -> MyBlock(k, r)
    [] s.kind = "bcast"     -> <<k, s.root>>
    [] s.kind = "gather"    -> IF r = s.root THEN Full(k) ELSE <<>>
    [] s.kind = "allgather" -> Full(k)
    [] s.kind = "allreduce" -> <<Tri, k * Tri>>
Correct == \A r \in Ranks : \A k \in DOMAIN result[r] : result[r][k] = Wanted(k, r)
BlocksOk == Admissible(n, [i \in 1..NRanks |-> Block(n, NRanks, i - 1)])
\* a rank can only be ahead of another by what the root-driven collectives allow; nobody passes a full synchronization early
SyncPoint == \A r, x \in Ranks : \A k \in 1..Len(Steps) :
   (pc[r] > k /\ Steps[k].kind \in {"allgather", "allreduce"}) => pc[x] >= k /\ Entered(k, x)

\* programs for the replay into the implementation
EmitPrograms == (phase = [r \in Ranks |-> "outside"] /\ \A r \in Ranks : pc[r] = 1) =>
                PrintT(<<"BEH", ToJson([n |-> n, prog |-> prog])>>)
=============================================================================
