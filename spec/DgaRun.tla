------------------------------- MODULE DgaRun -------------------------------
(***************************************************************************)
(* C04: one whole ladder run on N ranks.                                   *)
(*                                                                         *)
(* Every rank executes its own sequence of steps: collective operations,   *)
(* and accesses to files and folders of the run.  Collectives follow MPI:  *)
(*   all  (barrier, allreduce, allgather)  nobody leaves before all entered*)
(*   out  (bcast, scatter)                 nobody leaves before the root   *)
(*                                         entered; the root may go on     *)
(*   in   (gather, reduce)                 the root leaves after all       *)
(*                                         entered; the others may go on   *)
(* The j-th collective of one rank belongs to the j-th of every other, so  *)
(* all ranks must issue the same sequence (else the run deadlocks or mixes *)
(* up data).                                                               *)
(*                                                                         *)
(* Two file accesses conflict if they name the same path, belong to        *)
(* different ranks and at least one creates, changes or removes it.  A run *)
(* is well ordered if of any two conflicting accesses one happens before   *)
(* the other in every schedule.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Kind(c) ==
  CASE c.name \in {"barrier", "allreduce", "allgather", "alltoall", "reduce_scatter"} -> "all"
    [] c.name \in {"bcast", "scatter"} -> "out"
    [] c.name \in {"gather", "reduce"} -> "in"
    [] OTHER -> "none"

\* ranks whose earlier steps rank t has waited for once it has left collective c
WaitsFor(c, t, Ranks) ==
  CASE Kind(c) = "all" -> Ranks
    [] Kind(c) = "out" -> {t, c.root}
    [] Kind(c) = "in" -> IF t = c.root THEN Ranks ELSE {t}
    [] OTHER -> {t}

\* Reach(colls, r, a, b): ranks t such that every step rank r made after its first a collectives (and before the next)
\* is over before any step that t makes after its first b collectives
Reach(colls, Ranks, r, a, b) ==
  FoldLeft(LAMBDA S, j : S \cup {t \in Ranks : WaitsFor(colls[j], t, Ranks) \cap S # {}}, {r}, [i \in 1..(b - a) |-> a + i])

\* access e is over before access f starts, in every schedule; e, f = [rank, at (collectives before), no (position on the rank)]
HB(colls, Ranks, e, f) ==
  IF e.rank = f.rank THEN e.no < f.no
  ELSE e.at < f.at /\ f.rank \in Reach(colls, Ranks, e.rank, e.at, f.at)

Changes(e) == e.kind \in {"write", "del", "mkdir"}
Conflict(e, f) == e.rank # f.rank /\ e.path = f.path /\ (Changes(e) \/ Changes(f))

\* ------------------------------------------------------------------ rules on a set of accesses
Races(colls, Ranks, E) ==
  {p \in E \X E : Conflict(p[1], p[2]) /\ ~HB(colls, Ranks, p[1], p[2]) /\ ~HB(colls, Ranks, p[2], p[1])}
\* whatever is read or removed was an input or has been written before, and not been removed since
Unwritten(colls, Ranks, E, inputs) ==
  {f \in E : /\ f.kind \in {"read", "del"} /\ f.path \notin inputs
             /\ ~\E e \in E : e.path = f.path /\ e.kind = "write" /\ HB(colls, Ranks, e, f)}
AfterRemoval(colls, Ranks, E) ==
  {f \in E : /\ f.kind # "write"
             /\ \E d \in E : /\ d.kind = "del" /\ d.path = f.path /\ d # f /\ HB(colls, Ranks, d, f)
                             /\ ~\E w \in E : w.kind = "write" /\ w.path = f.path /\ HB(colls, Ranks, d, w) /\ HB(colls, Ranks, w, f)}
\* a folder made during the run exists before anything in it is touched, and is made once
BeforeFolder(colls, Ranks, E) ==
  {f \in E : \E m \in E : m.kind = "mkdir" /\ m.path = f.dir /\ ~HB(colls, Ranks, m, f)}
MadeTwice(E) == {m \in E : m.kind = "mkdir" /\ \E o \in E : o.kind = "mkdir" /\ o.path = m.path /\ o # m}
=============================================================================
