----------------------------- MODULE MCFolders -----------------------------
(***************************************************************************)
(* C18 design: several runs (each with NRanks ranks) started at arbitrary  *)
(* times over a file system with arbitrary earlier folders.  The root rank *)
(* probes suffixes and creates the first free one; creation fails if some  *)
(* other run was faster, and the search starts again.  The other ranks     *)
(* learn the name by broadcast; nobody leaves before all sub-folders exist.*)
(***************************************************************************)
EXTENDS Folders, Json
CONSTANTS NRuns, NRanks, KMax, Poly
Runs == 1..NRuns
Ranks == 0..(NRanks - 1)
Free == -1
VARIABLES fs,      \* suffix -> owner (0: earlier history) or Free
          sub,     \* run -> sub-folders created
          pc,      \* run, rank -> stage
          cnt,     \* root's probe counter
          own,     \* run, rank -> suffix known to the rank, or Free
          old, sched
vars == <<fs, sub, pc, cnt, own, old, sched>>
Order == IF Poly THEN <<"Plots", "PolyFits", "Eliashberg", "Optics">> ELSE <<"Plots", "Eliashberg", "Optics">>
Init == /\ \E S \in SUBSET (0..KMax) : fs = [i \in 0..(KMax + NRuns + 1) |-> IF i \in S THEN 0 ELSE Free] /\ old = S
        /\ sub = [r \in Runs |-> 0] /\ cnt = [r \in Runs |-> 0] /\ own = [r \in Runs |-> [k \in Ranks |-> Free]]
        /\ pc = [r \in Runs |-> [k \in Ranks |-> IF k = 0 THEN "probe" ELSE "wait"]] /\ sched = <<>>
Log(r) == sched' = Append(sched, r)
Probe(r) == /\ pc[r][0] = "probe" /\ Log(r)
            /\ IF fs[cnt[r]] # Free THEN cnt' = [cnt EXCEPT ![r] = @ + 1] /\ UNCHANGED pc
               ELSE pc' = [pc EXCEPT ![r][0] = "mkdir"] /\ UNCHANGED cnt
            /\ UNCHANGED <<fs, sub, own, old>>
Mkdir(r) == /\ pc[r][0] = "mkdir" /\ Log(r)
            /\ IF fs[cnt[r]] = Free
               THEN fs' = [fs EXCEPT ![cnt[r]] = r] /\ own' = [own EXCEPT ![r][0] = cnt[r]] /\ pc' = [pc EXCEPT ![r][0] = "sub"] /\ UNCHANGED cnt
               ELSE cnt' = [cnt EXCEPT ![r] = 0] /\ pc' = [pc EXCEPT ![r][0] = "probe"] /\ UNCHANGED <<fs, own>>
            /\ UNCHANGED <<sub, old>>
Sub(r) == /\ pc[r][0] = "sub" /\ sub[r] < Len(Order) /\ sub' = [sub EXCEPT ![r] = @ + 1]
          /\ pc' = [pc EXCEPT ![r][0] = IF sub[r] + 1 = Len(Order) THEN "barrier" ELSE "sub"]
          /\ UNCHANGED <<fs, cnt, own, old, sched>>
Learn(r, k) == /\ pc[r][k] = "wait" /\ own[r][0] # Free /\ own' = [own EXCEPT ![r][k] = own[r][0]]
               /\ pc' = [pc EXCEPT ![r][k] = "barrier"] /\ UNCHANGED <<fs, sub, cnt, old, sched>>
Leave(r, k) == /\ pc[r][k] = "barrier" /\ \A j \in Ranks : pc[r][j] \in {"barrier", "done"}
               /\ pc' = [pc EXCEPT ![r][k] = "done"] /\ UNCHANGED <<fs, sub, cnt, own, old, sched>>
Done == (\A r \in Runs, k \in Ranks : pc[r][k] = "done") /\ UNCHANGED vars
Next == (\E r \in Runs : Probe(r) \/ Mkdir(r) \/ Sub(r) \/ \E k \in Ranks : (k # 0 /\ Learn(r, k)) \/ Leave(r, k)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fresh == \A r \in Runs, k \in Ranks : own[r][k] # Free => own[r][k] \notin old /\ fs[own[r][k]] = r
NoSharing == \A r, s \in Runs : r # s /\ own[r][0] # Free => own[r][0] # own[s][0]
Agree == \A r \in Runs, k \in Ranks : own[r][k] # Free => own[r][k] = own[r][0]
Smallest == \A r \in Runs : own[r][0] # Free => \A j \in 0..(own[r][0] - 1) : fs[j] # Free
Ready == \A r \in Runs, k \in Ranks : pc[r][k] = "done" => sub[r] = Len(Order) /\ own[r][k] # Free
OldKept == \A i \in old : fs[i] = 0
Names == {Suffixed("B", i) : i \in {j \in DOMAIN fs : fs[j] # Free}}
NamesOk == \A r \in Runs : own[r][0] # Free => SmallestFree("B", own[r][0], Names \ {Suffixed("B", j) : j \in {j \in DOMAIN fs : fs[j] # Free /\ j >= own[r][0]}})
Progress == <>(\A r \in Runs, k \in Ranks : pc[r][k] = "done")
View == <<fs, sub, pc, cnt, own, old>>
Emit == (\A r \in Runs, k \in Ranks : pc[r][k] = "done") => PrintT(<<"BEH", ToJson([old |-> old, sched |-> sched])>>)
=============================================================================
