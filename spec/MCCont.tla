------------------------------- MODULE MCCont -------------------------------
(* The points are scattered, each rank continues its own in turn with one controller, the results are gathered; the solver fails on any subset. *)
EXTENDS Cont, Partition, TLC, Json
CONSTANTS NMax, PMax, Retyped
VARIABLES n, p, fail, kind, niv, nfit, done, out, phase, res
vars == <<n, p, fail, kind, niv, nfit, done, out, phase, res>>
Ranks == 0..(p - 1)
Kinds == {"freq_fermionic", "freq_bosonic"}
Init == /\ n \in 1..NMax /\ p \in 1..PMax /\ fail \in SUBSET (1..n) /\ kind \in Kinds /\ niv \in 1..2
        /\ \E f \in 1..3 : nfit = [r \in Ranks |-> f]
        /\ done = [r \in Ranks |-> 0] /\ out = [r \in Ranks |-> <<>>] /\ phase = "run" /\ res = <<>>
Point(r) == Block(n, p, r)[done[r] + 1] + 1
\* one point: the controller keeps a cut-down number of frequencies for the following ones
Solve(r) == /\ phase = "run" /\ done[r] < Size(n, p, r)
            /\ nfit' = [nfit EXCEPT ![r] = CtMin(@, niv)]
            /\ out' = [out EXCEPT ![r] = Append(@, IF Point(r) \in fail THEN [id |-> 0, used |-> 0, type |-> IF Retyped THEN "real" ELSE TypeOf(kind)]
                                                                ELSE [id |-> Point(r), used |-> Used(kind, niv, nfit'[r]), type |-> TypeOf(kind)])]
            /\ done' = [done EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<n, p, fail, kind, niv, phase, res>>
\* the type of the array of a rank: that of its widest element; an empty array has the declared type
TypeOfRank(r) == IF \E i \in DOMAIN out[r] : out[r][i].type = "complex" THEN "complex" ELSE IF out[r] = <<>> /\ ~Retyped THEN TypeOf(kind) ELSE "real"
Gather == /\ phase = "run" /\ \A r \in Ranks : done[r] = Size(n, p, r)
          /\ IF \A r \in Ranks : Size(n, p, r) > 0 => TypeOfRank(r) = TypeOfRank(0)
             THEN phase' = "done" /\ res' = Concat([r \in 1..p |-> out[r - 1]])
             ELSE phase' = "mismatch" /\ UNCHANGED res
          /\ UNCHANGED <<n, p, fail, kind, niv, nfit, done, out>>
Next == Gather \/ \E r \in Ranks : Solve(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Isolated == phase = "done" => Len(res) = n /\ \A i \in 1..n : res[i].id = IF i \in fail THEN 0 ELSE i
SameWork == phase = "done" => \E f \in 1..3 : (\A r \in Ranks : nfit[r] <= f) /\ \A i \in 1..n : i \notin fail => res[i].used = Used(kind, niv, f)
Typed == phase # "mismatch" /\ (phase = "done" => \A i \in 1..n : res[i].type = TypeOf(kind))
Ends == <>(phase = "done")
Emit == phase = "done" => PrintT(<<"BEH", ToJson([n |-> n, p |-> p, fail |-> fail, kind |-> kind, niv |-> niv])>>)
View == <<n, p, fail, kind, niv, nfit, done, phase>>
=============================================================================
