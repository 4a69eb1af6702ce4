----------------------------- MODULE MCOutputs -----------------------------
(* Every configuration: what a stage reads exists, and the files at the end are the promised ones. Early = TRUE: the intermediate vertices  *)
(* are removed with the ranks' files instead of after their last use (refuted).                                                            *)
EXTENDS Outputs
CONSTANTS N, Early
VARIABLES c, pc, files, missing
vars == <<c, pc, files, missing>>
B == {TRUE, FALSE}
Conf == {x \in [vrg : B, fq : B, keeppv : B, keepfq : B, pv : B, el : B, opt : B, bub : B, vert : B, cont : B, poly : B, keep : B] : Legal(x)}
St == LET s == Stages(c, N) IN IF Early THEN [s EXCEPT ![12].drops = @ \cup When(~c.keeppv, Pair) \cup When(~c.keepfq, Cond)] ELSE s
Init == c \in Conf /\ pc = 1 /\ files = {} /\ missing = {}
Next == /\ pc <= Len(St)
        /\ LET s == St[pc] IN
           /\ missing' = missing \cup When(s.on, s.reads \ files)
           /\ files' = IF s.on THEN (files \cup s.writes) \ s.drops ELSE files
        /\ pc' = pc + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
ReadsExist == missing = {}
EndsAsPromised == pc > Len(St) => files = Expected(c, N) /\ files \subseteq Universe(N)
=============================================================================
