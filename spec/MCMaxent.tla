------------------------------ MODULE MCMaxent ------------------------------
(* Choosing the weight of the entropy.  A table gives the entropy and the misfit of each candidate spectrum; at weight alpha the candidate maximising alpha S - chi2/2 is  *)
(* returned.  The search walks the weights downwards; any subset of the optimisations may fail (they are left out of the record and the start stays at the last success).    *)
EXTENDS Integers, Sequences, FiniteSets, Maxent
CONSTANTS NCand, VMax, EFirst, ELast, Lost
VARIABLES tab, failed, step, start, alphas, results, phase
vars == <<tab, failed, step, start, alphas, results, phase>>
Cands == 1..NCand
\* candidate 1 is the default model: entropy 0, the others have negative entropy; entropies and misfits in units, alpha = 2^e
Tables == {t \in [Cands -> (0..VMax) \X (0..VMax)] : t[1][1] = 0 /\ \A i \in Cands : i # 1 => t[i][1] > 0}
Cost(t, i, e) == ((2 ^ e) * t[i][1] * 2) + t[i][2]         \* 2 (-alpha S) + chi2
Best(t, e) == CHOOSE i \in Cands : \A j \in Cands : Cost(t, i, e) < Cost(t, j, e) \/ (Cost(t, i, e) = Cost(t, j, e) /\ i <= j)
Init == /\ tab \in Tables /\ failed \in SUBSET (ELast..EFirst)
        /\ step = EFirst /\ start = 1 /\ alphas = <<>> /\ results = <<>> /\ phase = "walk"
Walk == /\ phase = "walk"
        /\ IF step \in failed
           THEN /\ UNCHANGED <<start, results>> /\ alphas' = IF Lost THEN Append(alphas, step) ELSE alphas
           ELSE /\ start' = Best(tab, step) /\ results' = Append(results, Best(tab, step)) /\ alphas' = Append(alphas, step)
        /\ IF step = ELast THEN phase' = "done" /\ step' = step ELSE phase' = "walk" /\ step' = step - 1
        /\ UNCHANGED <<tab, failed>>
Next == Walk
Spec == Init /\ [][Next]_vars
\* the record of weights belongs entry by entry to the record of results
Aligned == Len(alphas) = Len(results) /\ \A i \in DOMAIN results : results[i] = Best(tab, alphas[i])
\* a smaller weight never fits worse and never has more entropy
Monotone == \A i, j \in DOMAIN results : i < j => tab[results[j]][2] <= tab[results[i]][2] /\ tab[results[j]][1] >= tab[results[i]][1]
\* the default model survives when it fits as well as anything else
Default == (\A i \in Cands : tab[i][2] >= tab[1][2]) => \A i \in DOMAIN results : results[i] = 1
Record == phase = "done" => alphas = Kept(EFirst, ELast, failed)
StartsLast == start = IF results = <<>> THEN 1 ELSE results[Len(results)]
=============================================================================
