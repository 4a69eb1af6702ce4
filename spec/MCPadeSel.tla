----------------------------- MODULE MCPadeSel -----------------------------
(* Choosing the continuations that are averaged: they arrive one after another, unphysical ones are dropped, and of the kept ones the nearest to *)
(* all others are averaged.  Values are the imaginary parts at one energy (an integer; positive means unphysical).                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, V, Fallback
VARIABLES seen, kept, sel, phase
vars == <<seen, kept, sel, phase>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(n, f) == IF n = 0 THEN 0 ELSE f[n] + Sum(n - 1, f)
Dist == [i \in 1..Len(kept) |-> Sum(Len(kept), [j \in 1..Len(kept) |-> Abs(kept[i] - kept[j])])]
Init == seen = 0 /\ kept = <<>> /\ sel = {} /\ phase = "collect"
Continue == /\ phase = "collect" /\ seen < MaxN /\ seen' = seen + 1
            /\ \E v \in 0..V : kept' = IF v = V THEN kept ELSE Append(kept, -v)          \* V stands for an unphysical one
            /\ UNCHANGED <<sel, phase>>
Choose == /\ phase = "collect" /\ seen = MaxN
          /\ IF kept = <<>> THEN phase' = "rejected" /\ sel' = {}
             ELSE IF Len(kept) = 1 THEN phase' = "done" /\ sel' = {1}
             ELSE LET n == Len(kept) d == Dist total == Sum(n, d) L == (51 * n) \div 100
                      near == {i \in 1..n : 100 * n * d[i] <= 99 * total} IN
                  \E low \in {s \in SUBSET (1..n) : Cardinality(s) = L /\ \A i \in s, j \in (1..n) \ s : d[i] <= d[j]} :
                     /\ sel' = IF Fallback /\ low \cap near = {} THEN low ELSE low \cap near
                     /\ phase' = "done"
          /\ UNCHANGED <<seen, kept>>
Next == Continue \/ Choose
Spec == Init /\ [][Next]_vars
\* there is always something to average, no selected continuation is farther from the others than a rejected one, and at most 51 per cent are selected
NonEmpty == phase = "done" => sel # {}
Nearest == phase = "done" => LET d == Dist IN \A i \in sel, j \in (1..Len(kept)) \ sel : d[i] <= d[j]
NotMost == phase = "done" /\ Len(kept) > 1 => 100 * Cardinality(sel) <= 51 * Len(kept)
Physical == \A i \in 1..Len(kept) : kept[i] <= 0
Rejected == phase = "rejected" => kept = <<>>
=============================================================================
