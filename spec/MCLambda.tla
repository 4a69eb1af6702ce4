----------------------------- MODULE MCLambda -----------------------------
(***************************************************************************)
(* C13 design: the search for the lambda that restores the sum rule.       *)
(* Positions are counted from the pole of the static susceptibility (0);   *)
(* the physical root lies right of it.  The sum is convex and decreasing   *)
(* there, so a Newton step from the left of the root ends in (x, Root],    *)
(* from the right it may end anywhere further left, also beyond the pole.  *)
(* The search starts at Delta0, and whenever a step leads to the left it   *)
(* is undone and the search restarts at half the distance from the pole.   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Max
VARIABLES root, x, delta, done
vars == <<root, x, delta, done>>
Half(d) == IF d > 1 THEN d \div 2 ELSE 1      \* the grid is finer than any root of interest
Init == root \in 1..Max /\ delta \in 1..Max /\ x = delta /\ done = FALSE
NewtonTargets == IF x < root THEN (x + 1)..root ELSE (-Max)..(x - 1)
Step == /\ ~done
        /\ IF x = root THEN done' = TRUE /\ UNCHANGED <<root, x, delta>>
           ELSE /\ UNCHANGED <<root, done>>
                /\ \E y \in NewtonTargets :
                     IF y < x THEN delta' = Half(delta) /\ x' = Half(delta)
                     ELSE x' = y /\ UNCHANGED delta
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
\* the sum is never evaluated at or beyond the pole
RightOfPole == x > 0
\* the search ends, on the physical root
Converges == <>(done /\ x = root)
\* once left of the root the search only moves towards it
Monotone == [][x < root => x' > x \/ x' = x]_vars
=============================================================================
