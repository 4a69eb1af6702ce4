------------------------------ MODULE MCEliash ------------------------------
(***************************************************************************)
(* C14 design: power iteration with a spectral shift.  First the dominant  *)
(* value of the whole kernel is found from a random start; if it is        *)
(* negative it becomes the shift.  Then the iteration from the starting    *)
(* gap picks the level of largest |value - shift| in its support; each     *)
(* further eigenpair does the same without the levels already found.       *)
(***************************************************************************)
EXTENDS Eliash, TLC, Json
CONSTANTS Vals, NEig
V1 == {-3, 0, 2}
V2 == {-4, -1, 0, 2, 3}
V3 == {-2, 1, 3}
V4 == {-4, 0, 1, 3}
Starts == {<<"d-wave", "even">>, <<"d-wave", "odd">>, <<"p-wave-x", "odd">>, <<"p-wave-y", "even">>, <<"random", "random">>, <<"random", "even">>, <<"random", "odd">>}
VARIABLES tab, start, use, shift, left, lams, phase
vars == <<tab, start, use, shift, left, lams, phase>>
Init == /\ tab \in [{"s", "x", "y"} -> [Pars -> Vals]]
        /\ start \in Starts /\ use \in BOOLEAN
        /\ shift = 0 /\ left = Support(start[1], start[2]) /\ lams = <<>> /\ phase = "shift"
Shift == /\ phase = "shift"
         /\ (use => Clear(Values(tab, All)))
         /\ shift' = ShiftOf(tab, use) /\ phase' = "iterate" /\ UNCHANGED <<tab, start, use, left, lams>>
Shifted(l) == Val(tab, l) - shift
Pick == /\ phase = "iterate" /\ Len(lams) < NEig /\ left # {}
        /\ Clear({Shifted(l) : l \in left})
        /\ \E l \in left : /\ \A m \in left : Abs_(Shifted(m)) <= Abs_(Shifted(l))
                           /\ lams' = Append(lams, Val(tab, l)) /\ left' = left \ {l}
        /\ UNCHANGED <<tab, start, use, shift, phase>>
Next == Shift \/ Pick
Spec == Init /\ [][Next]_vars
\* the first eigenvalue is the largest of the sector whenever a shift was applied or the largest value dominates the sector
Leading == lams # <<>> =>
  LET vs == Values(tab, Support(start[1], start[2])) IN
  (shift < 0 \/ Dominant(vs) = Largest(vs)) => lams[1] = Largest(vs)
\* with a shift the eigenvalues come in decreasing order
Ordered == (shift < 0 /\ Len(lams) > 1) => \A i \in 1..(Len(lams) - 1) : lams[i] >= lams[i + 1]
Emit == (Len(lams) = 1) => PrintT(<<"BEH", ToJson([tab |-> tab, start |-> start, use |-> use, lam |-> lams[1], shift |-> shift])>>)
=============================================================================
