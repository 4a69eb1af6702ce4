------------------------------ MODULE MCDerived ------------------------------
(* The extrapolation weights reproduce every polynomial of the order of the fit with coefficients in Co, and are polynomials of that order    *)
(* themselves (their differences of one order more vanish): the two conditions that characterise the best fit.  Any other integer weights over *)
(* the same factor (one or two entries displaced by up to Dev) violate one of them.  The quasiparticle weight is in (0, 1].                   *)
EXTENDS Derived, FiniteSets
CONSTANTS Co, Dev
VARIABLES t, c, w, moved
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Pol(cc, o, x) == SumInt(o + 1, LAMBDA k : cc[k] * Pow(x, k - 1))
RECURSIVE Diff(_, _)
Diff(s, k) == IF k = 0 THEN s ELSE Diff([i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]], k - 1)
NN == ExtrapTab[t][1][1]
OO == ExtrapTab[t][1][2]
Reproduces(ww, cc) == SumInt(NN, LAMBDA j : ww[j] * Pol(cc, OO, (2 * j) - 1)) = ExtrapTab[t][2] * cc[1]
Unit(k) == [i \in 1..4 |-> IF i = k THEN 1 ELSE 0]
Shape(ww) == NN <= OO + 1 \/ \A x \in DOMAIN Diff(ww, OO + 1) : Diff(ww, OO + 1)[x] = 0
Best(ww) == Shape(ww) /\ \A k \in 1..(OO + 1) : Reproduces(ww, Unit(k))
Init == t \in DOMAIN ExtrapTab /\ c \in [1..4 -> Co] /\ w = ExtrapTab[t][3] /\ moved = 0
Move(i, d) == moved < 2 /\ i <= Len(w) /\ w' = [w EXCEPT ![i] = @ + d] /\ moved' = moved + 1 /\ UNCHANGED <<t, c>>
Next == \E i \in 1..5, d \in Dev : Move(i, d) \/ Move(i, -d)
Spec == Init /\ [][Next]_<<t, c, w, moved>>
Exact == moved = 0 => Reproduces(w, c)
Unique == Best(w) <=> w = ExtrapTab[t][3]
Weight == moved > 0 \/ \A y \in {-400, -16, -1, 0, 1, 15, 16, 17, 90} : \A z \in {1, 2, 4, 8, 16, 32} :
  LET Y == (y * WUnit) \div 16 Z == (z * WUnit) \div 16 IN WeightOk(Z, Y, 2) => (Z > 0 /\ Z <= WUnit)
=============================================================================
