--------------------------- MODULE MC_Notation ---------------------------
(* C08 on the design: shift pairs and pp relabelings over all small indices *)
EXTENDS Matsubara
CONSTANT M
VARIABLES w, v, vp
Init == w \in (-M)..M /\ v \in (-M)..(M - 1) /\ vp \in (-M)..(M - 1)
Next == UNCHANGED <<w, v, vp>>
Spec == Init /\ [][Next]_<<w, v, vp>>
Shifts == \A n \in {"plus", "minus", "center"} : ShiftOk(n, w)
Pp == PhysicalPp(w, v, vp) /\ PhysicalPpCrossed(w, v, vp)
\* relabelings are injective in (v, v') at fixed w: recover v, v'
Inj == /\ LET x == PhIndexOfPp(w, v, vp) IN x[2] = v /\ x[3] = vp
       /\ LET x == PhIndexOfPpCrossed(w, v, vp) IN x[2] = v /\ x[2] - x[1] = vp
\* windows: within the pp windows used by the code no entry outside the stored window is addressed
WindowOk == \A niw \in 0..9, niv \in 1..9 :
   /\ LET n == Min2(niw \div 3, niv \div 3) m == (2 * niw + 1) \div 6 IN
        (w \in (-m)..m /\ v \in (-n)..(n - 1) /\ vp \in (-n)..(n - 1)) =>
          LET x == PhIndexOfPp(w, v, vp) IN x[1] \in (-niw)..niw /\ x[2] \in (-niv)..(niv - 1) /\ x[3] \in (-niv)..(niv - 1)
   /\ LET n == Min2(niw \div 2, niv \div 2) m == Min2((2 * niw + 1) \div 4, niv \div 2) IN
        (w \in (-m)..m /\ v \in (-n)..(n - 1) /\ vp \in (-n)..(n - 1)) =>
          LET x == PhIndexOfPpCrossed(w, v, vp) IN x[1] \in (-niw)..niw /\ x[2] \in (-niv)..(niv - 1) /\ x[3] \in (-niv)..(niv - 1)
=============================================================================
