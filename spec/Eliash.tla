------------------------------- MODULE Eliash -------------------------------
(***************************************************************************)
(* C14: spectrum of a pairing kernel that is diagonal in lattice harmonics *)
(* and in the parity of the gap in frequency.  Harmonic classes: "s" (the  *)
(* constant), "x" (cos kx, sin kx), "y" (cos ky, sin ky), "r" (everything  *)
(* else, eigenvalue 0).  tab[class][parity] is the eigenvalue.             *)
(* A starting gap selects the levels the power iteration can see.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs_(x) == IF x < 0 THEN -x ELSE x
Pars == {"even", "odd"}
\* levels seen by a starting gap: records of class and parity
Support(k, v) ==
  IF k = "random" \/ v = "random" THEN {<<c, p>> : c \in {"s", "x", "y", "r"}, p \in (IF v = "random" THEN Pars ELSE {v})}
  ELSE IF k = "d-wave" THEN {<<c, v>> : c \in {"x", "y"}}
  ELSE IF k = "p-wave-x" THEN {<<"x", v>>} ELSE {<<"y", v>>}
Val(tab, l) == IF l[1] = "r" THEN 0 ELSE tab[l[1]][l[2]]
All == {<<c, p>> : c \in {"s", "x", "y", "r"}, p \in Pars}
\* largest magnitude with its sign; defined when no two values of opposite sign tie
Clear(vals) == \A a, b \in vals : (Abs_(a) = Abs_(b) /\ \A c \in vals : Abs_(c) <= Abs_(a)) => a = b
Dominant(vals) == CHOOSE a \in vals : \A b \in vals : Abs_(b) <= Abs_(a)
Largest(vals) == CHOOSE a \in vals : \A b \in vals : b <= a
Values(tab, ls) == {Val(tab, l) : l \in ls}
ShiftOf(tab, use) == LET d == Dominant(Values(tab, All)) IN IF use /\ d < 0 THEN d ELSE 0
\* vertex symmetrization: the singlet keeps the even, the triplet the odd part
Symmetrized(tab, channel) == [c \in DOMAIN tab |-> [p \in Pars |-> IF (p = "even") = (channel = "sing") THEN tab[c][p] ELSE 0]]
=============================================================================
