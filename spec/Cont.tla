-------------------------------- MODULE Cont --------------------------------
(***************************************************************************)
(* C21: analytic continuation of a list of momentum points.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CtMin(a, b) == IF a < b THEN a ELSE b
\* frequencies that enter: niv positive ones are known, nfit are asked for; the bosonic zero comes on top
Used(kind, niv, nfit) == CtMin(nfit, niv) + (IF kind = "freq_bosonic" THEN 1 ELSE 0)
\* positions (0-based) of the entries of a stored row (2 niv fermionic, 2 niv + 1 bosonic entries)
Entries(kind, niv, nfit) == [m \in 1..Used(kind, niv, nfit) |-> niv + m - 1]
\* their frequencies in units of pi / beta
Freqs(kind, niv, nfit) == [m \in 1..Used(kind, niv, nfit) |-> IF kind = "freq_bosonic" THEN 2 * (m - 1) ELSE (2 * m) - 1]
\* the number type of a spectrum on the real axis
TypeOf(kind) == IF kind = "freq_bosonic" THEN "real" ELSE "complex"
=============================================================================
