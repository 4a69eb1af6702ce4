------------------------------- MODULE Fix -------------------------------
(***************************************************************************)
(* Fixed-point complex arithmetic for quantities that are not integers:    *)
(* a value x is recorded as round(x * S).  |x| must stay below 46340 / S,  *)
(* the recorder turns anything larger (or NaN) into Bad, and FOk refuses   *)
(* arrays containing it, so no product leaves the 32-bit range of TLC.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Num

FOk(a) == \A i \in DOMAIN a.re : Abs(a.re[i]) <= 46340 /\ Abs(a.im[i]) <= 46340
RMul(S, a, b) == (a * b + (S \div 2)) \div S
FMul(S, a, b) == <<RMul(S, a[1], b[1]) - RMul(S, a[2], b[2]), RMul(S, a[1], b[2]) + RMul(S, a[2], b[1])>>
FOne(S) == <<S, 0>>
FNear(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
=============================================================================
