-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Fixed-point complex arithmetic with 20 binary digits: x is recorded as  *)
(* round(x * 2^20).  Factors must satisfy |x| < 16 (WOk refuses recorded   *)
(* arrays beyond that); products are formed from 12-bit halves and stay in *)
(* TLC's 32-bit range.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num

WUnit == 1048576
WR(x, y) == \* x * y / 2^20, rounded
  LET a == x \div 4096 b == x % 4096 c == y \div 4096 d == y % 4096 IN
  (a * c * 16) + (((a * d) + (b * c) + ((b * d) \div 4096) + 128) \div 256)
WMul(x, y) == <<WR(x[1], y[1]) - WR(x[2], y[2]), WR(x[1], y[2]) + WR(x[2], y[1])>>
WScale(r, x) == <<WR(r, x[1]), WR(r, x[2])>>          \* by a real number (fixed point)
WDiv(x, n) == <<x[1] \div n, x[2] \div n>>            \* by a positive integer
WOneC == <<WUnit, 0>>
WIn(x) == Abs(x[1]) < 16777216 /\ Abs(x[2]) < 16777216
WOk(a) == \A i \in DOMAIN a.re : Abs(a.re[i]) < 16777216 /\ Abs(a.im[i]) < 16777216
WNear(x, y, tol) == Abs(x[1] - y[1]) <= tol /\ Abs(x[2] - y[2]) <= tol
=============================================================================
