------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Shared vocabulary of all specifications of this framework: Gaussian     *)
(* integers (exact complex arithmetic; drivers choose inputs whose exact   *)
(* results are Gaussian integers, or scale them), finite sums, arrays as   *)
(* recorded from the implementation, and Matsubara index conventions.      *)
(*                                                                         *)
(* A recorded array is [sh |-> <<n1,..,nd>>, re |-> flat, im |-> flat] in  *)
(* row-major order.  A value that is not a (scaled) integer, or is NaN or  *)
(* infinite, is recorded as Bad, which equals no expected value.           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets

Bad == 2147480000

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Div(a, b) == a \div b          \* floor division, as in Python

\* -------------------------------------------------- Gaussian integers
C(re, im) == <<re, im>>
CZero == <<0, 0>>
COne  == <<1, 0>>
CI    == <<0, 1>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CScale(s, a) == <<s * a[1], s * a[2]>>
CNeg(a) == <<-a[1], -a[2]>>
CConj(a) == <<a[1], -a[2]>>
CAbs1(a) == Abs(a[1]) + Abs(a[2])

\* i^n
IPow(n) == LET m == n % 4 IN
  IF m = 0 THEN <<1, 0>> ELSE IF m = 1 THEN <<0, 1>> ELSE IF m = 2 THEN <<-1, 0>> ELSE <<0, -1>>

\* -------------------------------------------------- finite sums
SumInt(n, f(_)) == FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..n |-> f(i)])
SumC(n, f(_)) == FoldLeft(LAMBDA a, b : <<a[1] + b[1], a[2] + b[2]>>, <<0, 0>>, [i \in 1..n |-> f(i)])
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* -------------------------------------------------- recorded arrays (indices start at 0)
Off2(sh, i, j) == i * sh[2] + j
Off3(sh, i, j, k) == (i * sh[2] + j) * sh[3] + k
Off4(sh, i, j, k, l) == ((i * sh[2] + j) * sh[3] + k) * sh[4] + l
Off5(sh, i, j, k, l, m) == (((i * sh[2] + j) * sh[3] + k) * sh[4] + l) * sh[5] + m
Off6(sh, i, j, k, l, m, n) == ((((i * sh[2] + j) * sh[3] + k) * sh[4] + l) * sh[5] + m) * sh[6] + n

A1(a, i) == <<a.re[i + 1], a.im[i + 1]>>
A2(a, i, j) == LET o == Off2(a.sh, i, j) + 1 IN <<a.re[o], a.im[o]>>
A3(a, i, j, k) == LET o == Off3(a.sh, i, j, k) + 1 IN <<a.re[o], a.im[o]>>
A4(a, i, j, k, l) == LET o == Off4(a.sh, i, j, k, l) + 1 IN <<a.re[o], a.im[o]>>
A5(a, i, j, k, l, m) == LET o == Off5(a.sh, i, j, k, l, m) + 1 IN <<a.re[o], a.im[o]>>
A6(a, i, j, k, l, m, n) == LET o == Off6(a.sh, i, j, k, l, m, n) + 1 IN <<a.re[o], a.im[o]>>

\* the multi-index (sequence of 0-based indices) of flat position o (0-based)
UnravelTail(sh) == [d \in 1..Len(sh) |-> FoldLeft(LAMBDA a, b : a * b, 1, SubSeq(sh, d + 1, Len(sh)))]
Unravel(sh, o) == LET t == UnravelTail(sh) IN [d \in 1..Len(sh) |-> (o \div t[d]) % sh[d]]
Ravel(sh, ix) == LET t == UnravelTail(sh) IN FoldLeft(LAMBDA a, b : a + b, 0, [d \in 1..Len(sh) |-> ix[d] * t[d]])
AtIx(a, ix) == LET o == Ravel(a.sh, ix) + 1 IN <<a.re[o], a.im[o]>>
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

Near(a, b, tol) == /\ a # Bad /\ b # Bad /\ Abs(a - b) <= tol
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)

IsArr(a) == DOMAIN a = {"sh", "re", "im"}
\* shape sh and every entry (addressed by its 0-based flat position) as given by f
ArrIs(a, sh, f(_)) ==
  /\ a.sh = sh
  /\ \A o \in 0..(Prod(sh) - 1) : <<a.re[o + 1], a.im[o + 1]>> = f(o)
ArrNear(a, sh, tol, f(_)) ==
  /\ a.sh = sh
  /\ \A o \in 0..(Prod(sh) - 1) : CNear(<<a.re[o + 1], a.im[o + 1]>>, f(o), tol)

\* -------------------------------------------------- Matsubara windows
\* fermionic window of half width n: indices -n .. n-1, stored at position v + n
VPos(n, v) == v + n
\* bosonic window: -n .. n stored at w + n
WPos(n, w) == w + n
VRange(n) == (-n)..(n - 1)
WRange(n) == (-n)..n
=============================================================================
