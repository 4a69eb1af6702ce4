------------------------------ MODULE Vertex ------------------------------
(***************************************************************************)
(* C10, C11: the vertex functions of one channel at one bosonic frequency  *)
(* (and momentum), characterised by the equations between them.  The       *)
(* arithmetic is a parameter: the same text is model checked over a finite *)
(* field (exact, exhaustive) and used with fixed-point numbers to judge    *)
(* values recorded from the implementation.                                *)
(*                                                                         *)
(* v ranges over 1..n.  x0[v] bare bubble, gam irreducible vertex / beta^2,*)
(* x generalized susceptibility, f full vertex / beta^2, ub = u_r / beta^2,*)
(* aux auxiliary susceptibility (irreducible vertex without the bare u_r). *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Eq(_, _), Zero, One

Sum(n, g(_)) == FoldLeft(LAMBDA a, b : Add(a, b), Zero, [i \in 1..n |-> g(i)])
Delta(i, j, e) == IF i = j THEN e ELSE Zero
All2(n, P(_, _)) == \A i, j \in 1..n : P(i, j)

\* x = (x0^-1 + gam)^-1, multiplied out from the right with x0
BSE(n, x, x0, gam) == All2(n, LAMBDA i, j :
  Eq(Add(x[i][j], Mul(Sum(n, LAMBDA y : Mul(x[i][y], gam[y][j])), x0[j])), Delta(i, j, x0[j])))
\* f = x0^-1 - x0^-1 x x0^-1
FullFromGchi(n, f, x, x0) == All2(n, LAMBDA i, j :
  Eq(Add(Mul(Mul(x0[i], f[i][j]), x0[j]), x[i][j]), Delta(i, j, x0[i])))
\* f = gam - f x0 gam
FullFromGamma(n, f, gam, x0) == All2(n, LAMBDA i, j :
  Eq(Add(f[i][j], Sum(n, LAMBDA y : Mul(Mul(f[i][y], x0[y]), gam[y][j]))), gam[i][j]))
MinusConst(n, m, c) == [i \in 1..n |-> [j \in 1..n |-> Sub(m[i][j], c)]]
\* the auxiliary susceptibility: BSE with gam - ub
Aux(n, aux, x0, gam, ub) == BSE(n, aux, x0, MinusConst(n, gam, ub))
RowSum(n, m, i) == Sum(n, LAMBDA j : m[i][j])
ColSum(n, m, j) == Sum(n, LAMBDA i : m[i][j])
TotalSum(n, m) == Sum(n, LAMBDA i : RowSum(n, m, i))
\* chi beta^2 = sum of all entries
Contracted(n, chib2, x) == Eq(chib2, TotalSum(n, x))
\* physical susceptibility with a larger bubble window: chi = (1/(aux + x0u - x0c) + u_r)^-1
Physical(chi, auxsum, chi0u, chi0c, ur) ==
  LET X == Sub(Add(auxsum, chi0u), chi0c) IN Eq(Add(chi, Mul(Mul(ur, X), chi)), X)
\* three-leg vertex from the auxiliary susceptibility; factor (1 - u_r chi_u)/(1 - u_r chi_as) when a tail is added
ThreeLeg(n, vrg, x0, sums, ur, chiu, chias) == \A i \in 1..n :
  Eq(Mul(Mul(vrg[i], x0[i]), Sub(One, Mul(ur, chias))), Mul(sums[i], Sub(One, Mul(ur, chiu))))
\* lambda vertex and its relation to the three-leg vertex; sg = +1 / -1 (density / magnetic)
Lambda(n, lam, x, x0, sg) == \A i \in 1..n :
  Eq(Add(Mul(Mul(sg, lam[i]), x0[i]), x0[i]), RowSum(n, x, i))
ThreeLegFromLambda(n, vrg, lam, sg, ur, chi) == \A i \in 1..n :
  Eq(Mul(vrg[i], Sub(One, Mul(ur, chi))), Add(One, Mul(sg, lam[i])))
\* full vertex / beta^2 from the auxiliary parts: x0 (f) x0 = x0 - aux + ub (1 - ur chi) (x0 vl)(x0 vr)
FullFromThreeLeg(n, f, aux, x0, vl, vr, ub, ur, chi) == All2(n, LAMBDA i, j :
  Eq(Add(Mul(Mul(x0[i], f[i][j]), x0[j]), aux[i][j]),
     Add(Delta(i, j, x0[i]), Mul(Mul(ub, Sub(One, Mul(ur, chi))), Mul(Mul(x0[i], vl[i]), Mul(x0[j], vr[j]))))))
\* core vertex extended by the bare interaction
Extended(n, m, gam, ub) == [i \in 1..(n + 2 * m) |-> [j \in 1..(n + 2 * m) |->
   IF i > m /\ i <= n + m /\ j > m /\ j <= n + m THEN gam[i - m][j - m] ELSE ub]]
CutSeq(s, n, m) == [i \in 1..n |-> s[i + m]]
Cut2(mm, n, m) == [i \in 1..n |-> [j \in 1..n |-> mm[i + m][j + m]]]
=============================================================================
