------------------------------- MODULE Bloch -------------------------------
(***************************************************************************)
(* Tight-binding Hamiltonians on a momentum mesh (C15).  A table is a      *)
(* sequence of lattice vectors R with hoppings t[a][b] and degeneracy w:   *)
(*      H(k)[a][b] = sum_R t_R[a][b] exp(i k R) / w_R                      *)
(* On the mesh k_d = 2 pi j_d / n_d the phase is a 120th root of unity     *)
(* when every n_d divides 120; exact on meshes whose n_d divide 4.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num
One == 1000000
Quarter == <<1000000, 998630, 994522, 987688, 978148, 965926, 951057, 933580, 913545, 891007, 866025, 838671, 809017, 777146, 743145, 707107, 669131, 629320, 587785, 544639, 500000, 453990, 406737, 358368, 309017, 258819, 207912, 156434, 104528, 52336, 0>>
Cos120(p) == LET m == p % 120 IN IF m <= 30 THEN Quarter[m + 1] ELSE IF m <= 60 THEN -Quarter[61 - m] ELSE IF m <= 90 THEN -Quarter[m - 59] ELSE Quarter[121 - m]
Phase(p) == <<Cos120(p), Cos120(p - 30)>>
PhaseIx(nk, R, j) == LET s(d) == (R[d] * j[d] * (120 \div nk[d])) % 120 IN (s(1) + s(2) + s(3)) % 120
\* sum of n table rows, each divided by its degeneracy, times D (a multiple of all degeneracies); result in units of 1 / (D One)
HSum(nk, j, n, D, w(_), R(_), t(_)) == SumC(n, LAMBDA i : CMul(CScale(D \div w(i), t(i)), Phase(PhaseIx(nk, R(i), j))))
\* derivative with respect to the (reduced) momentum component d
DSum(nk, j, n, D, w(_), R(_), t(_), d) == SumC(n, LAMBDA i : CMul(CScale((D \div w(i)) * R(i)[d], CMul(CI, t(i))), Phase(PhaseIx(nk, R(i), j))))
SumAbs(n, D, w(_), t(_)) == SumInt(n, LAMBDA i : (D \div w(i)) * CAbs1(t(i)))

\* documented one-band models on the square lattice: neighbours and hopping (minus the amplitude), each vector once
SquareHops(tx, ty, d1, d2, tppx, tppy) ==
  {<<<<1, 0, 0>>, -tx>>, <<<<-1, 0, 0>>, -tx>>, <<<<0, 1, 0>>, -ty>>, <<<<0, -1, 0>>, -ty>>,
   <<<<1, 1, 0>>, -d1>>, <<<<-1, -1, 0>>, -d1>>, <<<<1, -1, 0>>, -d2>>, <<<<-1, 1, 0>>, -d2>>,
   <<<<2, 0, 0>>, -tppx>>, <<<<-2, 0, 0>>, -tppx>>, <<<<0, 2, 0>>, -tppy>>, <<<<0, -2, 0>>, -tppy>>}
SquareWithZ(h, tz) == h \cup {<<<<0, 0, 1>>, -tz>>, <<<<0, 0, -1>>, -tz>>}
SumHops(h, f(_)) == FoldLeft(LAMBDA a, b : CAdd(a, f(b)), CZero, SetToSeq(h))
HopsH(h, nk, j) == SumHops(h, LAMBDA x : CScale(x[2], Phase(PhaseIx(nk, x[1], j))))
HopsD(h, nk, j, d) == SumHops(h, LAMBDA x : CScale(x[2] * x[1][d], CMul(CI, Phase(PhaseIx(nk, x[1], j)))))
\* Emery model: orbitals d (1), px (2), py (3);  <<from cell R, a, b, value>>
EmeryHops(ed, ep, tpd, tpp, tq) ==
  {<<<<0,0,0>>, 1, 1, ed>>, <<<<0,0,0>>, 2, 2, ep>>, <<<<0,0,0>>, 3, 3, ep>>,
   <<<<0,0,0>>, 1, 2, tpd>>, <<<<0,0,0>>, 2, 1, tpd>>, <<<<0,0,0>>, 1, 3, tpd>>, <<<<0,0,0>>, 3, 1, tpd>>,
   <<<<-1,0,0>>, 1, 2, -tpd>>, <<<<0,-1,0>>, 1, 3, -tpd>>, <<<<1,0,0>>, 2, 1, -tpd>>, <<<<0,1,0>>, 3, 1, -tpd>>,
   <<<<0,0,0>>, 2, 3, tpp>>, <<<<1,0,0>>, 2, 3, -tpp>>, <<<<0,-1,0>>, 2, 3, -tpp>>, <<<<1,-1,0>>, 2, 3, tpp>>,
   <<<<0,0,0>>, 3, 2, tpp>>, <<<<-1,0,0>>, 3, 2, -tpp>>, <<<<0,1,0>>, 3, 2, -tpp>>, <<<<-1,1,0>>, 3, 2, tpp>>,
   <<<<1,0,0>>, 2, 2, tq>>, <<<<-1,0,0>>, 2, 2, tq>>, <<<<0,1,0>>, 3, 3, tq>>, <<<<0,-1,0>>, 3, 3, tq>>}
EmeryH(h, nk, j, a, b) == SumHops({x \in h : x[2] = a /\ x[3] = b}, LAMBDA x : CScale(x[4], Phase(PhaseIx(nk, x[1], j))))
EmeryD(h, nk, j, a, b, d) == SumHops({x \in h : x[2] = a /\ x[3] = b}, LAMBDA x : CScale(x[4] * x[1][d], CMul(CI, Phase(PhaseIx(nk, x[1], j)))))
=============================================================================
