------------------------------ MODULE Optics ------------------------------
(***************************************************************************)
(* Current-current response (C23).  Everything is written without its      *)
(* prefactor: the code's bubble is -2/(beta Nk) times BubbleSum, its       *)
(* vertex part -2/(beta Nk)^2 times VertexSum.                             *)
(*   bubble(w) = sum_k lva(k) lvb(k) sum_v G(k,v+s1) G(k,v+s2)             *)
(*   vertex(w) = sum_q sum_k sum_w' sum_v                                  *)
(*        [lva G(v-w) G(v)](k) [lvb G(v-w') G(v-w'-w)](k+q) F(q,w',w,v)    *)
(* F(q,w',w,v) is the ladder vertex at momentum q, bosonic frequency w'    *)
(* and fermionic pair (v, v-w), conductivity combination of the channels:  *)
(*        F = - F_dens / 2 - 3 F_magn / 2                                  *)
(***************************************************************************)
EXTENDS Bloch

\* the two shifts of a frequency notation; their difference is w
Shifts(nt, w) == CASE nt = "plus" -> <<0, w>> [] nt = "minus" -> <<0, -w>> [] nt = "center" -> <<w \div 2, -((w \div 2) + (w % 2))>>

Mesh3(nk) == [i \in 1..(nk[1] * nk[2] * nk[3]) |-> <<(i - 1) \div (nk[2] * nk[3]), ((i - 1) \div nk[3]) % nk[2], (i - 1) % nk[3]>>]
AddK(nk, k, q) == [d \in 1..3 |-> (k[d] + q[d]) % nk[d]]

BubbleK(G(_, _), n, nt, w, k) == LET s == Shifts(nt, w) IN SumC(2 * n, LAMBDA i : LET v == i - 1 - n IN CMul(G(k, v + s[1]), G(k, v + s[2])))
BubbleSum(nk, lva(_), lvb(_), G(_, _), n, nt, w) ==
  LET ks == Mesh3(nk) IN SumC(Len(ks), LAMBDA i : CMul(CMul(lva(ks[i]), lvb(ks[i])), BubbleK(G, n, nt, w, ks[i])))

\* contribution of one transferred momentum q (its position iq in the list of momenta selects F)
VertexQ(nk, lva(_), lvb(_), G(_, _), F(_, _, _), n, wps, w, q) ==
  LET ks == Mesh3(nk) IN
  SumC(Len(ks), LAMBDA i : LET k == ks[i] p == AddK(nk, k, q) IN
    CMul(CMul(lva(k), lvb(p)), SumC(2 * n, LAMBDA x : LET v == x - 1 - n IN
      CMul(CMul(G(k, v - w), G(k, v)), SumC(Len(wps), LAMBDA j : CMul(CMul(G(p, v - wps[j]), G(p, v - wps[j] - w)), F(j, w, v)))))))
VertexSum(nk, lva(_), lvb(_), G(_, _), F(_, _, _, _), n, wps, w, qs) ==
  SumC(Len(qs), LAMBDA i : VertexQ(nk, lva, lvb, G, LAMBDA j, x, v : F(i, j, x, v), n, wps, w, qs[i]))

\* a one-sided bosonic list (w = 0..n) continued by chi(-w) = chi(w)*
Mirror(a, n, w) == IF w >= 0 THEN a[w + 1] ELSE CConj(a[-w + 1])

\* real-frequency bubble on any increasing integer mesh x (a sequence): for a frequency w of the bubble the integral runs over
\* those mesh points v for which v - w' and v + w' lie inside the mesh for every w' up to the largest one, wl (trapezoidal
\* rule); the Green's function between mesh points is the linear interpolation (data are chosen such that this is integer).
\* A = -Im G / pi and (den nf)(v) enter as given; the result carries the factor 2 den of trapezoid and Fermi function.
Nearest(x, y) == CHOOSE i \in DOMAIN x : /\ \A j \in DOMAIN x : Abs(x[i] - y) <= Abs(x[j] - y)
                                         /\ \A j \in DOMAIN x : Abs(x[j] - y) = Abs(x[i] - y) => i <= j
\* frequencies of the bubble: the points above the one at zero, below the one at the requested maximum wm
BubbleFreq(x, wm) == SubSeq(x, Nearest(x, 0) + 1, Nearest(x, wm) - 1)
Inside(x, wm) == LET l == x[Nearest(x, wm)] IN {i \in DOMAIN x : x[i] >= x[1] + l /\ x[i] <= x[Len(x)] - l}
Interp(x, g(_), y) ==
  LET i == CHOOSE i \in DOMAIN x : x[i] <= y /\ (i = Len(x) \/ x[i + 1] > y) IN
  IF x[i] = y THEN g(i)
  ELSE LET d == x[i + 1] - x[i] z == CAdd(CScale(x[i + 1] - y, g(i)), CScale(y - x[i], g(i + 1))) IN <<z[1] \div d, z[2] \div d>>
Trap(x, I, f(_)) == LET S == {i \in I : i + 1 \in I} lo == CHOOSE i \in S : \A j \in S : i <= j IN
  IF S = {} THEN CZero ELSE SumC(Cardinality(S), LAMBDA n : LET i == lo + n - 1 IN CScale(x[i + 1] - x[i], CAdd(f(i), f(i + 1))))
RealBubbleK(x, G(_, _), A(_, _), nf(_), wm, w, k) ==
  Trap(x, Inside(x, wm), LAMBDA i : CScale(nf(i), CMul(A(k, i), CAdd(Interp(x, LAMBDA j : G(k, j), x[i] + w), CConj(Interp(x, LAMBDA j : G(k, j), x[i] - w))))))
=============================================================================
