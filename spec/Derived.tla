------------------------------ MODULE Derived ------------------------------
(***************************************************************************)
(* C24: quantities a run derives from its susceptibilities, self-energies  *)
(* and pairing vertices.  Fixed point (Wide); inverses are witnesses that  *)
(* are multiplied out.                                                     *)
(***************************************************************************)
EXTENDS Wide, TLC

\* ---- extrapolation of the first n Matsubara frequencies (1, 3, 5, ... in units pi/beta) to zero by the polynomial of order o that fits
\* them best: integer weights over a common factor, <<n, o>> -> <<factor, weights>> (model checked: exact for polynomials of order o, and
\* itself a polynomial of order o in the frequency, which characterises the least-squares fit)
ExtrapTab == <<<<<<2, 1>>, 2, <<3, -1>>>>, <<<<3, 1>>, 12, <<13, 4, -5>>>>, <<<<4, 1>>, 20, <<17, 9, 1, -7>>>>, <<<<5, 1>>, 20, <<14, 9, 4, -1, -6>>>>,
  <<<<3, 2>>, 8, <<15, -10, 3>>>>, <<<<4, 2>>, 80, <<123, -19, -51, 27>>>>, <<<<5, 2>>, 280, <<366, 41, -114, -99, 86>>>>, <<<<4, 3>>, 16, <<35, -35, 21, -5>>>>,
  <<<<2, 0>>, 2, <<1, 1>>>>, <<<<3, 0>>, 3, <<1, 1, 1>>>>>>
ExtrapOf(n, o) == LET i == CHOOSE i \in DOMAIN ExtrapTab : ExtrapTab[i][1] = <<n, o>> IN ExtrapTab[i]
Extrap(n, o, f(_)) == LET e == ExtrapOf(n, o) IN SumInt(n, LAMBDA j : e[3][j] * f(j)) \div e[2]
\* linewidth, band shift and quasiparticle weight; y0 the extrapolation of Im s / nu
\* 1/(1 - y0) cut to [0, 1]; a vanishing weight is reported as one
WeightOk(z, y0, tol) == LET d == WUnit - y0 IN
  IF Abs(d) <= tol THEN (z = WUnit \/ Abs(WR(z, d) - WUnit) <= tol)
  ELSE IF d <= 0 THEN z = WUnit ELSE IF d <= WUnit THEN Abs(z - WUnit) <= tol ELSE Abs(WR(z, d) - WUnit) <= tol

\* ---- uniform static susceptibility: the ladder's value plus the part of the bare bubble beyond 2 m frequencies,
\*      its tail expanded to third order in 1/nu: sum over all nu of 1/nu^2 is (beta/2)^2, of 1/nu^4 is beta^4/48
\*      r(j) = 1/nu_j, j = 1..m; f2 = (mu - s0)^2 + <e^2> - s1, f3 = (mu - s0)^2 + <e e>  (uniform: <e_k e_k+0> = <e^2>)
StaticTail(m, r(_), b, ib, f2, f3) ==
  LET s2 == 2 * SumInt(m, LAMBDA j : WR(r(j), r(j)))
      s4 == 2 * SumInt(m, LAMBDA j : WR(WR(r(j), r(j)), WR(r(j), r(j)))) IN
  WR(ib, ((WR(b, b) \div 4) - s2) - WR((2 * f2) + f3, (WR(WR(b, b), WR(b, b)) \div 48) - s4))

\* ---- linearized gap equation of a run: -norm lam gap(k, v) = sum F(k - k', v, v') |G(k', v')|^2 gap(k', v')
\*      f(d, v, y): vertex divided by its largest entry, at the mesh difference d; rhs factor given with lam
GapR(n, nv, f(_, _, _), w(_, _), gap(_, _), lam, tol) == \A i \in 1..n, v \in 1..nv :
  WNear(SumC(n, LAMBDA p : SumC(nv, LAMBDA y : WMul(f(<<i, p>>, v, y), WScale(w(p, y), gap(p, y))))), CNeg(WScale(lam, gap(i, v))), tol)

\* ---- Ornstein-Zernike fit A / (xi^-2 + (q - Q)^2): amplitude A xi^2 times y = 1 / (1 + xi^2 (q - Q)^2)
OzWitness(n, y(_), x2, d2(_), tol) == \A i \in 1..n : Abs(WR(WUnit + WR(x2, d2(i)), y(i)) - WUnit) <= tol
OzCost(n, amp, y(_), chi(_)) == SumInt(n, LAMBDA i : LET r == WR(amp, y(i)) - chi(i) IN WR(r, r))
=============================================================================
