------------------------------- MODULE Ladder -------------------------------
(***************************************************************************)
(* C24: what one whole ladder run computes, from the DMFT input to the     *)
(* self-energy, as relations between input, results and witnesses.  All    *)
(* numbers are fixed point (Wide).  Inverses are multiplied out, so every  *)
(* relation is a finite sum of products.                                   *)
(*                                                                         *)
(* A problem p is a record                                                 *)
(*   nk, qs, wn     mesh, momenta of the q mesh (k-grid indices), -nw..nw  *)
(*   nv, sh         core window -nv..nv-1, shell of sh frequencies         *)
(*   b, u, ib2      beta, U, 1/beta^2 (fixed point)                        *)
(*   g(k, v)        lattice Green's function, gl(v) its momentum average   *)
(***************************************************************************)
EXTENDS Wide, FiniteSets, TLC

Full(p) == p.nv + p.sh
Core(p) == (-p.nv)..(p.nv - 1)
Box(p) == (-Full(p))..(Full(p) - 1)
WSum(n, f(_)) == SumC(n, f)
\* sum over the window -m..m-1
VSum(m, f(_)) == SumC(2 * m, LAMBDA i : f(i - 1 - m))
Near2(x, y, tol) == WNear(x, y, tol)
Chs == {"dens", "magn"}
Ur(p, ch) == IF ch = "dens" THEN p.u ELSE -p.u
Ub(p, ch) == WR(Ur(p, ch), p.ib2)

\* ------------------------------------------------------------------ one- and two-particle propagators
\* (i v + mu - ek - sigma) g = 1; iv, ek real numbers (fixed point), sigma complex
DysonR(iv, mu, ek, sig, g, tol) == WNear(WMul(<<mu - ek - sig[1], iv - sig[2]>>, g), WOneC, tol)
KAdd(nk, k, q) == [d \in 1..3 |-> (k[d] + q[d]) % nk[d]]
MeshOf(nk) == [i \in 1..(nk[1] * nk[2] * nk[3]) |-> <<(i - 1) \div (nk[2] * nk[3]), ((i - 1) \div nk[3]) % nk[2], (i - 1) % nk[3]>>]
\* bare bubble -beta <g(k, v) g(k + q, v - w)>
X0q(p, g(_, _), q, w, v) ==
  LET ks == MeshOf(p.nk) n == Len(ks)
      s == WSum(n, LAMBDA i : WMul(g(ks[i], v), g(KAdd(p.nk, ks[i], q), v - w))) IN CNeg(WScale(p.b, WDiv(s, n)))
X0l(p, gl(_), w, v) == CNeg(WScale(p.b, WMul(gl(v), gl(v - w))))

\* ------------------------------------------------------------------ vertices (x0 an operator of v, vertices in units 1/beta^2)
\* t = (1/x0 + ub)^-1 on the box
TildeR(m, t(_, _), x0(_), ub, tol) == \A i, j \in (-m)..(m - 1) :
  WNear(CAdd(t(i, j), WScale(ub, WMul(x0(i), VSum(m, LAMBDA y : t(y, j))))), IF i = j THEN x0(i) ELSE CZero, tol)
\* gam = gx^-1 - (core of t)^-1 + ub with the witness z = (core of t)^-1 gx
GammaR(n, gam(_, _), gx(_, _), t(_, _), z(_, _), ub, tol) == \A i, j \in (-n)..(n - 1) :
  /\ WNear(VSum(n, LAMBDA y : WMul(t(i, y), z(y, j))), gx(i, j), tol)
  /\ WNear(CAdd(VSum(n, LAMBDA y : WMul(CSub(gam(i, y), <<ub, 0>>), gx(y, j))), z(i, j)), IF i = j THEN WOneC ELSE CZero, tol)
\* three-leg vertex of the auxiliary susceptibility: vrg = x0^-1 sum aux
VrgR(n, vrg(_), gam(_, _), x0(_), ub, tol) == \A v \in (-n)..(n - 1) :
  WNear(CAdd(vrg(v), VSum(n, LAMBDA y : WMul(CSub(gam(v, y), <<ub, 0>>), WMul(x0(y), vrg(y))))), WOneC, tol)
\* auxiliary susceptibility summed over the core plus the bare bubble of the shell, / beta^2
AuxSum(p, vrg(_), x0(_)) ==
  WScale(p.ib2, CAdd(VSum(p.nv, LAMBDA y : WMul(x0(y), vrg(y))), CSub(VSum(Full(p), x0), VSum(p.nv, x0))))
PhysR(ur, chi, X, tol) == WNear(CAdd(chi, WMul(WScale(ur, X), chi)), X, tol)
LambdaR(chilam, chi, lam, tol) == WNear(CAdd(chilam, WScale(lam, WMul(chi, chilam))), chi, tol)
\* full vertex of the extended irreducible vertex: f + gam x0 f = gam
Ext(p, gam(_, _), ub, i, j) == IF i \in Core(p) /\ j \in Core(p) THEN gam(i, j) ELSE <<ub, 0>>
FullR(p, f(_, _), gam(_, _), x0(_), ub, tol) == LET m == Full(p) IN \A i, j \in Box(p) :
  WNear(CAdd(f(i, j), VSum(m, LAMBDA y : WMul(Ext(p, gam, ub, i, y), WMul(x0(y), f(y, j))))), Ext(p, gam, ub, i, j), tol)

\* ------------------------------------------------------------------ equation of motion
\* one channel: u_r/2 (1 - (1 - u_r chi) vrg)
Kern(ur, chi, vrg) == LET x == CSub(WOneC, WMul(CSub(WOneC, WScale(ur, chi)), vrg)) IN WDiv(WScale(ur, x), 2)
\* double counting: -u sum_v' f(v, v') x0(v')
Dc(p, f(_, _), x0(_), v) == CNeg(WScale(p.u, VSum(Full(p), LAMBDA y : WMul(f(v, y), x0(y)))))
\* the lattice self-energy before the local parts are exchanged; sd(q index, w index, v) the full kernel
Sig(p, ker(_, _, _), g(_, _), k, v) ==
  LET nq == Len(p.qs) nw == Len(p.wn)
      s == WSum(nq, LAMBDA q : WSum(nw, LAMBDA j : WMul(ker(q, j, v), g(KAdd(p.nk, k, p.qs[q]), v - p.wn[j])))) IN
  WScale(p.ib, WDiv(s, nq))
SigLoc(p, ker(_, _), gl(_), v) == WScale(p.ib, WSum(Len(p.wn), LAMBDA j : WMul(ker(j, v), gl(v - p.wn[j]))))
=============================================================================
