----------------------------- MODULE T_Eliash -----------------------------
(* Conformance of dga.eliashberg_equation (C14). *)
EXTENDS Conform, Eliash, Wide
If(b, name) == IF b THEN {} ELSE {name}
S == WUnit
FOk(a) == WOk(a)
FNear(a, b, tol) == WNear(a, b, tol)
Range3(nk) == {<<x, y, z>> : x \in 0..(nk[1] - 1), y \in 0..(nk[2] - 1), z \in 0..(nk[3] - 1)}
\* k-points as a sequence, in row-major order
KSeq(nk) == TLCEval([i \in 1..(nk[1] * nk[2] * nk[3]) |-> Unravel(nk, i - 1)])
At4(a, k, v) == A4(a, k[1], k[2], k[3], v)
At5(a, k, v, y) == A5(a, k[1], k[2], k[3], v, y)
Sub3(nk, k, p) == <<(k[1] - p[1]) % nk[1], (k[2] - p[2]) % nk[2], (k[3] - p[3]) % nk[3]>>
\* ------------------------------------------------------------------ kernels diagonal in harmonics: |G|^2 = 5, norm = 5 * 16
\* sum_k' v' 2 Gamma(k - k', v, v') gap(k', v') = 2 * 16 * lambda * gap(k, v);  gam2 holds 2 Gamma (integers)
SymGam(gam2, ch, k, v, y) == IF ch = "none" THEN CScale(2, At5(gam2, k, v, y))
                             ELSE IF ch = "sing" THEN CAdd(At5(gam2, k, v, y), At5(gam2, k, v, 1 - y)) ELSE CSub(At5(gam2, k, v, y), At5(gam2, k, v, 1 - y))
ApplySym(gam2, ch, gap, k, v) == LET Nk == SubSeq(gap.sh, 1, 3) ks == KSeq(Nk) IN SumC(Len(ks), LAMBDA i : SumC(2, LAMBDA y : CMul(SymGam(gam2, ch, Sub3(Nk, k, ks[i]), v, y - 1), At4(gap, ks[i], y - 1))))
Parity(gap, p) == \A k \in Range3(SubSeq(gap.sh, 1, 3)) : LET a == At4(gap, k, 0) b == At4(gap, k, 1) IN FNear(a, IF p = "even" THEN b ELSE CNeg(b), 1000)
Nonzero(gap) == \E i \in DOMAIN gap.re : Abs(gap.re[i]) + Abs(gap.im[i]) > 786432
\* momentum symmetry of the starting gap: harmonics cos kx, cos ky only (even, zero mean) / sin kx / sin ky
KSym(gap, kt) == \A z \in 0..(gap.sh[3] - 1) :
  LET g(x, y, v) == A4(gap, x % 4, y % 4, z, v) t == 1000 IN
  \A x, y \in 0..3, v \in 0..1 :
    CASE kt = "d-wave" -> FNear(g(x, y, v), g(-x, y, v), t) /\ FNear(g(x, y, v), g(x, -y, v), t) /\ FNear(g(x + 2, y + 2, v), CNeg(g(x, y, v)), t)
      [] kt = "p-wave-x" -> FNear(g(x, y, v), CNeg(g(-x, y, v)), t) /\ FNear(g(x, y, v), g(x, y + 1, v), t)
      [] kt = "p-wave-y" -> FNear(g(x, y, v), CNeg(g(x, -y, v)), t) /\ FNear(g(x, y, v), g(x + 1, y, v), t)
      [] OTHER -> TRUE
\* the sector's picture is unambiguous: one clear winner
Judge(tab, start, use, lam, im, gap, gam2, ch) ==
  LET sup == Support(start[1], start[2]) s == ShiftOf(tab, use)
      sh == {Val(tab, l) - s : l \in sup} win == Dominant(sh) + s IN
  IF ~FOk(gap) \/ gap.sh # SubSeq(gam2.sh, 1, 4) THEN {"the gap is finite and lives on the mesh"} ELSE
  If(Near(lam, 10000 * win, 3) /\ Near(im, 0, 3), "leading eigenvalue of the sector of the starting gap")
  \cup If(Nonzero(gap) /\ \A k \in Range3(SubSeq(gap.sh, 1, 3)), v \in 0..1 :
        FNear(ApplySym(gam2, ch, gap, k, v), CScale(2 * 2 * 16 * gap.sh[3] * win, At4(gap, k, v)), 65536), "gap equation")
  \cup If((start[2] = "random" \/ Parity(gap, start[2])) /\ ("random" \in {start[1], start[2]} \/ KSym(gap, start[1])), "the gap keeps the symmetry of the starting gap")
\* decided only when the winner is clear and not zero (otherwise the iteration has no unique limit)
Decidable(tab, start, use) ==
  LET s == ShiftOf(tab, use) sh == {Val(tab, l) - s : l \in Support(start[1], start[2])} IN
  /\ (use => Clear({Val(tab, l) : l \in All})) /\ Clear(sh) /\ Dominant(sh) # 0 /\ Dominant(sh) + s # 0
  \* components outside the sector grow slowly enough to stay rounding noise
  /\ \A l \in All : Abs_(Val(tab, l) - s) <= 3 * Abs_(Dominant(sh))
Diag(c) == IF ~Decidable(c.tab, c.start, c.use) THEN {}
           ELSE If(c.n = 1, "as many eigenvalues as requested") \cup If(c.same, "vertex, Green's function and starting gap unchanged")
                \cup Judge(c.tab, c.start, c.use, c.lam, c.im, c.gap, c.gam2, "none")
GapSym(ksym, ch) == <<ksym, IF ksym = "random" THEN "random" ELSE IF (ksym = "d-wave") = (ch = "sing") THEN "even" ELSE "odd">>
Lin(c) ==
  LET sym == IF c.channel = "sing" THEN c.symf[1] ELSE c.symf[2]
      tab == IF sym THEN Symmetrized(c.tab, c.channel) ELSE c.tab
      start == GapSym(c.ksym, c.channel) IN
  If(c.start = start, "singlet and triplet starting gaps have opposite frequency parity")
  \cup If(c.asked = <<"F_" \o c.channel \o "_pp">>, "the vertex of the channel is used")
  \cup (IF ~Decidable(tab, start, c.use) THEN {} ELSE Judge(tab, start, c.use, c.lam, c.im, c.gap, c.gam2, IF sym THEN c.channel ELSE "none"))
Cos4(x) == IF x = 0 THEN 1 ELSE IF x = 2 THEN -1 ELSE 0
Sin4(x) == IF x = 1 THEN 1 ELSE IF x = 3 THEN -1 ELSE 0
FormK(kt, x, y) == CASE kt = "d-wave" -> Cos4(y) - Cos4(x) [] kt = "p-wave-x" -> Sin4(x) [] kt = "p-wave-y" -> Sin4(y)
Start(c) == LET T == c.turns n(i) == Len(T[i]) IN
  IF c.gap.sh # <<n(1), n(2), n(3), 2 * c.niv>> \/ Bad \in {c.gap.re[i] : i \in DOMAIN c.gap.re} THEN {"shape of the starting gap"} ELSE
  IF "random" \in {c.k, c.v} THEN
         If(c.v = "random" \/ \A x \in 1..n(1), y \in 1..n(2), z \in 1..n(3), v \in 0..(c.niv - 1) :
              LET a == A4(c.gap, x - 1, y - 1, z - 1, c.niv + v) b == A4(c.gap, x - 1, y - 1, z - 1, c.niv - 1 - v) IN a = IF c.v = "even" THEN b ELSE CNeg(b), "frequency parity of the starting gap")
         \cup If(\E i \in DOMAIN c.gap.re : c.gap.re[i] # 0, "a random gap is not zero")
  ELSE If(\A x \in 1..n(1), y \in 1..n(2), z \in 1..n(3), v \in 0..(2 * c.niv - 1) : A4(c.gap, x - 1, y - 1, z - 1, v) = <<(IF v < c.niv /\ c.v = "odd" THEN -1 ELSE 1) * FormK(c.k, T[1][x], T[2][y]), 0>>, "form factor of the starting gap")
Sym(c) == LET sh == c.inp.sh n == sh[4] IN
  If(c.out.sh = sh /\ \A k \in Range3(sh), v, y \in 0..(n - 1) : At5(c.out, k, v, y) =
     (IF c.channel = "sing" THEN CAdd(At5(c.inp, k, v, y), At5(c.inp, k, v, n - 1 - y)) ELSE CSub(At5(c.inp, k, v, y), At5(c.inp, k, v, n - 1 - y))), "symmetrized vertex")
  \cup If(c.same, "operand unchanged")
\* projection of v onto u times |u|^2: (u,v) u;  v less its projections;  v less lam (u,v) u for each of the eigenvectors
ProjOk(c) == LET N == c.v.sh[1]
                 Dot(i) == SumC(N, LAMBDA x : CMul(CConj(A1(c.b[i], x - 1)), A1(c.v, x - 1)))
                 Nrm(i) == SumInt(N, LAMBDA x : A1(c.b[i], x - 1)[1] * A1(c.b[i], x - 1)[1] + A1(c.b[i], x - 1)[2] * A1(c.b[i], x - 1)[2]) IN
  If(\A i \in 1..Len(c.b), f \in 0..1, x \in 0..(N - 1) : LET p == CMul(Dot(i), A1(c.b[i], x)) IN
       A1(c.pr[2 * i - 1 + f], x) = p /\ A1(c.gs[2 * i - 1 + f], x) = CSub(CScale(Nrm(i), A1(c.v, x)), p), "projection onto a vector and off it")
  \cup If(\A f \in 1..2, x \in 0..(N - 1) : CNear(A1(c.two[f], x), CSub(CScale(1000, A1(c.v, x)), SumC(Len(c.b), LAMBDA i : LET p == CMul(Dot(i), A1(c.b[i], x)) IN <<(1000 * p[1]) \div Nrm(i), (1000 * p[2]) \div Nrm(i)>>)), 4), "all projections taken off")
  \cup If(\A x \in 0..(N - 1) : A1(c.rm, x) = CSub(A1(c.v, x), SumC(Len(c.b), LAMBDA i : CScale(c.lam[i], CMul(Dot(i), A1(c.b[i], x))))), "eigenvectors removed")
  \cup If(c.same, "operand unchanged")
\* ------------------------------------------------------------------ general kernels, fixed point
Half(x) == <<x[1] \div 2, x[2] \div 2>>
Weight(c) == LET nv == c.gk.sh[4] ks == KSeq(c.mesh) IN TLCEval([i \in 1..Len(ks) |-> [v \in 1..nv |-> WMul(At4(c.gk, ks[i], v - 1), CConj(At4(c.gk, ks[i], v - 1)))]])
ApplyFix(c, W, g) == LET nv == c.gk.sh[4] ks == KSeq(c.mesh) IN
  TLCEval([i \in 1..Len(ks) |-> [v \in 1..nv |-> Half(SumC(Len(ks), LAMBDA p : SumC(nv, LAMBDA y :
     WMul(At5(c.gam, Sub3(c.mesh, ks[i], ks[p]), v - 1, y - 1), WMul(W[p][y], At4(g, ks[p], y - 1))))))]])
Residual(c, W, g, lam) == LET nv == c.gk.sh[4] ks == KSeq(c.mesh) Kg == ApplyFix(c, W, g) IN
  \A i \in 1..Len(ks), v \in 1..nv : FNear(Kg[i][v], WMul(<<lam, 0>>, At4(g, ks[i], v - 1)), 300)
Rayleigh(c, W, x) == LET nv == c.gk.sh[4] ks == KSeq(c.mesh) Kx == ApplyFix(c, W, x) IN
  SumC(Len(ks), LAMBDA i : SumC(nv, LAMBDA v : WMul(CConj(At4(x, ks[i], v - 1)), WMul(W[i][v], Kx[i][v]))))[1]
Pair(c) ==
  LET W == Weight(c) IN
  IF \E i \in DOMAIN c.gaps : ~FOk(c.gaps[i]) \/ c.gaps[i].sh # c.gk.sh THEN {"the gap is finite and lives on the mesh"} ELSE
  If(\A i \in DOMAIN c.wit : Rayleigh(c, W, c.wit[i]) <= c.lams[1] + 300, "no vector has a larger Rayleigh quotient than the leading eigenvalue")
  \cup If(Residual(c, W, c.gaps[1], c.lams[1]), "gap equation of the leading pair")
  \cup If(\A i \in 2..Len(c.gaps) : Residual(c, W, c.gaps[i], c.lams[i]), IF Len(c.gaps) < 3 THEN "gap equation of the second pair" ELSE "gap equation of the further pairs")
  \cup If(Len(c.gaps) < 2 \/ ~(c.shifted \/ c.uniform) \/ ((\A i \in DOMAIN c.lams : Residual(c, W, c.wit[i], c.lams[i])) /\ (c.shifted => \A i \in 2..Len(c.lams) : c.lams[i] <= c.lams[i - 1] + 64)), "second eigenvalue")
  \* the shift: the lowest eigenvalue when it dominates, zero otherwise
  \cup If(IF c.shifted THEN Residual(c, W, c.wit[Len(c.wit)], c.shift) ELSE c.shift = 0, "shift")
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"}
  ELSE CASE c.op = "diag" -> Diag(c) [] c.op = "lin" -> Lin(c) [] c.op = "start" -> Start(c) [] c.op = "sym" -> Sym(c) [] c.op = "pair" -> Pair(c) [] c.op = "proj" -> ProjOk(c)
=============================================================================
