------------------------------ MODULE T_Ladder ------------------------------
(* Conformance of the results of whole runs (C24): the equations of Ladder between the input and the files of one run (fixed point, 2^-20), *)
(* and every file against a plain evaluation over the full mesh (largest entry 1e8; text files in units of the last digit).                *)
EXTENDS Conform, Ladder, Derived
If(b, name) == IF b THEN {} ELSE {name}
NearArr(a, b, tol) == a.sh = b.sh /\ Len(a.re) = Len(b.re) /\ \A i \in DOMAIN a.re : Abs(a.re[i] - b.re[i]) <= tol /\ Abs(a.im[i] - b.im[i]) <= tol
Valid(a) == \A i \in DOMAIN a.re : Abs(a.re[i]) < 2000000000 /\ Abs(a.im[i]) < 2000000000
RefOk(c) == If(Valid(c.a) /\ Valid(c.b), "finite values") \cup If(NearArr(c.a, c.b, IF c.txt THEN 3 ELSE 1000), "result of the equations evaluated over the whole zone")

Tol == 64
LadderOk(c) ==
  LET nw == Len(c.wn) \div 2 full == c.nv + c.sh N == c.nk[1] * c.nk[2] * c.nk[3] NQ == Len(c.qs) W == 1..(2 * nw + 1)
      p == [nk |-> c.nk, qs |-> c.qs, wn |-> c.wn, nv |-> c.nv, sh |-> c.sh, b |-> c.b, ib |-> c.ib, ib2 |-> c.ib2, u |-> c.u]
      ks == MeshOf(c.nk)
      KS == {ks[i] : i \in DOMAIN ks}
      G(k, v) == A4(c.g, k[1], k[2], k[3], v + c.M)
      gl == TLCEval([v \in (-c.M)..(c.M - 1) |-> WDiv(WSum(N, LAMBDA i : G(ks[i], v)), N)])
      GL(v) == gl[v]
      Iv(v) == c.iv[v + c.M + 1]
      Siw(v) == A1(c.siw, v + c.M)
      Ek(k) == A3(c.ek, k[1], k[2], k[3])[1]
      xl == TLCEval([w \in W |-> TLCEval([v \in (-full)..(full - 1) |-> X0l(p, GL, c.wn[w], v)])])
      xq == TLCEval([q \in 1..NQ |-> TLCEval([w \in W |-> TLCEval([v \in (-full)..(full - 1) |-> X0q(p, G, c.qs[q], c.wn[w], v)])])])
      G2(ch, w, i, j) == LET o == c.extra n == c.nv
                             a == A3(c.g2[ch], w - 1 + o, i + n + o, j + n + o) b == A3(c.g2[ch], w - 1 + o, j + n + o, i + n + o) IN
                         IF c.symv THEN WDiv(CAdd(a, b), 2) ELSE a
      gx == TLCEval([ch \in Chs |-> TLCEval([w \in W |-> TLCEval([i \in Core(p) |-> TLCEval([j \in Core(p) |->
              CSub(WScale(c.b, G2(ch, w, i, j)), IF ch = "dens" /\ c.wn[w] = 0 THEN WScale(2 * c.b, WMul(GL(i), GL(j))) ELSE CZero)])])])])
      Gam(ch, w, i, j) == A3(c.gam[ch], w - 1, i + c.nv, j + c.nv)
      Vq(ch, q, w, v) == A3(c.vrg[ch], c.rep[q], w - 1, v + c.nv)
      Chi(ch, q, w) == A2(c.chi[ch], q - 1, w - 1)
      Lad(ch, q, w) == A2(c.lad[ch], q - 1, w - 1)
      Chil(ch, w) == A1(c.chil[ch], w - 1)
      Vl(ch, w, v) == A2(c.vl[ch], w - 1, v + c.nv)
      F(w, i, j) == A3(c.f, w - 1, i + full, j + full)
      Lam(ch) == IF ch = "dens" THEN c.lam[1] ELSE c.lam[2]
      Tot(ch) == SumInt(NQ, LAMBDA q : WSum(2 * nw + 1, LAMBDA w : Chi(ch, q, w))[1]) \div NQ
      Loc(ch) == WSum(2 * nw + 1, LAMBDA w : Chil(ch, w))[1]
      dc == TLCEval([q \in 1..NQ |-> TLCEval([w \in W |-> TLCEval([v \in Core(p) |-> Dc(p, LAMBDA i, j : F(w, i, j), LAMBDA y : xq[q][w][y], v)])])])
      ker == TLCEval([q \in 1..NQ |-> TLCEval([w \in W |-> TLCEval([v \in Core(p) |->
               CSub(CAdd(Kern(Ur(p, "dens"), Chi("dens", q, w), Vq("dens", q, w, v)), CScale(3, Kern(Ur(p, "magn"), Chi("magn", q, w), Vq("magn", q, w, v)))), dc[q][w][v])])])])
      Hartree == <<WR(c.u, c.n) \div 2, 0>>
      SdeAt(v) == A1(c.sde, v + full)
      LKer(w, v) == IF v \in Core(p) THEN CAdd(Kern(Ur(p, "dens"), Chil("dens", w), Vl("dens", w, v)), Kern(Ur(p, "magn"), Chil("magn", w), Vl("magn", w, v)))
                    ELSE WDiv(WScale(WR(c.u, c.u), CAdd(Chil("dens", w), Chil("magn", w))), 2)
      SdeDef(v) == CAdd(Hartree, SigLoc(p, LKer, GL, v))
      Core0(k, v) == CAdd(CSub(CAdd(Sig(p, LAMBDA q, j, vv : ker[q][j][vv], G, k, v), Siw(v)), SdeAt(v)), Hartree)
      S(k, v) == A4(c.siwk, k[1], k[2], k[3], v + full)
      STol == 40 * Len(c.wn)
  IN
  IF ~(\A ch \in Chs : WOk(c.g2[ch]) /\ WOk(c.gam[ch]) /\ WOk(c.t[ch]) /\ WOk(c.z[ch]) /\ WOk(c.vl[ch]) /\ WOk(c.chil[ch]) /\ WOk(c.vrg[ch]) /\ WOk(c.lad[ch]) /\ WOk(c.chi[ch]))
     \/ ~(WOk(c.g) /\ WOk(c.f) /\ WOk(c.sde) /\ WOk(c.siwk) /\ WOk(c.giwk)) THEN {"values of the run are finite and of ordinary size"} ELSE
  If(\A k \in KS : \A v \in (-c.M)..(c.M - 1) : DysonR(Iv(v), c.mu, Ek(k), Siw(v), G(k, v), Tol), "lattice propagator of the input (witness)")
  \cup If(\A ch \in Chs, w \in W : TildeR(full, LAMBDA i, j : A3(c.t[ch], w - 1, i + full, j + full), LAMBDA v : xl[w][v], Ub(p, ch), Tol), "bare-interaction susceptibility (witness)")
  \cup If(\A ch \in Chs, w \in W : GammaR(c.nv, LAMBDA i, j : Gam(ch, w, i, j), LAMBDA i, j : gx[ch][w][i][j], LAMBDA i, j : A3(c.t[ch], w - 1, i + full, j + full),
           LAMBDA i, j : A3(c.z[ch], w - 1, i + c.nv, j + c.nv), Ub(p, ch), 2 * Tol), "irreducible vertex of the input")
  \cup If(\A ch \in Chs, w \in W : VrgR(c.nv, LAMBDA v : Vl(ch, w, v), LAMBDA i, j : Gam(ch, w, i, j), LAMBDA v : xl[w][v], Ub(p, ch), 2 * Tol), "local three-leg vertex (witness)")
  \cup If(\A ch \in Chs, w \in W : PhysR(Ur(p, ch), Chil(ch, w), AuxSum(p, LAMBDA v : Vl(ch, w, v), LAMBDA v : xl[w][v]), 2 * Tol), "local susceptibility")
  \cup If(\A v \in (-full)..(full - 1) : WNear(SdeAt(v), SdeDef(v), STol), "local self-energy from the equation of motion")
  \cup If(\A ch \in Chs, q \in 1..NQ, w \in W : VrgR(c.nv, LAMBDA v : Vq(ch, q, w, v), LAMBDA i, j : Gam(ch, w, i, j), LAMBDA v : xq[q][w][v], Ub(p, ch), 2 * Tol), "three-leg vertex at every momentum")
  \cup If(\A ch \in Chs, q \in 1..NQ, w \in W : PhysR(Ur(p, ch), Lad(ch, q, w), AuxSum(p, LAMBDA v : Vq(ch, q, w, v), LAMBDA v : xq[q][w][v]), 2 * Tol), "ladder susceptibility (witness)")
  \cup If(\A ch \in Chs, q \in 1..NQ, w \in W : LambdaR(Chi(ch, q, w), Lad(ch, q, w), Lam(ch), 4 * Tol), "corrected susceptibility belongs to the printed lambda")
  \cup If(CASE c.lamtype = "spch" -> \A ch \in Chs : Abs(Tot(ch) - Loc(ch)) <= 4 * Tol
            [] c.lamtype = "sp" -> c.lam[1] = 0 /\ Abs(Tot("dens") + Tot("magn") - Loc("dens") - Loc("magn")) <= 8 * Tol
            [] OTHER -> c.lam = <<0, 0>>, "sum rule of the selected lambda correction")
  \cup If(\A w \in W : FullR(p, LAMBDA i, j : F(w, i, j), LAMBDA i, j : Gam("magn", w, i, j), LAMBDA v : xl[w][v], Ub(p, "magn"), 2 * Tol), "local full vertex (witness)")
  \cup If(\A k \in KS : \A v \in 0..(c.nv - 1) : WNear(S(k, v), Core0(k, v), STol), "lattice self-energy from the equation of motion")
  \cup If(\A k \in KS : \A v \in 0..(full - 1) : S(k, -v - 1) = CConj(S(k, v)) /\ (v >= c.nv => WNear(S(k, v), Siw(v), 4)), "negative frequencies are conjugate, the shell is the local self-energy")
  \cup If(\A k \in KS : \A v \in (-full)..(full - 1) : DysonR(Iv(v), c.munew, Ek(k), S(k, v), A4(c.giwk, k[1], k[2], k[3], v + full), Tol), "propagator of the new self-energy and chemical potential")
  \cup If(c.flat => \A k \in KS : \A v \in 0..(c.nv - 1) : WNear(S(k, v), Siw(v), STol), "without dispersion the ladder returns the local self-energy")
\* ---- derived results
NuOk(n, nu, r) == \A j \in 1..n : Abs(WR(nu[j], r[j]) - WUnit) <= 32
StaticOk(c) ==
  LET t == StaticTail(c.m, LAMBDA j : c.r[j], c.b, c.ib, c.f2, c.f3) IN
  If(NuOk(c.m, c.nu, c.r), "inverse frequencies (witness)")
  \cup If(\A i \in 1..2 : Abs(c.got[i] - c.chi[i] - t) <= 4 * Tol, "uniform static susceptibility with the tail of the bubble")
OzOk(c) ==
  LET n == Len(c.d2)
      cost == TLCEval([j \in DOMAIN c.trials |-> OzCost(n, c.trials[j].amp, LAMBDA i : c.trials[j].y[i], LAMBDA i : c.chi[i])]) IN
  IF c.few THEN If(c.failed, "a fit without enough momenta is reported as failed") ELSE
  IF ~c.judged THEN {} ELSE
  If(\A t \in DOMAIN c.trials : OzWitness(n, LAMBDA i : c.trials[t].y[i], c.trials[t].x2, LAMBDA i : c.d2[i], 64), "shape factors (witness)")
  \cup If(c.failed => ~c.fits, "a fit that exists is reported")
  \cup If(c.failed \/ \A t \in DOMAIN c.trials : cost[1] <= cost[t] + 2 * n, "the coefficients minimise the squared deviation")
ExtrapOk(c) ==
  LET place(k) == IF c.shift THEN <<(k[1] + (c.nk[1] \div 2)) % c.nk[1], (k[2] + (c.nk[2] \div 2)) % c.nk[2], k[3]>> ELSE k
      D(k, j) == A4(c.s, k[1], k[2], k[3], j - 1)
      ks == MeshOf(c.nk)
      val(a, k) == LET m == place(k) IN A3(a, m[1], m[2], m[3])[1] IN
  IF ~(WOk(c.s) /\ c.band.sh = c.nk /\ c.width.sh = c.nk /\ c.z.sh = c.nk) THEN {"extrapolations live on the mesh"} ELSE
  If(NuOk(c.n, c.nu, c.r), "inverse frequencies (witness)")
  \cup If(\A i \in DOMAIN ks : Abs(val(c.band, ks[i]) - Extrap(c.n, c.o, LAMBDA j : D(ks[i], j)[1])) <= 2 * Tol, "extrapolated real part at its momentum")
  \cup If(\A i \in DOMAIN ks : Abs(val(c.width, ks[i]) + Extrap(c.n, c.o, LAMBDA j : D(ks[i], j)[2])) <= 2 * Tol, "extrapolated linewidth at its momentum")
  \cup If(\A i \in DOMAIN ks : WeightOk(val(c.z, ks[i]), Extrap(c.n, c.o, LAMBDA j : WR(D(ks[i], j)[2], c.r[j])), 2 * Tol), "quasiparticle weight at its momentum")
GapOk(c) ==
  LET ks == MeshOf(c.nk) n == Len(ks)
      dif == TLCEval([i \in 1..n |-> [q \in 1..n |-> [d \in 1..3 |-> (ks[i][d] - ks[q][d]) % c.nk[d]]]])
      F(iq, v, y) == LET d == dif[iq[1]][iq[2]] IN A5(c.f, d[1], d[2], d[3], v - 1, y - 1)
      G(i, v) == A4(c.gap, ks[i][1], ks[i][2], ks[i][3], v - 1)
      w(i, v) == A4(c.w, ks[i][1], ks[i][2], ks[i][3], v - 1)[1] IN
  \* the shift keeps its sign: the leading eigenvalue when it is negative, else zero
  If(c.clear => Abs(c.shift - (IF c.dom < 0 THEN c.dom ELSE 0)) <= (4 * Tol) + c.digit, "the printed shift is the leading eigenvalue when that is negative")
  \cup IF ~c.judged THEN {} ELSE            \* the iteration has no clear winner
  IF ~(WOk(c.f) /\ WOk(c.w) /\ WOk(c.gap) /\ c.gap.sh = c.nk \o <<c.nv>>) THEN {"the gap is finite and lives on the mesh"} ELSE
  If(Abs(c.im) <= Tol /\ Len(c.printed) = c.neig /\ Len(c.all) = c.neig /\ c.pairs = c.neig /\ \A i \in 1..c.neig : Abs(c.printed[i] - c.all[i]) <= c.digit /\ Abs(c.all[1] - c.lam) <= 1, "the printed eigenvalue is that of the gap function")
  \cup If(GapR(n, c.nv, F, w, G, c.lam, (4 * Tol) + (2 * n * c.nv)), "linearized gap equation with the vertex and the propagator of the run")
  \cup If(c.start = "random" => Abs(c.lam - c.top) <= 4 * Tol, "a random start finds the leading eigenvalue")
O == INSTANCE Outputs
OutOk(c) ==
  LET got == TLCEval({c.files[i] : i \in DOMAIN c.files}) IN
  If(O!Legal(c.c), "a configuration of the model")
  \cup If(O!Expected(c.c, c.n) \subseteq got, "every result the configuration asks for is left behind")
  \cup If(got \cap O!Universe(c.n) \subseteq O!Expected(c.c, c.n), "results that were not asked for are not left behind")
Fail(c) ==
  IF c.exc # "" THEN {"the run completes"} ELSE
  CASE c.op = "run" -> {} [] c.op = "outputs" -> OutOk(c) [] c.op = "ref" -> RefOk(c) [] c.op = "ladder" -> LadderOk(c)
    [] c.op = "static" -> StaticOk(c) [] c.op = "oz" -> OzOk(c) [] c.op = "extrap" -> ExtrapOk(c) [] c.op = "gap" -> GapOk(c)
=============================================================================
