------------------------------ MODULE T_Maxent ------------------------------
(* Conformance of the maximum-entropy continuation (C25): kernels, optimum of the functional, choice of the weight, Kramers-Kronig transform. *)
EXTENDS Conform, Maxent
If(b, name) == IF b THEN {} ELSE {name}
NearR(a, b, t) == Abs(a - b) <= t
PiW == 3294199
Ln2 == 726817
Vec(a) == TLCEval([i \in 1..a.sh[1] |-> A1(a, i - 1)])
MatC(a) == TLCEval([k \in 1..a.sh[1] |-> [l \in 1..a.sh[2] |-> A2(a, k - 1, l - 1)]])
\* ---------------------------------------------------------------- kernels; axes recorded in eighths
KernEntry(kind, K, w, x) ==
  LET qw == Sq(w) qx == Sq(x) IN
  CASE kind = "freq_fermionic" -> LET p == WMul(K, <<-w, x>>) IN NearR(p[1], S1 \div 8, 48) /\ NearR(p[2], 0, 48)
    [] kind = "freq_bosonic" -> K[2] = 0 /\ (IF w = 0 /\ x = 0 THEN K[1] = S1 ELSE NearR(WR(K[1], qw + qx), qw, 32))
    [] kind = "freq_bosonic_xyz" -> K[2] = 0 /\ (IF x = 0 THEN K[1] = 0 ELSE NearR(WR(K[1], qw + qx), -(x \div 8), 48))
    [] kind = "freq_fermionic_phsym" -> K[2] = 0 /\ NearR(WR(K[1], qw + qx), -(x \div 4), 48)
Kern(c) == LET K == MatC(c.K) IN
  IF c.K.sh # <<Len(c.x), Len(c.w)>> \/ ~WOk(c.K) THEN {"kernel matrix has one entry per pair of frequencies"} ELSE
  If(\A k \in DOMAIN c.x, l \in DOMAIN c.w : KernEntry(c.kind, K[k][l], c.w[l], c.x[k]), "kernel")
\* time kernels: tau = t/4 and omega = a ln 2 with 4 | a t (after the rescaling with beta)
TimeEntry(kind, K, a, t) ==
  LET b == Abs(a) p == Pow2((b * t) \div 4) q == Pow2((b * (4 - t)) \div 4) e == Pow2(b) IN
  K[2] = 0 /\
  CASE kind = "time_fermionic" -> NearR(WR(K[1], S1 + e), IF a >= 0 THEN p ELSE q, 16)
    [] kind = "time_bosonic" -> IF a = 0 THEN K[1] = S1 ELSE NearR(2 * WR(K[1], S1 - e), b * WR(Ln2, p + q), 64)
    [] kind = "time_fermionic_phsym" -> NearR(WR(K[1], 2 * e + S1 + WR(e, e)), WR(e, p + q) + (IF p = 0 \/ q = 0 THEN 0 ELSE Pow2(b - ((b * t) \div 4)) + Pow2(b - ((b * (4 - t)) \div 4))), 64)
TimeKern(c) == LET K == MatC(c.K) IN
  IF c.K.sh # <<Len(c.t), Len(c.a)>> \/ ~WOk(c.K) THEN {"kernel matrix has one entry per pair of time and frequency"} ELSE
  If(\A k \in DOMAIN c.t, l \in DOMAIN c.a : TimeEntry(c.kind, K[k][l], c.a[l], c.t[k]), "kernel")
\* preblur: Gaussian average of the kernel over shifts j b / 4
G4 == TLCEval([j \in 1..41 |-> WR(104584, Exp(-(((j - 21) * (j - 21) * S1) \div 32)))])
Blur(c) == LET K == MatC(c.K) IN
  If(WOk(c.K) /\ WOk(c.kj) /\ \A k \in 1..c.K.sh[1], l \in 1..c.K.sh[2] :
     LET s == CSumSeq([j \in 1..41 |-> WScale(G4[j], A3(c.kj, j - 1, k - 1, l - 1))]) IN WNear(K[k][l], s, 400), "blurred kernel is the Gaussian average of the kernel")
\* blurring a polynomial c0 + c1 w + c2 w^2 inside the mesh, a constant with the mesh edges
BlurSpec(c) ==
  If(\A i \in DOMAIN c.w : LET w == c.w[i] IN
     IF c.inside[i] THEN NearR(c.out[i], c.c[1] + WR(c.c[2], w) + WR(c.c[3], Sq(w) + Sq(c.b)), 300)
     ELSE (c.c[2] = 0 /\ c.c[3] = 0) => NearR(c.out[i], WR(c.c[1], SumR([j \in 1..41 |-> LET v == w + (((j - 21) * c.b) \div 4) lo == IF c.even THEN -c.w[Len(c.w)] ELSE c.w[1] IN
              IF v < lo \/ v > c.w[Len(c.w)] THEN 0 ELSE IF v = lo \/ v = c.w[Len(c.w)] THEN G4[j] \div 2 ELSE G4[j]])), S1 \div 12), "blurred spectrum is the Gaussian average of the hidden one")
\* ---------------------------------------------------------------- a solution at one weight
\* c.as = alpha sigma0^2 2^e, c.d = 2^e (data - transform), c.y = (cov / sigma0^2)^-1 d
Opt(c) ==
  LET n == Len(c.w) nk == c.K.sh[1] K == MatC(c.K) dw == TLCEval(Weights(c.w)) B == Vec(c.B) G == Vec(c.G) d == Vec(c.d) y == Vec(c.y) IN
  IF ~(WOk(c.K) /\ WOk(c.B) /\ WOk(c.d) /\ WOk(c.y)) \/ Len(c.A) # n \/ c.B.sh # <<nk>> \/ \E i \in 1..n : Abs(c.A[i]) >= 16 * S1 THEN {"spectrum and transform are finite and live on the meshes"} ELSE
  If(\A k \in 1..nk : WNear(B[k], Row(K[k], dw, c.A), 24 + (2 * n)), "back-transform is the kernel integral of the spectrum")
  \cup If(\A k \in 1..nk : WNear(<<d[k][1] \div (2 ^ c.e), d[k][2] \div (2 ^ c.e)>>, CSub(G[k], B[k]), 4), "residual (recorded)")
  \cup If(\A k \in 1..nk : WNear(CSumSeq([j \in 1..nk |-> WMul(A2(c.cn, k - 1, j - 1), y[j])]), d[k], 24 + (4 * nk)), "residual (recorded, weighted)")
  \cup If(NearR(c.chi, ReDot(d, y) \div 16, 40 + (4 * nk)), "misfit belongs to the spectrum")
  \cup If(NearR(c.norm, Integral(dw, c.A), 24 + (2 * n)), "norm belongs to the spectrum")
  \cup (LET ep == TLCEval([l \in 1..n |-> Exp(Min2(c.lv[l], 2726297))]) em == TLCEval([l \in 1..n |-> IF c.off THEN Exp(Min2(-c.lv[l], 2726297)) ELSE 0]) IN
    If(\A l \in 1..n : (Abs(c.lv[l]) <= 2726297 => NearR(c.A[l], WR(c.D[l], ep[l] - em[l]), 80 + (Abs(c.A[l]) \div 8192))) /\ (~c.off => c.A[l] >= 0), "spectrum (recorded logarithm)")
    \cup If((c.off => \A l \in 1..n : Abs(c.lv[l]) <= 2726297) => NearR(c.S, Integral(dw, [l \in 1..n |-> (IF c.off THEN WR(c.D[l], ep[l] + em[l]) - (2 * c.D[l]) ELSE c.A[l] - c.D[l]) - WR(c.A[l], c.lv[l])]), 200 + (c.stol)), "entropy relative to the default model"))
  \cup If(c.stat => \A l \in 1..n : NearR(WR(c.as, c.lv[l]), SumR([k \in 1..nk |-> WR(K[k][l][1], y[k][1]) + WR(K[k][l][2], y[k][2])]), 60 + (6 * nk) + (c.as \div 4096)), "spectrum is stationary: weight times log(A / model) is the transformed residual")
  \cup If(c.default => \A l \in 1..n : NearR(c.A[l], IF c.off THEN 0 ELSE c.D[l], 200), "data of the default model return the default model")
  \cup If(NearR(c.q[1], c.q[2] - c.q[3], 8), "functional is weight times entropy minus half the misfit")
  \cup If(c.unblur, "final spectrum is the blurred hidden one")
  \cup (IF c.kind \in {"freq_fermionic", "freq_bosonic", "freq_bosonic_xyz", "freq_fermionic_phsym"} /\ ~c.blurred
        THEN If(\A k \in 1..nk, l \in 1..n : KernEntry(c.kind, K[k][l], c.w8[l], c.x8[k]), "kernel") ELSE {})
\* ---------------------------------------------------------------- choosing the weight
Kink(c) ==
  LET n == Len(c.x) IN
  IF Len(c.l) # n \/ Len(c.S) # n THEN {"one result per weight"} ELSE
  If(c.first - ((c.nt - 1) * c.step) >= c.last - 20 - c.nt /\ c.first - (c.nt * c.step) < c.last + 20 + c.nt, "witness: number of weights")
  \cup If(LET kept == Kept(c.nt, 1, {c.nt + 1 - c.failed[i] : i \in DOMAIN c.failed}) IN Len(kept) = n /\ \A i \in 1..n : NearR(c.x[i], c.first - ((c.nt - kept[i]) * c.step), 20 + c.nt), "weights go down from the first to the last by the given ratio")
  \cup If(\A i \in 1..(n - 1) : c.l[i + 1] <= c.l[i] + 20, "a smaller weight never fits worse")
  \cup If(\A i \in 1..(n - 1) : c.S[i + 1] <= c.S[i] + 20, "a smaller weight never has more entropy")
  \cup If(\A i \in 1..n : LET z == WR(c.fit[4], c.x[i] - c.fit[3]) s == c.s[i] IN IF z >= 0 THEN NearR(WR(s, S1 + Exp(-z)), S1, 200) ELSE LET e == Exp(z) IN NearR(WR(s, S1 + e), e, 200), "witness")
  \cup (LET r == TLCEval([i \in 1..n |-> c.l[i] - c.fit[1] - WR(c.fit[2], c.s[i])]) p == TLCEval([i \in 1..n |-> WR(c.s[i], S1 - c.s[i])]) IN
    If(NearR(SumR(r), 0, c.ftol) /\ NearR(SumR([i \in 1..n |-> WR(r[i], c.s[i])]), 0, c.ftol) /\ NearR(SumR([i \in 1..n |-> WR(r[i], p[i])]), 0, c.ftol)
       /\ NearR(SumR([i \in 1..n |-> WR(r[i], WR(p[i], c.x[i] - c.fit[3]))]), 0, c.ftol), "witness: least squares"))
  \cup If(c.fit[4] > 0 /\ NearR(WR(c.fit[3] - c.xs, c.fit[4]), c.pos, c.ftol), "weight at the kink of the misfit")
Hist(c) == If(NearR(c.ratio, S1, 30), "misfit equals the number of data")
\* c.wt: spectrum (or its positive root) ; lam, Q: eigenpairs of the curvature in data space; t = lam / (as + lam); L = log(1 + lam / as)
Bayes(c) ==
  LET n == Len(c.w) nk == Len(c.rows) dw == TLCEval(Weights(c.w)) wt == TLCEval([l \in 1..n |-> WR(dw[l], c.wt[l])])
      N == TLCEval([k \in 1..nk |-> [j \in 1..nk |-> SumR([l \in 1..n |-> WR(wt[l], WR(c.rows[k][l], c.rows[j][l]))])]]) IN
  If(\A k, j \in 1..nk : NearR(SumR([m \in 1..nk |-> WR(N[k][m], c.Q[m][j])]), WR(c.lam[j], c.Q[k][j]), 60 + (4 * nk)), "witness: curvature")
  \cup If(\A i, j \in 1..nk : NearR(SumR([m \in 1..nk |-> WR(c.Q[m][i], c.Q[m][j])]), IF i = j THEN S1 ELSE 0, 60), "witness: orthonormal")
  \cup If(\A j \in 1..nk : NearR(WR(c.t[j], c.as + c.lam[j]), c.lam[j], 20) /\ NearR(WR(Exp(-c.L[j]), c.as + c.lam[j]), c.as, 40), "witness: logarithms")
  \cup If(NearR(c.tr, SumR(c.t), c.ttol), "trace of the number of good data")
  \cup If(NearR(c.ng, -2 * c.aS, 40), "number of good data")
  \cup If(c.haveconv => NearR(WR(c.conv, c.ng), c.tr, 60 + (Abs(c.conv) \div 65536) + (Abs(c.ng) \div 524288)), "convergence criterion")
  \cup If(c.haveprob => NearR(c.logp, c.aS - (c.chi2 \div 2) + c.la - (SumR(c.L) \div 2), c.ttol * 4), "posterior probability of the weight")
  \cup If(c.optimal => NearR(c.conv, S1, 30), "trace equals the number of good data at the chosen weight")
Bryan(c) ==
  LET m == Len(c.al) tau == TLCEval([i \in 1..m |-> ((IF i = 1 THEN c.al[1] ELSE c.al[i - 1]) - (IF i = m THEN c.al[m] ELSE c.al[i + 1])) \div 2])
      p == TLCEval([i \in 1..m |-> WR(c.p[i], tau[i])]) IN
  If(\A l \in DOMAIN c.A : NearR(SumR([i \in 1..m |-> WR(p[i], c.As[i][l] - c.A[l])]), 0, 20 + (2 * m)), "spectrum is the probability-weighted average")
  \cup If(c.al[1] = S1 /\ \A i \in 1..(m - 1) : NearR((c.al[i + 1] * 11) \div 10, c.al[i], 4), "weights go down by the given ratio")
  \cup If(\E j \in 1..m : c.p[j] = S1 /\ (\A i \in 1..m : c.p[i] <= S1) /\ c.p[m] < 10486 /\ \A i \in j..(m - 1) : c.p[i] >= 10484, "the search ends once the probability has dropped to one per cent")
\* ---------------------------------------------------------------- Kramers-Kronig: integer meshes in units h, spectrum in integers
Kkt(c) == LET n == Len(c.w) dw2 == [i \in 1..n |-> (IF i = n THEN c.w[n] ELSE c.w[i + 1]) - (IF i = 1 THEN c.w[1] ELSE c.w[i - 1])] IN
  IF c.out.sh # <<n>> THEN {"one value per frequency"} ELSE
  If(\A j \in 1..n : NearR(A1(c.out, j - 1)[2], -(PiW * c.A[j]), 16), "imaginary part is minus pi times the spectrum")
  \cup If(\A j \in 1..n : NearR(A1(c.out, j - 1)[1], SumR([i \in 1..n |-> IF i = j THEN 0 ELSE
       CASE c.kind = "general" -> ((dw2[i] * c.A[i]) * S1) \div (2 * (c.w[j] - c.w[i]))
         [] c.kind = "antisymmetric" -> ((dw2[i] * c.A[i] * c.w[j]) * S1) \div ((c.w[j] * c.w[j]) - (c.w[i] * c.w[i]))
         [] c.kind = "symmetric" -> ((dw2[i] * c.A[i] * c.w[i]) * S1) \div ((c.w[j] * c.w[j]) - (c.w[i] * c.w[i]))]), 2 * n), "real part is the Kramers-Kronig transform on the mesh")
FillOp(c) == LET neg == SelectSeq([i \in DOMAIN c.w |-> i], LAMBDA i : c.w[i] < 0) m == Len(neg) IN
  If(NearR(c.out, SumR([i \in 1..(m - 1) |-> (c.w[i + 1] - c.w[i]) * (c.A[i] + c.A[i + 1]) * S1]), 32), "filling is twice the weight at negative frequencies")
\* ---------------------------------------------------------------- the program around the solver
Layer(c) ==
  If(c.nx = c.nexp /\ \A k \in DOMAIN c.xb : NearR(c.xb[k], (IF c.kind = "freq_fermionic" THEN (2 * k) - 1 ELSE 2 * (k - 1)) * PiW, 16 + (4 * k)), "solver is given the Matsubara frequencies")
  \cup If(c.dataok, "solver is given the data of the lowest non-negative frequencies")
  \cup If(\A i \in DOMAIN c.std : c.std[i] = c.err, "solver is given the configured error")
  \cup If(\A i \in DOMAIN c.mod : c.mod[i] = c.mod[1], "default model is flat")
  \cup If(c.kind = "freq_fermionic" => NearR(c.modnorm, S1, 20), "default model is normalised")
  \cup If(\A k \in DOMAIN c.args : c.args[k] = c.want[k], "configured method, weight search and optimiser are used")
  \cup If(c.link, "result is the Kramers-Kronig transform (fermions) or pi/2 times the spectrum (bosons)")
  \cup If(c.chiok, "reported misfit is that of the solution")
Reject(c) == If(c.rej, "unusable request is rejected")
Fail(c) == CASE c.op = "kern" -> Kern(c) [] c.op = "tkern" -> TimeKern(c) [] c.op = "blur" -> Blur(c) [] c.op = "blurspec" -> BlurSpec(c) [] c.op = "opt" -> Opt(c)
  [] c.op = "kink" -> Kink(c) [] c.op = "hist" -> Hist(c) [] c.op = "bayes" -> Bayes(c) [] c.op = "bryan" -> Bryan(c) [] c.op = "kkt" -> Kkt(c) [] c.op = "fill" -> FillOp(c)
  [] c.op = "layer" -> Layer(c) [] c.op = "reject" -> Reject(c)
=============================================================================
