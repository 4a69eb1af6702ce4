------------------------------ MODULE T_Dyson ------------------------------
(* Conformance of SelfEnergy, GreensFunction and RealFrequencyGF objects (C22). *)
EXTENDS Conform, Dyson, Wide
If(b, name) == IF b THEN {} ELSE {name}
SC == 10000000
KSet(nk) == {<<x, y, z>> : x \in 0..(nk[1] - 1), y \in 0..(nk[2] - 1), z \in 0..(nk[3] - 1)}
NTot(nk) == nk[1] * nk[2] * nk[3]
\* the mesh point whose value an array shifted by pi in the plane (kx, ky; plotted at fixed kz) has at k
PiShift(nk, k) == [d \in 1..3 |-> IF d = 3 THEN k[d] ELSE (k[d] + nk[d] - (nk[d] \div 2)) % nk[d]]
Src(c, k, sh) == IF sh THEN PiShift(c.nk, k) ELSE k
At(a, k, i) == A4(a, k[1], k[2], k[3], i)
SigAt(c, k, n) == SigOdd(c.nc, LAMBDA m : At(c.data, k, m), c.s0, c.s1, n)
\* |odd| times a quantity whose negative frequencies are conjugates:  odd factor changes sign with the frequency
OddPos(f(_), n) == IF n >= 0 THEN f(n) ELSE CNeg(CConj(f(Mirror(n))))
Siw(c) == IF /\ c.out.sh = c.nk \o <<2 * c.w>>
             /\ \A k \in KSet(c.nk), n \in (-c.w)..(c.w - 1) : At(c.out, k, n + c.w) = OddPos(LAMBDA m : SigAt(c, Src(c, k, c.shift), m), n)
          THEN If(c.same, "data unchanged") ELSE {"core data, tail outside, conjugate negative frequencies"}
Asy(c) == LET N == IF c.pos THEN c.na ELSE 2 * c.na IN
  If(/\ c.out.sh = c.nk \o <<N>>
     /\ \A k \in KSet(c.nk), i \in 0..(N - 1) :
          At(c.out, k, i) = (IF c.pos THEN TailOdd(c.s0, c.s1, c.lo + i)
                             ELSE IF i >= c.na THEN TailOdd(c.s0, c.s1, c.lo + i - c.na) ELSE CNeg(CConj(TailOdd(c.s0, c.s1, c.lo + c.na - 1 - i)))),
     "tail of the self-energy")
Meta(c) == If(/\ c.niv = c.data.sh[4] /\ c.nkk = c.nk /\ c.beta = 1000
              /\ \A i \in 0..(c.niv - 1) : A1(c.kmean, i) = SumC(NTot(c.nk), LAMBDA j : <<c.data.re[(j - 1) * c.niv + i + 1], c.data.im[(j - 1) * c.niv + i + 1]>>), "momentum mean and sizes")
Wrap(c) == LET N == c.c + c.sh W == N + 2 z == <<0, 0, 0>>
               val(k, n) == IF n < c.c THEN CScale(Odd(n), At(c.dga, k, n)) ELSE IF n < N THEN SigAt(c, z, n) ELSE TailOdd(c.s0, c.s1, n) IN
  If(c.core = N /\ c.out.sh = c.nkd \o <<2 * W>> /\ \A k \in KSet(c.nkd), n \in (-W)..(W - 1) : At(c.out, k, n + W) = OddPos(LAMBDA m : val(k, m), n),
     "DGA core inside the DMFT shell and tail") \cup If(c.same, "operands unchanged")
Fit(c) == If(Abs(c.s0f - 1000 * c.s0) <= 1 /\ Abs(c.s1f - 1000 * c.s1) <= 1, "moments of data that follow the tail")
          \cup If(c.core = Max2(20, c.m), "core window ends where the data follow the tail")

\* -------------------------------------------------------------- Green's function
GOk(c, a, nc, W, sh) ==   \* array a on the window W, self-energy core nc
  /\ a.sh = c.nk \o <<2 * W>>
  /\ \A k \in KSet(c.nk), n \in 0..(W - 1) :
       LET s == Src(c, k, sh)
           D == InvGOdd(c.b, c.mu, A3(c.ek, s[1], s[2], s[3])[1], SigOdd(nc, LAMBDA m : At(c.data, s, m), c.s0, c.s1, n), n)
       IN /\ IsInverse(SC, At(a, k, W + n), D, n)
          /\ At(a, k, W - 1 - n) = CConj(At(a, k, W + n))
\* momentum mean of the recorded values
MeanOk(c, m, a, W) == m.sh = <<2 * W>> /\ \A i \in 0..(2 * W - 1) :
  LET t == SumC(NTot(c.nk), LAMBDA j : <<a.re[(j - 1) * 2 * W + i + 1], a.im[(j - 1) * 2 * W + i + 1]>>) IN CNear(CScale(NTot(c.nk), A1(m, i)), t, 2 * NTot(c.nk))
\* sums over momenta and frequencies, in units of 10^-5
SumKV(c, W, f(_, _)) == SumInt(NTot(c.nk), LAMBDA j : SumInt(2 * W, LAMBDA i : f((j - 1) * 2 * W + i, i)))
EkinOk(c) == LET W == c.nc + c.na IN Abs(c.ekin * NTot(c.nk) - SumKV(c, W, LAMBDA o, i : (c.ek.re[((o - 1) \div (2 * W)) + 1] * c.full.re[o]) \div 100)) <= 2 * NTot(c.nk) * 2 * W + NTot(c.nk)
\* Re[(Sigma - smom0) G], odd (Sigma - smom0) being an integer
SigOddF(c, o, i) == LET W == c.nc + c.na od == Odd(i - 1 - W) IN <<c.sigf.re[o] - od * c.s0, c.sigf.im[o]>>
EpotOk(c) == LET W == c.nc + c.na IN
  Abs(c.epot * NTot(c.nk) - SumKV(c, W, LAMBDA o, i : LET od == Odd(i - 1 - W) s == SigOddF(c, o, i) p == s[1] * (c.full.re[o] \div 100) - s[2] * (c.full.im[o] \div 100) IN
       IF od > 0 THEN p \div od ELSE -(p \div (-od)))) <= 60 * NTot(c.nk) * 2 * W
G(c) == LET W == c.nc + c.na IN
  If(GOk(c, c.core, c.nc, c.nc, FALSE), "Dyson equation in the core") \cup If(GOk(c, c.full, c.nc, W, FALSE) /\ c.stored, "Dyson equation in core and tail")
  \cup If(GOk(c, c.shifted, c.nc, W, TRUE), "shifted by pi") \cup If(GOk(c, c.full2, c.nc, W + 2, FALSE) /\ MeanOk(c, c.loc2, c.full2, W + 2), "another asymptotic window")
  \cup If(MeanOk(c, c.loc, c.full, W) /\ MeanOk(c, c.locf, c.full, W) /\ MeanOk(c, c.locc, c.core, c.nc), "local part is the momentum mean")
  \cup If(c.grid = <<c.nc, W, c.na>> /\ c.vs = [i \in 1..(2 * W) |-> Odd(i - 1 - W)] /\ c.vn = [i \in 1..(2 * W) |-> i - 1 - W] /\ c.vc = [i \in 1..(2 * c.nc) |-> Odd(i - 1 - c.nc)] /\ c.mu_ = 1000 * c.mu, "frequency windows")
  \cup If(c.fs.sh = c.nk /\ \A k \in KSet(c.nk) : Abs(A3(c.fs, k[1], k[2], k[3])[1] + At(c.full, k, W)[2]) <= 1, "spectral weight at the first positive frequency")
  \cup If(c.sigf.sh = c.nk \o <<2 * W>> /\ \A k \in KSet(c.nk), n \in (-W)..(W - 1) : At(c.sigf, k, n + W) = OddPos(LAMBDA m : SigAt(c, k, m), n), "full self-energy")
  \cup If(EkinOk(c), "kinetic energy") \cup If(EpotOk(c), "potential energy") \cup If(c.same, "operands unchanged")
  \* pi/b (n - 1) is the sum of Re G over the core window when mu sits at the Hartree-shifted band centre (the model Green's function is then imaginary): n = 1 + 2/beta sum
  \cup If(c.half => Abs(c.nx * NTot(c.nk) - 2 * SumInt(Len(c.core.re), LAMBDA o : c.core.re[o] \div 10)) <= 2 * Len(c.core.re) + NTot(c.nk), "filling")
Fill(c) == LET w == IF c.sgn > 0 THEN 2000000 \div (1 + c.m) ELSE (2000000 * c.m) \div (1 + c.m) IN
  If(Near(c.n, w, 2), "filling of a flat band is the Fermi function") \cup If(Abs(c.mu_) <= 1, "chemical potential of a flat band")
Mu(c) == If(Near(c.got, c.want, 20) /\ Near(c.claimed, c.want, 1), "chemical potential reproduces the requested filling") \cup If(c.sameg, "same Green's function for the same chemical potential")

\* moments of arbitrary data (unit spacing of v): means over the highest nf frequencies, times nf and the number of momenta
Mom(c) == LET niv == c.data.sh[4] lo == niv - c.nf
              dat(j, n) == <<c.data.re[(j - 1) * niv + n + 1], c.data.im[(j - 1) * niv + n + 1]>> IN
  If(c.m0.re[1] = SumInt(NTot(c.nk), LAMBDA j : SumInt(c.nf, LAMBDA i : dat(j, lo + i - 1)[1]))
     /\ c.m1.re[1] = SumInt(NTot(c.nk), LAMBDA j : SumInt(c.nf, LAMBDA i : dat(j, lo + i - 1)[2] * Odd(lo + i - 1))), "moments of the highest frequencies")
\* n = p/10:  U n/2,  -U^2 n/2 (1 - n/2),  n/2 (1 - n/2)
Smom(c) == If(c.s0 = 50000 * c.u * c.p /\ c.s1 = -2500 * c.u * c.u * c.p * (20 - c.p) /\ c.c = 2500 * c.p * (20 - c.p), "asymptotic prefactors")
Const(c) == If(c.niv = c.nv \div 2 /\ c.b = 7 /\ c.out.sh = c.nk \o <<40>> /\ \A k \in KSet(c.nk), i \in 0..39 : At(c.out, k, i) = <<0, IF i < 20 THEN c.d ELSE -c.d>>, "constant self-energy")
\* 10^6 / (1 + exp(pi j / 4))
FermiTab == <<313158, 172103, 86575, 41424, 19322, 8903, 4079, 1864>>
FermiPi4(j) == LET f(i) == IF i = 0 THEN 500000 ELSE IF i <= 8 THEN FermiTab[i] ELSE 0 IN IF j >= 0 THEN f(j) ELSE 1000000 - f(-j)
\* (n/2 - f(x)) pi/b = sum of Re G + x/(v^2+x^2),   x = b j / 4 = band centre + smom0 - mu
FillN(c) == LET s == SumInt(2 * c.win, LAMBDA i : LET o == Odd(i - 1 - c.win) IN A1(c.loc, c.W - c.win + i - 1)[1] + (4000000 * c.jj) \div (c.b * (16 * o * o + c.jj * c.jj))) IN
  If(c.m4 = c.want4 /\ c.loc.sh = <<2 * c.W>>, "chemical potential as given")
  \cup If(Abs((((c.n \div 2) - FermiPi4(c.jj)) * 355) \div (113 * c.b) - s) <= 12 + 2 * c.win, "filling from the model and the frequency sum")
FillP(c) == If(c.n.re[1] = 2 * SumSeq(c.g.re) + c.b /\ c.n.im[1] = 2 * SumSeq(c.g.im), "plain frequency sum")
\* -------------------------------------------------------------- real frequencies
RD(c, k, i) == LET s == At(c.sw, k, i) IN <<c.w[i + 1] + c.mu - A3(c.ek, k[1], k[2], k[3])[1] - s[1], c.dl - s[2]>>
\* position of the frequency nearest to zero (the first one of two)
Zero(c) == CHOOSE i \in 0..(Len(c.w) - 1) : \A m \in 0..(Len(c.w) - 1) : Abs(c.w[i + 1]) < Abs(c.w[m + 1]) \/ (Abs(c.w[i + 1]) = Abs(c.w[m + 1]) /\ i <= m)
Real(c) == LET NWr == Len(c.w) IN
  If(c.g.sh = c.nk \o <<NWr>> /\ \A k \in KSet(c.nk), i \in 0..(NWr - 1) : LET p == CMul(At(c.g, k, i), RD(c, k, i)) IN CNear(p, <<SC, 0>>, CAbs1(RD(c, k, i)) + 1), "Dyson equation")
  \cup If(\A k \in KSet(c.nk), i \in 0..(NWr - 1) : At(c.shifted, k, i) = At(c.g, PiShift(c.nk, k), i), "shifted by pi")
  \cup If(\A k \in KSet(c.nk), i \in 0..(NWr - 1) : Abs(At(c.awk, k, i)[1] + At(c.g, k, i)[2]) <= 1, "spectral function")
  \cup If(\A k \in KSet(c.nk) : Abs(A3(c.fs, k[1], k[2], k[3])[1] + At(c.g, k, Zero(c))[2]) <= 1, "spectral function at zero frequency")
  \cup If(c.loc.sh = <<NWr>> /\ \A i \in 0..(NWr - 1) : CNear(CScale(NTot(c.nk), A1(c.loc, i)), SumC(NTot(c.nk), LAMBDA j : <<c.g.re[(j - 1) * NWr + i + 1], c.g.im[(j - 1) * NWr + i + 1]>>), 2 * NTot(c.nk)), "local part")
  \* n pi = -2 integral up to w = 0 (trapezoid over the given grid)
  \cup If(LET s(i) == -A1(c.loc, i)[2] N == Cardinality({i \in 1..NWr : c.w[i] <= 0}) IN
          Abs(c.n - SumInt(N - 1, LAMBDA i : (c.w[i + 1] - c.w[i]) * ((s(i) + s(i - 1)) \div 10))) <= 20, "filling")
RealMu(c) == LET NWr == Len(c.w)
                 ok(a, mu) == a.sh = c.nk \o <<NWr>> /\ WOk(a) /\ \A k \in KSet(c.nk), i \in 0..(NWr - 1) : WNear(WMul(At(a, k, i), <<c.w[i + 1] + mu - WUnit * A3(c.ek, k[1], k[2], k[3])[1], c.dl>>), WOneC, 40) IN
  If(Near(c.got, c.want, 10) /\ c.claimed = c.want, "chemical potential reproduces the requested filling") \cup If(ok(c.g, c.mu), "Dyson equation with the chemical potential found")
  \cup If(ok(c.tb, c.mut) /\ c.ntb = c.want, "non-interacting Green's function of the same filling")
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "siw" -> Siw(c) [] c.op = "asy" -> Asy(c) [] c.op = "meta" -> Meta(c) [] c.op = "wrap" -> Wrap(c) [] c.op = "fit" -> Fit(c)
    [] c.op = "g" -> G(c) [] c.op = "fill" -> Fill(c) [] c.op = "mu" -> Mu(c) [] c.op = "real" -> Real(c)
    [] c.op = "mom" -> Mom(c) [] c.op = "smom" -> Smom(c) [] c.op = "const" -> Const(c) [] c.op = "filln" -> FillN(c) [] c.op = "fillp" -> FillP(c) [] c.op = "realmu" -> RealMu(c)
=============================================================================
