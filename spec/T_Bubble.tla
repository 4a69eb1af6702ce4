----------------------------- MODULE T_Bubble -----------------------------
(* Conformance of dga.bubble (C09). *)
EXTENDS Conform, Bubble
If(b, name) == IF b THEN {} ELSE {name}

\* local generalized bubble: out[w, v]
Gchi0(c) == If(c.out.sh = <<Len(c.wn), 2 * c.niv>> /\ \A i \in 1..Len(c.wn), j \in 0..(2 * c.niv - 1) :
     A2(c.out, i - 1, j) = CScale(-c.beta, GG(c.g, c.notation, c.wn[i], j - c.niv)), "gchi0 is -beta G G at the shifted frequencies")
Chi0(c) == If(c.out.sh = <<Len(c.wn)>> /\ \A i \in 1..Len(c.wn) :
     A1(c.out, i - 1) = CNeg(SumC(2 * c.niv, LAMBDA j : GG(c.g, c.notation, c.wn[i], j - 1 - c.niv))), "chi0 is the frequency sum of G G")
Gchi0q(c) == If(c.out.sh = <<Len(c.qs), Len(c.wn), 2 * c.niv>> /\ \A a \in 1..Len(c.qs), i \in 1..Len(c.wn), j \in 0..(2 * c.niv - 1) :
     A3(c.out, a - 1, i - 1, j) = CScale(-c.beta, GGq(c.g, c.nk, c.notation, c.qs[a], c.wn[i], j - c.niv)), "lattice gchi0 is -beta <G(k) G(k+q)> at the shifted frequencies")
Chi0q(c) == If(c.out.sh = <<Len(c.qs), Len(c.wn)>> /\ \A a \in 1..Len(c.qs), i \in 1..Len(c.wn) :
     A2(c.out, a - 1, i - 1) = CNeg(SumC(2 * c.niv, LAMBDA j : GGq(c.g, c.nk, c.notation, c.qs[a], c.wn[i], j - 1 - c.niv))), "lattice chi0 is the frequency sum of <G(k) G(k+q)>")
\* legs: gchi [q, w, v] -> chi
Legs(c) == If(c.out.sh = SubSeq(c.inp.sh, 1, Len(c.inp.sh) - 1) /\ LET n == c.inp.sh[Len(c.inp.sh)] IN
     \A o \in 0..(Prod(c.out.sh) - 1) : A1([re |-> c.out.re, im |-> c.out.im], o) = SumC(n, LAMBDA j : A1([re |-> c.inp.re, im |-> c.inp.im], o * n + j - 1)), "contracting the legs sums over v with 1/beta^2")
VVp(c) == If(c.out.sh = c.inp.sh \o <<c.inp.sh[2]>> /\ \A i \in 0..(c.inp.sh[1] - 1), j, k \in 0..(c.inp.sh[2] - 1) :
     A3(c.out, i, j, k) = IF j = k THEN A2(c.inp, i, j) ELSE CZero, "the full bubble is diagonal in v, v'")

\* asymptotic pieces, beta = pi; records: sums (times -beta), exact (over beta)
N(c) == Len(c.ek.re)
Fac1(c) == c.mu - c.smom0
Fac2n(c) == N(c) * (Fac1(c) * Fac1(c) - c.smom1) + EkSum2(c.ek)
\* the local one has the square of the mean
Fac3n(c) == N(c) * Fac1(c) * Fac1(c) + (EkSum1(c.ek) * EkSum1(c.ek)) \div N(c)
Fac3qn(c, q) == N(c) * Fac1(c) * Fac1(c) + EkEkq(c.ek, c.nk, q)
Z == 1000000
Tol(c) == 3000   \* truncation of the integer divisions and of pi^2
\* b [q?, w] sums over the window, e [q?, w] exact; the local record has no q
Facs(c, a) == <<Fac1(c), Fac2n(c), IF c.qs = <<>> THEN Fac3n(c) ELSE Fac3qn(c, c.qs[a])>>
AtQ(arr, c, a, i) == IF c.qs = <<>> THEN A1(arr, i - 1) ELSE A2(arr, a - 1, i - 1)
Asym(c) ==
  LET nq == IF c.qs = <<>> THEN 1 ELSE Len(c.qs)
      shp == IF c.qs = <<>> THEN <<Len(c.wn)>> ELSE <<nq, Len(c.wn)>>
      sums(a, i) == LET f == Facs(c, a) IN ExpSum(Z, N(c), c.niv, c.notation, c.wn[i], f[1], f[2], f[3])
      exact(a, i) == LET f == Facs(c, a) IN <<ExactSum(Z, N(c), c.wn[i], f[2], f[3]), 0>>
      near(x, y, t) == Near(x[1], y[1], t) /\ Near(x[2], y[2], t) IN
  IF c.sum.sh # shp \/ c.exact.sh # shp \/ c.corr.sh # shp THEN {"shape of the asymptotic sums"} ELSE
  If(\A a \in 1..nq, i \in 1..Len(c.wn) : near(AtQ(c.sum, c, a, i), sums(a, i), Tol(c)), "windowed sum of the large-frequency expansion")
  \cup If(\A a \in 1..nq, i \in 1..Len(c.wn) : near(AtQ(c.exact, c, a, i), exact(a, i), Tol(c)), "exact sum of the large-frequency expansion")
  \cup If(\A a \in 1..nq, i \in 1..Len(c.wn) : near(AtQ(c.big, c, a, i), exact(a, i), 2 * Tol(c)), "the exact sum is the limit of the windowed sums")
  \cup If(\A a \in 1..nq, i \in 1..Len(c.wn) : near(AtQ(c.corr, c, a, i), CSub(AtQ(c.exact0, c, a, i), AtQ(c.sum0, c, a, i)), 2), "tail correction is exact minus windowed sum")
\* totals: everything over one common scale, compared by addition
Tot(c) == If(c.total.sh = c.core.sh /\ c.total.sh = c.corr.sh /\ \A o \in DOMAIN c.total.re :
      /\ Near(c.total.re[o], c.core.re[o] + c.corr.re[o], 5) /\ Near(c.total.im[o], c.core.im[o] + c.corr.im[o], 5), "the physical bubble is the windowed sum plus the tail")
Shell(c) == If(c.out.sh = c.full.sh /\ \A o \in DOMAIN c.out.re :
      /\ Near(c.out.re[o], c.full.re[o] - c.core.re[o] + c.corr.re[o], 5) /\ Near(c.out.im[o], c.full.im[o] - c.core.im[o] + c.corr.im[o], 5), "the shell bubble is the rest of the sum plus the tail beyond it")
\* real Green's functions: the result does not depend on the window the core sum was done in
Indep(c) == If(c.a.sh = c.b.sh /\ \A o \in DOMAIN c.a.re : Near(c.a.re[o], c.b.re[o], c.tol) /\ Near(c.a.im[o], c.b.im[o], c.tol), "with its tail the bubble does not depend on the window")

Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"}
  ELSE CASE c.op = "gchi0" -> Gchi0(c)
         [] c.op = "chi0" -> Chi0(c)
         [] c.op = "gchi0q" -> Gchi0q(c)
         [] c.op = "chi0q" -> Chi0q(c)
         [] c.op = "legs" -> Legs(c)
         [] c.op = "vvp" -> VVp(c)
         [] c.op = "asym" -> Asym(c)
         [] c.op = "total" -> Tot(c)
         [] c.op = "shell" -> Shell(c)
         [] c.op = "indep" -> Indep(c)
=============================================================================
