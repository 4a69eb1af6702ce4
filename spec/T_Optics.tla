----------------------------- MODULE T_Optics -----------------------------
(* Conformance of the optical response (C23), exact in Gaussian integers (results carry their known prefactor). *)
EXTENDS Conform, Optics
If(b, name) == IF b THEN {} ELSE {name}
GOf(c) == LET N == c.g.sh[4] \div 2 ks == Mesh3(c.nk) IN TLCEval([k \in {ks[i] : i \in DOMAIN ks} |-> TLCEval([v \in (-N)..(N - 1) |-> A4(c.g, k[1], k[2], k[3], v + N)])])
LOf(c, a) == [k \in {Mesh3(c.nk)[i] : i \in DOMAIN Mesh3(c.nk)} |-> A3(a, k[1], k[2], k[3])]
\* light vertex of a hopping table (degeneracies one, exact on meshes of 1, 2, 4 points); DSum is in units of 1/One
Light(c, d) == TLCEval([k \in {Mesh3(c.nk)[i] : i \in DOMAIN Mesh3(c.nk)} |->
  LET s == DSum(c.nk, k, Len(c.tab.R), 1, LAMBDA i : 1, LAMBDA i : c.tab.R[i], LAMBDA i : A1(c.tab.t, i - 1), d + 1) IN <<s[1] \div One, s[2] \div One>>])
Bub(c) == LET G == GOf(c) a == LOf(c, c.a) b == LOf(c, c.b) IN
  If(c.out.sh = <<1>> /\ A1(c.out, 0) = CNeg(BubbleSum(c.nk, LAMBDA k : a[k], LAMBDA k : b[k], LAMBDA k, v : G[k][v], c.n, c.nt, c.w)), "current-current bubble")
  \cup If(c.same, "inputs unchanged")
VBub(c) ==
  LET G == GOf(c) a == Light(c, c.da) b == Light(c, c.db) m == Len(c.wn)
      val == TLCEval([i \in 1..m |-> CNeg(BubbleSum(c.nk, LAMBDA k : a[k], LAMBDA k : b[k], LAMBDA k, v : G[k][v], c.n, c.nt, c.wn[i]))]) IN
  If(c.out.sh = <<m>> /\ \A i \in 1..m : A1(c.out, i - 1) = val[i], "bubble with the light vertices of the model")
  \cup (IF c.wn # [i \in 1..m |-> i - 1] \/ "full" \notin DOMAIN c THEN {} ELSE
        If(c.full.sh = <<2 * m - 1>> /\ \A w \in (1 - m)..(m - 1) : A1(c.full, w + m - 1) = Mirror(val, m - 1, w)
           /\ A1(c.full, w + m - 1) = CNeg(BubbleSum(c.nk, LAMBDA k : a[k], LAMBDA k : b[k], LAMBDA k, v : G[k][v], c.n, c.nt, w)), "mirrored frequencies are the direct computation"))
VertexAt(c, G, a, b, w, lo, hi) ==
  VertexSum(c.nk, LAMBDA k : a[k], LAMBDA k : b[k], LAMBDA k, v : G[k][v], LAMBDA i, j, x, v : A4(c.f, lo + i - 1, j - 1, x, v + c.n), c.n,
            [j \in 1..(2 * c.nwp + 1) |-> j - 1 - c.nwp], w, SubSeq(c.qs, lo + 1, hi))
Vert(c) ==
  LET G == GOf(c) a == Light(c, c.da) b == Light(c, c.db)
      part == TLCEval([x \in 1..Len(c.cut) |-> TLCEval([w \in 0..c.ncond |-> CNeg(VertexAt(c, G, a, b, w, c.cut[x][1], c.cut[x][2]))])]) IN
  If(\A x \in 1..Len(c.cut) : c.parts[x].sh = <<c.ncond + 1>> /\ \A w \in 0..c.ncond : A1(c.parts[x], w) = part[x][w], "share of a part of the momenta")
  \cup If(c.out.sh = <<c.ncond + 1>> /\ \A w \in 0..c.ncond : A1(c.out, w) = SumC(Len(c.cut), LAMBDA x : part[x][w]), "vertex part sums every pair of momenta and frequencies once")
  \cup If(\A x \in 1..Len(c.types) : c.types[x] = c.types[1], "the share has the same data type for any number of momenta")
  \cup If(c.same, "inputs unchanged")
VOne(c) ==
  LET G == GOf(c) a == LOf(c, c.a) b == LOf(c, c.b) IN
  If(A1(c.out, 0) = CNeg(VertexSum(c.nk, LAMBDA k : a[k], LAMBDA k : b[k], LAMBDA k, v : G[k][v], LAMBDA i, j, x, v : A3(c.f, i - 1, j - 1, v + c.n), c.n, c.wps, c.w, c.qs)), "vertex part at one frequency")
Dist(c) ==
  LET G == GOf(c) a == Light(c, c.da) b == Light(c, c.db)
      val == TLCEval([w \in 0..c.ncond |-> CNeg(VertexAt(c, G, a, b, w, 0, Len(c.qs)))]) IN
  If(\A r \in DOMAIN c.outs : c.outs[r].sh = <<c.ncond + 1>> /\ \A w \in 0..c.ncond : A1(c.outs[r], w) = val[w], "every rank holds the whole vertex part")
Slice(c) == If(c.out.sh = <<Len(c.wn), 2 * c.nn>> /\ \A i \in 1..Len(c.wn), v \in (-c.nn)..(c.nn - 1) : A2(c.out, i - 1, v + c.nn) = A2(c.m, v + c.no, v - c.wn[i] + c.no), "entry at frequency v is F(v, v - w)")
RealF(c) ==
  LET ks == Mesh3(c.nk) a == Light(c, c.da) b == Light(c, c.db) x == c.x fr == BubbleFreq(x, c.wm)
      G(k, i) == A4(c.g, k[1], k[2], k[3], i - 1) A(k, i) == A4(c.a, k[1], k[2], k[3], i - 1)
      chi(w) == SumC(Len(ks), LAMBDA i : CMul(CMul(a[ks[i]], b[ks[i]]), RealBubbleK(x, G, A, LAMBDA j : c.nf[j], c.wm, w, ks[i]))) IN
  If(c.w = fr, "frequencies of the real-frequency bubble")
  \cup If(c.out.sh = <<Len(fr)>> /\ \A w \in DOMAIN fr : A1(c.out, w - 1) = chi(fr[w]), "real-frequency bubble")
Fermi(c) == If(c.out = c.nf, "Fermi function")
Sigma(c) == If(c.w = [i \in 1..(c.n + 1) |-> i - 1], "frequencies of the conductivity")
  \cup If(c.out.sh = <<c.n + 1>> /\ \A i \in 0..c.n : A1(c.out, i) = <<c.aa + c.bb * i * i, 0>>, "conductivity is the response over the frequency, continued to zero")
Through(c) == If(c.s.re = c.im.re /\ c.w = <<0>> \o c.wb, "conductivity of the bubble")
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "bub" -> Bub(c) [] c.op = "vbub" -> VBub(c) [] c.op = "vert" -> Vert(c) [] c.op = "vone" -> VOne(c) [] c.op = "dist" -> Dist(c)
    [] c.op = "slice" -> Slice(c) [] c.op = "realf" -> RealF(c) [] c.op = "fermi" -> Fermi(c) [] c.op = "sigma" -> Sigma(c) [] c.op = "through" -> Through(c)
=============================================================================
