------------------------------- MODULE T_Cont -------------------------------
(* Conformance of the analytic continuation (C21).                          *)
EXTENDS Conform, Cont, Num
If(b, name) == IF b THEN {} ELSE {name}
NearI(a, b, t) == Abs(a - b) <= t
Fails(c) == {c.fail[i] : i \in DOMAIN c.fail}
\* ---- lists of points: data of point i at position m (0-based) is the pair <<100 i + m, -m>>, the stand-in solver answers with the number of the point it was given
Call(c, x) == \E i \in 1..c.n : LET e == Entries(c.kind, c.niv, c.nfit) IN
  /\ x.re = [m \in DOMAIN e |-> (100 * i) + e[m]] /\ (c.kind = "freq_fermionic" => x.im = [m \in DOMAIN e |-> -e[m]])
  /\ x.freq = Freqs(c.kind, c.niv, c.nfit) /\ x.kind = c.kind /\ x.beta = c.beta /\ x.err = [m \in DOMAIN e |-> c.err] /\ x.mesh
List(c) ==
  If(c.sh = <<c.n, c.nwr>> /\ c.type = TypeOf(c.kind), "one spectrum per point")
  \cup (IF c.sh # <<c.n, c.nwr>> THEN {} ELSE
   If(\A i \in 1..c.n : \A j \in 1..c.nwr : c.id[((i - 1) * c.nwr) + j] = IF i \in Fails(c) THEN 0 ELSE i * 1000, "spectrum of the point's own data, in order")
   \cup If(\A i \in Fails(c) : \A j \in 1..c.nwr : c.re[((i - 1) * c.nwr) + j] = 0, "failed points are zero"))
  \cup If(\A x \in DOMAIN c.calls : Call(c, c.calls[x]), "solver is given the positive frequencies of one point") \cup If(\A i \in 1..c.n : \E x \in DOMAIN c.calls : Len(c.calls[x].re) > 0 /\ (c.calls[x].re[1] \div 100) = i, "every point is continued")
\* ---- with the solver itself: every row equals that of the point continued alone
SameRow(a, b, nw, i, j) == \A m \in 1..nw : NearI(a.re[((i - 1) * nw) + m], b.re[((j - 1) * nw) + m], 2) /\ NearI(a.im[((i - 1) * nw) + m], b.im[((j - 1) * nw) + m], 2)
Real(c) == If(c.got.sh = <<Len(c.order), c.nwr>> /\ \A i \in DOMAIN c.order : SameRow(c.got, c.alone, c.nwr, i, c.order[i]), "each point as if it were alone")
\* ---- the stand-alone program: spectra on the full mesh, rows in flat momentum order
Main(c) == If(c.got.sh = c.alone.sh, "one spectrum per momentum") \cup (IF c.got.sh # c.alone.sh THEN {} ELSE
  If(\A i \in 1..c.got.sh[1] : (i - 1) \notin Fails(c) => SameRow(c.got, c.alone, c.got.sh[2], i, i), "spectrum of the momentum's own data")
  \cup If(\A i \in 1..c.got.sh[1] : (i - 1) \in Fails(c) => \A m \in 1..c.got.sh[2] : c.got.re[((i - 1) * c.got.sh[2]) + m] = c.shift /\ c.got.im[((i - 1) * c.got.sh[2]) + m] = 0, "exactly the failed momenta are zero"))
  \cup If(c.w = c.wwant, "frequency mesh is stored with the spectra")
Post(c) == UNION {If(c.got[i].sh = c.want[i].sh /\ \A j \in DOMAIN c.want[i].re : NearI(c.got[i].re[j], c.want[i].re[j], 1000) /\ NearI(c.got[i].im[j], c.want[i].im[j], 1000), "stored with the spectra: " \o c.names[i]) : i \in DOMAIN c.names}
\* ---- meshes
Mesh(c) == LET n == Len(c.w) IN
  If(n = c.n, "number of frequencies") \cup If(\A i \in DOMAIN c.up : c.up[i] = 1, "strictly increasing")
  \cup If(NearI(c.w[1], c.wmin, 1) /\ NearI(c.w[n], c.wmax, 1), "end points") \cup If(\A i \in 1..n : NearI(c.w[i] + c.w[n + 1 - i], c.wmin + c.wmax, 3), "symmetric about the centre")
  \cup If(c.kind = "linear" => \A i \in 1..n : NearI((c.w[i] - c.wmin) * (n - 1), (c.wmax - c.wmin) * (i - 1), n), "equidistant")
Reject(c) == If(c.rej, "unusable request is rejected")
\* ---- settings: defaults, then the section, then the arguments; bosonic kernels have one-sided meshes and no blur
Settings(c) == LET v(k) == IF k \in DOMAIN c.arg THEN c.arg[k] ELSE IF k \in DOMAIN c.sec THEN c.sec[k] ELSE c.def[k]
                   want(k) == IF c.kind = "freq_bosonic" /\ k = "bw" /\ ~c.force THEN "0.0" ELSE IF c.kind = "freq_bosonic" /\ k = "wmin" /\ c.neg THEN "0.0" ELSE v(k) IN
  If(\A k \in DOMAIN c.def : c.got[k] = want(k), "settings") \cup If(c.blur = (c.got["bw"] # "0.0"), "blur is used if its width is not zero") \cup If(c.same, "default settings are not changed")
\* ---- kernels and transformations on integer meshes, in units 1/L
RECURSIVE SumTo(_, _)
SumTo(n, f) == IF n = 0 THEN 0 ELSE f[n] + SumTo(n - 1, f)
Kernel(c) == LET kat(i, j) == <<c.k.re[((i - 1) * Len(c.w)) + j], c.k.im[((i - 1) * Len(c.w)) + j]>> IN
  If(\A i \in DOMAIN c.v : \A j \in DOMAIN c.w : LET d == (c.w[j] * c.w[j]) + (c.v[i] * c.v[i]) k == kat(i, j) IN
     IF c.kind = "freq_fermionic" THEN k[1] * d = -c.w[j] * c.L /\ k[2] * d = -c.v[i] * c.L ELSE k[2] = 0 /\ IF d = 0 THEN k[1] = c.L ELSE k[1] * d = c.w[j] * c.w[j] * c.L, "kernel")
  \cup If(\A i \in DOMAIN c.v : LET f(p) == [j \in 1..(Len(c.w) - 1) |-> (c.w[j + 1] - c.w[j]) * ((c.a[j] * kat(i, j)[p]) + (c.a[j + 1] * kat(i, j + 1)[p]))] IN
        c.back.re[i] = SumTo(Len(c.w) - 1, f(1)) /\ c.back.im[i] = SumTo(Len(c.w) - 1, f(2)), "back transformation integrates spectrum times kernel")
Dw2(w, i) == (IF i = Len(w) THEN 0 ELSE w[i + 1] - w[i]) + (IF i = 1 THEN 0 ELSE w[i] - w[i - 1])      \* twice the width of the cell of mesh point i
Kkt(c) == LET n == Len(c.w)
   term(i, j) == IF i = j THEN 0 ELSE IF c.kind = "general" THEN (Dw2(c.w, i) * c.a[i] * c.L) \div (c.w[j] - c.w[i])
     ELSE (2 * Dw2(c.w, i) * (IF c.kind = "symmetric" THEN c.w[i] ELSE c.w[j]) * c.a[i] * c.L) \div ((c.w[j] * c.w[j]) - (c.w[i] * c.w[i]))
  IN If(\A j \in 1..n : c.g.re[j] = SumTo(n, [i \in 1..n |-> term(i, j)]) /\ c.g.im[j] = -c.a[j], "Kramers-Kronig transformation")
\* ---- extrapolation of polynomials to zero frequency: coefficient sequences of the points at the requested positions
Fit(c) == If(\A i \in DOMAIN c.ind : LET q == c.coef[c.ind[i] + 1] IN c.shift[i] = q.re[1] * 1000 /\ c.gam[i] = -q.im[1] * 1000
     /\ (q.im[1] = 0 => LET b == q.im[2] IN IF b > 0 THEN c.z[i] = 1000 ELSE NearI(c.z[i] * (1 - b), 1000, 1 - b)), "extrapolation of each point's own data")
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "list" -> List(c) [] c.op = "real" -> Real(c) [] c.op = "main" -> Main(c) [] c.op = "post" -> Post(c) [] c.op = "mesh" -> Mesh(c) [] c.op = "reject" -> Reject(c) [] c.op = "settings" -> Settings(c)
    [] c.op = "kernel" -> Kernel(c) [] c.op = "kkt" -> Kkt(c) [] c.op = "fit" -> Fit(c)
=============================================================================
