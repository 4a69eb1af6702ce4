------------------------------- MODULE T_Input -------------------------------
(* Conformance of the DMFT input (C19).                                      *)
EXTENDS Conform, Input, Num
If(b, name) == IF b THEN {} ELSE {name}
\* flat position (1-based) of the named entry in an array of the box [W, V]
At(W, V, e) == ((e[1] + W) * 4 * V * V) + ((((e[2] - 1) \div 2) + V) * 2 * V) + (((e[3] - 1) \div 2) + V) + 1
AnySym(c, n) == \E i \in 1..n : c.reqs[i].sym
RECURSIVE BoxAfter(_, _)
BoxAfter(c, n) == IF n = 0 THEN [W |-> c.W, V |-> c.V] ELSE After(BoxAfter(c, n - 1), c.reqs[n])
Obj(c, s, n, ch) == LET b == BoxAfter(c, n) g == s[ch] sym == AnySym(c, n) IN
  /\ g.sh = <<2 * b.W + 1, 2 * b.V, 2 * b.V>>
  /\ \A e \in Box(b.W, b.V) : LET t == <<e[1], e[3], e[2]>> i == At(c.W, c.V, e) j == At(c.W, c.V, t) p == At(b.W, b.V, e) d == c.data[ch] IN
       IF sym THEN g.re[p] = 2 * (d.re[i] + d.re[j]) /\ g.im[p] = 2 * (d.im[i] + d.im[j]) ELSE g.re[p] = 4 * d.re[i] /\ g.im[p] = 4 * d.im[i]
Stage(c, s, n) == LET b0 == BoxAfter(c, n - 1) b == BoxAfter(c, n) IN
  IF Rejected(b0, c.reqs[n]) THEN If(s.rej, "request beyond the stored box is rejected")
  ELSE IF s.rej THEN {"request within the stored box is accepted"} ELSE
    If(Obj(c, s, n, "dens"), "density entries at the same frequencies") \cup If(Obj(c, s, n, "magn"), "magnetic entries at the same frequencies")
    \cup If(s.ch = <<"dens", "magn">> /\ s.box = <<b.W, b.V>> /\ s.wn = [i \in 1..(2 * b.W + 1) |-> i - 1 - b.W] /\ s.vn = [i \in 1..(2 * b.V) |-> i - 1 - b.V], "channels and frequency ranges")
    \cup If(s.one = c.one /\ s.sys = c.one, "one-particle quantities and parameters")
TwoP(c) == UNION {Stage(c, c.stages[n], n) : n \in DOMAIN c.stages} \cup If(c.kept, "input files are unchanged")
OneP(c) == If(c.got = c.want, "one-particle quantities and parameters")
\* means over the spins of the first band, of recorded (band, spin, frequency) arrays; filling of the file, or the occupation if it is not set
W2(c) == LET nf == c.nf m(x) == [i \in 1..nf |-> [re |-> x.re[i] + x.re[nf + i], im |-> x.im[i] + x.im[nf + i]]] g(y) == [i \in 1..nf |-> [re |-> y.re[i], im |-> y.im[i]]] IN
  If(c.giw.sh = <<nf>> /\ g(c.giw) = m(c.giwf) /\ c.siw.sh = <<nf>> /\ g(c.siw) = m(c.siwf), "spin mean of the first band")
  \cup If(c.n = (IF c.tot = 0 THEN c.occ[1] + c.occ[2] ELSE c.tot), "filling") \cup If(c.par = c.parf, "inverse temperature, interaction and chemical potential")
Getters(c) == If(\A i \in DOMAIN c.rows : c.rows[i].got = c.rows[i].want, "each quantity is read from its own data set")
Chi(c) == LET h == Len(c.up) \div 2 IN If(\A i \in DOMAIN c.up : c.magn[i] = c.up[i] - c.dn[i] /\ c.dens[i] = c.up[i] + c.dn[i] - (IF i = h + 1 THEN 2 * (c.tot - 2) * (c.tot - 2) ELSE 0), "susceptibility combinations")
Code(a, m, k, w, v, y) == (((((((a * 3 + m) * 3 + k) * 16) + w) * 12) + v) * 12) + y
G4Row(r) == LET n == r.nv IN r.val.sh = <<Len(r.iw), 2 * n, 2 * n>> /\ \A i \in DOMAIN r.iw, v, y \in 0..((2 * n) - 1) :
  LET e == Code(r.a, r.ch, r.k, r.iw[i], v - n, y - n) IN A3(r.val, i - 1, v, y) = <<e, e + 1>>
G4(c) == If(\A j \in DOMAIN c.rows : G4Row(c.rows[j]), "entries of a two-particle file at the requested bosonic frequencies")
  \cup If(\A j \in DOMAIN c.rows : c.rows[j].n = IF c.rows[j].a = 1 /\ c.rows[j].k = 1 THEN c.niw ELSE c.niw + 1, "size of the stored box")
W2All(c) == LET nf == c.nf m(x) == [i \in 1..nf |-> [re |-> x.re[i] + x.re[nf + i], im |-> x.im[i] + x.im[nf + i]]] g(y) == [i \in 1..nf |-> [re |-> y.re[i], im |-> y.im[i]]] IN
  If(c.giw.sh = <<nf>> /\ g(c.giw) = m(c.giwf) /\ c.siw.sh = <<nf>> /\ g(c.siw) = m(c.siwf), "spin mean of the first band")
  \cup If(c.rest = <<32, 12, 8, 6, 4 * (nf \div 2), 9>>, "inverse temperature, interaction, chemical potential, filling and Hartree term")
Reject(c) == If(c.rej, "unknown input type is rejected")
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "twop" -> TwoP(c) [] c.op = "onep" -> OneP(c) [] c.op = "w2" -> W2(c) [] c.op = "get" -> Getters(c) [] c.op = "chi" -> Chi(c) [] c.op = "g4" -> G4(c) [] c.op = "w2all" -> W2All(c) [] c.op = "reject" -> Reject(c)
=============================================================================
