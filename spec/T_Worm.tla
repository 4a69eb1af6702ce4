------------------------------- MODULE T_Worm -------------------------------
(* Conformance of the symmetrization of worm samples (C20).                 *)
EXTENDS Conform, Worm
If(b, name) == IF b THEN {} ELSE {name}
RECURSIVE SumSeq(_, _, _)
SumSeq(i, n, f) == IF i > n THEN 0 ELSE f[i] + SumSeq(i + 1, n, f)
BADV == 2147480000
Val(x) == IF x = BADV THEN 0 ELSE x
\* one sampled value: missing (not-a-number) entries count as zero
At(c, k, i, part) == LET e == c.data[k] IN IF e.re[i] = BADV \/ e.im[i] = BADV THEN 0 ELSE IF part = 1 THEN e.re[i] ELSE e.im[i]
Present(c) == {Bands(Digits(2 * c.N, 4, c.comps[k])) : k \in DOMAIN c.comps}
\* the expected entries of a group, in units of 1/24, at the index i of the sampled array
Expect(c, ch, b) ==
  LET size == Cardinality({d \in Present(c) : Equivalent(c.cls, b, d)})
      ks == {k \in DOMAIN c.comps : CoefK(c.cls, ch, b, Digits(2 * c.N, 4, c.comps[k]), 1) # 0}
      co == TLCEval([k \in ks |-> CoefK(c.cls, ch, b, Digits(2 * c.N, 4, c.comps[k]), size)])
      RECURSIVE Sum(_, _, _)
      Sum(S, i, p) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN (co[k] * At(c, k, i, p)) + Sum(S \ {k}, i, p)
  IN TLCEval([p \in 1..2 |-> [i \in 1..Len(c.data[1].re) |-> Sum(ks, i, p)]])
\* position in the flat sampled array (v, v', w) / (v, w) / (w) of entry e of the stored group
Pos(c, iwb, e) == IF c.target = "3freq" THEN (((((e - 1) % c.nf) * c.nf) + ((e - 1) \div c.nf)) * c.nb) + iwb + 1   \* stored transposed in the fermionic frequencies
  ELSE IF c.target = "2freq" THEN ((e - 1) * c.nb) + iwb + 1 ELSE e
Shape(c) == IF c.target = "3freq" THEN <<c.nf, c.nf>> ELSE IF c.target = "2freq" THEN <<c.nf>> ELSE <<c.nb>>
NSlices(c) == IF c.target = "1freq_b" THEN 1 ELSE c.nb
Sym(c) ==
  If({c.out[g].bgr : g \in DOMAIN c.out} = {FlatIdx(c.N, b) : b \in Present(c)} /\ \A ch \in {"dens", "magn"} : \A b \in Present(c) : \A w \in 0..(NSlices(c) - 1) : \E g \in DOMAIN c.out : c.out[g].ch = ch /\ c.out[g].bgr = FlatIdx(c.N, b) /\ c.out[g].iwb = w, "groups of the output")
  \cup If(\A ch \in {"dens", "magn"} : \A b \in Present(c) : LET x == Expect(c, ch, b) IN \A g \in DOMAIN c.out : (c.out[g].ch = ch /\ c.out[g].bgr = FlatIdx(c.N, b)) =>
        /\ c.out[g].val.sh = Shape(c)
        /\ \A e \in DOMAIN c.out[g].val.re : LET i == Pos(c, c.out[g].iwb, e) IN c.out[g].val.re[e] = x[1][i] /\ c.out[g].val.im[e] = x[2][i], "average over the equivalent components")
  \cup (IF c.target = "3freq" THEN If(\A r \in DOMAIN c.read : LET ch == c.read[r].ch b == Digits(c.N, 4, c.read[r].bgr) x == Expect(c, ch, b) v == c.read[r].val IN
        /\ v.sh = <<c.nb, c.nf, c.nf>>
        /\ \A e \in DOMAIN v.re : LET w == (e - 1) \div (c.nf * c.nf) vv == (e - 1) % (c.nf * c.nf) i == (vv * c.nb) + w + 1 IN v.re[e] = x[1][i] /\ v.im[e] = x[2][i], "the reader returns bosonic, fermionic, fermionic order as sampled")
        \cup If(c.niw = c.nb \div 2, "number of bosonic frequencies") ELSE {})
  \cup If(c.same, "sampled file is unchanged")
\* one-particle functions: mean over the spins and the equivalent bands; c.giw, c.siw (band, spin, frequency)
OneP(c) == LET
  Ok(in, out) == /\ out.sh = in.sh
     /\ \A e \in DOMAIN in.re : LET f == (e - 1) % c.nf b == (e - 1) \div (2 * c.nf) eq == {q \in 0..(c.N - 1) : c.cls[q + 1] = c.cls[b + 1]} ps == {(q * 2 * c.nf) + (s * c.nf) + f + 1 : q \in eq, s \in {0, 1}}
          RECURSIVE S(_, _)
          S(T, fld) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN fld[x] + S(T \ {x}, fld)
        IN out.re[e] * 2 * Cardinality(eq) = 24 * S(ps, in.re) /\ out.im[e] * 2 * Cardinality(eq) = 24 * S(ps, in.im)
  IN If(Ok(c.giw, c.giwout), "Green's function is averaged over spins and equivalent bands") \cup If(Ok(c.siw, c.siwout), "self-energy is averaged over spins and equivalent bands")
     \cup If(c.giwkept = c.giw /\ c.siwkept = c.siw /\ c.rest /\ c.same, "the original data are kept")
Idx(c) == If(\A r \in DOMAIN c.rows : LET x == c.rows[r] d == Digits(2 * c.N, c.n, r) IN x.bs = d /\ x.b = Bands(d) /\ x.s = Spins(d), "flat index to band and spin")
  \cup If(\A r \in DOMAIN c.rows : c.rows[r].flat = FlatIdx(c.N, c.rows[r].b) /\ c.rows[r].back = c.rows[r].b, "band index and back") \cup If(Len(c.rows) = Pow(2 * c.N, c.n), "all components")
Reject(c) == If(c.rej, "unusable request is rejected") \cup If(c.same, "nothing is written")
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "sym" -> Sym(c) [] c.op = "onep" -> OneP(c) [] c.op = "idx" -> Idx(c) [] c.op = "reject" -> Reject(c)
=============================================================================
