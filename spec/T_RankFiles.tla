---------------------------- MODULE T_RankFiles ----------------------------
(* Conformance of the vertex files and of the vertices assembled from them (C03), exact in Gaussian integers. *)
EXTENDS Conform, RankFiles
If(b, name) == IF b THEN {} ELSE {name}
Ur(c, ch) == IF ch = "dens" THEN c.u ELSE -c.u
Xi(c, q, w, v) == CConj(A3(c.x0, q, w + c.nw, v + c.nv))
Names == {<<"f1m", "magn", 1>>, <<"f2m", "magn", 2>>, <<"f1d", "dens", 1>>, <<"f2d", "dens", 2>>}
QS(c) == 0..(c.nq - 1)
FAt(c, ch, k, q, ww, a1, a2) == IF k = 1 THEN F1(c.beta, Xi(c, q, ww, a1), Xi(c, q, ww, a2), A4(c.aux[ch], q, ww + c.nw, a1 + c.nv, a2 + c.nv), a1 = a2)
                                ELSE F2(Ur(c, ch), A3(c.vrg[ch], q, ww + c.nw, a1 + c.nv), A3(c.vrg[ch], q, ww + c.nw, a2 + c.nv))
FullOk(c, x) == LET a == c.out[x[1]] IN
  /\ a.sh = <<c.nq, 2 * c.nw + 1, 2 * c.nv, 2 * c.nv>>
  /\ \A q \in QS(c), w \in WRange(c.nw), v \in VRange(c.nv), vp \in VRange(c.nv) :
        A4(a, q, w + c.nw, v + c.nv, vp + c.nv) = FAt(c, x[2], x[3], q, w, v, vp)
PairOk(c, x) == LET a == c.out[x[1]] n == NivPP(c.nw, c.nv) IN
  /\ c.npp = n /\ a.sh = <<c.nq, 2 * n, 2 * n>>
  /\ \A q \in QS(c), v \in VRange(n), vp \in VRange(n) :
       A3(a, q, v + n, vp + n) = PPTwice(LAMBDA w, a1, a2 : FAt(c, x[2], x[3], q, w, a1, a2), v, vp)
OptOk(c, x) == LET a == c.out[x[1]] IN
  /\ a.sh = <<c.nq, 2 * c.ow + 1, c.oc + 1, 2 * c.ov>> /\ c.ov = c.nv - c.oc
  /\ \A q \in QS(c), w \in WRange(c.ow), wc \in 0..c.oc, v \in VRange(c.ov) :
       A4(a, q, w + c.ow, wc, v + c.ov) = OptEntry(LAMBDA ww, a1, a2 : FAt(c, x[2], x[3], q, ww, a1, a2), w, wc, v)

\* -------- the assembled vertices on the full mesh: representative of each mesh point, lambda-corrected susceptibility
Mesh(c) == {<<x, y, z>> : x \in 0..(c.nk[1] - 1), y \in 0..(c.nk[2] - 1), z \in 0..(c.nk[3] - 1)}
RepOf(c, k) == c.rep[(k[1] * c.nk[2] + k[2]) * c.nk[3] + k[3] + 1]
Sgn(ch) == IF ch = "dens" THEN 1 ELSE -1
\* s * f1 + (1 - u_r chi) * (s * f2)
Whole(c, ch, k, w, f1, f2) == CAdd(f1, CMul(CSub(COne, CScale(Sgn(ch) * c.u, A4(c.chi[ch], k[1], k[2], k[3], w + c.nw))), f2))
BFull(c, a, ch) ==
  /\ a.sh = c.nk \o <<2 * c.nw + 1, 2 * c.nv, 2 * c.nv>>
  /\ \A k \in Mesh(c), w \in WRange(c.nw), v \in VRange(c.nv), vp \in VRange(c.nv) :
       LET q == RepOf(c, k) IN
       A6(a, k[1], k[2], k[3], w + c.nw, v + c.nv, vp + c.nv) = Whole(c, ch, k, w, FAt(c, ch, 1, q, w, v, vp), FAt(c, ch, 2, q, w, v, vp))
BPairAt(c, ch, k, v, vp) == LET q == RepOf(c, k) g(p) == PPTwice(LAMBDA w, a1, a2 : FAt(c, ch, p, q, w, a1, a2), v, vp) IN Whole(c, ch, k, v - vp, g(1), g(2))
BPair(c, a, cm, cd) == LET n == NivPP(c.nw, c.nv) IN
  /\ c.npp = n /\ a.sh = c.nk \o <<2 * n, 2 * n>>
  /\ \A k \in Mesh(c), v \in VRange(n), vp \in VRange(n) :
       A5(a, k[1], k[2], k[3], v + n, vp + n) = CAdd(CScale(cm, BPairAt(c, "magn", k, v, vp)), CScale(cd, BPairAt(c, "dens", k, v, vp)))
BOptAt(c, ch, k, w, wc, v) == LET q == RepOf(c, k) g(p) == OptEntry(LAMBDA ww, a1, a2 : FAt(c, ch, p, q, ww, a1, a2), w, wc, v) IN Whole(c, ch, k, w, g(1), g(2))
BOpt(c, a) ==
  /\ a.sh = c.nk \o <<2 * c.ow + 1, c.oc + 1, 2 * c.ov>>
  /\ \A k \in Mesh(c), w \in WRange(c.ow), wc \in 0..c.oc, v \in VRange(c.ov) :
       A6(a, k[1], k[2], k[3], w + c.ow, wc, v + c.ov) = CNeg(CAdd(BOptAt(c, "dens", k, w, wc, v), CScale(3, BOptAt(c, "magn", k, w, wc, v))))
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "write" -> {}
    [] c.op = "fq" -> UNION {If(FullOk(c, x), "full vertex slices are where they were written for: " \o x[1]) : x \in Names} \cup If(c.same, "inputs unchanged")
    [] c.op = "pv" -> UNION {If(PairOk(c, x), "pairing vertex is the averaged pp transform: " \o x[1]) : x \in Names}
    [] c.op = "f" -> UNION {If(OptOk(c, x), "optics slices are where they were written for: " \o x[1]) : x \in Names}
    [] c.op = "bfq" -> If(BFull(c, c.dens, "dens"), "density ladder vertex") \cup If(BFull(c, c.magn, "magn"), "magnetic ladder vertex") \cup If(c.same, "inputs unchanged")
    [] c.op = "bpv" -> If(BPair(c, c.sing, 3, -1), "singlet pairing vertex") \cup If(BPair(c, c.trip, 1, 1), "triplet pairing vertex") \cup If(c.same, "inputs unchanged")
    [] c.op = "bf" -> If(BOpt(c, c.cond), "optics vertex") \cup If(c.same, "inputs unchanged")
=============================================================================
