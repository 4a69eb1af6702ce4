------------------------------ MODULE T_Config ------------------------------
(* Conformance of configuration objects (C17).                              *)
EXTENDS Conform, Config, Bloch, Brillouin
If(b, name) == IF b THEN {} ELSE {name}
EqBox(b, r) == b.w = r.w /\ b.v = r.v /\ b.s = r.s /\ b.a = r.a
\* ask, data, opt -> read (after the file), box (after the data), box2, optr (after the optics) as recorded; rej = stage at which the code refused
Resolve(c) ==
  LET b0 == Read(c.ask) rb == BoxRejected(b0, c.data) b1 == WithData(b0, c.data) ro == OptRejected(c.opt, b1) b2 == BoxAfterOptics(c.opt, b1) o == OptResolved(c.opt, b1) IN
  IF rb THEN If(c.rej = "box", "request beyond the vertex is rejected")
  ELSE If(c.rej # "box" /\ EqBox(b1, c.box), "box sizes") \cup
   (IF c.rej = "box" THEN {} ELSE
     If(c.again = c.box, "adding the data twice changes nothing") \cup If(c.pp = NivPP(b1) /\ c.full = b1.v + b1.s /\ c.wn = [i \in 1..(2 * b1.w + 1) |-> i - 1 - b1.w] /\ c.vn = [i \in 1..(2 * (b1.v + b1.s)) |-> i - 1 - b1.v - b1.s], "derived ranges") \cup
     (IF ro THEN If(c.rej = "optics", "optics request beyond the box is rejected")
      ELSE If(c.rej = "" /\ c.optr = o, "optics ranges") \cup (IF c.rej = "" THEN
        If(EqBox(b2, c.box2), "asymptotic range covers the bubble") \cup
        If(c.wv = [i \in 1..(2 * o.w + 1) |-> i - 1 - o.w] /\ c.wc = [i \in 1..(o.c + 1) |-> i - 1] /\ c.wb = [i \in 1..(2 * o.n + 1) |-> i - 1 - o.n], "optics frequency grids") ELSE {})))
\* lattices
Unknown(c) == (c.kind = "name" /\ c.name \notin DOMAIN NamedSym) \/ (c.kind = "list" /\ \E i \in DOMAIN c.list : c.list[i] \notin KnownSym)
Syms(c) == IF c.kind = "name" THEN NamedSym[c.name] ELSE IF c.kind = "list" THEN c.list ELSE <<>>
\* smallest member of the orbit of each point, for the orbits that the reduction is required to merge completely
Complete(c) == LET S == {Syms(c)[i] : i \in DOMAIN Syms(c)} IN S \in {{}, {"x-inv"}, {"y-inv"}, {"z-inv"}, {"x-inv", "y-inv"}, {"x-inv", "y-inv", "z-inv"}, {"x-inv", "y-inv", "x-y-sym"}} /\ (Len(Syms(c)) # 3 \/ Syms(c)[3] \in {"x-y-sym", "z-inv"})
Classes(nk, lab) == {{i \in DOMAIN lab : lab[i] = lab[j]} : j \in DOMAIN lab}
Lattice(c) ==
  IF c.bad THEN If(c.exc # "", "unusable lattice section is rejected")
  ELSE IF Unknown(c) THEN If(c.exc # "", "unknown symmetries are rejected")
  ELSE IF c.exc # "" THEN {"known lattice section is accepted"} ELSE
  If({c.got[i] : i \in DOMAIN c.got} = {Syms(c)[i] : i \in DOMAIN Syms(c)}, "symmetry set")
  \cup If(Complete(c) => /\ Classes(c.nk, c.klab) = Classes(c.nk, OrbitLabels(c.nk, Syms(c))) /\ Classes(c.nq, c.qlab) = Classes(c.nq, OrbitLabels(c.nq, Syms(c))), "equivalent momenta")
  \cup If(c.qraise = (\E d \in 1..3 : c.nk[d] % c.nq[d] # 0), "a q-mesh that is not part of the k-mesh is rejected where its points are looked up")
  \cup If(c.qraise \/ (Len(c.qk) = Len(c.ql) /\ \A i \in DOMAIN c.ql : \A d \in 1..3 : c.qk[i][d] * c.nq[d] = c.ql[i][d] * c.nk[d]), "points of the q-mesh are the same momenta on the k-mesh")
  \cup If(c.nkr = c.nk /\ c.nqr = c.nq /\ c.tot = <<NTot(c.nk), NTot(c.nq)>>, "meshes")
  \cup If(/\ c.ek.sh = c.nk /\ \A i \in 0..(NTot(c.nk) - 1) : Near(c.ek.re[i + 1], HopsH(SquareHops(c.hr[1], c.hr[1], c.hr[2], c.hr[2], c.hr[3], c.hr[3]), c.nk, Pt(c.nk, i))[1], 100), "dispersion")
Pairing(c) == If(c.s = <<c.k, GapSing(c.k)>> /\ c.t = <<c.k, GapTrip(c.k)>>, "starting gaps")
Section(c, def, got, given) == \A k \in DOMAIN def : IF k \in DOMAIN given THEN got[k] = given[k] ELSE got[k] = def[k]
Sections(c) ==
  If(Section(c, [Defaults EXCEPT !.do_poly_fitting = IF c.poly THEN "True" ELSE "False"], c.top, c.gtop), "top-level settings")
  \cup If(Section(c, EliashDefaults, c.el, c.gel), "pairing settings") \cup If(Section(c, OpticsDefaults, c.op_, c.gop), "optics settings") \cup If(Section(c, DebugDefaults, c.de, c.gde), "debug settings")
  \cup If(c.file, "configuration file is stored as it was read") \cup If(c.ranks, "all ranks read the same configuration")
Size(c) == If((c.exc # "") = (c.size > c.nkirr), "more ranks than irreducible momenta are rejected")
MaxE(c) == LET n == IF c.nwr = -1 THEN 501 ELSE c.nwr w == IF c.wmax = -1 THEN 15 ELSE c.wmax IN
  If(Len(c.mesh) = n /\ (\A i \in 1..(n - 1) : c.mesh[i] < c.mesh[i + 1]) /\ (\A i \in 1..n : Near(c.mesh[i], -c.mesh[n + 1 - i], 1)) /\ Near(c.mesh[1], -w * 10000, 1) /\ Near(c.mesh[n], w * 10000, 1), "real-frequency mesh")
  \cup If(c.kind = "linear" => \A i \in 1..n : Near(c.mesh[i], ((2 * w * 10000) \div (n - 1)) * (i - 1) - w * 10000, 2 * n), "linear mesh")
  \cup If(c.kind = "tan" /\ n >= 5 => (c.mesh[2] - c.mesh[1]) > 2 * (c.mesh[(n + 1) \div 2 + 1] - c.mesh[(n + 1) \div 2]), "dense mesh at zero")
  \cup If(c.nfit = IF c.gfit = -1 THEN 3 * c.beta + 10 ELSE c.gfit, "number of fitted frequencies")
  \cup If(c.opt = Min2(Max2(c.fmin, 4 * c.beta * c.t), c.fmax), "optimal number of fitted frequencies") \cup If(Near(c.bw * c.beta * c.t, 3141593, 4 * c.beta * c.t), "optimal blur width")
Fail(c) ==
  IF c.op = "lattice" THEN Lattice(c) ELSE IF c.op = "size" THEN Size(c) ELSE
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "resolve" -> Resolve(c) [] c.op = "pairing" -> Pairing(c) [] c.op = "sections" -> Sections(c) [] c.op = "maxent" -> MaxE(c)
  [] c.op = "yaml" -> If(c.files = <<"config.yaml", "eliashberg_config.yaml">>, "settings are written where they are told to") \cup If(c.e = c.we /\ c.o = c.wo /\ c.gap = c.wgap, "the settings written are those of the run")
  [] c.op = "set" -> If(c.k = "d-wave" /\ c.n = c.wn /\ c.eps = c.weps /\ c.keep, "settings taken over replace exactly the given ones")
  [] c.op = "template" -> If(c.same, "template is copied unaltered") \cup If(c.cwd /\ c.only, "only the configuration file is written") \cup If(c.top = c.given, "template is a valid configuration")
=============================================================================
