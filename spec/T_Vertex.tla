----------------------------- MODULE T_Vertex -----------------------------
(* Conformance of dga.local_four_point (C10) and of the ladder quantities of dga.four_point (C11): fixed point with 20 binary digits. *)
EXTENDS Conform, Wide, Matsubara
If(b, name) == IF b THEN {} ELSE {name}
S == WUnit
Tol == 128
FxMul(a, b) == WMul(a, b)
FxEq(a, b) == WNear(a, b, Tol)
FOk(a) == WOk(a)
V == INSTANCE Vertex WITH Add <- CAdd, Sub <- CSub, Mul <- FxMul, Eq <- FxEq, Zero <- CZero, One <- <<S, 0>>
Sc(x) == <<x, 0>>                       \* a real scalar, already scaled
Vec(a, w) == TLCEval([i \in 1..a.sh[2] |-> A2(a, w, i - 1)])
Mat(a, w) == TLCEval([i \in 1..a.sh[2] |-> [j \in 1..a.sh[3] |-> A3(a, w, i - 1, j - 1)]])
VecQ(a, q, w) == TLCEval([i \in 1..a.sh[3] |-> A3(a, q, w, i - 1)])
MatQ(a, q, w) == TLCEval([i \in 1..a.sh[3] |-> [j \in 1..a.sh[4] |-> A4(a, q, w, i - 1, j - 1)]])
Div2(x) == <<x[1] \div 2, x[2] \div 2>>

\* ---------------------------------------------------------------- conversions (replay of MCVertex walks)
KindAfter(name) == CASE name \in {"g2_from_chir"} -> "g2"
  [] name \in {"gchir_from_g2", "gchir_from_fob2", "gchir_from_gamob2"} -> "gchi"
  [] name \in {"fob2_from_gchir", "fob2_from_gamob2_urange"} -> "fob2"
  [] name \in {"gamob2_from_gchir", "gamob2_from_gchir_urange"} -> "gam"
  [] OTHER -> "aux"
\* g2 is recorded times beta; the disconnected part bgg = beta G G
Connected(c, m, w) ==
  IF c.channel = "dens" /\ c.wn[w + 1] = 0
  THEN [i \in DOMAIN m |-> [j \in DOMAIN m |-> CSub(m[i][j], CScale(2, FxMul(A1(c.bg, i - 1), A1(c.g, j - 1))))]] ELSE m
StepOk(c, kind, mat) ==
  \A w \in 0..(Len(c.wn) - 1) :
    LET n == c.x0.sh[2] m == Mat(mat, w) x0 == Vec(c.x0, w) gam == Mat(c.gam, w) IN
    CASE kind = "gam" -> V!All2(n, LAMBDA i, j : FxEq(m[i][j], gam[i][j]))
      [] kind = "gchi" -> V!BSE(n, m, x0, gam)
      [] kind = "g2" -> V!BSE(n, TLCEval(Connected(c, m, w)), x0, gam)
      [] kind = "fob2" -> V!FullFromGamma(n, m, gam, x0)
      [] kind = "aux" -> V!Aux(n, m, x0, gam, Sc(c.ub))
Walk(c) ==
  UNION {LET s == c.steps[k] nm == c.hist[k] IN
    If(s.mat.sh = <<Len(c.wn), c.x0.sh[2], c.x0.sh[2]>> /\ FOk(s.mat) /\ StepOk(c, KindAfter(nm), s.mat), "value after " \o nm)
    \cup If(s.channel = c.channel /\ s.meta = c.meta /\ s.wn = c.wn, "channel, temperature, interaction and frequencies are carried along by " \o nm)
    \cup If(s.intact, "operands unchanged by " \o nm) : k \in 1..Len(c.hist)}

\* ---------------------------------------------------------------- legs: everything derived from gam at one channel
Legs(c) ==
  LET n == c.x0.sh[2] nw == Len(c.wn) sg == Sc(c.sg * S) ub == Sc(c.ub) IN
  IF ~(FOk(c.gchi) /\ FOk(c.aux) /\ FOk(c.lam) /\ FOk(c.vlam) /\ FOk(c.vr) /\ FOk(c.vl) /\ FOk(c.chib2) /\ FOk(c.auxb2) /\ FOk(c.phys) /\ FOk(c.f) /\ FOk(c.fdc))
     \/ \E a \in {c.lam, c.vlam, c.vr, c.vl} : a.sh # <<nw, n>> THEN {"vertex functions are finite and have the shape of the window"} ELSE
  UNION {LET x0 == Vec(c.x0, w) x == Mat(c.gchi, w) aux == Mat(c.aux, w) lam == Vec(c.lam, w) chi == A1(c.chib2, w) IN
    If(V!BSE(n, x, x0, Mat(c.gam, w)), "Bethe-Salpeter equation of the generalized susceptibility")
    \cup If(V!Aux(n, aux, x0, Mat(c.gam, w), ub), "equation of the auxiliary susceptibility")
    \cup If(V!Contracted(n, chi, x), "legs are contracted with 1/beta^2")
    \cup If(V!Contracted(n, A1(c.auxb2, w), aux), "auxiliary legs are contracted with 1/beta^2")
    \cup If(V!Lambda(n, lam, x, x0, sg), "lambda vertex")
    \cup If(V!ThreeLegFromLambda(n, Vec(c.vlam, w), lam, sg, ub, chi), "three-leg vertex from the lambda vertex")
    \cup If(V!ThreeLeg(n, Vec(c.vr, w), x0, [i \in 1..n |-> V!RowSum(n, aux, i)], ub, CZero, CZero), "three-leg vertex from the auxiliary susceptibility")
    \cup If(V!ThreeLeg(n, Vec(c.vl, w), x0, [i \in 1..n |-> V!ColSum(n, aux, i)], ub, CZero, CZero), "three-leg vertex with the other leg summed")
    \cup If(V!Physical(A1(c.phys, w), A1(c.auxb2, w), CZero, CZero, ub) /\ FxEq(A1(c.phys, w), chi), "without a shell the physical susceptibility is the contracted one")
    \cup If(V!FullFromThreeLeg(n, Mat(c.f, w), aux, x0, Vec(c.vr, w), Vec(c.vl, w), ub, ub, chi), "full vertex from the three-leg vertices")
    \cup If(V!FullFromGchi(n, Mat(c.f, w), x, x0), "the full vertex from the three-leg vertices is the one of the Bethe-Salpeter equation")
    \cup If(V!FullFromThreeLeg(n, Mat(c.fdc, w), aux, x0, Vec(c.vr, w), Vec(c.vr, w), ub, ub, chi), "asymptotic full vertex from one three-leg vertex")
    : w \in 0..(nw - 1)}

\* ---------------------------------------------------------------- u-range with a shell of m frequencies on either side
\* wit: a solution of the extended Bethe-Salpeter equation (its validity is checked here)
Urange(c) ==
  LET n == c.gam.sh[2] big == c.x0.sh[2] m == (big - n) \div 2 ub == Sc(c.ub) IN
  IF ~(FOk(c.wit) /\ FOk(c.gam) /\ FOk(c.f) /\ FOk(c.auxbig)) \/ c.f.sh # c.wit.sh \/ c.auxbig.sh # c.wit.sh \/ c.ext.sh # c.wit.sh THEN {"u-range objects are finite and have the extended shape"} ELSE
  UNION {LET x0 == Vec(c.x0, w) gam == Mat(c.gam, w) ext == TLCEval(V!Extended(n, m, gam, ub)) wit == Mat(c.wit, w) IN
    If(Mat(c.ext, w) = ext, "the u-range holds the bare interaction outside the core")
    \cup If(V!BSE(big, wit, x0, ext), "u-range Bethe-Salpeter equation")
    \cup If(LET cut == V!Cut2(wit, n, m) x == Mat(c.gchi, w) IN V!All2(n, LAMBDA i, j : FxEq(cut[i][j], x[i][j])), "the u-range irreducible vertex reproduces the given susceptibility in the core")
    \cup If(V!FullFromGamma(big, Mat(c.f, w), ext, x0), "u-range full vertex")
    \cup If(V!Aux(big, Mat(c.auxbig, w), x0, ext, ub), "u-range auxiliary susceptibility")
    : w \in 0..(Len(c.wn) - 1)}

\* three-leg vertex and physical susceptibility with bubble sums on a larger window (and a tail); everything times beta^2
PhysThreeLeg(n, m, x0, aux, ub, vrg, chi, tail, rows) ==
  LET x0c == V!CutSeq(x0, n, m)
      c0u == V!Sum(n + 2 * m, LAMBDA i : x0[i]) c0c == V!Sum(n, LAMBDA i : x0c[i])
      chiu == CSub(chi, tail) IN
  If(V!Physical(chiu, V!TotalSum(n, aux), c0u, c0c, ub), "physical susceptibility with the bubble of the larger window")
  \cup If(V!ThreeLeg(n, vrg, x0c, [i \in 1..n |-> IF rows THEN V!RowSum(n, aux, i) ELSE V!ColSum(n, aux, i)], ub, chiu, IF tail = CZero THEN chiu ELSE chi), "three-leg vertex with the larger window")
PhysLoc(c) ==
  LET n == c.gam.sh[2] m == (c.x0.sh[2] - n) \div 2 IN
  IF ~(FOk(c.vrg) /\ FOk(c.chib2) /\ FOk(c.wit)) \/ c.vrg.sh # <<Len(c.wn), n>> \/ c.chib2.sh # <<Len(c.wn)>> THEN {"three-leg vertex and susceptibility are finite and have the shape of the window"} ELSE
  UNION {LET aux == Mat(c.wit, w) x0 == Vec(c.x0, w) IN
    If(V!Aux(n, aux, V!CutSeq(x0, n, m), Mat(c.gam, w), Sc(c.ub)), "witness")
    \cup PhysThreeLeg(n, m, x0, aux, Sc(c.ub), Vec(c.vrg, w), A1(c.chib2, w), A1(c.tail, w), c.rows) : w \in 0..(Len(c.wn) - 1)}

\* ---------------------------------------------------------------- ladder: x0[q, w, v], gam[w, v, v']
Ladder(c) ==
  LET n == c.gam.sh[2] m == (c.x0.sh[3] - n) \div 2 nq == c.x0.sh[1] nw == c.x0.sh[2] ub == Sc(c.ub) sg == Sc(c.sg * S) IN
  IF ~(FOk(c.gchi) /\ FOk(c.aux) /\ FOk(c.vrg) /\ FOk(c.vrgt) /\ FOk(c.phys) /\ FOk(c.lam) /\ FOk(c.f1) /\ FOk(c.f2)) \/ c.gchi.sh # <<nq, nw, n, n>> \/ c.aux.sh # <<nq, nw, n, n>>
     \/ c.vrg.sh # <<nq, nw, n>> \/ c.phys.sh # <<nq, nw>> \/ c.lam.sh # <<nq, nw, n>> \/ c.f1.sh # <<nq, nw, n, n>> \/ c.f2.sh # <<nq, nw, n, n>>
  THEN {"ladder quantities are finite and have one entry per momentum and frequency"} ELSE
  UNION {LET x0u == VecQ(c.x0, q, w) x0 == TLCEval(V!CutSeq(x0u, n, m)) gam == Mat(c.gam, w) aux == MatQ(c.aux, q, w) x == MatQ(c.gchi, q, w)
             f1 == MatQ(c.f1, q, w) f2 == MatQ(c.f2, q, w) vrg == VecQ(c.vrg, q, w) IN
    If(V!BSE(n, x, x0, gam), "lattice Bethe-Salpeter equation")
    \cup If(V!Aux(n, aux, x0, gam, ub), "lattice auxiliary susceptibility")
    \cup PhysThreeLeg(n, m, x0u, aux, ub, vrg, A2(c.phys, q, w), CZero, TRUE)
    \cup If(LET phys == A2(c.phys, q, w) as == CAdd(phys, A2(c.tail, q, w)) IN
            /\ FxEq(A2(c.physt, q, w), as)
            /\ V!ThreeLeg(n, VecQ(c.vrgt, q, w), x0, [i \in 1..n |-> V!RowSum(n, aux, i)], ub, phys, as), "tail-corrected susceptibility and three-leg vertex")
    \cup If(V!Lambda(n, VecQ(c.lam, q, w), x, x0, sg), "lattice lambda vertex")
    \* recorded over beta^2: x0 f1 x0 = x0 - aux;  f2 = ub vrg vrg
    \cup If(V!All2(n, LAMBDA i, j : FxEq(CAdd(FxMul(FxMul(x0[i], f1[i][j]), x0[j]), aux[i][j]), V!Delta(i, j, x0[i]))), "ladder vertex: local part")
    \cup If(V!All2(n, LAMBDA i, j : FxEq(f2[i][j], FxMul(ub, FxMul(vrg[i], vrg[j])))), "ladder vertex: three-leg part")
    : q \in 0..(nq - 1), w \in 0..(nw - 1)}

\* both channels and the double-counting kernel from one call; wit: solutions of the auxiliary equations (validity checked here)
Pair(c) ==
  LET n == c.vloc.sh[2] big == c.x0.sh[3] m == (big - n) \div 2 nq == c.x0.sh[1] nw == c.x0.sh[2] IN
  IF (\E ch \in {"dens", "magn"} : ~FOk(c.vrg[ch]) \/ ~FOk(c.chi[ch]) \/ c.vrg[ch].sh # <<nq, nw, n>> \/ c.chi[ch].sh # <<nq, nw>>) \/ ~FOk(c.kdc) \/ c.kdc.sh # <<nq, nw, n>>
  THEN {"ladder quantities are finite and have one entry per momentum and frequency"} ELSE
  If(c.asked, "bubbles and tails are taken at the core plus shell window and the given momenta") \cup
  UNION {LET x0u == VecQ(c.x0, q, w) x0 == TLCEval(V!CutSeq(x0u, n, m)) tail == A2(c.tail, q, w) IN
    UNION {LET ub == Sc(c.ub[ch]) aux == MatQ(c.wit[ch], q, w) chi == A2(c.chi[ch], q, w) phys == CSub(chi, tail) IN
      If(V!Aux(n, aux, x0, Mat(c.gam[ch], w), ub), "witness")
      \cup If(V!Physical(phys, V!TotalSum(n, aux), V!Sum(big, LAMBDA i : x0u[i]), V!Sum(n, LAMBDA i : x0[i]), ub), "susceptibility of the channel with shell and tail")
      \cup If(V!ThreeLeg(n, VecQ(c.vrg[ch], q, w), x0, [i \in 1..n |-> V!RowSum(n, aux, i)], ub, phys, chi), "three-leg vertex of the channel with shell and tail")
      : ch \in {"dens", "magn"}}
    \cup If(\A i \in 1..n : FxEq(A3(c.kdc, q, w, i - 1),
           CAdd(FxMul(Sc(c.ur), V!Sum(big, LAMBDA j : FxMul(x0u[j], A3(c.fdc, w, i + m - 1, j - 1)))),
                FxMul(FxMul(Sc(c.pre), CSub(<<S, 0>>, FxMul(Sc(c.ub.magn), A1(c.chiloc, w)))), FxMul(A2(c.vloc, w, i - 1), tail)))), "double-counting kernel: full local vertex on the window plus the shell with the local magnetic three-leg vertex")
    : q \in 0..(nq - 1), w \in 0..(nw - 1)}

\* older shell formulas, one entry: everything scaled by S
ShellForm(c) ==
  LET n == c.lam.sh[2] u == Sc(c.u) ur == Sc(c.ur) sg == Sc(c.sg * S) ib == Sc(c.invb2) IN
  IF ~(FOk(c.lamt) /\ FOk(c.shell) /\ FOk(c.chit) /\ FOk(c.vrg)) THEN {"finite"} ELSE
  UNION {LET xs == A1(c.xs, w) lt == Vec(c.lamt, w) x0 == Vec(c.x0, w) lam == Vec(c.lam, w) ch == A1(c.chit, w) us == FxMul(u, xs) IN
    If(\A i \in 1..n : FxEq(FxMul(lt[i], CAdd(<<S, 0>>, FxMul(ur, xs))), CSub(lam[i], us)), "lambda vertex with the shell folded in")
    \cup If(FxEq(A1(c.shell, w), CAdd(CNeg(FxMul(sg, FxMul(us, xs))),
           FxMul(xs, CSub(<<S, 0>>, CScale(2, FxMul(u, FxMul(ib, V!Sum(n, LAMBDA i : FxMul(CAdd(lt[i], sg), x0[i]))))))))), "shell part of the susceptibility")
    \cup If(FxEq(FxMul(ch, CSub(<<S, 0>>, FxMul(us, us))), CAdd(A1(c.chicore, w), A1(c.shell, w))), "susceptibility with the shell folded in")
    \cup If(\A i \in 1..n : FxEq(FxMul(A2(c.vrg, w, i - 1), CSub(<<S, 0>>, FxMul(ur, ch))), CAdd(<<S, 0>>, FxMul(sg, lt[i]))), "three-leg vertex with the shell folded in")
    : w \in 0..(c.lam.sh[1] - 1)}

\* ---------------------------------------------------------------- objects
ObjOp(c) ==
  If(c.u_r = c.sg * c.u, "sign of the interaction in the channel")
  \cup If(c.wnout = c.wn /\ c.wnlin = [i \in 1..Len(c.wn) |-> i - 1] /\ c.niv = c.nivexp, "frequency bookkeeping of the object")
Entry(c) == \* exact integer arrays: out at (w, v, v') from inp
  LET sh == c.inp.sh IN
  CASE c.what = "cut_iv" -> If(c.out.sh = <<sh[1], 2 * c.n, 2 * c.n>> /\ \A w \in 0..(sh[1] - 1), i, j \in 0..(2 * c.n - 1) :
          A3(c.out, w, i, j) = A3(c.inp, w, i + (sh[2] \div 2) - c.n, j + (sh[2] \div 2) - c.n), "cutting the fermionic window")
    [] c.what = "cut_iw" -> If(c.out.sh = <<2 * c.n + 1, sh[2], sh[3]>> /\ \A w \in 0..(2 * c.n), i \in 0..(sh[2] - 1), j \in 0..(sh[3] - 1) :
          A3(c.out, w, i, j) = A3(c.inp, w + (sh[1] \div 2) - c.n, i, j), "cutting the bosonic window")
    [] c.what = "append" -> If(c.out.sh = <<sh[1], sh[2] + 2 * c.n, sh[3] + 2 * c.n>> /\ \A w \in 0..(sh[1] - 1), i, j \in 0..(sh[2] + 2 * c.n - 1) :
          A3(c.out, w, i, j) = IF i >= c.n /\ i < sh[2] + c.n /\ j >= c.n /\ j < sh[2] + c.n THEN A3(c.inp, w, i - c.n, j - c.n) ELSE <<c.val, 0>>, "appending a shell")
    [] c.what = "sym" -> If(c.out.sh = sh /\ \A w \in 0..(sh[1] - 1), i, j \in 0..(sh[2] - 1) :      \* recorded times 2
          A3(c.out, w, i, j) = CAdd(A3(c.inp, w, i, j), A3(c.inp, w, j, i)), "symmetrization averages each entry with its transpose")
    [] c.what = "legs" -> If(c.out.sh = <<sh[1]>> /\ \A w \in 0..(sh[1] - 1) : A1(c.out, w) = SumC(Prod(sh) \div sh[1], LAMBDA k :
          LET o == w * (Prod(sh) \div sh[1]) + k IN <<c.inp.re[o], c.inp.im[o]>>), "contracting the legs")
    [] c.what = "gg" -> If(c.out.sh = <<2 * c.n, 2 * c.n>> /\ \A i, j \in 0..(2 * c.n - 1) :
          A2(c.out, i, j) = CMul(A1(c.inp, i + (sh[1] \div 2) - c.n), A1(c.inp, j + (sh[1] \div 2) - c.n)), "disconnected part")
    [] c.what = "diag" -> If(c.out.sh = <<sh[1], sh[2], sh[2]>> /\ \A w \in 0..(sh[1] - 1), i, j \in 0..(sh[2] - 1) :
          A3(c.out, w, i, j) = IF i = j THEN A2(c.inp, w, i) ELSE CZero, "the bubble is diagonal in v, v'")
    \* crossed ladder vertices as functions of v - v' (recorded times 2): window n = half of the bosonic half width
    [] c.what = "fdiag" -> LET nw == sh[1] \div 2 nn == c.out.sh[1] \div 2 IN
          If(c.out.sh = <<2 * nn, 2 * nn>> /\ nn = nw \div 2 /\ \A i, j \in 0..(2 * nn - 1) :
             A2(c.out, i, j) = IF c.channel = "magn" THEN CSub(A1(c.inp, nw + i - j), A1(c.inp2, nw + i - j))
                               ELSE CAdd(A1(c.inp, nw + i - j), CScale(3, A1(c.inp2, nw + i - j))), "crossed susceptibilities in the channel combination")
Fail1(c) ==
  IF c.exc # "" THEN {"completes without an error"}
  ELSE CASE c.op = "walk" -> Walk(c)
         [] c.op = "legs" -> Legs(c)
         [] c.op = "urange" -> Urange(c)
         [] c.op = "physloc" -> PhysLoc(c)
         [] c.op = "ladder" -> Ladder(c)
         [] c.op = "pair" -> Pair(c)
         [] c.op = "shellform" -> ShellForm(c)
         [] c.op = "obj" -> ObjOp(c)
         [] c.op = "entry" -> Entry(c)
\* results carry channel, temperature, interaction and frequencies of their operands
Fail(c) == Fail1(c)
  \cup If("objs" \in DOMAIN c => \A i \in DOMAIN c.objs : c.objs[i] = c.objexp, "channel, temperature, interaction and frequencies are carried along")
  \cup If("same" \in DOMAIN c => c.same, "operands unchanged")
=============================================================================
