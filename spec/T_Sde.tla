------------------------------ MODULE T_Sde ------------------------------
(* Conformance of the Schwinger-Dyson routines (C12): integer inputs, exact; the local limit in fixed point. *)
EXTENDS Conform, Sde, Wide
If(b, name) == IF b THEN {} ELSE {name}
GOf(c) == LET N == c.g.sh[4] \div 2 IN [k \in {<<x, y, z>> : x \in 0..(c.nk[1] - 1), y \in 0..(c.nk[2] - 1), z \in 0..(c.nk[3] - 1)} |->
             TLCEval([v \in (-N)..(N - 1) |-> A4(c.g, k[1], k[2], k[3], v + N)])]
KOf(c) == {<<x, y, z>> : x \in 0..(c.nk[1] - 1), y \in 0..(c.nk[2] - 1), z \in 0..(c.nk[3] - 1)}
Ker3(nq, nw, n, f(_, _, _)) == TLCEval([i \in 1..nq |-> [j \in 1..nw |-> [v \in (-n)..(n - 1) |-> f(i - 1, j - 1, v)]]])
Chan(c, vrg, chi, ur) == Ker3(Len(c.qs), Len(c.wn), c.n, LAMBDA i, j, v : Kernel2(ur, A2(chi, i, j), A3(vrg, i, j, v + c.n)))
Given(c, a, s) == Ker3(Len(c.qs), Len(c.wn), c.n, LAMBDA i, j, v : CScale(s, A3(a, i, j, v + c.n)))
Sum3(a, b, s) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> [v \in DOMAIN a[i][j] |-> CAdd(a[i][j][v], CScale(s, b[i][j][v]))]]]
\* kernel in the core, u^2 (sum of the susceptibilities) in the shell (times 2)
Window(c, core, chis(_, _)) == LET n == c.n m == c.m IN
  TLCEval([i \in 1..Len(c.qs) |-> [j \in 1..Len(c.wn) |-> TLCEval([v \in (-(n + m))..(n + m - 1) |-> IF InCore(n, v) THEN core[i][j][v] ELSE CScale(c.u * c.u, chis(i - 1, j - 1))])]])
Lattice(c, out, K, m) ==
  LET G == TLCEval(GOf(c)) n == c.n IN
  /\ out.sh = <<c.nk[1], c.nk[2], c.nk[3], 2 * (n + m)>>
  /\ \A k \in KOf(c), v \in (-(n + m))..(n + m - 1) :
       A4(out, k[1], k[2], k[3], v + n + m) = SdeAt(c.nk, c.qs, c.wn, LAMBDA i, j, x : K[i][j][x], LAMBDA p, x : G[p][x], k, v)
FullQ(c) ==
  LET core == Sum3(Sum3(Chan(c, c.vd, c.cd, c.u), Chan(c, c.vm, c.cm, -c.u), 3), Given(c, c.kd, 2), -1)
      K == Window(c, core, LAMBDA i, j : CAdd(A2(c.cd, i, j), A2(c.cm, i, j))) IN
  If(Lattice(c, c.out, K, c.m), "lattice Schwinger-Dyson equation") \cup If(c.same, "inputs unchanged")
KernQ(c) == If(Lattice(c, c.out, Given(c, c.kd, 1), 0), "sum of a kernel and the shifted Green's function")
VrgQ(c) ==
  LET core == Chan(c, c.vd, c.cd, c.sg * c.u)
      K == TLCEval([i \in 1..Len(c.qs) |-> [j \in 1..Len(c.wn) |-> [v \in (-c.n)..(c.n - 1) |-> CScale(c.dup[i], core[i][j][v])]]]) IN
  If(Lattice(c, c.out, K, 0), "one channel with multiplicities")
  \cup If(c.kernel.sh = c.vd.sh /\ \A i \in 1..Len(c.qs), j \in 1..Len(c.wn), v \in (-c.n)..(c.n - 1) : A3(c.kernel, i - 1, j - 1, v + c.n) = core[i][j][v], "kernel of a channel")
ChanQ(c) == LET K == Window(c, Chan(c, c.vd, c.cd, c.sg * c.u), LAMBDA i, j : A2(c.cd, i, j)) IN
  If(Lattice(c, c.out, K, c.m), "one channel with its shell")
DcOld(c) == If(Lattice(c, c.out, Given(c, c.kd, c.u), 0), "sum with the double-counting function")
Dck(c) == If(c.out.sh = c.x0.sh /\ \A i \in 0..(c.x0.sh[1] - 1), j \in 0..(c.x0.sh[2] - 1), v \in 0..(c.x0.sh[3] - 1) :
     A3(c.out, i, j, v) = DcKernel(c.ur, c.x0.sh[3], LAMBDA y : A3(c.x0, i, j, y - 1), LAMBDA y : A3(c.f, j, v, y - 1)), "double-counting kernel")
LocG(c, v) == A1(c.gl, v + (c.gl.sh[1] \div 2))
LocK(c, vrg, chi, ur, j, v) == IF InCore(c.n, v) THEN Kernel2(ur, A2(chi, 0, j), A3(vrg, 0, j, v + c.n)) ELSE CScale(c.u * c.u, A2(chi, 0, j))
LocSum(c, vrg, chi, ur, v) == SumC(Len(c.wn), LAMBDA j : CMul(LocK(c, vrg, chi, ur, j - 1, v), LocG(c, v - c.wn[j])))
Local(c) ==
  LET h == c.n + c.m IN
  IF c.out.sh # <<2 * h>> \/ c.dens.sh # <<2 * h>> \/ c.magn.sh # <<2 * h>> THEN {"local self-energy has the full window"} ELSE
  If(\A v \in (-h)..(h - 1) : A1(c.dens, v + h) = LocSum(c, c.vd, c.cd, c.u, v) /\ A1(c.magn, v + h) = LocSum(c, c.vm, c.cm, -c.u, v), "local Schwinger-Dyson equation of a channel")
  \cup If(\A v \in (-h)..(h - 1) : A1(c.out, v + h) = CAdd(<<c.bun, 0>>, CAdd(LocSum(c, c.vd, c.cd, c.u, v), LocSum(c, c.vm, c.cm, -c.u, v))), "local Schwinger-Dyson equation: Hartree term and both channels")
  \cup If(c.tail.sh = <<2 * c.m>> /\ \A i \in 0..(2 * c.m - 1) : LET v == IF i < c.m THEN i - h ELSE i - c.m + c.n IN
            A1(c.tail, i) = CScale(c.u * c.u, SumC(Len(c.wn), LAMBDA j : CMul(A2(c.cd, 0, j - 1), LocG(c, v - c.wn[j])))), "shell of the self-energy")
  \cup If(c.same, "inputs unchanged")
LocalF(c) == If(c.out.sh = <<2 * c.n>> /\ \A v \in (-c.n)..(c.n - 1) : A1(c.out, v + c.n) = CScale(c.u, SumC(Len(c.wn), LAMBDA j :
     CMul(SumC(2 * c.n, LAMBDA y : CMul(A3(c.f, j - 1, v + c.n, y - 1), A2(c.x0, j - 1, y - 1))), LocG(c, v - c.wn[j])))), "local Schwinger-Dyson equation from the full vertex")
Near3(a, b) == WNear(a, b, 16)
Limit(c) ==
  LET sh == c.loc.sh[1] nq == c.kdc.sh[1] IN
  IF ~(WOk(c.loc) /\ WOk(c.lat) /\ WOk(c.kdc) /\ WOk(c.km2)) \/ c.lat.sh # <<c.nk[1], c.nk[2], c.nk[3], sh>> \/ c.kdc.sh # c.km2.sh THEN {"finite, with the window of the local self-energy"} ELSE
  If(\A i \in DOMAIN c.kdc.re : Near3(<<c.kdc.re[i], c.kdc.im[i]>>, <<c.km2.re[i], c.km2.im[i]>>), "local limit: the double counting is twice the magnetic kernel")
  \cup If(\A r \in 1..2, q \in 0..(nq - 1), w \in 0..(c.chi[1].sh[1] - 1) : Near3(A1(c.chi[r], w), A2(c.chiq[r], q, w)), "local limit: the ladder susceptibility is the local one at every momentum")
  \cup If(\A k \in KOf(c), v \in 0..(sh - 1) : Near3(CAdd(A4(c.lat, k[1], k[2], k[3], v), <<c.hartree, 0>>), A1(c.loc, v)), "local limit: the lattice self-energy is the local one at every momentum")
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"}
  ELSE CASE c.op = "fullq" -> FullQ(c)
         [] c.op = "kernq" -> KernQ(c)
         [] c.op = "vrgq" -> VrgQ(c)
         [] c.op = "chanq" -> ChanQ(c)
         [] c.op = "dco" -> DcOld(c)
         [] c.op = "dck" -> Dck(c)
         [] c.op = "local" -> Local(c)
         [] c.op = "localf" -> LocalF(c)
         [] c.op = "limit" -> Limit(c)
=============================================================================
