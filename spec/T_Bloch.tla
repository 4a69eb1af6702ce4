------------------------------ MODULE T_Bloch ------------------------------
(* Conformance of tight-binding Hamiltonians (C15) and their files (C16).   *)
EXTENDS Conform, Bloch, HrFile
If(b, name) == IF b THEN {} ELSE {name}
KSet(nk) == {<<x, y, z>> : x \in 0..(nk[1] - 1), y \in 0..(nk[2] - 1), z \in 0..(nk[3] - 1)}
KPos(nk, k) == (k[1] * nk[2] + k[2]) * nk[3] + k[3]
NTot(nk) == nk[1] * nk[2] * nk[3]
\* c.hr [r,a,b], c.r [r,a,b,3] flat, c.w [r] degeneracies, D = 12
D == 12
Hop(c, i, a, b) == A3(c.hr, i - 1, a, b)
Rv(c, i, a, b) == LET o == (((i - 1) * c.nb + a) * c.nb + b) * 3 IN <<c.r[o + 1], c.r[o + 2], c.r[o + 3]>>
Tol(c, a, b) == SumAbs(c.nr, D, LAMBDA i : c.w[i], LAMBDA i : Hop(c, i, a, b)) + 3
HRef(c, k, a, b) == HSum(c.nk, k, c.nr, D, LAMBDA i : c.w[i], LAMBDA i : Rv(c, i, a, b), LAMBDA i : Hop(c, i, a, b))
DRef(c, k, a, b, d) == DSum(c.nk, k, c.nr, D, LAMBDA i : c.w[i], LAMBDA i : Rv(c, i, a, b), LAMBDA i : Hop(c, i, a, b), d)
HAt(c, x, k, a, b) == LET o == (KPos(c.nk, k) * c.nb + a) * c.nb + b + 1 IN <<x.re[o], x.im[o]>>
O1(x, nk, k) == <<x.re[KPos(nk, k) + 1], x.im[KPos(nk, k) + 1]>>
Orb(c) == 0..(c.nb - 1)
Hk(c) ==
  If(/\ c.ek.sh = c.nk \o <<c.nb, c.nb>> /\ \A k \in KSet(c.nk), a, b \in Orb(c) : CNear(HAt(c, c.ek, k, a, b), HRef(c, k, a, b), Tol(c, a, b)), "H(k) is the Bloch sum of the hoppings")
  \cup If(/\ c.e1.sh = c.nk /\ \A k \in KSet(c.nk) : CNear(O1(c.e1, c.nk, k), HRef(c, k, 0, 0), Tol(c, 0, 0)), "one-band dispersion")
  \cup If(/\ c.list.sh = <<NTot(c.nk), c.nb, c.nb>> /\ \A k \in KSet(c.nk), a, b \in Orb(c) : CNear(HAt(c, c.list, k, a, b), HRef(c, k, a, b), Tol(c, a, b)), "momentum list")
  \cup If(\A d \in 1..3 : /\ c.lv[d].sh = c.nk \o <<c.nb, c.nb>> /\ \A k \in KSet(c.nk), a, b \in Orb(c) : CNear(HAt(c, c.lv[d], k, a, b), DRef(c, k, a, b, d), 4 * Tol(c, a, b)), "light vertex is the derivative")
  \cup If(\A d \in 1..3 : c.l1[d].sh = c.nk /\ \A k \in KSet(c.nk) : CNear(O1(c.l1[d], c.nk, k), DRef(c, k, 0, 0, d), 4 * Tol(c, 0, 0)), "one-band light vertex")
  \cup If(c.herm => \A k \in KSet(c.nk), a, b \in Orb(c) : CNear(HAt(c, c.ek, k, a, b), CConj(HAt(c, c.ek, k, b, a)), 3) /\ \A d \in 1..3 : CNear(HAt(c, c.lv[d], k, a, b), CConj(HAt(c, c.lv[d], k, b, a)), 3), "Hermitian")
  \cup If(c.same, "operands unchanged")
\* one-band models on the square lattice: c.p = tx, ty, d1, d2, tppx, tppy, tz
SqH(c) == SquareWithZ(SquareHops(c.p[1], c.p[2], c.p[3], c.p[4], c.p[5], c.p[6]), c.p[7])
Tol1(c) == 2 * (Abs(c.p[1]) + Abs(c.p[2]) + Abs(c.p[3]) + Abs(c.p[4]) + 2 * Abs(c.p[5]) + 2 * Abs(c.p[6]) + Abs(c.p[7])) + 4
Model(c) == LET h == SquareHops(c.p[1], c.p[2], c.p[3], c.p[4], c.p[5], c.p[6]) IN
  If(/\ c.nr = 12 /\ {<<Rv(c, i, 0, 0), Hop(c, i, 0, 0)[1]>> : i \in 1..c.nr} = h /\ \A i \in 1..c.nr : Hop(c, i, 0, 0)[2] = 0, "documented neighbours and hoppings")
  \cup If(\A i \in DOMAIN c.orbs : c.orbs[i] = 1, "orbital indices") \cup If(\A i \in DOMAIN c.w : c.w[i] = 1, "degeneracies")
  \cup If(/\ c.ek.sh = c.nk /\ \A k \in KSet(c.nk) : CNear(O1(c.ek, c.nk, k), HopsH(h, c.nk, k), Tol1(c)), "dispersion")
  \cup If(\A d \in 1..3 : /\ c.lv[d].sh = c.nk /\ \A k \in KSet(c.nk) : CNear(O1(c.lv[d], c.nk, k), HopsD(h, c.nk, k, d), 2 * Tol1(c)), "light vertex")
Disp(c) == If(/\ c.ek.sh = c.want /\ \A k \in KSet(c.nk) : CNear(O1(c.ek, c.nk, k), HopsH(SqH(c), c.nk, [d \in 1..3 |-> k[d] + c.q[d]]), Tol1(c)), "dispersion")
DispX(c) == If(c.ek.sh = c.want /\ \A k \in KSet(c.nk) : CNear(O1(c.ek, c.nk, k), HopsD(SqH(c), c.nk, k, 1), 2 * Tol1(c)), "derivative of the dispersion")
TMat(c) == If(c.t.sh = <<3, 3>> /\ c.t.re = <<c.p[1], c.p[2], 0, c.p[3], c.p[4], 0, c.p[5], c.p[6], 0>>, "hopping amplitudes by neighbour shell")
Emery(c) == LET h == EmeryHops(c.p[1], c.p[2], c.p[3], c.p[4], c.p[5]) Os == 0..2 IN
  If(c.ek.sh = c.nk \o <<3, 3>> /\ \A k \in KSet(c.nk), a, b \in Os : CNear(HAt(c, c.ek, k, a, b), EmeryH(h, c.nk, k, a + 1, b + 1), 40), "Emery Hamiltonian")
  \cup If(c.hk.sh = c.nk \o <<3, 3>> /\ \A k \in KSet(c.nk), a, b \in Os : CNear(HAt(c, c.hk, k, a, b), EmeryH(h, c.nk, k, a + 1, b + 1), 40), "Emery Hamiltonian in momentum space")
  \cup If(\A d \in 1..3, k \in KSet(c.nk), a, b \in Os : CNear(HAt(c, c.lv[d], k, a, b), EmeryD(h, c.nk, k, a + 1, b + 1, d), 40), "Emery light vertex")
  \cup If(\A i \in 1..c.nr, a, b \in Os : LET o == (((i - 1) * 3 + a) * 3 + b) * 2 IN c.orbs[o + 1] = a + 1 /\ c.orbs[o + 2] = b + 1, "orbital indices")
\* ---------------------------------------------------------------- files (C16)
HrBack(c) == If(c.hr2 = c.hr, "hoppings") \cup If(c.r2 = c.r, "lattice vectors") \cup If(c.orbs2 = c.orbs, "orbital indices") \cup If(c.w2 = c.w /\ c.wsh = <<c.nr, 1>>, "degeneracies")
HrWrite(c) ==
  If(/\ Len(c.lines) = 1 + NLines(c.nr, c.nb)
     /\ \A i \in 1..NLines(c.nr, c.nb) : Len(c.lines[i + 1]) = Len(Line(c.nr, c.nb, i))
     /\ \A i \in 1..NLines(c.nr, c.nb), x \in 1..15 : x <= Len(Line(c.nr, c.nb, i)) => LET tk == Line(c.nr, c.nb, i)[x] v == c.lines[i + 1][x] IN
          CASE tk[1] = "nb" \/ tk[1] = "nr" -> v = tk[2] * One
            [] tk[1] = "w" -> v = c.w[tk[2]] * One
            [] tk[1] = "t" -> IF x <= 3 THEN v = Rv(c, tk[2], tk[3] - 1, tk[4] - 1)[x] * One
                              ELSE IF x <= 5 THEN v = c.orbs[(((tk[2] - 1) * c.nb + tk[3] - 1) * c.nb + tk[4] - 1) * 2 + x - 3] * One
                              ELSE v = A3(c.hr, tk[2] - 1, tk[3] - 1, tk[4] - 1)[x - 5], "layout of the hopping file")
  \cup HrBack(c)
HkFile(c) == If(c.hk2 = c.hk, "values of H(k)") \cup If(c.kp2.sh = <<3, c.n>> /\ \A d \in 0..2, i \in 0..(c.n - 1) : Near(A2(c.kp2, d, i)[1], A2(c.kp, d, i)[1], 1), "momenta")
HkMesh(c) == If(/\ c.hk2.sh = <<NTot(c.nk), c.nb, c.nb>> /\ \A k \in KSet(c.nk), a, b \in Orb(c) : CNear(HAt(c, c.hk2, k, a, b), HRef(c, k, a, b), Tol(c, a, b)), "saved Hamiltonian on the mesh")
  \cup If(c.kp2.sh = <<3, NTot(c.nk)>> /\ \A k \in KSet(c.nk), d \in 1..3 : Near(A2(c.kp2, d - 1, KPos(c.nk, k))[1], (6283185 * k[d]) \div c.nk[d], 3), "momenta of the mesh")
HkSpin(c) == If(c.hk2.sh = <<c.n, c.nb, 2, c.nb, 2>> /\ \A i \in 0..(c.n - 1), a, b \in Orb(c), s, t \in 0..1 :
   A5(c.hk2, i, a, s, b, t) = A3(c.hk, i, s * c.nb + a, t * c.nb + b), "spin blocks") 
Fail(c) ==
  IF c.op = "short" THEN If(c.exc # "", "a file with too few momenta is rejected") ELSE
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "hk" -> Hk(c) [] c.op = "model" -> Model(c) [] c.op = "disp" -> Disp(c) [] c.op = "dispx" -> DispX(c) [] c.op = "tmat" -> TMat(c) [] c.op = "emery" -> Emery(c)
    [] c.op = "hrwrite" -> HrWrite(c) [] c.op = "hrread" -> HrBack(c) [] c.op = "hkfile" -> HkFile(c) [] c.op = "hkmesh" -> HkMesh(c) [] c.op = "hkspin" -> HkSpin(c)
=============================================================================
