------------------------------ MODULE T_Realf ------------------------------
(* Conformance of the post-processing of continued data (C27). *)
EXTENDS Conform, Wide
Rf == INSTANCE Realf
If(b, name) == IF b THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in DOMAIN s}
Zeros(c) == If(SetOf(c.out) = Rf!Lower(c.f, c.n, c.m), "points of the zero contour")
Contour(c) == If(Rf!NearestOk(c.f, c.n, c.m, SetOf(c.out)), "nearest points of the zero contour")
Masks(c) == If(Len(c.out) = 4 /\ \A q \in 1..4 : c.shape[q] = <<c.n, c.n>> /\ SetOf(c.out[q]) = Rf!Quadrant(q, c.n), "each mask leaves one quadrant")
Crossing(c) == LET pts == SetOf(c.fs) s(k) == c.path[k + 1] IN
  IF Len(c.out) # Len(c.seg) THEN {"one crossing for each segment"} ELSE
  If(\A i \in DOMAIN c.seg : LET I == (c.cind[i])..(c.cind[i] + c.seg[i] - 1) o == c.out[i] IN
       o \in I /\ \A k \in I : Rf!MinDist(s(o), pts) <= Rf!MinDist(s(k), pts), "point of the segment nearest to the Fermi surface")
Conj1(x) == <<x[1], -x[2]>>
\* c.w mesh, c.ek[k], c.s self-energy [k][w] (already with the cut-off if there is one), c.mu : g is the inverse of w + mu - ek - s
IsInv(c, g, s) == g.sh = <<Len(c.ek), Len(c.w)>> /\ s.sh = g.sh /\ WOk(g) /\ WOk(s) /\ \A k \in DOMAIN c.ek, i \in DOMAIN c.w :
  LET z == A2(s, k - 1, i - 1) IN WNear(WMul(A2(g, k - 1, i - 1), <<c.w[i] + c.mu - c.ek[k] - z[1], -z[2]>>), <<WUnit, 0>>, 64)
\* twice the filling of a function with mean imaginary part y[i] on the mesh: -1/pi times the trapezoidal sum up to zero, for both spins
Occ(c, y) == LET I == {i \in 1..(Len(c.w) - 1) : c.w[i + 1] <= 0} m == Cardinality(I) IN
   -(WR(667544, SumInt(m, LAMBDA i : WR(c.w[i + 1] - c.w[i], (y[i] + y[i + 1]) \div 2))))         \* 2 / pi
Mean(g) == TLCEval([i \in 1..g.sh[2] |-> SumInt(g.sh[1], LAMBDA k : A2(g, k - 1, i - 1)[2] \div g.sh[1])])
Giwk(c) == If(IsInv(c, c.g, c.s), "real-frequency Green's function")
Filling(c) == If(WOk(c.g) /\ Abs(Occ(c, Mean(c.g)) - (2 * c.fill)) <= 400, "filling up to the Fermi level")
Mu(c) == If(IsInv(c, c.g, c.s), "Green's function of the chemical potential") \cup If(Abs(Occ(c, Mean(c.g)) - c.n) <= 2000, "chemical potential gives the filling")
Dqp(c) == If(\A i \in DOMAIN c.x : c.out[i] = (IF c.x[i] < 0 THEN 0 ELSE 1), "indicator of non-negative values")
\* the analysis program: self-energies with |Im| < cut get Im = -cut
Clip(x, cut) == IF Abs(x[2]) < cut THEN <<x[1], -cut>> ELSE x
Main(c) == LET s == c.s cl == TLCEval([k \in DOMAIN c.ek |-> [i \in DOMAIN c.w |-> Clip(A2(s, k - 1, i - 1), 41943)]]) IN
  IF c.g.sh # s.sh \/ ~WOk(c.g) THEN {"saved Green's function"} ELSE
  If(\A k \in DOMAIN c.ek, i \in DOMAIN c.w : LET z == cl[k][i] IN WNear(WMul(A2(c.g, k - 1, i - 1), <<c.w[i] + c.mu - c.ek[k] - z[1], -z[2]>>), <<WUnit, 0>>, 64), "saved Green's function")
  \cup If(Abs(Occ(c, c.mean) - c.n) <= 2000, "chemical potential gives the filling")
  \cup If(Abs(Occ(c, c.mean0) - c.n) <= 2000, "chemical potential without self-energy gives the filling")
  \cup If(c.files = <<TRUE, TRUE>>, "files of the analysis")
Fail(c) == CASE c.op = "zeros" -> Zeros(c) [] c.op = "contour" -> Contour(c) [] c.op = "masks" -> Masks(c) [] c.op = "crossing" -> Crossing(c)
  [] c.op = "giwk" -> Giwk(c) [] c.op = "filling" -> Filling(c) [] c.op = "mu" -> Mu(c) [] c.op = "dqp" -> Dqp(c) [] c.op = "main" -> Main(c)
=============================================================================
