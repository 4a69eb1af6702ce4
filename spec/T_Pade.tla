------------------------------ MODULE T_Pade ------------------------------
(* Conformance of the Pade continuation (C26). *)
EXTENDS Conform, Wide
CAddW(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSubW(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Pd == INSTANCE Pade WITH Add <- CAddW, Sub <- CSubW, Mul <- WMul, Zero <- <<0, 0>>, One <- <<1048576, 0>>
If(b, name) == IF b THEN {} ELSE {name}
Vec(a) == TLCEval([i \in 1..a.sh[1] |-> A1(a, i - 1)])
Big(x) == Abs(x[1]) >= 16777216 \/ Abs(x[2]) >= 16777216
\* x is num(z) / den(z): multiplied out
SameAs(num, den, z, x, tol) == z.sh = x.sh /\ WOk(x) /\ LET p == Vec(num) q == Vec(den) IN
  \A k \in 1..z.sh[1] : LET v == A1(z, k - 1) IN WNear(WMul(A1(x, k - 1), Pd!Poly(q, v, 1)), Pd!Poly(p, v, 1), tol)
Interp(c) == If(c.got.sh = <<c.n>> /\ WOk(c.got) /\ \A k \in 1..c.n : WNear(A1(c.got, k - 1), A1(c.data, k - 1), 8), "fraction goes through the data")
\* the coefficients give numerator and denominator by the recursion (if they are in range), and numerator = data * denominator at the points
Coef(c) ==
  IF ~(WOk(c.num) /\ WOk(c.den)) THEN {} ELSE
  If(\A k \in 1..c.n : WNear(A1(c.num, k - 1), WMul(A1(c.u, k - 1), A1(c.den, k - 1)), 16), "numerator is data times denominator at the data points")
  \cup (IF ~WOk(c.a) \/ \E i \in 1..c.n : Abs(A1(c.a, i - 1)[1]) > 4194304 \/ Abs(A1(c.a, i - 1)[2]) > 4194304 THEN {} ELSE
     LET a == Vec(c.a) z == Vec(c.z) IN
     If(\A k \in 1..c.n : LET f == Pd!Frac(a, z, z[k], c.n) IN (\A i \in 1..4 : ~Big(f[i])) => WNear(f[2], A1(c.num, k - 1), 4000) /\ WNear(f[4], A1(c.den, k - 1), 4000), "numerator and denominator follow the recursion")
     \cup If(WOk(c.rec) => \A i \in 1..c.n : WNear(A1(c.rec, i - 1), a[i], 64), "recursive and tabulated coefficients agree")
     \cup If(A1(c.a, 0) = A1(c.u, 0), "first coefficient is the first value"))
Solver(c) == If(\A i \in DOMAIN c.z : SameAs(c.num, c.den, c.z[i], c.x[i], 200), "rational function is reproduced")
  \cup If(c.grid = <<0, 2097152, 500, 500>>, "check goes up to twice the largest frequency")
  \cup If(c.g.sh = c.spec.sh /\ \A k \in 1..c.g.sh[1] : A1(c.spec, k - 1)[2] = 0 /\ Abs(A1(c.spec, k - 1)[1] + A1(c.g, k - 1)[2]) <= 2, "spectrum is minus the imaginary part over pi")
  \cup If(c.quot = c.g, "result is numerator over denominator")
Columns(c) == If(\A i \in DOMAIN c.z : SameAs(c.nums[i], c.dens[i], c.z[i], c.x[i], 400), "each column is continued by itself")
Equal(c) == If(c.got.sh = c.want.sh /\ WOk(c.got) /\ \A k \in 1..c.want.sh[1] : WNear(A1(c.got, k - 1), A1(c.want, k - 1), 200), "coefficients")
Conj1(x) == <<x[1], -x[2]>>
Pick(c) ==
  LET src(k) == k + c.nmin                          \* position k (from 0) takes point nmin + k; negative ones are mirrored
      zz(j) == IF j >= 0 THEN A1(c.z, j) ELSE Conj1(A1(c.z, -j - 1))
      ff(j, q) == IF j >= 0 THEN A2(c.f, j, q) ELSE Conj1(A2(c.f, -j - 1, q)) IN
  IF c.zp.sh # <<c.M>> \/ c.fp.sh # <<c.M, Len(c.cols)>> THEN {"number of points"} ELSE
  If(\A k \in 0..(c.M - 1) : A1(c.zp, k) = zz(src(k)), "points") \cup If(\A k \in 0..(c.M - 1), q \in DOMAIN c.cols : A2(c.fp, k, q - 1) = ff(src(k), c.cols[q]), "values of the chosen columns")
Average(c) ==
  LET phys == SelectSeq(c.table, LAMBDA t : \A i \in DOMAIN t.im : t.im[i] <= 0) n == Len(phys) IN
  IF c.shapes # <<<<c.E, 1>>, <<n, c.E, 1>>, <<n, 1>>>> THEN {"every physical continuation is kept"} ELSE
  If(Len(c.seen) = Len(c.table) /\ \A i \in DOMAIN c.table : c.seen[i] = <<c.table[i].k[1], c.table[i].k[2], c.table[i].k[3], 1>>, "every combination of points and coefficients is continued once")
  \cup If(\A i \in 1..n, q \in 1..c.E : A2(c.fs, i - 1, q - 1) = <<phys[i].re[q], phys[i].im[q]>>, "continuations with non-positive imaginary part")
  \cup (LET dist(i, j) == SumInt(c.E, LAMBDA q : Abs(phys[i].im[q] - phys[j].im[q]))
            d == TLCEval([i \in 1..n |-> SumInt(n, LAMBDA j : dist(i, j))]) sum == SumSeq(d) L == (51 * n) \div 100
            near(i) == 100 * n * d[i] < 99 * sum far(i) == 100 * n * d[i] > 99 * sum
            less(i) == Cardinality({j \in 1..n : d[j] < d[i]}) leq(i) == Cardinality({j \in 1..n : d[j] <= d[i]})
            S == {i \in 1..n : c.mask[i]} IN
     IF n = 1 THEN If(c.mask = <<TRUE>> /\ \A q \in 1..c.E : A1(c.total, q - 1) = <<phys[1].re[q], phys[1].im[q]>>, "only one physical continuation") ELSE
     IF S = {} THEN {"some continuation is averaged"} ELSE
     If(\/ (\A i \in S : ~far(i) /\ less(i) < L) /\ (\A i \in (1..n) \ S : ~near(i) \/ leq(i) > L) /\ Cardinality(S) <= L
        \* if all are about equally far from the others: the nearest ones
        \/ (\A i \in 1..n : ~near(i)) /\ (\A i \in S : less(i) < L) /\ (\A i \in (1..n) \ S : leq(i) > L) /\ Cardinality(S) = L, "continuations close to the others are selected")
     \cup If(\A q \in 1..c.E : A1(c.total, q - 1) = SumC(n, LAMBDA i : IF c.mask[i] THEN <<phys[i].re[q], phys[i].im[q]>> ELSE <<0, 0>>), "average of the selected ones"))
Load(c) == LET n == c.d.sh[1] m == c.e.sh[1] re(a, i, j) == A2(a, i - 1, j - 1)[1] IN
  IF c.zin.sh # <<n>> \/ c.fin.sh # <<n, 1>> \/ c.w.sh # <<m>> \/ c.zout.sh # <<m>> \/ c.ex.sh # <<m>> THEN {"shape of the input"} ELSE
  If(\A i \in 1..n : A1(c.zin, i - 1) = <<re(c.d, i, 1), re(c.d, i, 2)>> /\ A2(c.fin, i - 1, 0) = <<re(c.d, i, 3), re(c.d, i, 4)>>, "points and values of the input file")
  \cup If(\A i \in 1..m : A1(c.w, i - 1) = <<re(c.e, i, 1), 0>> /\ A1(c.zout, i - 1) = <<re(c.e, i, 1), c.delta>> /\ A1(c.ex, i - 1) = <<re(c.e, i, 2), re(c.e, i, 3)>>, "mesh and exact values of the second file")
Fail(c) == CASE c.op = "interp" -> Interp(c) [] c.op = "coef" -> Coef(c) [] c.op = "solver" -> Solver(c) [] c.op = "columns" -> Columns(c) [] c.op = "equal" -> Equal(c)
  [] c.op = "same" -> If(SameAs(c.num, c.den, c.z, c.x, 300), "rational function is reproduced")
  [] c.op = "pick" -> Pick(c) [] c.op = "average" -> Average(c) [] c.op = "load" -> Load(c) [] c.op = "reject" -> If(c.rej, "unusable request is rejected")
=============================================================================
