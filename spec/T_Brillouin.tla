---------------------------- MODULE T_Brillouin ----------------------------
(* Conformance of dga.brillouin_zone (C05, C06). *)
EXTENDS Conform, Brillouin

If(b, name) == IF b THEN {} ELSE {name}

\* ---------------------------------------------------------------- C05
\* reduction record: inv (class of each point), ind (representative), count
ReduceFail(c) ==
  LET nk == c.nk  n == NTot(nk)  m == Len(c.ind)
      orb == OrbitLabels(nk, c.syms)
      ok == Len(c.inv) = n /\ Len(c.count) = m /\ (\A i \in 1..n : c.inv[i] \in 0..(m - 1)) /\ (\A j \in 1..m : c.ind[j] \in 0..(n - 1)) IN
  IF ~ok THEN {"maps have the size of the mesh"} ELSE
  If(\A i, j \in 1..n : c.inv[i] = c.inv[j] => orb[i] = orb[j], "merged points are symmetry-equivalent")
  \cup If(\A j \in 1..m : c.inv[c.ind[j] + 1] = j - 1, "the representative belongs to its class")
  \cup If(\A j \in 1..m : c.count[j] = Cardinality({i \in 1..n : c.inv[i] = j - 1}), "multiplicity is the class size")
  \cup If(SumSeq(c.count) = n, "multiplicities add up to the mesh")
  \cup If(c.named \in CompleteSets => \A i, j \in 1..n : orb[i] = orb[j] => c.inv[i] = c.inv[j], "the named set merges all equivalent points")
  \cup If(c.named # "" => {c.syms[i] : i \in DOMAIN c.syms} = {NamedSets[c.named][i] : i \in DOMAIN NamedSets[c.named]}, "the named set consists of the documented symmetries")
  \cup If(c.nkirr = m /\ c.nktot = n, "point counts")
  \cup If(\A j \in 1..m : c.irrq[j] = Pt(nk, c.ind[j]) /\ c.irrmesh[j] = Pt(nk, c.ind[j]) /\ c.irrk[j] = Pt(nk, c.ind[j]) /\ c.irrgrid[j] = Pt(nk, c.ind[j]), "coordinates of the irreducible points")

\* functions on the mesh carried to the irreducible set and back; fns record flat data with t trailing components
Item(a, t, k) == SubSeq(a.re, k * t + 1, (k + 1) * t)
MapFail(c) ==
  LET nk == c.nk n == NTot(nk) m == Len(c.ind) t == Prod(c.trail)
      cls == TLCEval([j \in 1..m |-> SetToSeq({i \in 1..n : c.inv[i] = j - 1})]) IN
  \* irr2fbz: input irr labelled by class
  If(c.fbzmesh.sh = nk \o c.trail /\ \A i \in 1..n : Item(c.fbzmesh, t, i - 1) = Item(c.irrin, t, c.inv[i]), "irreducible data expanded to the mesh")
  \cup If(c.fbzlist.sh = <<n>> \o c.trail /\ c.fbzlist.re = c.fbzmesh.re, "irreducible data expanded to the list")
  \cup If(c.back.sh = <<m>> \o c.trail /\ c.back.re = c.irrin.re, "expand then reduce is the identity")
  \cup If(c.backlist.sh = <<m>> \o c.trail /\ c.backlist.re = c.irrin.re, "expand then reduce is the identity on lists")
  \cup If(c.red.sh = <<m>> \o c.trail /\ \A j \in 1..m : Item(c.red, t, j - 1) = Item(c.meshin, t, c.ind[j]), "reduction takes the value at the representative")
  \cup If(c.redlist.sh = <<m>> \o c.trail /\ c.redlist.re = c.red.re, "reduction of a list")
  \cup If(c.symback.sh = nk \o c.trail /\ c.symback.re = c.symin.re, "a symmetric function survives reduction and expansion")
  \cup If(c.symavg.sh = nk \o c.trail /\ c.symavg.re = c.symin.re, "symmetrizing a symmetric function changes nothing")
  \cup If(c.avg.sh = nk \o c.trail /\ \A j \in 1..m : \A e \in 1..t :
          LET sum == SumInt(Len(cls[j]), LAMBDA x : c.meshin.re[(cls[j][x] - 1) * t + e]) IN
          \A x \in 1..Len(cls[j]) : c.avg.re[(cls[j][x] - 1) * t + e] = sum, "symmetrization averages each class")
  \* means: recorded times the number of mesh points
  \cup If(\A e \in 1..t : c.meanmesh.re[e] = SumInt(n, LAMBDA k : Item(c.symin, t, k - 1)[e]), "mean over the mesh")
  \cup If(c.meanlist.re = c.meanmesh.re, "mean over the list")
  \cup If(c.meanirr.re = c.meanmesh.re /\ c.meanirr.sh = c.trail /\ c.meanmesh.sh = c.trail, "weighted mean over the irreducible points equals the mesh mean")
  \cup If(c.same, "input unchanged")

\* apply_symmetries on an arbitrary matrix (one component per trailing index)
ApplyFail(c) ==
  LET nk == c.nk n == NTot(nk) t == Prod(c.trail) orb == OrbitLabels(nk, c.syms) 
      cls == TLCEval([j \in {orb[i] : i \in 1..n} |-> {i \in 1..n : orb[i] = j}]) IN
  If(c.out.sh = nk \o c.trail /\ \A i \in 1..n : \A e \in 1..t :
       \E j \in cls[orb[i]] : c.out.re[(i - 1) * t + e] = c.meshin.re[(j - 1) * t + e], "entries come from symmetry-equivalent points")
  \cup If(c.named \in CompleteSets => \A i \in 1..n : Item(c.out, t, i - 1) = Item(c.out, t, orb[i] - 1), "the result is symmetric under the named set")

\* ---------------------------------------------------------------- C06
RollFail(c) ==
  LET nk == c.nk t == Prod(c.trail) IN
  If(c.out.sh = nk \o c.trail /\ \A i \in Points(nk) : Item(c.out, t, i) = Item(c.meshin, t, Flat(nk, Minus(nk, Pt(nk, i), c.q))), "value at k is the value at k - q")
  \cup If(c.same, "input unchanged")
ListFail(c) ==
  If(c.list.sh = <<NTot(c.nk)>> \o c.trail /\ c.list.re = c.meshin.re /\ c.list.im = c.meshin.im, "mesh to list is row major")
  \cup If(c.mesh.sh = c.nk \o c.trail /\ c.mesh.re = c.meshin.re /\ c.mesh.im = c.meshin.im, "list to mesh inverts it")
CoordFail(c) ==
  LET nk == c.nk n == NTot(nk) IN
  If(c.qlist = [i \in 1..n |-> Pt(nk, i - 1)], "momentum list enumerates the mesh")
  \cup If(c.meshind = [i \in 1..n |-> Pt(nk, i - 1)], "mesh of indices")
  \cup If(c.meshlist = [i \in 1..n |-> Pt(nk, i - 1)], "list of momenta")
  \cup If(c.mesh = [i \in 1..n |-> Pt(nk, i - 1)], "mesh of momenta")
  \cup If(c.ind = [i \in 1..n |-> Pt(nk, i - 1)], "index tuples")
  \cup If(\A d \in 1..3 : c.axes[d] = [i \in 1..nk[d] |-> i - 1], "axes")
  \cup If(\A d \in 1..3 : c.shaxes[d] = [i \in 1..nk[d] |-> 2 * (i - 1) - nk[d]], "shifted axes")
IrrCoordFail(c) ==
  LET nk == c.nk  m == Len(c.ind) IN
  If(\A j \in 1..m : c.irrq[j] = Pt(nk, c.ind[j]), "list of irreducible momenta enumerates the representatives")
  \cup If(\A j \in 1..m : c.irrmesh[j] = Pt(nk, c.ind[j]), "indices of the irreducible momenta")
  \cup If(\A j \in 1..m : c.irrk[j] = Pt(nk, c.ind[j]) /\ c.irrgrid[j] = Pt(nk, c.ind[j]), "irreducible momenta")
FindFail(c) == If(c.ind = c.q, "index of a mesh momentum")
SliceFail(c) ==
  LET nk == c.nk t == Prod(c.trail) d == c.dim + 1
      keep == SelectSeq(<<1, 2, 3>>, LAMBDA x : x # d)
      sh == <<nk[keep[1]], nk[keep[2]]>> IN
  If(c.out.sh = sh \o c.trail /\ \A a \in 0..(sh[1] - 1), b \in 0..(sh[2] - 1) :
       LET k == [x \in 1..3 |-> IF x = d THEN c.at ELSE IF x = keep[1] THEN a ELSE b] IN
       Item(c.out, t, a * sh[2] + b) = Item(c.meshin, t, Flat(nk, k)), "slice at a mesh momentum")

\* k-path: corners in units of 1/den of the reciprocal vectors
\* segment s has nkp[s] points; point i of the segment lies at start + i/nkp (end - start)
NearestTo(nk, den, num, idx) == \* idx is a nearest integer to num/den * nk, modulo nk
  \E z \in -3..3 : Abs(2 * (idx + z * nk) * den - 2 * num * nk) <= den
PathFail(c) ==
  LET nk == c.nk ns == Len(c.nkp)
      first(s) == SumInt(s - 1, LAMBDA r : c.nkp[r])
      tot == SumInt(ns, LAMBDA r : c.nkp[r]) IN
  If(ns = Len(c.corners) - 1 /\ Len(c.kpts) = tot /\ c.total = tot, "one point list per segment")
  \cup (IF Len(c.kpts) # tot THEN {} ELSE
   If(\A s \in 1..ns : LET d2 == SumInt(3, LAMBDA d : (c.corners[s + 1][d] - c.corners[s][d]) * nk[d] * ((c.corners[s + 1][d] - c.corners[s][d]) * nk[d])) IN
        \* nkp = nearest integer of |difference|: (2 nkp - 1)^2 <= 4 d2 / den^2 <= (2 nkp + 1)^2
        /\ (2 * c.nkp[s] - 1) * (2 * c.nkp[s] - 1) * c.den * c.den <= 4 * d2
        /\ 4 * d2 <= (2 * c.nkp[s] + 1) * (2 * c.nkp[s] + 1) * c.den * c.den, "points per segment")
   \cup If(\A s \in 1..ns : \A i \in 0..(c.nkp[s] - 1) : \A d \in 1..3 :
        NearestTo(nk[d], c.den * c.nkp[s], c.corners[s][d] * c.nkp[s] + i * (c.corners[s + 1][d] - c.corners[s][d]), c.kpts[first(s) + i + 1][d]), "points lie on the path")
   \cup If(\A i \in 1..tot : \A d \in 1..3 : c.kpts[i][d] \in 0..(nk[d] - 1), "indices inside the mesh")
   \cup If(\A i \in 1..tot : c.kvals[i] = c.kpts[i] /\ c.kpoints[i] = c.kpts[i], "momentum values belong to the indices")
   \* the k-axis has one tick per corner, at the end of the segment before it or the start of the one behind it
   \cup If(Len(c.cind) = ns + 1 /\ c.cind[1] = 0 /\ \A s \in 1..ns : c.cind[s + 1] \in {first(s + 1) - 1, first(s + 1)}, "ticks at the corners")
   \cup If(c.segs = [s \in 1..(Len(c.cind) - 1) |-> c.cind[s + 1] - c.cind[s]], "segment lengths between the ticks")
   \cup If(tot = 1 \/ c.ticks = [i \in DOMAIN c.cind |-> Min2(c.cind[i], tot - 1)], "tick positions on the k-axis")
   \cup If(Len(c.labels) = Len(c.corners) /\ \A i, j \in DOMAIN c.labels : c.labels[i] = c.labels[j] => (i = j \/ (c.names[i] = 1 /\ c.corners[i] = c.corners[j])), "one label per corner")
   \cup If(Len(c.bands) = tot /\ \A i \in 1..tot : LET x == c.ab[Flat(nk, Wrap(nk, c.kpts[i])) + 1] IN c.bands[i] = <<x[1] - Abs(x[2]), x[1] + Abs(x[2])>>, "bands at the points of the path, in increasing order")
   \cup If(c.mapped = [i \in 1..tot |-> Flat(nk, Wrap(nk, c.kpts[i]))], "mapping onto the path takes the values at its points"))

\* replay of a MomentumMachine history
RECURSIVE HistFail(_, _, _)
HistFail(c, off, k) ==
  IF k > Len(c.hist) THEN {}
  ELSE LET h == c.hist[k]
           S == {h.q[i] : i \in DOMAIN h.q}
           o2 == CASE h.o = "shift" -> Plus(c.nk, off, h.q)
                   [] h.o = "pi" -> Plus(c.nk, off, [d \in 1..3 |-> IF d \in S THEN c.nk[d] \div 2 ELSE 0])
                   [] OTHER -> off IN
       IF c.steps[k] = [j \in 1..NTot(c.nk) |-> Flat(c.nk, Minus(c.nk, Pt(c.nk, j - 1), o2))] THEN HistFail(c, o2, k + 1)
       ELSE {"mesh history: value at its momentum after " \o h.o}

Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"}
  ELSE CASE c.op = "reduce" -> ReduceFail(c)
         [] c.op = "map" -> MapFail(c)
         [] c.op = "apply" -> ApplyFail(c)
         [] c.op = "roll" -> RollFail(c)
         [] c.op = "list" -> ListFail(c)
         [] c.op = "coord" -> CoordFail(c)
         [] c.op = "noshift" -> If((\A i \in DOMAIN c.outs : c.outs[i] = c.meshin) /\ c.ind = <<0, 0, 0>>, "without a shift every value stays at its momentum")
         [] c.op = "irrcoord" -> IrrCoordFail(c)
         [] c.op = "find" -> FindFail(c)
         [] c.op = "slice" -> SliceFail(c)
         [] c.op = "path" -> PathFail(c)
         [] c.op = "hist" -> HistFail(c, <<0, 0, 0>>, 1)
=============================================================================
