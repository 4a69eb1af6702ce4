-------------------------------- MODULE Realf --------------------------------
(* Continued (real-frequency) data: Fermi surface on a mesh, crossings of a path with it, quadrants of the zone. *)
EXTENDS Integers, Sequences, FiniteSets
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* edges of the n x m mesh with a change of sign: pairs of neighbouring points
Edges(f, n, m) == {<<<<i, j>>, <<i + 1, j>>>> : i \in 0..(n - 2), j \in 0..(m - 1)} \cup {<<<<i, j>>, <<i, j + 1>>>> : i \in 0..(n - 1), j \in 0..(m - 2)}
Cross(f, n, m) == {e \in Edges(f, n, m) : Sgn(f[e[1][1] + 1][e[1][2] + 1]) # Sgn(f[e[2][1] + 1][e[2][2] + 1])}
At(f, p) == f[p[1] + 1][p[2] + 1]
Lower(f, n, m) == {e[1] : e \in Cross(f, n, m)}
AbsR(x) == IF x < 0 THEN -x ELSE x
\* the nearer end of the edge (linear interpolation); both ends if they are equally near
Nearer(f, e) == {e[k] : k \in {q \in 1..2 : AbsR(At(f, e[q])) <= AbsR(At(f, e[3 - q]))}}
NearestOk(f, n, m, S) == LET C == Cross(f, n, m) IN
  /\ \A e \in C : Nearer(f, e) \cap S # {}
  /\ S \subseteq UNION {Nearer(f, e) : e \in C}
\* one quadrant of an N x N zone per mask, counted anti-clockwise in the matrix as the code does: 1 = upper left in x... given by its two halves
Quadrant(q, N) == LET lo == 0..((N \div 2) - 1) hi == (N \div 2)..(N - 1) IN
  CASE q = 1 -> hi \X lo [] q = 2 -> hi \X hi [] q = 3 -> lo \X lo [] q = 4 -> lo \X hi
Dist2(a, b) == ((a[1] - b[1]) * (a[1] - b[1])) + ((a[2] - b[2]) * (a[2] - b[2]))
MinDist(p, pts) == CHOOSE d \in {Dist2(p, q) : q \in pts} : \A q \in pts : d <= Dist2(p, q)
==============================================================================
