------------------------------ MODULE MCRealf ------------------------------
(* A scan over the edges of a mesh that collects the points of the Fermi surface, then a scan over the segments of a path that keeps the best  *)
(* point of each segment; and the descent to the chemical potential of a monotone filling.                                                     *)
EXTENDS Realf, TLC
CONSTANTS N, V, Seg, Len1, Mus, Lost
VARIABLES f, todo, fs, path, at, best, mu, n, phase
vars == <<f, todo, fs, path, at, best, mu, n, phase>>
Vals == {v \in (0 - V)..V : v # 0}
Paths == {p \in [1..(Seg * Len1) -> {<<i, j>> : i, j \in 0..(N - 1)}] : \A k \in 1..(Seg * Len1 - 1) : Dist2(p[k], p[k + 1]) = 1}
Fillings == {t \in [1..Mus -> 0..2] : \A i \in 1..(Mus - 1) : t[i] <= t[i + 1]}
Init == /\ f \in [1..N -> [1..N -> Vals]] /\ todo = Edges(f, N, N) /\ fs = {}
        /\ path = <<>> /\ at = 1 /\ best = <<>> /\ mu = 0 /\ n = <<>> /\ phase = "edges"
Edge == /\ phase = "edges" /\ todo # {}
        /\ LET e == CHOOSE e \in todo : TRUE IN /\ todo' = todo \ {e}
             /\ fs' = IF Sgn(At(f, e[1])) # Sgn(At(f, e[2])) THEN fs \cup {e[1]} ELSE fs
        /\ UNCHANGED <<f, path, at, best, mu, n, phase>>
Turn == /\ phase = "edges" /\ todo = {} /\ phase' = (IF fs = {} THEN "done" ELSE "path") /\ path' \in Paths /\ UNCHANGED <<f, todo, fs, at, best, mu, n>>
\* a segment starts with its first point; Lost forgets to start anew
Point == /\ phase = "path" /\ at <= Seg * Len1
         /\ LET s == ((at - 1) \div Len1) + 1 d == MinDist(path[at], fs) IN
            best' = IF Len(best) < s THEN Append(best, IF Lost /\ s > 1 /\ MinDist(path[best[s - 1]], fs) <= d THEN best[s - 1] ELSE at)
                    ELSE IF d < MinDist(path[best[s]], fs) THEN [best EXCEPT ![s] = at] ELSE best
         /\ at' = at + 1 /\ phase' = (IF at = Seg * Len1 THEN "search" ELSE "path") /\ UNCHANGED <<f, todo, fs, path, mu, n>>
\* descent of (n - target)^2 on the table, target is 1
Sq(k) == (n[k] - 1) * (n[k] - 1)
Search == /\ phase = "search"
          /\ IF mu = 0 THEN n' \in Fillings /\ mu' \in 1..Mus /\ phase' = phase
             ELSE LET nb == {k \in {mu - 1, mu + 1} \cap (1..Mus) : Sq(k) < Sq(mu)} IN
                  IF nb = {} THEN phase' = "done" /\ mu' = mu ELSE mu' \in nb /\ phase' = phase
          /\ (mu # 0 => n' = n) /\ UNCHANGED <<f, todo, fs, path, at, best>>
Next == Edge \/ Turn \/ Point \/ Search
Spec == Init /\ [][Next]_vars
Surface == phase # "edges" => fs = Lower(f, N, N)
\* an empty surface means that nothing changes sign; on a connected mesh there is one as soon as two values differ in sign
Exists == phase # "edges" => (fs = {} <=> \A i, j \in 1..N : Sgn(f[i][j]) = Sgn(f[1][1]))
EachNearest == \A s \in 1..Len(best) : (best[s] - 1) \div Len1 = s - 1 /\ (phase \in {"search", "done"} =>
   \A k \in ((s - 1) * Len1 + 1)..(s * Len1) : MinDist(path[best[s]], fs) <= MinDist(path[k], fs))
\* the descent ends at the target if no plateau of another filling is in its way
Target == (phase = "done" /\ mu # 0 /\ \E k \in 1..Mus : n[k] = 1) => (n[mu] = 1 \/ \E k \in 1..(Mus - 1) : n[k] # 1 /\ n[k] = n[k + 1])
Quads == \A q1, q2 \in 1..4 : /\ (q1 # q2 => Quadrant(q1, N) \cap Quadrant(q2, N) = {})
                              /\ UNION {Quadrant(q, N) : q \in 1..4} = (0..(N - 1)) \X (0..(N - 1))
=============================================================================
