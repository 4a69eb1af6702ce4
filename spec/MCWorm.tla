------------------------------- MODULE MCWorm -------------------------------
(* The reduction as it is carried out: one sampled component after the other, in any order, is added to every equivalent output group. *)
EXTENDS Worm, TLC
CONSTANTS NMax, AnyOrder
VARIABLES n, cls, todo, acc
vars == <<n, cls, todo, acc>>
Chan == {"dens", "magn"}
\* all partitions of the bands into classes, as the class of each band
ClassMaps(k) == {c \in [1..k -> 1..k] : \A i \in 1..k : c[i] = i \/ (c[i] < i /\ c[c[i]] = c[i])}
SymOf(b) == {i - 1 : i \in {j \in 1..n : cls[j] = cls[b + 1]}}
\* the groups a component is added to, found by the kind of its pattern
Targets(b) ==
  IF b[1] = b[2] /\ b[1] = b[3] /\ b[1] = b[4] THEN {<<i, i, i, i>> : i \in SymOf(b[1])}
  ELSE LET two == {p \in SymOf(b[1]) \X SymOf(IF b[1] = b[2] THEN b[3] ELSE b[2]) : p[1] # p[2]} IN
    IF b[1] = b[2] /\ b[3] = b[4] THEN {<<p[1], p[1], p[2], p[2]>> : p \in two}
    ELSE IF b[1] = b[3] THEN {<<p[1], p[2], p[1], p[2]>> : p \in two} ELSE {<<p[1], p[2], p[2], p[1]>> : p \in two}
Init == \E k \in 1..NMax : /\ n = k /\ cls \in ClassMaps(k) /\ todo = Components(k) /\ acc = [ch \in Chan |-> [b \in Patterns(k) |-> [bs \in {} |-> 0]]]
Least(S) == CHOOSE bs \in S : \A x \in S : FlatIdx(2 * n, bs) <= FlatIdx(2 * n, x)
Take(bs) ==
  LET t == Targets(Bands(bs)) IN
  /\ todo' = todo \ {bs}
  /\ acc' = [ch \in Chan |-> [b \in Patterns(n) |-> IF b \in t /\ SignOf(ch, Spins(bs)) # 0 THEN (bs :> ((SignOf(ch, Spins(bs)) * 24) \div (Weight(ch) * Cardinality(t)))) @@ acc[ch][b] ELSE acc[ch][b]]]
  /\ UNCHANGED <<n, cls>>
Next == \E bs \in (IF n <= AnyOrder \/ todo = {} THEN todo ELSE {Least(todo)}) : Take(bs)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == todo = {}
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
\* every group is the average over exactly the equivalent components, whatever the order
Averages == Done => \A ch \in Chan : \A b \in Patterns(n) : \A bs \in Components(n) : At(acc[ch][b], bs) = Coef(n, cls, ch, b, bs)
\* no component is counted before it is read
Monotone == \A ch \in Chan : \A b \in Patterns(n) : DOMAIN acc[ch][b] \cap todo = {}
RECURSIVE SumOver(_, _, _)
SumOver(S, f, v) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (At(f, x) * v[x]) + SumOver(S \ {x}, f, v)
\* SU(2) symmetric input of equivalent bands: with x = up-up-down-down and y = up-down-down-up (x + y all up), density is 2x + y and magnetic y
Kind(b) == IF b[1] = b[2] /\ b[1] = b[4] /\ b[1] = b[3] THEN 0 ELSE IF b[1] = b[2] THEN 1 ELSE IF b[1] = b[3] THEN 2 ELSE 3
Least4(b) == CHOOSE d \in OrbitOf(n, cls, b) : \A e \in OrbitOf(n, cls, b) : FlatIdx(n, d) <= FlatIdx(n, e)
XOf(b) == 3 + FlatIdx(n, Least4(b))
YOf(b) == 7 - 2 * FlatIdx(n, Least4(b))
Sample(bs) == LET s == Spins(bs) b == Bands(bs) IN IF s[1] = s[2] /\ s[3] = s[4] THEN (IF s[1] = s[3] THEN XOf(b) + YOf(b) ELSE XOf(b)) ELSE YOf(b)
Physical == Done => \A b \in Patterns(n) : LET v == [bs \in Components(n) |-> Sample(bs)] IN
  SumOver(Components(n), acc["dens"][b], v) = 24 * (2 * XOf(b) + YOf(b)) /\ SumOver(Components(n), acc["magn"][b], v) = 24 * YOf(b)
\* equivalent groups end up with the same data
Invariant == Done => \A ch \in Chan : \A b, d \in Patterns(n) : Equivalent(cls, b, d) => acc[ch][b] = acc[ch][d]
\* the equivalence is that of the permutations of the bands within their classes
Perm == {p \in [0..(n - 1) -> 0..(n - 1)] : (\A i, j \in 0..(n - 1) : i # j => p[i] # p[j]) /\ \A i \in 0..(n - 1) : cls[p[i] + 1] = cls[i + 1]}
Orbits == Done => \A b \in Patterns(n) : OrbitOf(n, cls, b) = {[i \in 1..4 |-> p[b[i]]] : p \in Perm}
\* digits and flat indices are inverse to each other, in the order of counting
Bijection == Done => \A base \in {n, 2 * n} : \A k \in 1..3 :
  /\ \A x \in [1..k -> 0..(base - 1)] : Digits(base, k, FlatIdx(base, x)) = x
  /\ \A i \in 1..Pow(base, k) : FlatIdx(base, Digits(base, k, i)) = i
Count == Cardinality(Components(n)) = 6 * (3 * n * n - 2 * n)
Ends == <>Done
=============================================================================
