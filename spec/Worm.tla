-------------------------------- MODULE Worm --------------------------------
(***************************************************************************)
(* C20: spin-orbital components of worm samples and their reduction.       *)
(* A component is a sequence of four band-spin numbers 2*band+spin; its    *)
(* flat index starts at one.  cls[b] is the symmetry class of band b-1:    *)
(* bands of one class are equivalent.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Flat0(_, _, _)
Flat0(base, x, k) == IF k = 0 THEN 0 ELSE (base * Flat0(base, x, k - 1)) + x[k]
\* flat index of a sequence of digits
FlatIdx(base, x) == 1 + Flat0(base, x, Len(x))
\* digits of a flat index
Digits(base, n, ind) == [i \in 1..n |-> ((ind - 1) \div Pow(base, n - i)) % base]
Bands(bs) == [i \in DOMAIN bs |-> bs[i] \div 2]
Spins(bs) == [i \in DOMAIN bs |-> bs[i] % 2]
\* spin conserving combinations
Conserving(s) == s \in {<<0,0,0,0>>, <<1,1,1,1>>, <<0,0,1,1>>, <<1,1,0,0>>, <<0,1,1,0>>, <<1,0,0,1>>}
\* sign with which a spin combination enters; the density channel has no spin-flip terms, the magnetic one averages longitudinal and transverse parts
SignOf(ch, s) == IF ch = "dens" THEN (IF s \in {<<0,1,1,0>>, <<1,0,0,1>>} THEN 0 ELSE 1) ELSE (IF s \in {<<0,0,1,1>>, <<1,1,0,0>>} THEN -1 ELSE 1)
Weight(ch) == IF ch = "dens" THEN 2 ELSE 4
\* band patterns of a Kanamori interaction
Kanamori(b) == (b[1] = b[2] /\ b[3] = b[4]) \/ (b[1] = b[3] /\ b[2] = b[4]) \/ (b[1] = b[4] /\ b[2] = b[3])
Patterns(N) == {b \in [1..4 -> 0..(N - 1)] : Kanamori(b)}
Components(N) == {bs \in [1..4 -> 0..(2 * N - 1)] : Kanamori(Bands(bs)) /\ Conserving(Spins(bs))}
\* equivalent patterns: same equalities between the legs, leg by leg bands of the same class
Equivalent(cls, b, d) == \A i \in 1..4 : cls[b[i] + 1] = cls[d[i] + 1] /\ \A j \in 1..4 : (b[i] = b[j]) = (d[i] = d[j])
OrbitOf(N, cls, b) == {d \in Patterns(N) : Equivalent(cls, b, d)}
\* contribution of component bs to pattern b, in units of 1/24
CoefK(cls, ch, b, bs, size) == IF Equivalent(cls, Bands(bs), b) THEN (SignOf(ch, Spins(bs)) * 24) \div (Weight(ch) * size) ELSE 0
Coef(N, cls, ch, b, bs) == IF Equivalent(cls, Bands(bs), b) THEN (SignOf(ch, Spins(bs)) * 24) \div (Weight(ch) * Cardinality(OrbitOf(N, cls, b))) ELSE 0
=============================================================================
