---------------------------- MODULE Brillouin ----------------------------
(***************************************************************************)
(* C05, C06: momentum meshes.  A mesh point is <<x, y, z>> with            *)
(* 0 <= x < nk[1] etc.; its flat index is row-major.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Num

NTot(nk) == nk[1] * nk[2] * nk[3]
Flat(nk, k) == (k[1] * nk[2] + k[2]) * nk[3] + k[3]
Pt(nk, i) == <<i \div (nk[2] * nk[3]), (i \div nk[3]) % nk[2], i % nk[3]>>
Wrap(nk, k) == <<k[1] % nk[1], k[2] % nk[2], k[3] % nk[3]>>
Minus(nk, k, q) == Wrap(nk, <<k[1] - q[1], k[2] - q[2], k[3] - q[3]>>)
Plus(nk, k, q) == Wrap(nk, <<k[1] + q[1], k[2] + q[2], k[3] + q[3]>>)
Points(nk) == 0..(NTot(nk) - 1)

\* ------------------------------------------------------------ symmetries as point maps
SymNames == {"x-inv", "y-inv", "z-inv", "x-y-sym", "x-y-inv"}
Image(nk, s, k) ==
  CASE s = "x-inv"   -> Wrap(nk, <<-k[1], k[2], k[3]>>)
    [] s = "y-inv"   -> Wrap(nk, <<k[1], -k[2], k[3]>>)
    [] s = "z-inv"   -> Wrap(nk, <<k[1], k[2], -k[3]>>)
    [] s = "x-y-sym" -> IF nk[1] = nk[2] THEN <<k[2], k[1], k[3]>> ELSE k
    [] s = "x-y-inv" -> Wrap(nk, <<-k[1], -k[2], k[3]>>)
ImageI(nk, s, i) == Flat(nk, Image(nk, s, Pt(nk, i)))

\* all generators are involutions: the orbit is the closure under the images
RECURSIVE Closure(_, _, _)
Closure(nk, syms, S) ==
  LET T == S \cup {ImageI(nk, syms[g], i) : g \in DOMAIN syms, i \in S} IN
  IF T = S THEN S ELSE Closure(nk, syms, T)
Orbit(nk, syms, i) == Closure(nk, syms, {i})
\* the same partition as labels: each point carries the smallest index of its orbit
RECURSIVE Propagate(_, _)
Propagate(img, lab) ==
  LET nl == TLCEval([i \in DOMAIN lab |-> FoldLeft(LAMBDA a, g : Min2(a, lab[img[g][i]]), lab[i], [g \in DOMAIN img |-> g])]) IN
  IF nl = lab THEN lab ELSE Propagate(img, nl)
OrbitLabels(nk, syms) ==
  Propagate(TLCEval([g \in DOMAIN syms |-> TLCEval([i \in 1..NTot(nk) |-> ImageI(nk, syms[g], i - 1) + 1])]),
            TLCEval([i \in 1..NTot(nk) |-> i]))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

NamedSets == [ two_dimensional_square_symmetries |-> <<"x-inv", "y-inv", "x-y-sym">>,
               two_dimensional_nematic_symmetries |-> <<"x-inv", "y-inv">>,
               quasi_two_dimensional_square_symmetries |-> <<"x-inv", "y-inv", "z-inv", "x-y-sym">>,
               quasi_one_dimensional_square_symmetries |-> <<"x-inv", "y-inv">>,
               simultaneous_x_y_inversion |-> <<"x-y-inv">> ]
\* sets for which the reduction has to be complete (x-y-inv alone deliberately leaves some pairs unmerged)
CompleteSets == {"two_dimensional_square_symmetries", "two_dimensional_nematic_symmetries",
                 "quasi_two_dimensional_square_symmetries", "quasi_one_dimensional_square_symmetries"}

\* ------------------------------------------------------------ the reduction as the code performs it
\* lab: sequence over flat indices (1-based) of labels; one symmetry applied in place
ApplySym(nk, lab, s) ==
  LET at(k) == lab[Flat(nk, k) + 1] IN
  [j \in 1..NTot(nk) |->
    LET k == Pt(nk, j - 1) IN
    CASE s = "x-inv" -> IF k[1] > nk[1] \div 2 THEN at(<<nk[1] - k[1], k[2], k[3]>>) ELSE at(k)
      [] s = "y-inv" -> IF k[2] > nk[2] \div 2 THEN at(<<k[1], nk[2] - k[2], k[3]>>) ELSE at(k)
      [] s = "z-inv" -> IF k[3] > nk[3] \div 2 THEN at(<<k[1], k[2], nk[3] - k[3]>>) ELSE at(k)
      [] s = "x-y-sym" -> IF nk[1] = nk[2] THEN Min2(at(k), at(<<k[2], k[1], k[3]>>)) ELSE at(k)
      [] s = "x-y-inv" -> IF k[1] > nk[1] \div 2 /\ k[2] # 0 THEN at(<<nk[1] - k[1], nk[2] - k[2], k[3]>>) ELSE at(k)]

\* representative of a class: the first point carrying the label
FirstWith(lab, l) == (CHOOSE j \in DOMAIN lab : lab[j] = l /\ \A i \in DOMAIN lab : lab[i] = l => j <= i) - 1
=============================================================================
