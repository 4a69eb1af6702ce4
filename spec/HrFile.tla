------------------------------- MODULE HrFile -------------------------------
(***************************************************************************)
(* C16: the text file of a hopping table as a sequence of lines of tokens. *)
(* Line 1 comment; number of orbitals; number of lattice vectors; the      *)
(* degeneracies, fifteen to a line; one line per vector and orbital pair   *)
(* (row-major) with vector, orbital pair, real and imaginary part.         *)
(* The reader drops the comment, joins all lines and cuts by counting.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Cols == 15
WeightLines(nr) == (nr + Cols - 1) \div Cols
WeightLine(nr, i) == LET lo == Cols * (i - 1) + 1 hi == IF Cols * i < nr THEN Cols * i ELSE nr IN [x \in 1..(hi - lo + 1) |-> <<"w", lo + x - 1>>]
HopLine(nb, o) == LET r == (o - 1) \div (nb * nb) + 1 a == (((o - 1) \div nb) % nb) + 1 b == ((o - 1) % nb) + 1 IN [c \in 1..7 |-> <<"t", r, a, b, c>>]
NLines(nr, nb) == 2 + WeightLines(nr) + nr * nb * nb
Line(nr, nb, i) == IF i = 1 THEN <<<<"nb", nb>>>> ELSE IF i = 2 THEN <<<<"nr", nr>>>>
  ELSE IF i <= 2 + WeightLines(nr) THEN WeightLine(nr, i - 2) ELSE HopLine(nb, i - 2 - WeightLines(nr))
=============================================================================
