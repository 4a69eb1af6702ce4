------------------------------ MODULE MCHrFile ------------------------------
(* Writer and reader of the hopping file as a two-phase machine; for every  *)
(* table size the reader recovers every number at its place.                *)
EXTENDS HrFile, TLC
CONSTANTS NR, NB
VARIABLES nr, nb, i, toks, phase, got
vars == <<nr, nb, i, toks, phase, got>>
Init == nr \in 1..NR /\ nb \in 1..NB /\ i = 1 /\ toks = <<>> /\ phase = "write" /\ got = <<>>
Write == /\ phase = "write" /\ i <= NLines(nr, nb)
         /\ toks' = toks \o Line(nr, nb, i) /\ i' = i + 1 /\ UNCHANGED <<nr, nb, phase, got>>
Turn == phase = "write" /\ i > NLines(nr, nb) /\ phase' = "read" /\ UNCHANGED <<nr, nb, i, toks, got>>
\* the reader knows nothing but the tokens
Read == /\ phase = "read"
        /\ LET b == toks[1][2] r == toks[2][2] rest == SubSeq(toks, 3 + r, Len(toks)) n == Len(rest) \div 7 IN
             got' = [b |-> b, r |-> r, w |-> SubSeq(toks, 3, 2 + r), n |-> n,
                     t |-> [o \in 1..n |-> SubSeq(rest, 7 * (o - 1) + 1, 7 * o)]]
        /\ phase' = "done" /\ UNCHANGED <<nr, nb, i, toks>>
Next == Write \/ Turn \/ Read
Spec == Init /\ [][Next]_vars
RoundTrip == phase = "done" =>
  /\ got.b = nb /\ got.r = nr /\ got.n = nr * nb * nb
  /\ \A r \in 1..nr : got.w[r] = <<"w", r>>
  /\ \A r \in 1..nr, a \in 1..nb, b \in 1..nb, c \in 1..7 : got.t[((r - 1) * nb + (a - 1)) * nb + b][c] = <<"t", r, a, b, c>>
  /\ Len(toks) = 2 + nr + 7 * got.n
=============================================================================
