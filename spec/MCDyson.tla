------------------------------ MODULE MCDyson ------------------------------
(***************************************************************************)
(* C22 design: how the objects assemble a window from stored parts.  The   *)
(* non-negative half is cut or extended by the tail and then mirrored; a   *)
(* DGA self-energy wraps a DMFT shell around its own core and carries the  *)
(* DMFT tail.  An entry is named by its origin and frequency number.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT NMax
VARIABLES half,    \* stored non-negative half: sequence of origins
          core,    \* how many of them are used
          kind, win, ask
vars == <<half, core, kind, win, ask>>
Entry(o, n) == <<o, n, "">>
Conj(e) == <<e[1], e[2], "*">>
Full(h) == [i \in 1..(2 * Len(h)) |-> IF i > Len(h) THEN h[i - Len(h)] ELSE Conj(h[Len(h) + 1 - i])]
Data(o, n) == [i \in 1..n |-> Entry(o, i - 1)]
Init == /\ \E n \in 1..NMax, c \in 1..NMax : c <= n /\ half = Data("dmft", n) /\ core = c
        /\ kind = "dmft" /\ win = <<>> /\ ask = 0
GetHalf(n) == IF n <= core THEN SubSeq(half, 1, n) ELSE SubSeq(half, 1, core) \o [i \in 1..(n - core) |-> Entry("tail", core + i - 1)]
\* read a window of half width n
Get(n) == /\ win' = Full(GetHalf(n)) /\ ask' = n /\ UNCHANGED <<half, core, kind>>
\* wrap: a DGA core of width c inside a DMFT shell of width s
Wrap(c, s) == /\ kind = "dmft"
              /\ LET f == Full(GetHalf(c + s))
                     dga == Full(Data("dga", c))
                     cat == SubSeq(f, 1, s) \o dga \o SubSeq(f, s + 2 * c + 1, 2 * (c + s))
                 IN half' = SubSeq(cat, c + s + 1, 2 * (c + s))
              /\ core' = c + s /\ kind' = "dga" /\ win' = <<>> /\ ask' = c
Next == (\E n \in 1..(2 * NMax) : kind # "" /\ Get(n)) \/ (\E c \in 1..NMax, s \in 0..NMax : Wrap(c, s))
Spec == Init /\ [][Next]_vars
At(n) == win[n + ask + 1]
WindowOk == win # <<>> =>
  /\ Len(win) = 2 * ask
  /\ \A n \in (-ask)..(ask - 1) : LET m == IF n >= 0 THEN n ELSE -n - 1 IN
       /\ At(n)[2] = m /\ (At(n)[3] = "*") = (n < 0)
       /\ (m >= core) = (At(n)[1] = "tail") \/ (kind = "dga" /\ m < core)
  /\ \A n \in 0..(ask - 1) : At(-n - 1) = Conj(At(n))
WrapOk == kind = "dga" => \A i \in DOMAIN half : half[i][2] = i - 1 /\ half[i][3] = "" /\ (half[i][1] = "dga" => \A j \in 1..i : half[j][1] = "dga")
=============================================================================
