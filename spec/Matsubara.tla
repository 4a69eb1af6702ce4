---------------------------- MODULE Matsubara ----------------------------
(***************************************************************************)
(* C07, C08: Matsubara functions as labelled objects.                      *)
(* An axis is the sequence of frequency indices it stores; an object is a  *)
(* sequence of axes plus the rule giving the entry at a frequency tuple.   *)
(* Fermionic window of half width n: -n..n-1; bosonic: -n..n (full) or     *)
(* 0..n (half).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Num

VAx(n) == [i \in 1..(2 * n) |-> i - 1 - n]
VPosAx(n) == [i \in 1..n |-> i - 1]
WAx(n) == [i \in 1..(2 * n + 1) |-> i - 1 - n]
WHalfAx(n) == [i \in 1..(n + 1) |-> i - 1]
\* the two-sided shell outside the core
ShellAx(core, shell) == [i \in 1..(2 * shell) |-> IF i <= shell THEN i - 1 - core - shell ELSE core + i - 1 - shell]

HalfLen(ax) == Len(ax) \div 2

\* label of a frequency tuple: an injective code with an imaginary part that makes conjugation visible
Code(fs) == 1 + FoldLeft(LAMBDA a, b : a * 64 + b, 0, [i \in DOMAIN fs |-> fs[i] + 32])
Lab(fs) == LET c == Code(fs) IN <<c, c + 1>>
ConjLab(fs) == LET c == Code(fs) IN <<c, -(c + 1)>>
\* labels of a function with F(-w,-v-1) = conj F(w,v); the frequency tuple mirrored kind by kind
Mirror(kinds, fs) == [i \in DOMAIN fs |-> IF kinds[i] = "v" THEN -fs[i] - 1 ELSE IF kinds[i] = "w" THEN -fs[i] ELSE fs[i]]
RECURSIVE LexPos(_, _)
LexPos(kinds, fs) == \* TRUE for exactly one of each mirrored pair
  IF fs = <<>> THEN TRUE
  ELSE IF kinds[1] = "o" \/ (kinds[1] = "w" /\ fs[1] = 0) THEN LexPos(Tail(kinds), Tail(fs))
  ELSE fs[1] >= 0
SymLab(kinds, fs) == IF LexPos(kinds, fs) THEN Lab(fs) ELSE ConjLab(Mirror(kinds, fs))

AxShape(axes) == [a \in DOMAIN axes |-> Len(axes[a])]
FreqAt(axes, ix) == [a \in DOMAIN axes |-> axes[a][ix[a] + 1]]
\* the recorded array is the object (axes, rule)
Holds(arr, axes, rule(_)) ==
  LET sh == AxShape(axes) IN
  /\ arr.sh = sh
  /\ \A o \in 0..(Prod(sh) - 1) : <<arr.re[o + 1], arr.im[o + 1]>> = rule(FreqAt(axes, Unravel(sh, o)))

ReplaceAxes(axes, S, new(_)) == [a \in DOMAIN axes |-> IF a \in S THEN new(axes[a]) ELSE axes[a]]
DropAxis(s, a) == SubSeq(s, 1, a - 1) \o SubSeq(s, a + 1, Len(s))

\* ------------------------------------------------------------ notations
\* bosonic shift pairs: chi0(w, v) = G(v + s1) G(v + s2) with s1 - s2 = -+ w as the notation says
Shift(notation, w) ==
  CASE notation = "plus"   -> <<0, w>>
    [] notation = "minus"  -> <<0, -w>>
    [] notation = "center" -> <<w \div 2, -(w \div 2) - (w % 2)>>
ShiftOk(notation, w) == LET s == Shift(notation, w) IN
  CASE notation = "plus"   -> s[2] - s[1] = w /\ s[1] = 0
    [] notation = "minus"  -> s[1] - s[2] = w /\ s[1] = 0
    [] notation = "center" -> s[1] - s[2] = w /\ Abs(s[1] + s[2]) <= 1

\* particle-particle relabelings of F^w_{v v'}: fermionic index n stands for the frequency 2n+1, bosonic m for 2m
PhIndexOfPp(wpp, v, vp) == <<v + vp + 1 - wpp, v, vp>>
PhIndexOfPpCrossed(wpp, v, vp) == <<v - vp, v, wpp - vp - 1>>
PhysicalPp(wpp, v, vp) == LET x == PhIndexOfPp(wpp, v, vp) IN 2 * x[1] = (2 * v + 1) + (2 * vp + 1) - 2 * wpp
PhysicalPpCrossed(wpp, v, vp) == LET x == PhIndexOfPpCrossed(wpp, v, vp) IN
  /\ 2 * x[1] = (2 * v + 1) - (2 * vp + 1)
  /\ 2 * x[3] + 1 = 2 * wpp - (2 * vp + 1)
=============================================================================
