---------------------------- MODULE T_Matsubara ----------------------------
(* Conformance of dga.matsubara_frequencies (C07, C08).                      *)
(* A case records the axes of the labelled input (c.ax), the parameters and  *)
(* the output array; the specification derives the axes of the output and    *)
(* the frequency tuple (with conjugation and sign) each entry must come from.*)
EXTENDS Conform, Matsubara

Id(f) == Lab(f)
AxSet(c) == {c.axes[i] + 1 : i \in DOMAIN c.axes}            \* 1-based axis numbers
NAx(c) == Len(c.ax)
HalfOf(c, a) == HalfLen(c.ax[a])

OutAx(c) ==
  CASE c.op = "cut_v" -> ReplaceAxes(c.ax, AxSet(c), LAMBDA x : VAx(IF c.n = -1 THEN HalfLen(x) ELSE c.n))
    [] c.op = "cut_w" -> ReplaceAxes(c.ax, AxSet(c), LAMBDA x : WAx(c.n))
    [] c.op = "inv_cut_v" -> ReplaceAxes(c.ax, AxSet(c), LAMBDA x : ShellAx(c.core, IF c.shell = -1 THEN HalfLen(x) - c.core ELSE c.shell))
    [] c.op = "fermionic_full" -> ReplaceAxes(c.ax, AxSet(c), LAMBDA x : VAx(Len(x)))
    [] c.op = "bosonic_full" -> ReplaceAxes(c.ax, AxSet(c), LAMBDA x : WAx(Len(x) - 1))
    [] c.op = "concat" -> ReplaceAxes(c.ax, {NAx(c)}, LAMBDA x : VAx(c.core + c.shell))
    [] c.op = "append_shell" -> ReplaceAxes(c.ax, {NAx(c) - 1, NAx(c)}, LAMBDA x : VAx(HalfLen(x) + c.n))
    [] c.op = "clip_pos" -> ReplaceAxes(c.ax, {NAx(c)}, LAMBDA x : VPosAx(HalfLen(x)))
    [] c.op = "cut_v_pos" -> << [i \in 1..(IF c.n = -1 THEN HalfOf(c, 1) ELSE c.n) |-> c.nmin + i - 1] >>
    [] c.op \in {"at_w0", "at_iwn"} -> DropAxis(c.ax, c.axes[1] + 1)
    [] c.op = "cut_shift" -> ReplaceAxes(c.ax, AxSet(c), LAMBDA x : VAx(IF c.n = -1 THEN HalfLen(x) - Abs(c.iwn) ELSE c.n))
    [] c.op = "slices_gen" -> << c.w >> \o ReplaceAxes(c.ax, {NAx(c)}, LAMBDA x : VAx(c.n))
    [] c.op = "slices_shell" -> << c.w >> \o ReplaceAxes(c.ax, {NAx(c)}, LAMBDA x : ShellAx(c.core, c.shell))
    [] c.op = "w_to_vmvp" -> << VAx(HalfOf(c, 1) \div 2), VAx(HalfOf(c, 1) \div 2) >> \o Tail(c.ax)
    [] c.op = "pp_chi" -> SubSeq(c.ax, 1, NAx(c) - 1) \o << VAx(c.n), VAx(c.n) >>
    [] c.op = "pp_slice" -> << VAx(c.n), VAx(c.n) >>
    [] c.op = "ph2pp_iwn" -> LET n == Min2(HalfOf(c, NAx(c) - 2) \div 3, HalfOf(c, NAx(c)) \div 3) IN SubSeq(c.ax, 1, NAx(c) - 3) \o << VAx(n), VAx(n) >>
    [] c.op = "ph2pp" -> LET n == Min2(HalfOf(c, NAx(c) - 2) \div 3, HalfOf(c, NAx(c)) \div 3) IN
                         << WAx(Len(c.ax[NAx(c) - 2]) \div 6) >> \o SubSeq(c.ax, 1, NAx(c) - 3) \o << VAx(n), VAx(n) >>
    [] c.op = "ph2pp_iwn_wc" -> LET n == Min2(HalfOf(c, NAx(c) - 2) \div 2, HalfOf(c, NAx(c)) \div 2) IN SubSeq(c.ax, 1, NAx(c) - 3) \o << VAx(n), VAx(n) >>
    [] c.op = "ph2pp_wc" -> LET n == Min2(HalfOf(c, NAx(c) - 2) \div 2, HalfOf(c, NAx(c)) \div 2) IN
                         << WAx(HalfLen(c.out.sh)) >> \o SubSeq(c.ax, 1, NAx(c) - 3) \o << VAx(n), VAx(n) >>

\* rule: frequency tuple of the output -> entry
MirrorIf(c, f, a, g) == \* mirror the axes g if the frequency on axis a is negative
  IF f[a] >= 0 THEN Lab(f)
  ELSE ConjLab([i \in DOMAIN f |-> IF i \in g THEN (IF c.kinds[i] = "v" THEN -f[i] - 1 ELSE IF c.kinds[i] = "w" THEN -f[i] ELSE (c.ax[i][1] + c.ax[i][Len(c.ax[i])]) - f[i]) ELSE f[i]])
Rule(c, f) ==
  CASE c.op \in {"cut_v", "cut_w", "inv_cut_v", "concat", "clip_pos", "cut_v_pos"} -> Lab(f)
    [] c.op = "fermionic_full" -> MirrorIf(c, f, c.axes[1] + 1, {c.axes[1] + 1})
    [] c.op = "bosonic_full" -> MirrorIf(c, f, c.axes[1] + 1, {c.faxes[i] + 1 : i \in DOMAIN c.faxes})
    [] c.op = "append_shell" -> LET a == NAx(c) - 1 b == NAx(c) IN
         IF \E i \in DOMAIN c.ax[a] : c.ax[a][i] = f[a]
         THEN (IF \E i \in DOMAIN c.ax[b] : c.ax[b][i] = f[b] THEN Lab(f) ELSE c.val) ELSE c.val
    [] c.op = "at_w0" -> Lab(SubSeq(f, 1, c.axes[1]) \o <<0>> \o SubSeq(f, c.axes[1] + 1, Len(f)))
    [] c.op = "at_iwn" -> Lab(SubSeq(f, 1, c.axes[1]) \o <<c.iwn>> \o SubSeq(f, c.axes[1] + 1, Len(f)))
    [] c.op = "cut_shift" -> Lab([i \in DOMAIN f |-> IF i \in AxSet(c) THEN f[i] - c.iwn ELSE f[i]])
    [] c.op \in {"slices_gen", "slices_shell"} -> Lab([i \in 1..(Len(f) - 1) |-> IF i = Len(f) - 1 THEN f[i + 1] - f[1] ELSE f[i + 1]])
    [] c.op = "w_to_vmvp" -> Lab(<<f[1] - f[2]>> \o SubSeq(f, 3, Len(f)))
    \* pairing notation: bosonic frequency v - v', crossed second fermionic frequency -v'
    [] c.op = "pp_chi" -> LET k == Len(f) IN Lab(SubSeq(f, 1, k - 2) \o <<f[k - 1] - f[k]>>)
    [] c.op = "pp_slice" -> CNeg(Lab(<<f[1] - f[2], f[1], -f[2] - 1>>))
    [] c.op = "ph2pp_iwn" -> LET k == Len(f) IN Lab(SubSeq(f, 1, k - 2) \o PhIndexOfPp(c.iwn, f[k - 1], f[k]))
    [] c.op = "ph2pp" -> LET k == Len(f) IN Lab(SubSeq(f, 2, k - 2) \o PhIndexOfPp(f[1], f[k - 1], f[k]))
    [] c.op = "ph2pp_iwn_wc" -> LET k == Len(f) IN CNeg(Lab(SubSeq(f, 1, k - 2) \o PhIndexOfPpCrossed(c.iwn, f[k - 1], f[k])))
    [] c.op = "ph2pp_wc" -> LET k == Len(f) IN CNeg(Lab(SubSeq(f, 2, k - 2) \o PhIndexOfPpCrossed(f[1], f[k - 1], f[k])))

MapOps == {"cut_v", "cut_w", "inv_cut_v", "fermionic_full", "bosonic_full", "concat", "append_shell", "clip_pos", "cut_v_pos", "at_w0", "at_iwn",
           "cut_shift", "slices_gen", "slices_shell", "w_to_vmvp", "pp_chi", "pp_slice", "ph2pp_iwn", "ph2pp", "ph2pp_iwn_wc"}
MapFail(c) == IF Holds(c.out, OutAx(c), LAMBDA f : Rule(c, f)) THEN {} ELSE {"each entry is the value at its frequency"}

\* crossed pp transform of a whole object: the returned bosonic window is the code's choice, the entries are not
WcFail(c) ==
  LET n == Min2(HalfOf(c, NAx(c) - 2) \div 2, HalfOf(c, NAx(c)) \div 2)
      nw == c.out.sh[1] \div 2
      axes == << WAx(nw) >> \o SubSeq(c.ax, 1, NAx(c) - 3) \o << VAx(n), VAx(n) >> IN
  (IF Len(c.out.sh) = Len(axes) /\ c.out.sh[1] % 2 = 1 /\ Holds(c.out, axes, LAMBDA f : Rule(c, f)) THEN {} ELSE {"crossed pp notation: each entry is the value at its frequency"})

WcMdFail(c) ==
  LET n == Min2(HalfOf(c, NAx(c) - 2) \div 2, HalfOf(c, NAx(c)) \div 2)
      nw == c.out.sh[1] \div 2
      axes == << WAx(nw) >> \o SubSeq(c.ax, 1, NAx(c) - 3) \o << VAx(n), VAx(n) >>
      src(f) == LET k == Len(f) IN CNeg(Lab(SubSeq(f, 2, k - 2) \o PhIndexOfPpCrossed(f[1], f[k - 1], f[k]))) IN
  \* recorded doubled; magnetic input carries 3 times the label
  (IF Holds(c.out, axes, LAMBDA f : CScale(1 + 9, src(f))) THEN {} ELSE {"up-down combination of the crossed channels"})
  \cup (IF Holds(c.out2, axes, LAMBDA f : CScale(1 - 3, src(f))) THEN {} ELSE {"second combination of the crossed channels"})

AddFail(c) ==
  LET a == c.axes[1] + 1
      big == IF Len(c.ax[a]) >= Len(c.ax2[a]) THEN c.ax ELSE c.ax2
      in(ax, f) == \E i \in DOMAIN ax[a] : ax[a][i] = f[a] IN
  IF Holds(c.out, big, LAMBDA f : CAdd(IF in(c.ax, f) THEN Lab(f) ELSE CZero, IF in(c.ax2, f) THEN CScale(3, Lab(f)) ELSE CZero)) /\ c.same
  THEN {} ELSE {"sum at each bosonic frequency, operands unchanged"}

SumFail(c) ==
  \* windows summed, scaled by ib (= 1/beta) per sum
  CASE c.op = "vsum_wn" ->
         LET h == HalfOf(c, NAx(c))
             s == IF c.n = -1 THEN 0 ELSE c.iwn \div 2
             n == IF c.n = -1 THEN h ELSE c.n
             axes == SubSeq(c.ax, 1, NAx(c) - 2) IN
         IF Holds(c.out, axes, LAMBDA f : SumC(4 * n * n, LAMBDA k : CScale(c.ib * c.ib, Lab(f \o <<((k - 1) \div (2 * n)) - n + s, ((k - 1) % (2 * n)) - n + s>>))))
         THEN {} ELSE {"fermionic sum over the centred window"}
    [] c.op = "vsum" ->
         LET h == HalfOf(c, NAx(c))
             n == IF c.n = -1 THEN h ELSE c.n
             axes == SubSeq(c.ax, 1, NAx(c) - 2)
             sh(f) == IF c.n = -1 THEN 0 ELSE f[Len(f)] \div 2 IN
         IF Holds(c.out, axes, LAMBDA f : SumC(4 * n * n, LAMBDA k : CScale(c.ib * c.ib, Lab(f \o <<((k - 1) \div (2 * n)) - n + sh(f), ((k - 1) % (2 * n)) - n + sh(f)>>))))
         THEN {} ELSE {"fermionic sum over the centred window at each bosonic frequency"}
    [] c.op = "wsum" ->
         LET h == HalfOf(c, 1) n == IF c.n = -1 THEN h ELSE c.n IN
         IF Holds(c.out, Tail(c.ax), LAMBDA f : SumC(2 * n + 1, LAMBDA k : CScale(c.ib, Lab(<<k - 1 - n>> \o f))))
         THEN {} ELSE {"bosonic sum over the centred window"}

GridFail(c) ==
  LET want == CASE c.kind = "v" /\ c.pos -> [i \in 1..c.n |-> i - 1 + c.shift]
                [] c.kind = "v" -> [i \in 1..(2 * c.n) |-> i - 1 - c.n + c.shift]
                [] c.kind = "w" /\ c.pos -> [i \in 1..(c.n + 1) |-> i - 1 + c.shift]
                [] c.kind = "w" -> [i \in 1..(2 * c.n + 1) |-> i - 1 - c.n + c.shift]
      scaled == IF c.beta THEN [i \in DOMAIN want |-> 2 * want[i] + (IF c.kind = "v" THEN 1 ELSE 0)] ELSE want IN
  IF c.grid = scaled THEN {} ELSE {"frequency grid"}

ShiftFail(c) == LET s == <<c.s1, c.s2>> IN
  (IF c.notation \notin {"plus", "minus", "center"} THEN {"known notation"} ELSE
   IF s = Shift(c.notation, c.w) THEN {} ELSE {"bosonic shift pair"})

\* history of window operations on a symmetric object: replay of MatsubaraMachine
K2 == <<"w", "v">>
StepAx(ax, op, n) ==
  CASE op = "cutv" -> <<ax[1], VAx(n)>>
    [] op = "cutw" -> <<WAx(n), ax[2]>>
    [] op = "half" -> <<WHalfAx(HalfLen(ax[1])), ax[2]>>
    [] op = "full" -> <<WAx(Len(ax[1]) - 1), ax[2]>>
    [] op = "splitjoin" -> ax
RECURSIVE HistFail(_, _, _)
HistFail(c, ax, k) ==
  IF k > Len(c.hist) THEN {}
  ELSE LET ax2 == StepAx(ax, c.hist[k].o, c.hist[k].n) IN
       IF Holds(c.steps[k], ax2, LAMBDA f : SymLab(K2, f)) THEN HistFail(c, ax2, k + 1)
       ELSE {"window history: value at its frequency after " \o c.hist[k].o}

Fail(c) ==
  IF c.op = "shift_unknown" THEN (IF c.exc # "" THEN {} ELSE {"unknown notation is rejected"})
  ELSE IF c.exc # "" THEN {"completes without an error"}
  ELSE CASE c.op \in MapOps -> MapFail(c) \cup (IF c.same THEN {} ELSE {"input unchanged"})
         [] c.op = "ph2pp_wc" -> WcFail(c)
         [] c.op = "ph2pp_wc_md" -> WcMdFail(c)
         [] c.op = "add_bosonic" -> AddFail(c)
         [] c.op \in {"vsum_wn", "vsum", "wsum"} -> SumFail(c)
         [] c.op = "grid" -> GridFail(c)
         [] c.op = "shift" -> ShiftFail(c)
         [] c.op = "count" -> (IF c.got = c.want THEN {} ELSE {"window size read off an array"})
         [] c.op = "hist" -> HistFail(c, <<WAx(c.nw), VAx(c.nv)>>, 1)
=============================================================================
