----------------------------- MODULE RankFiles -----------------------------
(***************************************************************************)
(* C03: contents of the vertex files.  A rank stores, per kind ("pv"       *)
(* pairing, "f" optics, "fq" full ladder vertex), irreducible momentum q   *)
(* and bosonic frequency w, the two parts of the ladder vertex of each     *)
(* channel; assembling the files of all ranks gives the whole vertex.      *)
(*   f1(v,v') = beta^2 / x0(v) (delta - aux(v,v') / x0(v'))                *)
(*   f2(v,v') = u_r vrg(v) vrg(v')                                         *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, SequencesExt, FiniteSets

\* xi = 1 / x0 (the bubble has modulus one, so this is its conjugate)
F1(beta, xi, xj, aux, diag) ==
  CScale(beta * beta, CMul(xi, CSub(IF diag THEN COne ELSE CZero, CMul(aux, xj))))
F2(ur, a, b) == CScale(ur, CMul(a, b))

\* pp-transformed entry: minus the entry at (v, -v'), taken at the bosonic frequency w = v - v'
PPEntry(F(_, _, _), v, vp) == CNeg(F(v - vp, v, -vp - 1))
\* twice the stored average of an entry and its Hermitian conjugate
PPTwice(F(_, _, _), v, vp) == CAdd(PPEntry(F, v, vp), CConj(PPEntry(F, vp, v)))
\* optics entry: frequency v of a slice F(v, v - w)
OptEntry(F(_, _, _), w, wc, v) == F(w, v, v - wc)

NivPP(niw, niv) == Min2(niw \div 2, niv \div 2)
=============================================================================
