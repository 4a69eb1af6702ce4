------------------------------ MODULE Bubble ------------------------------
(***************************************************************************)
(* C09: bare bubbles.                                                      *)
(*   gchi0(q, w, v) = -beta 1/Nk sum_k G(k, v + s1) G(k + q, v + s2)       *)
(* with <<s1, s2>> the shift pair of the notation, and                     *)
(*   chi0(q, w) = 1/beta^2 sum_v gchi0(q, w, v) + tail,                    *)
(*   tail = (exact sum of the large-frequency expansion over all v)        *)
(*          - (its sum over the window).                                   *)
(* G is given by its values at the stored fermionic indices.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Num, Matsubara, Brillouin

\* local: g is a recorded array over -N..N-1
GAt(g, v) == A1(g, v + (g.sh[1] \div 2))
GG(g, notation, w, v) == LET s == Shift(notation, w) IN CMul(GAt(g, v + s[1]), GAt(g, v + s[2]))
\* lattice: gk is a recorded array [kx, ky, kz, v]; flat mesh index k
GkAt(gk, k, v) == LET nv == gk.sh[4] o == k * nv + v + (nv \div 2) + 1 IN <<gk.re[o], gk.im[o]>>
KPlus(nk, k, q) == Flat(nk, Plus(nk, Pt(nk, k), q))
GGq(gk, nk, notation, q, w, v) ==
  LET s == Shift(notation, w) n == NTot(nk) IN
  SumC(n, LAMBDA k : CMul(GkAt(gk, k - 1, v + s[1]), GkAt(gk, KPlus(nk, k - 1, q), v + s[2])))

\* ------------------------------------------------------------ large-frequency expansion at beta = pi
\* there i v_n = i (2n + 1); one term of the expansion of -G G times (-1), scaled by Z; fac2, fac3 come multiplied by n
ExpTerm(Z, n, a, b, fac1, fac2n, fac3n) ==
  << -(Z \div (a * b)) + ((((Z \div (a * a * a * b)) + (Z \div (a * b * b * b))) * fac2n) \div n) + (((Z \div (a * a * b * b)) * fac3n) \div n),
     -((Z \div (a * a * b)) + (Z \div (a * b * b))) * fac1 >>
ExpSum(Z, n, niv, notation, w, fac1, fac2n, fac3n) ==
  LET s == Shift(notation, w) IN
  SumC(2 * niv, LAMBDA j : ExpTerm(Z, n, 2 * (j - 1 - niv + s[1]) + 1, 2 * (j - 1 - niv + s[2]) + 1, fac1, fac2n, fac3n))
\* the sum over all frequencies divided by beta, at beta = pi, scaled by Z (pi^2 = 9.8696)
Pi2Z(Z, d) == ((Z \div 10000) * 98696) \div d
ExactSum(Z, n, w, fac2n, fac3n) ==
  IF w = 0 THEN (Z \div 4) - ((Pi2Z(Z, 24) * fac2n) \div n) - ((Pi2Z(Z, 48) * fac3n) \div n)
  ELSE ((Z \div (8 * w * w)) * (fac2n - fac3n)) \div n

EkSum2(ek) == SumInt(Len(ek.re), LAMBDA i : ek.re[i] * ek.re[i])
EkSum1(ek) == SumInt(Len(ek.re), LAMBDA i : ek.re[i])
EkEkq(ek, nk, q) == SumInt(NTot(nk), LAMBDA k : ek.re[k] * ek.re[KPlus(nk, k - 1, q) + 1])
=============================================================================
