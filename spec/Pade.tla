------------------------------- MODULE Pade -------------------------------
(* Rational interpolation by a terminated continued fraction (Thiele), over any field: used exactly over GF(p) for the design and in fixed point on recorded values. *)
EXTENDS Integers, Sequences
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Zero, One
RECURSIVE Poly(_, _, _)
\* c[k] + c[k+1] z + ...
Poly(c, z, k) == IF k > Len(c) THEN Zero ELSE Add(c[k], Mul(z, Poly(c, z, k + 1)))
\* numerator and denominator after n coefficients: <<A_(n-1), A_n, B_(n-1), B_n>>
RECURSIVE Frac(_, _, _, _)
Frac(a, zi, z, n) ==
  IF n = 1 THEN <<Zero, a[1], One, One>>
  ELSE LET p == Frac(a, zi, z, n - 1) f == Mul(Sub(z, zi[n - 1]), a[n]) IN <<p[2], Add(p[2], Mul(f, p[1])), p[4], Add(p[4], Mul(f, p[3]))>>
Num(a, zi, z) == Frac(a, zi, z, Len(a))[2]
Den(a, zi, z) == Frac(a, zi, z, Len(a))[4]
=============================================================================
