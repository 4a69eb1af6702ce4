------------------------------- MODULE Maxent -------------------------------
(* Maximum-entropy continuation: what a spectrum, its reported numbers and the chosen weight have to satisfy.   *)
(* Numbers are 20-binary-digit fixed point (Wide); vectors are sequences, real ones plain, complex ones pairs.  *)
EXTENDS Wide
S1 == WUnit
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumR(f) == SumTo(f, Len(f))
CSumSeq(f) == <<SumR([i \in DOMAIN f |-> f[i][1]]), SumR([i \in DOMAIN f |-> f[i][2]])>>
RECURSIVE Taylor(_, _, _)
\* 1 + y/k (1 + y/(k+1) ( ... )) up to order n
Taylor(y, k, n) == IF k > n THEN S1 ELSE S1 + (WR(y, Taylor(y, k + 1, n)) \div k)
Sq(x) == WR(x, x)
\* exp(x) for x < 2.7; arguments below -14 give 0
Exp(x) == IF x < -14 * S1 THEN 0 ELSE LET t == Taylor(x \div 16, 1, 9) IN Sq(Sq(Sq(Sq(t))))
\* 2^(-n/d) is only used for d | n
Pow2(n) == IF n < 0 \/ n > 20 THEN 0 ELSE S1 \div (2 ^ n)
\* integration weights of the trapezoidal rule on the mesh w
Weights(w) == LET n == Len(w) IN [i \in 1..n |-> ((IF i = n THEN w[n] ELSE w[i + 1]) - (IF i = 1 THEN w[1] ELSE w[i - 1])) \div 2]
Integral(dw, f) == SumR([i \in DOMAIN dw |-> WR(dw[i], f[i])])
Row(k, dw, a) == CSumSeq([l \in DOMAIN dw |-> WScale(WR(dw[l], a[l]), k[l])])          \* transform of a spectrum at one imaginary frequency
ReDot(x, y) == SumR([k \in DOMAIN x |-> WR(x[k][1], y[k][1]) + WR(x[k][2], y[k][2])])  \* Re sum conj(x) y
\* ---------------------------------------------------------------- schedules of the weight (abstract: exponents of alpha_div)
\* the weights tried from the largest one down, one step at a time, until the last one allowed
Tried(first, last) == [i \in 1..(first - last + 1) |-> first - i + 1]
Kept(first, last, failed) == SelectSeq(Tried(first, last), LAMBDA e : e \notin failed)
=============================================================================
