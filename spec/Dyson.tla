------------------------------- MODULE Dyson -------------------------------
(***************************************************************************)
(* C22: self-energies with an analytic tail, Green's functions.            *)
(* Matsubara frequency number n (any integer) is  v = b (2n+1), the        *)
(* inverse temperature being pi / b.  Only non-negative frequencies of the *)
(* self-energy are stored; negative ones are complex conjugates.           *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, SequencesExt, FiniteSets

Odd(n) == 2 * n + 1
\* mirror of a frequency number: v -> -v
Mirror(n) == -n - 1
\* (2n+1) times the tail  smom0 - smom1/(iv) = smom0 + i smom1 / v,   smom1 = b * s1
TailOdd(s0, s1, n) == <<Odd(n) * s0, s1>>
\* value at frequency n of a function known for n >= 0
Pos(f(_), n) == IF n >= 0 THEN f(n) ELSE CConj(f(Mirror(n)))
\* (2n+1) times the self-energy: data in the core, tail outside
SigOdd(nc, data(_), s0, s1, n) == IF n < nc THEN CScale(Odd(n), data(n)) ELSE TailOdd(s0, s1, n)
\* (2n+1) times the inverse Green's function  iv + mu - e - Sigma, n >= 0
InvGOdd(b, mu, e, sig, n) == <<Odd(n) * (mu - e) - sig[1], b * Odd(n) * Odd(n) - sig[2]>>
\* g is round(SC / D) and dodd = (2n+1) D
IsInverse(SC, g, dodd, n) ==
  LET p == CMul(g, dodd) IN
  CNear(p, <<SC * Odd(n), 0>>, CAbs1(dodd) + Odd(n))
=============================================================================
