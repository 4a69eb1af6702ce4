-------------------------------- MODULE Sde --------------------------------
(***************************************************************************)
(* C12: the Schwinger-Dyson equation as sums over momenta and bosonic      *)
(* frequencies.  A Green's function is an operator G(k, v), k a 3-index on *)
(* the periodic mesh nk; kernels are operators K(i, j, v) over the i-th    *)
(* momentum of a list and the j-th bosonic frequency.                      *)
(* Sums come out multiplied by beta and by the number of momenta.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num

Shift(nk, k, q) == [d \in 1..3 |-> (k[d] + q[d]) % nk[d]]
\* Sigma(k, v) = sum_q sum_w K(q, w, v) G(k + q, v - w)
SdeAt(nk, qs, wn, K(_, _, _), G(_, _), k, v) ==
  SumC(Len(qs), LAMBDA i : SumC(Len(wn), LAMBDA j : CMul(K(i, j, v), G(Shift(nk, k, qs[i]), v - wn[j]))))
\* kernel of one channel: u_r / 2 (1 - (1 - u_r chi) vrg); twice the kernel, all integers
Kernel2(ur, chi, vrg) == CScale(ur, CSub(COne, CMul(CSub(COne, CScale(ur, chi)), vrg)))
\* double counting: u_r sum_v' chi0(v') F(v, v')
DcKernel(ur, n, chi0(_), f(_)) == CScale(ur, SumC(n, LAMBDA y : CMul(chi0(y), f(y))))
Hartree2(u, n2) == u * n2       \* u n / 2, from twice the filling: here times 4 ... u * (2n)
\* core window [-n, n-1] and shell of m frequencies on either side
InCore(n, v) == v >= -n /\ v < n
=============================================================================
