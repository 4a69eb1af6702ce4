------------------------------ MODULE MCBloch ------------------------------
(***************************************************************************)
(* C15 design: a two-orbital Hamiltonian built hopping by hopping, each    *)
(* step adding a hopping and its Hermitian partner.  H(k) and dH/dk are    *)
(* accumulated alongside on a 4 x 2 mesh and must stay Hermitian, periodic *)
(* and equal to the closed Bloch sum of the table; transforming back       *)
(* returns the table folded onto the mesh.                                 *)
(***************************************************************************)
EXTENDS Bloch, FiniteSets, TLC, Json
CONSTANTS Depth, Vals
VARIABLES tab, h, dx
vars == <<tab, h, dx>>
nk == <<4, 2, 1>>
KS == {<<x, y, 0>> : x \in 0..3, y \in 0..1}
OS == {1, 2}
RS == {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<-1, 2, 0>>}
Val(v) == CASE v = 0 -> <<1, 0>> [] v = 1 -> <<0, 1>> [] v = 2 -> <<-2, 1>>
Neg(R) == [d \in 1..3 |-> -R[d]]
Zero == [k \in KS |-> [a \in OS |-> [b \in OS |-> CZero]]]
Ph(R, k) == LET p == Phase(PhaseIx(nk, R, k)) IN <<p[1] \div One, p[2] \div One>>      \* exact on this mesh
Init == tab = <<>> /\ h = Zero /\ dx = Zero
Rows(R, a, b, t) == IF R = <<0, 0, 0>> /\ a = b THEN <<[R |-> R, a |-> a, b |-> b, t |-> <<t[1], 0>>]>>
                    ELSE <<[R |-> R, a |-> a, b |-> b, t |-> t], [R |-> Neg(R), a |-> b, b |-> a, t |-> CConj(t)]>>
Add(rows, m, der) == [k \in KS |-> [a \in OS |-> [b \in OS |-> FoldLeft(LAMBDA x, r : IF r.a = a /\ r.b = b
   THEN CAdd(x, CMul(IF der THEN CScale(r.R[1], CMul(CI, r.t)) ELSE r.t, Ph(r.R, k))) ELSE x, m[k][a][b], rows)]]]
Next == /\ Len(tab) < 2 * Depth
        /\ \E R \in RS, a \in OS, b \in OS, v \in Vals : LET rs == Rows(R, a, b, Val(v)) IN
             /\ tab' = tab \o rs /\ h' = TLCEval(Add(rs, h, FALSE)) /\ dx' = TLCEval(Add(rs, dx, TRUE))
Spec == Init /\ [][Next]_vars
Hermitian == \A k \in KS, a \in OS, b \in OS : h[k][a][b] = CConj(h[k][b][a]) /\ dx[k][a][b] = CConj(dx[k][b][a])
Closed == \A k \in KS, a \in OS, b \in OS :
  LET T == SelectSeq(tab, LAMBDA r : r.a = a /\ r.b = b) IN
  /\ CScale(One, h[k][a][b]) = HSum(nk, k, Len(T), 1, LAMBDA i : 1, LAMBDA i : T[i].R, LAMBDA i : T[i].t)
  /\ CScale(One, dx[k][a][b]) = DSum(nk, k, Len(T), 1, LAMBDA i : 1, LAMBDA i : T[i].R, LAMBDA i : T[i].t, 1)
\* inverse transform: N * (sum of the hoppings whose vector agrees with R on the mesh)
Same(R, S) == \A d \in 1..3 : (R[d] - S[d]) % nk[d] = 0
BackTransform == \A R \in RS, a \in OS, b \in OS :
  FoldLeft(LAMBDA x, k : CAdd(x, CMul(h[k][a][b], CConj(Ph(R, k)))), CZero, SetToSeq(KS))
  = CScale(8, FoldLeft(LAMBDA x, r : IF r.a = a /\ r.b = b /\ Same(r.R, R) THEN CAdd(x, r.t) ELSE x, CZero, tab))
Emit == Len(tab) >= 2 * Depth => PrintT(<<"BEH", ToJson(tab)>>)
=============================================================================
