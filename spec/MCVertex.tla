---------------------------- MODULE MCVertex ----------------------------
(***************************************************************************)
(* C10 design, exact over the field of P elements: a two-particle quantity *)
(* is converted back and forth (2 fermionic frequencies); whatever the     *)
(* history of conversions, the value is the one value of that kind, and    *)
(* all relations of Vertex hold between the kinds.                         *)
(* beta = 1; gg the disconnected part; dens tells whether it is subtracted.*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS P, Depth, GamSet, X0Set
GF == 0..(P - 1)
FAdd(a, b) == (a + b) % P
FSub(a, b) == (a - b) % P
FMulP(a, b) == (a * b) % P
FEq(a, b) == a = b
V == INSTANCE Vertex WITH Add <- FAdd, Sub <- FSub, Mul <- FMulP, Eq <- FEq, Zero <- 0, One <- 1
Inv(a) == CHOOSE b \in GF : (a * b) % P = 1
Det(m) == FSub(FMulP(m[1][1], m[2][2]), FMulP(m[1][2], m[2][1]))
Inv2(m) == LET d == Inv(Det(m)) IN <<<<FMulP(d, m[2][2]), FMulP(d, -m[1][2] % P)>>, <<FMulP(d, -m[2][1] % P), FMulP(d, m[1][1])>>>>
Map(f(_, _)) == <<<<f(1, 1), f(1, 2)>>, <<f(2, 1), f(2, 2)>>>>
Dg(i, j, e) == IF i = j THEN e ELSE 0

VARIABLES x0, gam0, ub, kind, val, hist
vars == <<x0, gam0, ub, kind, val, hist>>
X0inv == [i \in 1..2 |-> Inv(x0[i])]
\* the conversions as the implementation computes them
GchiFromGam(g) == Inv2(Map(LAMBDA i, j : FAdd(g[i][j], Dg(i, j, X0inv[i]))))
GamFromGchi(x) == LET xi == Inv2(x) IN Map(LAMBDA i, j : FSub(xi[i][j], Dg(i, j, X0inv[i])))
FFromGchi(x) == Map(LAMBDA i, j : FSub(Dg(i, j, X0inv[i]), FMulP(FMulP(X0inv[i], x[i][j]), X0inv[j])))
GchiFromF(f) == Map(LAMBDA i, j : FSub(Dg(i, j, x0[i]), FMulP(FMulP(x0[i], f[i][j]), x0[j])))
MatMul(a, b) == Map(LAMBDA i, j : FAdd(FMulP(a[i][1], b[1][j]), FMulP(a[i][2], b[2][j])))
FFromGam(g) == MatMul(g, Inv2(Map(LAMBDA i, j : FAdd(Dg(i, j, 1), FMulP(x0[i], g[i][j])))))
AuxFromGchi(x) == LET xi == Inv2(x) IN Inv2(Map(LAMBDA i, j : FSub(xi[i][j], ub)))
AuxFromGam(g) == Inv2(Map(LAMBDA i, j : FSub(FAdd(g[i][j], Dg(i, j, X0inv[i])), ub)))
\* u-range with no shell: gam = x^-1 - (x0^-1 + ub) + ub
GamUrange(x) == LET xi == Inv2(x) IN Map(LAMBDA i, j : FAdd(FSub(xi[i][j], FAdd(Dg(i, j, X0inv[i]), ub)), ub))
GG == <<2, 3>>
GchiFromG2(m) == Map(LAMBDA i, j : FSub(m[i][j], FMulP(2, FMulP(GG[i], GG[j]))))
G2FromGchi(m) == Map(LAMBDA i, j : FAdd(m[i][j], FMulP(2, FMulP(GG[i], GG[j]))))

Conv == { [from |-> "g2", to |-> "gchi", name |-> "gchir_from_g2"], [from |-> "gchi", to |-> "g2", name |-> "g2_from_chir"],
          [from |-> "gchi", to |-> "fob2", name |-> "fob2_from_gchir"], [from |-> "fob2", to |-> "gchi", name |-> "gchir_from_fob2"],
          [from |-> "gchi", to |-> "gam", name |-> "gamob2_from_gchir"], [from |-> "gchi", to |-> "gam", name |-> "gamob2_from_gchir_urange"],
          [from |-> "gam", to |-> "gchi", name |-> "gchir_from_gamob2"], [from |-> "gam", to |-> "fob2", name |-> "fob2_from_gamob2_urange"],
          [from |-> "gchi", to |-> "aux", name |-> "gchi_aux_core"], [from |-> "gam", to |-> "aux", name |-> "gchi_aux_core_from_gammar"],
          [from |-> "gam", to |-> "aux", name |-> "gchi_aux_core_from_gammar_urange"], [from |-> "gam", to |-> "aux", name |-> "local_gchi_aux_from_gammar"] }
Result(c, m) == CASE c.name = "gchir_from_g2" -> GchiFromG2(m) [] c.name = "g2_from_chir" -> G2FromGchi(m)
  [] c.name = "fob2_from_gchir" -> FFromGchi(m) [] c.name = "gchir_from_fob2" -> GchiFromF(m)
  [] c.name = "gamob2_from_gchir" -> GamFromGchi(m) [] c.name = "gamob2_from_gchir_urange" -> GamUrange(m)
  [] c.name = "gchir_from_gamob2" -> GchiFromGam(m) [] c.name = "fob2_from_gamob2_urange" -> FFromGam(m)
  [] c.name = "gchi_aux_core" -> AuxFromGchi(m) [] OTHER -> AuxFromGam(m)

X0s == [1..2 -> X0Set]
Init == /\ x0 \in X0s
        /\ gam0 \in {<<<<a, b>>, <<c, d>>>> : a \in GamSet, b \in GamSet, c \in GamSet, d \in GamSet}
        /\ ub \in GF
        /\ Det(Map(LAMBDA i, j : FAdd(gam0[i][j], Dg(i, j, X0inv[i])))) # 0
        /\ Det(Map(LAMBDA i, j : FSub(FAdd(gam0[i][j], Dg(i, j, X0inv[i])), ub))) # 0
        /\ kind = "gam" /\ val = gam0 /\ hist = <<>>
Step(c) == c.from = kind /\ Len(hist) < Depth /\ kind' = c.to /\ val' = Result(c, val) /\ hist' = Append(hist, c.name) /\ UNCHANGED <<x0, gam0, ub>>
Next == \E c \in Conv : Step(c)
Spec == Init /\ [][Next]_vars

Gchi == GchiFromGam(gam0)
Canonical(k) == CASE k = "gam" -> gam0 [] k = "gchi" -> Gchi [] k = "fob2" -> FFromGchi(Gchi) [] k = "aux" -> AuxFromGam(gam0) [] k = "g2" -> G2FromGchi(Gchi)
PathIndependent == val = Canonical(kind)
Ones == <<1, 1>>
Relations == hist = <<>> =>
  LET x == Gchi f == FFromGchi(x) a == AuxFromGam(gam0)
      chi == V!TotalSum(2, x)  asum == V!TotalSum(2, a)
      vr == [i \in 1..2 |-> FMulP(X0inv[i], V!RowSum(2, a, i))]
      vl == [i \in 1..2 |-> FMulP(X0inv[i], V!ColSum(2, a, i))] IN
  /\ V!BSE(2, x, x0, gam0) /\ V!FullFromGchi(2, f, x, x0) /\ V!FullFromGamma(2, f, gam0, x0) /\ V!Aux(2, a, x0, gam0, ub)
  \* beta = 1, so u_r = ub: the physical susceptibility without a shell is the contracted one
  /\ V!Physical(chi, asum, 0, 0, ub)
  \* the three-leg vertex by way of the lambda vertex is the one from the auxiliary susceptibility
  /\ \A sg \in {1, P - 1} : LET lam == [i \in 1..2 |-> FMulP(sg, FSub(FMulP(X0inv[i], V!RowSum(2, x, i)), 1))] IN
       V!Lambda(2, lam, x, x0, sg) /\ V!ThreeLegFromLambda(2, vr, lam, sg, ub, chi)
  \* and rebuilds the full vertex (rows summed on the left leg, columns on the right one)
  /\ V!FullFromThreeLeg(2, f, a, x0, vr, vl, ub, ub, chi)
Emit == (Len(hist) = Depth \/ kind = "aux") => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
