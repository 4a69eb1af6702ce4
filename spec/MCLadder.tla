------------------------------ MODULE MCLadder ------------------------------
(* Why the pieces of a ladder run fit together, exactly over the field of P elements (two fermionic frequencies, beta = 1):                  *)
(*  - in a problem without momentum dependence the double counting turns the lattice kernel into the local one, so Sigma = Sigma_local;     *)
(*  - the irreducible vertex recovered with the bare interaction in the shell is the one the susceptibility was made from;                  *)
(*  - lambda corrections add up, and a vanishing one changes nothing.                                                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS P, Vals
GF == 0..(P - 1)
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Mul(a, b) == (a * b) % P
InvT == [a \in 1..(P - 1) |-> CHOOSE b \in GF : (a * b) % P = 1]
Inv(a) == InvT[a]
Det(m) == Sub(Mul(m[1][1], m[2][2]), Mul(m[1][2], m[2][1]))
Inv2(m) == LET d == Inv(Det(m)) IN <<<<Mul(d, m[2][2]), Mul(d, Sub(0, m[1][2]))>>, <<Mul(d, Sub(0, m[2][1])), Mul(d, m[1][1])>>>>
Map(f(_, _)) == <<<<f(1, 1), f(1, 2)>>, <<f(2, 1), f(2, 2)>>>>
Dg(i, j, e) == IF i = j THEN e ELSE 0
MatMul(a, b) == Map(LAMBDA i, j : Add(Mul(a[i][1], b[1][j]), Mul(a[i][2], b[2][j])))
Half == Inv(2)
VARIABLES x0, gam, ur, go
vars == <<x0, gam, ur, go>>
Xi(i) == Inv(x0[i])
Full == Map(LAMBDA i, j : Add(gam[i][j], Dg(i, j, Xi(i))))                       \* x0^-1 + gam
AuxM == Map(LAMBDA i, j : Sub(Add(gam[i][j], Dg(i, j, Xi(i))), ur))              \* the same without the bare interaction
FInv == Map(LAMBDA i, j : Add(Dg(i, j, 1), Mul(gam[i][j], x0[j])))               \* 1 + gam x0
Aux == Inv2(AuxM)
A == Add(Add(Aux[1][1], Aux[1][2]), Add(Aux[2][1], Aux[2][2]))
Vrg(v) == Mul(Add(Aux[v][1], Aux[v][2]), Xi(v))
Regular == Det(Full) # 0 /\ Det(AuxM) # 0 /\ Add(1, Mul(ur, A)) # 0
Chi == Mul(A, Inv(Add(1, Mul(ur, A))))
F == MatMul(Inv2(FInv), gam)
Kern(v) == Mul(Mul(ur, Half), Sub(1, Mul(Sub(1, Mul(ur, Chi)), Vrg(v))))
\* of the magnetic channel: u = -ur, double counting -u sum f x0
Dc(v) == Mul(ur, Add(Mul(F[v][1], x0[1]), Mul(F[v][2], x0[2])))
Init == x0 \in [1..2 -> Vals \ {0}] /\ ur \in GF /\ gam = Map(LAMBDA i, j : 0) /\ go = FALSE
Next == /\ ~go /\ go' = TRUE /\ gam' \in {<<<<a, b>>, <<c, d>>>> : a \in Vals, b \in Vals, c \in Vals, d \in Vals} /\ UNCHANGED <<x0, ur>>
Spec == Init /\ [][Next]_vars
LocalLimit == (go /\ Regular) => \A v \in 1..2 : Sub(Mul(3, Kern(v)), Dc(v)) = Kern(v)
Lambda(c, l) == IF Add(1, Mul(l, c)) = 0 THEN P ELSE Mul(c, Inv(Add(1, Mul(l, c))))
LambdaAdds == (go /\ Regular) => LET c == Chi IN
  /\ Lambda(c, 0) = c
  /\ \A l1, l2 \in Vals : LET a == Lambda(c, l1) IN (a # P /\ Lambda(c, Add(l1, l2)) # P) => Lambda(a, l2) = Lambda(c, Add(l1, l2))
\* frequency 1 is the core, frequency 2 the shell
Ext(g) == Map(LAMBDA i, j : Add(IF i = 1 /\ j = 1 THEN g ELSE ur, Dg(i, j, Xi(i))))
GammaBack == go => LET g == gam[1][1] IN
  (Det(Ext(g)) # 0 /\ Det(Ext(ur)) # 0) =>
    LET x == Inv2(Ext(g))[1][1] t == Inv2(Ext(ur))[1][1] IN
    (x # 0 /\ t # 0) => Add(Sub(Inv(x), Inv(t)), ur) = g
\* the physical susceptibility is the sum over all entries of the full one
Physical == (go /\ Regular) => LET x == Inv2(Full) IN Chi = Add(Add(x[1][1], x[1][2]), Add(x[2][1], x[2][2]))
=============================================================================
