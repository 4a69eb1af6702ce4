------------------------------ MODULE MCPade ------------------------------
(* Inverse differences column by column over the field of P elements; the machine stops when a division is not defined. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, N
GF == 0..(P - 1)
FAdd(a, b) == (a + b) % P
FSub(a, b) == (a - b) % P
FMul(a, b) == (a * b) % P
Pd == INSTANCE Pade WITH Add <- FAdd, Sub <- FSub, Mul <- FMul, Zero <- 0, One <- 1
Inv(a) == CHOOSE b \in GF : (a * b) % P = 1
Order(s) == [i \in 1..N |-> (s * i) % P]                      \* N distinct points in different orders
VARIABLES z, u, col, g, a, state
vars == <<z, u, col, g, a, state>>
Init == /\ \E s \in 1..(P - 1) : z = Order(s)
        /\ u \in [1..N -> GF] /\ col = 1 /\ g = u /\ a = <<u[1]>> /\ state = "run"
\* column col + 1 : g_i' = (g_col - g_i) / ((z_i - z_col) g_i) for i > col
Step == /\ state = "run" /\ col < N
        /\ IF \E i \in (col + 1)..N : g[i] = 0 THEN state' = "undefined" /\ UNCHANGED <<col, g, a>>
           ELSE LET h == [i \in 1..N |-> IF i <= col THEN g[i] ELSE FMul(FSub(g[col], g[i]), Inv(FMul(FSub(z[i], z[col]), g[i])))] IN
                g' = h /\ col' = col + 1 /\ a' = Append(a, h[col + 1]) /\ state' = IF col + 1 = N THEN "done" ELSE "run"
        /\ UNCHANGED <<z, u>>
Next == Step
Spec == Init /\ [][Next]_vars
\* the fraction after n coefficients goes through the first n points
Interpolates == \A i \in 1..Len(a) : Pd!Num(a, z, z[i]) = FMul(u[i], Pd!Den(a, z, z[i]))
\* and it is the rational function the data came from, at every point of the plane (numerator degree (N-1)/2, monic denominator of degree N/2)
Nums == [1..(((N - 1) \div 2) + 1) -> GF]
Dens == {Append(d, 1) : d \in [1..(N \div 2) -> GF]}
Reproduces == state = "done" => \A p \in Nums, d \in Dens :
   (\A i \in 1..N : Pd!Poly(d, z[i], 1) # 0 /\ FMul(u[i], Pd!Poly(d, z[i], 1)) = Pd!Poly(p, z[i], 1)) =>
   \A x \in GF : FMul(Pd!Num(a, z, x), Pd!Poly(d, x, 1)) = FMul(Pd!Poly(p, x, 1), Pd!Den(a, z, x))
=============================================================================
