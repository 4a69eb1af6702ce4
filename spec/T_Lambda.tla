----------------------------- MODULE T_Lambda -----------------------------
(***************************************************************************)
(* Conformance of dga.lambda_correction (C13).  Each case prescribes the   *)
(* corrected inverse susceptibility as Gaussian rationals  1/chi' = z / D  *)
(* (z Gaussian integer whose inverse times L is a Gaussian integer) and    *)
(* lambda* (times 1024), the input being 1/chi = z / D - lambda*.          *)
(***************************************************************************)
EXTENDS Conform, Num, SequencesExt
If(b, name) == IF b THEN {} ELSE {name}
L == 300
\* L / z as a Gaussian integer
InvL(z) == LET q == z[1] * z[1] + z[2] * z[2] IN <<(L * z[1]) \div q, -((L * z[2]) \div q)>>
InvOk(z) == LET q == z[1] * z[1] + z[2] * z[2] IN q > 0 /\ (L * z[1]) % q = 0 /\ (L * z[2]) % q = 0
Tot(a) == FoldLeft(LAMBDA x, y : CAdd(x, y), CZero, [i \in DOMAIN a.re |-> InvL(<<a.re[i], a.im[i]>>)])
\* the prescribed data are a physical solution: all static values positive after the correction, the sum rule holds with the recorded target
Physical(a) == /\ \A i \in DOMAIN a.re : InvOk(<<a.re[i], a.im[i]>>) /\ a.re[i] > 0
               /\ Tot(a)[2] = 0
Corrected(a, out, D, S) ==   \* recorded: chi' * L * S, chi' = D / z
  out.sh = a.sh /\ \A i \in DOMAIN a.re : LET e == CScale(S * D, InvL(<<a.re[i], a.im[i]>>)) IN CNear(<<out.re[i], out.im[i]>>, e, 3 + CAbs1(e) \div 200000)
LamNear(x, s) == Near(x, s, 3)                 \* lambda * 10^6
Channel(ch, on) ==
  IF ~Physical(ch.z) THEN {"case"} ELSE
  IF on THEN If(LamNear(ch.lam, ch.star), "lambda is the physical solution of the sum rule")
             \cup If(Corrected(ch.z, ch.out, ch.D, ch.S), "corrected susceptibility: inverse plus lambda, sum rule and positivity")
        ELSE If(ch.lam = 0 /\ ch.intact, "an uncorrected channel is returned as it is with lambda zero")
Start(c) == \* -min over momenta of Re 1/chi(q, w = 0); all times 64
  LET nw == c.inv.sh[4] IN If(c.out = -(CHOOSE m \in {c.inv.re[i] : i \in DOMAIN c.inv.re} :
     /\ \E i \in DOMAIN c.inv.re : c.inv.re[i] = m /\ (i - 1) % nw = nw \div 2
     /\ \A i \in DOMAIN c.inv.re : (i - 1) % nw = nw \div 2 => c.inv.re[i] >= m), "the search starts at the pole of the static susceptibility")
Use(c) == Channel([z |-> c.z, D |-> c.D, S |-> c.S, lam |-> c.star, star |-> c.star, out |-> c.out, intact |-> TRUE], TRUE) \cup If(c.same, "operand unchanged")
Fail(c) ==
  IF c.op = "unknown" THEN If(c.exc # "" /\ SubSeq(c.exc, 1, 19) = "NotImplementedError", "unknown correction types are refused")
  ELSE IF c.exc # "" THEN {"completes without an error"}
  ELSE CASE c.op = "corr" -> Channel(c.dens, c.type = "spch") \cup Channel(c.magn, c.type # "none") \cup If(c.same, "operands unchanged")
         [] c.op = "start" -> Start(c)
         [] c.op = "use" -> Use(c)
=============================================================================
