------------------------------- MODULE MCWide -------------------------------
(* The split multiplication against exact values: all products of multiples of 2^10 whose exact result is an integer multiple, and the algebra *)
EXTENDS Wide, TLC
VARIABLE p
Vals == {s * (2 ^ k) * m : s \in {-1, 1}, k \in {0, 5, 11, 12, 13, 18, 20}, m \in {0, 1, 3, 5, 15}} \ {x \in {2 ^ 24, -(2 ^ 24)} : TRUE}
Small == {x \in Vals : Abs(x) < 16777216}
Init == p \in Small \X Small
Next == FALSE /\ UNCHANGED p
Spec == Init /\ [][Next]_p
\* exact product by repeated halving: (x * y) / 2^20 = sum over binary digits of y
RECURSIVE Digits(_, _, _)
Digits(x, y, k) == IF k < 0 THEN 0 ELSE (IF (Abs(y) \div (2 ^ k)) % 2 = 1 THEN (IF k >= 20 THEN x * (2 ^ (k - 20)) ELSE x \div (2 ^ (20 - k))) ELSE 0) + Digits(x, y, k - 1)
Exact(x, y) == IF y < 0 THEN -Digits(x, y, 23) ELSE Digits(x, y, 23)
Right == Abs(WR(p[1], p[2]) - Exact(p[1], p[2])) <= 12
Commutes == WR(p[1], p[2]) = WR(p[2], p[1])
Unit == WR(p[1], WUnit) = p[1] /\ WR(p[1], -WUnit) = -p[1]
=============================================================================
