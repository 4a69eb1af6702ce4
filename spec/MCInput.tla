------------------------------- MODULE MCInput -------------------------------
(* Loading, cutting, symmetrizing, storing the result and loading it again in a later run. *)
EXTENDS Input, TLC, Json
CONSTANTS WMax, VMax, Runs
VARIABLES stage, box0, box, reqs, anysym, content, lost
vars == <<stage, box0, box, reqs, anysym, content, lost>>
\* content: position (0-based indices in the current box) -> weights of the originally stored entries, in units of 2^-Runs
Pos(b) == (0..(2 * b.W)) \X (0..(2 * b.V - 1)) \X (0..(2 * b.V - 1))
NameAt(b, p) == <<p[1] - b.W, 2 * (p[2] - b.V) + 1, 2 * (p[3] - b.V) + 1>>
Unit(e) == (e :> 1)
Init == \E W \in 0..WMax, V \in 1..VMax : LET b == [W |-> W, V |-> V] IN
  stage = "loaded" /\ box0 = b /\ box = b /\ reqs = <<>> /\ anysym = FALSE /\ lost = FALSE /\ content = [p \in Pos(b) |-> Unit(NameAt(b, p))]
Requests == [w : {None} \cup 0..(WMax + 1), v : {None} \cup 1..(VMax + 1), sym : BOOLEAN]
Ask == stage = "loaded" /\ Len(reqs) < Runs /\ \E r \in Requests :
  /\ (Len(reqs) >= 1 => r.w \in {None, 0} /\ r.v \in {None, 1, VMax + 1})
  /\ reqs' = Append(reqs, r)
  /\ stage' = IF Rejected(box, r) THEN "rejected" ELSE "cut_v"
  /\ UNCHANGED <<box0, box, anysym, content, lost>>
Req == reqs[Len(reqs)]
CutV == stage = "cut_v" /\ LET n == After(box, [Req EXCEPT !.w = None]) d == box.V - n.V IN
  stage' = "cut_w" /\ box' = n /\ content' = [p \in Pos(n) |-> content[<<p[1], p[2] + d, p[3] + d>>]] /\ UNCHANGED <<box0, reqs, anysym, lost>>
CutW == stage = "cut_w" /\ LET n == After(box, [Req EXCEPT !.v = None]) d == box.W - n.W IN
  stage' = "sym" /\ box' = n /\ content' = [p \in Pos(n) |-> content[<<p[1] + d, p[2], p[3]>>]] /\ UNCHANGED <<box0, reqs, anysym, lost>>
Add(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in DOMAIN g THEN g[x] ELSE 0)]
Twice(f) == [x \in DOMAIN f |-> 2 * f[x]]
Sym == stage = "sym" /\ stage' = "done" /\ anysym' = (anysym \/ Req.sym)
  /\ content' = [p \in DOMAIN content |-> IF Req.sym THEN Add(content[p], content[<<p[1], p[3], p[2]>>]) ELSE Twice(content[p])] /\ UNCHANGED <<box0, box, reqs, lost>>
Save == stage = "done" /\ stage' = "loaded" /\ Len(reqs) < Runs /\ UNCHANGED <<box0, box, reqs, anysym, content, lost>>
Next == Ask \/ CutV \/ CutW \/ Sym \/ Save
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
\* every entry is the stored one at the same frequencies, or the average with exactly its transpose
Same == stage = "done" => \A p \in Pos(box) : DOMAIN content[p] = Sources(NameAt(box, p), anysym)
   /\ (\A x, y \in DOMAIN content[p] : content[p][x] = content[p][y]) /\ Total(content[p], DOMAIN content[p]) = 2 ^ Len(reqs)
Symmetric == stage = "done" /\ anysym => \A p \in Pos(box) : content[p] = content[<<p[1], p[3], p[2]>>]
Fits == box.W <= box0.W /\ box.V <= box0.V /\ (stage = "done" => DOMAIN content = Pos(box) /\ \A r \in {Req} : (r.w # None => box.W = r.w) /\ (r.v # None => box.V = r.v))
Full == stage = "done" => {NameAt(box, p) : p \in Pos(box)} = Box(box.W, box.V)
Emit == (stage = "rejected" \/ (stage = "done" /\ Len(reqs) = Runs)) => PrintT(<<"BEH", ToJson([W |-> box0.W, V |-> box0.V, reqs |-> reqs])>>)
=============================================================================
