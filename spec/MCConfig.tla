------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* C17 design: reading the file, adding the ranges of the DMFT data and    *)
(* resolving the optics ranges, as the stages a run goes through, for all  *)
(* combinations of given and defaulted entries.                            *)
(***************************************************************************)
EXTENDS Config, TLC, Json
CONSTANT M
VARIABLES ask, data, opt, box, optr, stage
vars == <<ask, data, opt, box, optr, stage>>
R == (1..M) \cup {-1}
Init == /\ ask \in [w : R, v : R, s : {0, 2}, a : {-1, 1, 9}] /\ data \in [W : 1..M, V : 1..M]
        /\ opt \in [w : {-1, 1, M}, c : {-1, 0, 1, M}, b : {-1, 4}, v : {-1}, n : {-1, 2}]
        /\ box = Read(ask) /\ optr = opt /\ stage = "read"
Load == stage = "read" /\ (IF BoxRejected(box, data) THEN stage' = "rejected" /\ UNCHANGED box ELSE stage' = "box" /\ box' = WithData(box, data)) /\ UNCHANGED <<ask, data, opt, optr>>
Again == stage = "box" /\ box' = WithData(box, data) /\ UNCHANGED <<ask, data, opt, optr, stage>>
Opt == stage = "box" /\ (IF OptRejected(opt, box) THEN stage' = "rejected" /\ UNCHANGED <<box, optr>> ELSE stage' = "done" /\ optr' = OptResolved(opt, box) /\ box' = BoxAfterOptics(opt, box)) /\ UNCHANGED <<ask, data, opt>>
Next == Load \/ Again \/ Opt
Spec == Init /\ [][Next]_vars
\* given values are kept
Kept == stage \in {"box", "done"} => /\ (ask.w # None => box.w = ask.w) /\ (ask.v # None => box.v = ask.v) /\ box.s = ask.s
                                     /\ (ask.a # None /\ stage = "box" => box.a = ask.a) /\ (ask.a # None => box.a >= ask.a)
Consistent == stage \in {"box", "done"} => box.w \in 1..data.W /\ box.v \in 1..data.V /\ box.a > 0 /\ (ask.a = None => box.a >= box.v + box.s + 2 * box.w)
\* rejected exactly when something asks for more than there is
RejectedOk == (stage = "rejected") => \/ ask.w > data.W \/ ask.v > data.V
                                      \/ opt.w > WithData(Read(ask), data).w \/ opt.c >= WithData(Read(ask), data).v
AcceptedOk == (stage = "done") => ask.w <= data.W /\ ask.v <= data.V /\ opt.w <= box.w /\ opt.c < box.v
OptKept == stage = "done" => (opt.w # None => optr.w = opt.w) /\ (opt.c # None => optr.c = opt.c) /\ (opt.b # None => optr.b = opt.b) /\ (opt.n # None => optr.n = opt.n)
OptConsistent == stage = "done" => optr.w \in 1..box.w /\ optr.c \in 0..(box.v - 1) /\ optr.v \in 1..box.v /\ optr.v + optr.c = box.v /\ optr.b + optr.n <= box.a
\* reading twice or adding the data twice changes nothing
Idempotent == stage = "box" => WithData(box, data) = box /\ Read(box) = box
Emit == stage \in {"done", "rejected"} => PrintT(<<"BEH", ToJson([ask |-> ask, data |-> data, opt |-> opt])>>)
=============================================================================
