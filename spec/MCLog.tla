------------------------------ MODULE MCLog ------------------------------
EXTENDS Log, TLC, Json, FiniteSets
CONSTANTS NR, MaxLen, MaxTick, Variant, Gen
R == 0..(NR - 1)
VARIABLES s, hist, calls, began      \* calls: what the root was asked to log since its logger was made (time, kind, id); began: when
vars == <<s, hist, calls, began>>
Acts == {[a |-> "tick", r |-> 0, x |-> d] : d \in 1..MaxTick} \cup {[a |-> "new", r |-> r, x |-> 0] : r \in R}
        \cup {[a |-> k, r |-> r, x |-> Len(hist) + 1] : k \in {"event", "msg", "mem"}, r \in {r \in R : Known(s, r)}}
\* defective variants, to be refuted
Bad(x) == CASE Variant = "none" -> Step(s, x)
  [] Variant = "allwrite" -> IF x.a = "msg" THEN [s EXCEPT !.file = Append(@, [kind |-> "msg", id |-> x.x, tot |-> -1, task |-> -1])] ELSE Step(s, x)
  [] Variant = "reset" -> IF x.a = "msg" THEN [Step(s, x) EXCEPT !.tl[x.r] = s.clock] ELSE Step(s, x)
  [] Variant = "lost" -> IF x.a = "new" THEN [Step(s, x) EXCEPT !.file = <<Heading>>] ELSE Step(s, x)
Init == s = Fresh(R) /\ hist = <<>> /\ calls = <<>> /\ began = -1
Next == /\ Len(hist) < MaxLen /\ \E x \in Acts : /\ s' = Bad(x) /\ hist' = Append(hist, x)
           /\ IF x.a = "new" /\ x.r = Root THEN calls' = <<>> /\ began' = s.clock
              ELSE IF x.a \in {"event", "msg", "mem"} /\ x.r = Root THEN calls' = Append(calls, [t |-> s.clock, kind |-> x.a, id |-> x.x]) /\ UNCHANGED began
              ELSE UNCHANGED <<calls, began>>
Spec == Init /\ [][Next]_vars
\* one line per call of the root, in order, nothing else
Faithful == IF began = -1 THEN s.file = <<>> ELSE Len(s.file) = Len(calls) + 1 /\ s.file[1] = Heading
            /\ \A i \in DOMAIN calls : s.file[i + 1].kind = calls[i].kind /\ s.file[i + 1].id = calls[i].id
Events == {i \in DOMAIN s.file : s.file[i].kind = "event"}
RECURSIVE SumTask(_)
SumTask(i) == IF i = 0 THEN 0 ELSE SumTask(i - 1) + (IF i \in Events THEN s.file[i].task ELSE 0)
\* the task times partition the total time, whatever messages come in between and whatever the other ranks do
Times == Faithful => \A i \in Events : s.file[i].tot = SumTask(i) /\ s.file[i].tot = calls[i - 1].t - began /\ s.file[i].task >= 0
Monotone == \A i, j \in Events : i < j => s.file[i].tot <= s.file[j].tot
View == <<s, calls, began, Len(hist)>>
Emit == ~Gen \/ Len(hist) < MaxLen \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
