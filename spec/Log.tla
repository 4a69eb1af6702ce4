------------------------------- MODULE Log -------------------------------
(***************************************************************************)
(* C28: the log of a run as a state machine over any number of ranks.      *)
(* Each rank has a logger with its own two clocks (start and last timed    *)
(* event); only the root touches the file.  Times are quarter seconds.     *)
(*   state: [clock, on, ts, tl, file]                                      *)
(*   line:  [kind, id, tot, task]   (tot, task: -1 where not reported)     *)
(***************************************************************************)
EXTENDS Integers, Sequences
Root == 0
Heading == [kind |-> "head", id |-> 0, tot |-> -1, task |-> -1]
Fresh(R) == [clock |-> 0, on |-> FALSE, ts |-> [r \in R |-> -1], tl |-> [r \in R |-> -1], file |-> <<>>]
\* an action: [a |-> kind, r |-> rank, x |-> ticks / identity of the message]
Tick(s, d) == [s EXCEPT !.clock = @ + d]
New(s, r) == [s EXCEPT !.ts[r] = s.clock, !.tl[r] = s.clock, !.on = IF r = Root THEN TRUE ELSE @, !.file = IF r = Root THEN <<Heading>> ELSE @]
Event(s, r, i) == IF r # Root THEN s ELSE
  [s EXCEPT !.file = Append(@, [kind |-> "event", id |-> i, tot |-> s.clock - s.ts[r], task |-> s.clock - s.tl[r]]), !.tl[r] = s.clock]
Plain(s, r, i, k) == IF r # Root THEN s ELSE [s EXCEPT !.file = Append(@, [kind |-> k, id |-> i, tot |-> -1, task |-> -1])]
Step(s, x) == CASE x.a = "tick" -> Tick(s, x.x) [] x.a = "new" -> New(s, x.r) [] x.a = "event" -> Event(s, x.r, x.x)
                [] x.a = "msg" -> Plain(s, x.r, x.x, "msg") [] x.a = "mem" -> Plain(s, x.r, x.x, "mem")
Known(s, r) == s.ts[r] # -1
\* whole seconds reported for q quarter seconds (either neighbour in the middle)
Rounded(sec, q) == (4 * sec) - q \in -2..2
(* The stop watch on its own: [start, last, out]; every measurement reports the time since the previous one *)
Watch(c) == [start |-> c, last |-> c, out |-> <<>>]
Measure(w, c, kind) == [w EXCEPT !.last = c, !.out = Append(@, [kind |-> kind, t |-> c - w.last])]
=============================================================================
