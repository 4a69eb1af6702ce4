------------------------------ MODULE T_Log ------------------------------
(* Conformance of the run log and the stop watch (C28).                     *)
EXTENDS Conform, Log, SequencesExt
If(b, name) == IF b THEN {} ELSE {name}
LogOk(c) == LET
    s == FoldLeft(LAMBDA st, x : Step(st, x), Fresh(0..(c.nr - 1)), c.acts)
    n == Len(s.file)
    L == c.lines
    same == Len(L) = n /\ \A i \in 1..n : L[i].kind = s.file[i].kind /\ L[i].id = s.file[i].id
    ev == {i \in 1..n : s.file[i].kind = "event"}
    me == {i \in 1..n : s.file[i].kind = "mem"}
    Bytes(i) == LET k == CHOOSE k \in DOMAIN c.sizes : c.sizes[k].id = i IN c.sizes[k].bytes
  IN If(same, "one line per call on the root rank, in order, and nothing else")
     \cup If(c.others = <<>>, "no other file is written")
     \cup (IF same THEN If(\A i \in ev : Rounded(L[i].tot, s.file[i].tot), "total time since the logger was made")
                        \cup If(\A i \in ev : Rounded(L[i].task, s.file[i].task), "task time since the last timed event")
                        \cup If(\A i \in me : (1000 * L[i].nano) - Bytes(L[i].id) \in -501..501, "memory of the array")
                        \cup If(\A i \in 2..n : L[i].loc, "every line starts with the time of day") ELSE {})
RECURSIVE Walk(_, _, _, _)
\* expected outputs of the stop watch: state [clock, last], list of [kind, t]
Walk(i, acts, st, o) == IF i > Len(acts) THEN o ELSE LET k == acts[i].k IN
  IF k = "tick" THEN Walk(i + 1, acts, [st EXCEPT !.clock = @ + acts[i].x], o)
  ELSE IF k = "other" THEN Walk(i + 1, acts, st, o)
  ELSE IF k = "total" THEN Walk(i + 1, acts, st, Append(o, [kind |-> k, t |-> st.clock]))
  ELSE Walk(i + 1, acts, [st EXCEPT !.w = Measure(st.w, st.clock, k)], Append(o, [kind |-> k, t |-> st.clock - st.w.last]))
WatchOk(c) == LET o == Walk(1, c.acts, [clock |-> 0, w |-> Watch(0)], <<>>) IN
  If(Len(o) = Len(c.outs) /\ \A i \in DOMAIN o : o[i].kind = c.outs[i].kind /\ IF o[i].kind \in {"task", "total"} THEN Rounded(c.outs[i].t, o[i].t) ELSE c.outs[i].t = o[i].t, "time since the last measurement, total since the start")
  \cup If(\A i \in DOMAIN c.outs : c.outs[i].name, "the name of the task is reported")
  \cup If(c.file, "times are appended to the file by rank 0 only")
Fail(c) == IF c.exc # "" THEN {"completes without an error"} ELSE CASE c.op = "log" -> LogOk(c) [] c.op = "watch" -> WatchOk(c)
=============================================================================
