------------------------------- MODULE T_Run -------------------------------
(* Conformance of whole runs of the main program (C04): the recorded steps of every rank against DgaRun, the files left behind, and the    *)
(* results against those of the run on one rank (integers: the largest entry of an array is 1e8; text files in units of the last digit).   *)
EXTENDS Conform, DgaRun, Num
If(b, name) == IF b THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in DOMAIN s}

Proto(c) ==
  LET R == 0..(c.n - 1) E == TLCEval(SetOf(c.acc)) cs == c.colls[1] In == TLCEval(SetOf(c.inputs)) IN
  If(\A r \in DOMAIN c.colls : c.colls[r] = cs, "all ranks issue the same sequence of collective operations")
  \cup If(\A i \in DOMAIN cs : Kind(cs[i]) # "none" /\ cs[i].root \in R, "every collective is one of the modelled ones")
  \cup If(Len(c.new) = 1 /\ \A e \in E : e.kind # "read" => e.path[1] = c.new[1], "nothing is written outside the run's own new folder")
  \cup (IF \E r \in DOMAIN c.colls : c.colls[r] # cs THEN {} ELSE
        If(Races(cs, R, E) = {}, "accesses of two ranks to one file are ordered by the collectives")
        \cup If(Unwritten(cs, R, E, In) = {}, "what is read or removed has been written before, in every schedule")
        \cup If(AfterRemoval(cs, R, E) = {}, "nothing is used after its removal")
        \cup If(BeforeFolder(cs, R, E) = {}, "a folder exists before anything in it is touched, in every schedule")
        \cup If(MadeTwice(E) = {}, "folders are made once"))
Files(c) ==
  If(c.files = c.one /\ c.values = c.onev, "same output files as on one rank")
  \cup If(c.rank = IF c.keep THEN c.expect ELSE <<>>, "the ranks' files are gone at the end (kept only on request)")
  \cup If(c.changed = <<>>, "inputs and earlier runs stay as they were")
NearArr(a, b, tol) == a.sh = b.sh /\ Len(a.re) = Len(b.re) /\ \A i \in DOMAIN a.re : Abs(a.re[i] - b.re[i]) <= tol /\ Abs(a.im[i] - b.im[i]) <= tol
Valid(a) == \A i \in DOMAIN a.re : Abs(a.re[i]) < 2000000000 /\ Abs(a.im[i]) < 2000000000
Same(c) == If(Valid(c.a) /\ Valid(c.b), "finite values") \cup If(NearArr(c.a, c.b, IF c.txt THEN 2 ELSE 500), "same content as on one rank")
Refuse(c) == If(c.raised, "more ranks than momenta are refused") \cup If(c.before = c.after, "a refused run leaves nothing behind")
O == INSTANCE Outputs
OutOk(c) ==
  LET got == TLCEval({c.files[i] : i \in DOMAIN c.files}) IN
  If(O!Legal(c.c), "a configuration of the model")
  \cup If(O!Expected(c.c, c.n) \subseteq got, "every result the configuration asks for is left behind")
  \cup If(got \cap O!Universe(c.n) \subseteq O!Expected(c.c, c.n), "results that were not asked for are not left behind")
Fail(c) ==
  IF c.exc # "" THEN {"the run completes on every admissible number of ranks"} ELSE
  CASE c.op = "run" -> {} [] c.op = "outputs" -> OutOk(c) [] c.op = "proto" -> Proto(c) [] c.op = "files" -> Files(c) [] c.op = "same" -> Same(c) [] c.op = "refuse" -> Refuse(c)
=============================================================================
