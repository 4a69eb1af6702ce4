----------------------------- MODULE MCDgaRun -----------------------------
(***************************************************************************)
(* The schedule of the ladder run on N ranks with its files, every          *)
(* interleaving.  The program below is the order of synchronising steps and *)
(* file accesses of one run; Drop removes steps from it (to show which ones *)
(* the safety of the rank files rests on), Feat selects the features.       *)
(***************************************************************************)
EXTENDS DgaRun, TLC
CONSTANTS N, Feats, Drops

Ranks == 0..(N - 1)
C(name) == [t |-> "coll", name |-> name, root |-> 0]
A(kind, who, file) == [t |-> "acc", kind |-> kind, who |-> who, file |-> file]
If(b, s) == IF b THEN s ELSE <<>>
\* files: "out" the output folder, "sub" its sub-folders, "own" the rank's own file, "rk" every rank's file, "res" the root's result files
Full(feat) ==
  <<C("bcast"), C("barrier"), A("mkdir", "root", "out"), C("bcast"), A("mkdir", "root", "plots")>>
  \o If("poly" \in feat, <<A("mkdir", "root", "poly"), C("bcast")>>)
  \o <<A("mkdir", "root", "eliash"), C("bcast"), A("mkdir", "root", "optics"), C("bcast"), C("barrier"),
       A("write", "root", "res"), C("barrier"), A("write", "root", "res"), C("barrier"),
       A("write", "all", "own"), C("barrier")>>
  \o If("vertex" \in feat, <<A("write", "all", "own"), A("write", "all", "own")>>)
  \o <<C("gather"), C("gather"), A("write", "root", "res"), C("barrier")>>
  \o If("vertex" \in feat, <<A("read", "root", "rk"), A("write", "root", "res")>>)
  \o <<C("gather"), C("gather"), C("barrier"), C("bcast"), C("scatter"), C("gather"), C("bcast"), C("scatter"), C("allreduce"),
       A("write", "root", "res")>>
  \o If("keep" \notin feat, <<A("del", "all", "own")>>)
  \o <<A("write", "root", "res")>>
  \o If("cond" \in feat, <<A("read", "root", "res"), C("bcast"), C("scatter"), C("allreduce"), A("write", "root", "res")>>)
  \o <<C("barrier")>>
Without(p, drop) == IF drop = {} THEN p ELSE FoldLeft(LAMBDA s, i : IF i \in drop THEN s ELSE Append(s, p[i]), <<>>, [i \in 1..Len(p) |-> i])

VARIABLES prog, pc, inside, hist, keep
vars == <<prog, pc, inside, hist, keep>>
\* hist: accesses made so far; inside[r]: rank r has entered the collective at pc[r]

Mine(r, s) == s.who = "all" \/ r = 0
Paths(r, s) == CASE s.file = "own" -> {<<"rank", r>>} [] s.file = "rk" -> {<<"rank", q>> : q \in Ranks} [] OTHER -> {<<s.file, 0>>}
\* folders are created in the output folder, all files lie in it
Dir(path) == IF path = <<"out", 0>> THEN <<"top", 0>> ELSE <<"out", 0>>

Init == \E feat \in Feats : \E drop \in Drops :
          /\ prog = Without(Full(feat), drop) /\ keep = ("keep" \in feat)
          /\ pc = [r \in Ranks |-> 1] /\ inside = [r \in Ranks |-> FALSE] /\ hist = {}

CollsBefore(k) == Cardinality({i \in 1..(k - 1) : prog[i].t = "coll"})
Step(r) == prog[pc[r]]
Access(r) ==
  /\ pc[r] <= Len(prog) /\ Step(r).t = "acc"
  /\ hist' = IF Mine(r, Step(r))
             THEN hist \cup {[rank |-> r, at |-> CollsBefore(pc[r]), no |-> pc[r], kind |-> Step(r).kind, path |-> p, dir |-> Dir(p)] : p \in Paths(r, Step(r))}
             ELSE hist
  /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<prog, inside, keep>>
Enter(r) ==
  /\ pc[r] <= Len(prog) /\ Step(r).t = "coll" /\ ~inside[r]
  /\ inside' = [inside EXCEPT ![r] = TRUE] /\ UNCHANGED <<prog, pc, hist, keep>>
Entered(q, k) == pc[q] > k \/ (pc[q] = k /\ inside[q])
Leave(r) ==
  /\ pc[r] <= Len(prog) /\ inside[r]
  /\ \A q \in WaitsFor(Step(r), r, Ranks) : Entered(q, pc[r])
  /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ inside' = [inside EXCEPT ![r] = FALSE] /\ UNCHANGED <<prog, hist, keep>>
Done == \A r \in Ranks : pc[r] > Len(prog)
Next == (\E r \in Ranks : Access(r) \/ Enter(r) \/ Leave(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Colls == LET s == SelectSeq(prog, LAMBDA x : x.t = "coll") IN s
\* ------------------------------------------------------------------ invariants (the file system is what hist left behind)
\* the last change of a path in the order of execution is not recorded in a set, hence the guards look at what is possible now
RootReads(r) == pc[0] <= Len(prog) /\ Step(0).t = "acc" /\ Step(0).kind = "read" /\ Step(0).file = "rk"
\* when the root starts to read the rank files, every rank has written all its parts and none has been removed
WritesOf(r) == {i \in 1..Len(prog) : prog[i].t = "acc" /\ prog[i].file = "own" /\ prog[i].kind = "write"}
DelsOf(r) == {i \in 1..Len(prog) : prog[i].t = "acc" /\ prog[i].file = "own" /\ prog[i].kind = "del"}
ReadComplete == RootReads(0) => \A r \in Ranks : (\A i \in WritesOf(r) : i < pc[0] => pc[r] > i) /\ (\A i \in DelsOf(r) : pc[r] <= i)
\* nothing is accessed in a folder that does not exist yet
FolderFirst == \A e \in hist : e.path # <<"out", 0>> => \E m \in hist : m.kind = "mkdir" /\ m.path = e.dir
Clean == Done => \A r \in Ranks : LET mine == {e \in hist : e.path = <<"rank", r>>} IN
           mine # {} => (keep \/ \E d \in mine : d.kind = "del" /\ \A e \in mine : e.rank = r => e.no <= d.no)
\* the rules evaluated on recorded runs agree with the interleavings explored here
NoRace == Done => /\ Races(Colls, Ranks, hist) = {} /\ Unwritten(Colls, Ranks, hist, {}) = {} /\ AfterRemoval(Colls, Ranks, hist) = {}
                  /\ BeforeFolder(Colls, Ranks, hist) = {} /\ MadeTwice(hist) = {}
Progress == <>Done
QFeats == {{}, {"vertex"}, {"vertex", "poly", "cond"}, {"keep", "vertex"}}
AllFeats == SUBSET {"vertex", "poly", "cond", "keep"}
NoDrop == {{}}
\* without any synchronisation after the rank files are created / without the synchronisation of the folders the guarantees fail
VFeats == {{"vertex"}}
PV == Full({"vertex"})
FirstOwn == CHOOSE i \in 1..Len(PV) : PV[i].t = "acc" /\ PV[i].file = "own" /\ \A j \in 1..(i - 1) : PV[j].t = "coll" \/ PV[j].file # "own"
FirstRead == CHOOSE i \in 1..Len(PV) : PV[i].t = "acc" /\ PV[i].file = "rk"
DropFiles == {{i \in FirstOwn..FirstRead : PV[i].t = "coll"}}
DropFolder == {{i \in 1..FirstOwn : PV[i].t = "coll"}}
=============================================================================
