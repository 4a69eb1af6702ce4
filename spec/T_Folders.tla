----------------------------- MODULE T_Folders -----------------------------
(* Conformance of the output folder handling (C18).                         *)
EXTENDS Conform, Folders
If(b, name) == IF b THEN {} ELSE {name}
NameOf(r) == FolderName(r.lc, r.nk, r.nq, r.wc, r.vc, r.vs)
RangeS(s) == {s[i] : i \in DOMAIN s}
\* c.old: names present before; c.dirs: successful creations in order, <<run, path>>; c.runs: the runs with their ranks
\* names taken before event i
Taken(c, i) == RangeS(c.old) \cup {c.dirs[j].path : j \in 1..(i - 1)}
\* directories directly below the input folder
Tops(c) == {i \in DOMAIN c.dirs : c.dirs[i].top}
Runs(c) ==
  If(\A r \in DOMAIN c.runs : \A k \in DOMAIN c.runs[r].ranks : c.runs[r].ranks[k].exc = "", "every rank completes")
  \cup (IF \E r \in DOMAIN c.runs : \E k \in DOMAIN c.runs[r].ranks : c.runs[r].ranks[k].exc # "" THEN {} ELSE
    If(\A r \in DOMAIN c.runs : \A k \in DOMAIN c.runs[r].ranks : c.runs[r].ranks[k].out = c.runs[r].ranks[1].out /\ c.runs[r].ranks[k].el = c.runs[r].ranks[1].el /\ c.runs[r].ranks[k].op = c.runs[r].ranks[1].op
          /\ (c.runs[r].poly => c.runs[r].ranks[k].pf = c.runs[r].ranks[1].pf), "all ranks agree on the folders")
    \cup If(\A r, s \in DOMAIN c.runs : r # s => c.runs[r].ranks[1].out # c.runs[s].ranks[1].out, "two runs never share a folder")
    \cup If(\A r \in DOMAIN c.runs : c.runs[r].ranks[1].out \notin RangeS(c.old), "the folder is new")
    \cup If(\A r \in DOMAIN c.runs : \E i \in Tops(c) : c.dirs[i].run = r /\ c.dirs[i].path = c.runs[r].ranks[1].out
             /\ \E x \in 0..20 : c.dirs[i].path = Suffixed(NameOf(c.runs[r]), x) /\ SmallestFree(NameOf(c.runs[r]), x, Taken(c, i)), "named after the parameters with the smallest free suffix")
    \cup If(\A i \in Tops(c) : c.dirs[i].path = c.runs[c.dirs[i].run].ranks[1].out, "no other folder is created")
    \cup If(\A r \in DOMAIN c.runs : \A k \in DOMAIN c.runs[r].ranks : RangeS(c.runs[r].ranks[k].seen) = SubFolders(c.runs[r].poly), "every rank finds all sub-folders when it goes on")
    \cup If(\A r \in DOMAIN c.runs : \A k \in DOMAIN c.runs[r].ranks : LET q == c.runs[r].ranks[k] IN q.el = q.out \o "/Eliashberg" /\ q.op = q.out \o "/Optics" /\ (c.runs[r].poly => q.pf = q.out \o "/PolyFits") /\ (k = 1 => q.pd = q.out \o "/Plots"), "sub-folders lie in the run's folder")
    \cup If(\A r \in DOMAIN c.runs : c.runs[r].log, "log file lies in the run's folder"))
  \cup If(c.kept, "earlier folders are unchanged")
Uniq(c) == If(c.got = Suffixed(c.base, c.want), "smallest free suffix of the folder name") \cup If(c.kept, "earlier folders are unchanged")
Data(c) == If(c.loaded, "saved data is loaded back") \cup If(c.files = c.wantfiles, "data files lie in the output folder") \cup If(c.clean, "cleaning removes exactly the named data")
Fail(c) ==
  IF c.exc # "" THEN {"completes without an error"} ELSE
  CASE c.op = "runs" -> Runs(c) [] c.op = "uniq" -> Uniq(c) [] c.op = "data" -> Data(c)
=============================================================================
