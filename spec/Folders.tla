------------------------------ MODULE Folders ------------------------------
(* C18: names and numbering of output folders, shared by model and trace.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
FolderName(lc, nk, nq, wc, vc, vs) ==
  "LDGA_" \o lc \o "_Nk" \o ToString(nk) \o "_Nq" \o ToString(nq) \o "_wc" \o ToString(wc) \o "_vc" \o ToString(vc) \o "_vs" \o ToString(vs)
Suffixed(base, i) == IF i = 0 THEN base ELSE base \o "_" \o ToString(i)
\* a new folder `base` with suffix i may be created when names is the set of taken names
SmallestFree(base, i, names) == Suffixed(base, i) \notin names /\ \A j \in 0..(i - 1) : Suffixed(base, j) \in names
SubFolders(poly) == {"Plots", "Eliashberg", "Optics"} \cup IF poly THEN {"PolyFits"} ELSE {}
=============================================================================
