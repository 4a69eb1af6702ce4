-------------------------- MODULE BrillouinReduce --------------------------
(* C05 on the design: any sequence of symmetries applied to any small mesh. *)
EXTENDS Brillouin, TLC
CONSTANTS Meshes, MaxSyms
VARIABLES nk, lab, applied
bvars == <<nk, lab, applied>>
Init == nk \in Meshes /\ lab = [j \in 1..NTot(nk) |-> j - 1] /\ applied = <<>>
Apply(s) == /\ Len(applied) < MaxSyms
            /\ lab' = ApplySym(nk, lab, s) /\ applied' = Append(applied, s) /\ UNCHANGED nk
Next == \E s \in SymNames : Apply(s)
Spec == Init /\ [][Next]_bvars

\* points are merged only if the applied symmetries relate them
Sound == \A j \in DOMAIN lab : lab[j] \in Orbit(nk, applied, j - 1)
\* the representative taken from a class (first member) belongs to it
RepInClass == \A j \in DOMAIN lab : LET r == FirstWith(lab, lab[j]) IN lab[r + 1] = lab[j]
\* the named sets merge everything they can
Complete == \A name \in CompleteSets : applied = NamedSets[name] =>
   \A i, j \in DOMAIN lab : (j - 1) \in Orbit(nk, applied, i - 1) => lab[i] = lab[j]
=============================================================================
