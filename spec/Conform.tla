----------------------------- MODULE Conform -----------------------------
(***************************************************************************)
(* Conformance driver: one recorded execution (case) of the implementation *)
(* per line of the file named by the environment variable TRACE.  A module *)
(* that instantiates this one supplies Failures(c), the set of names of    *)
(* clauses of the specification that case c breaks (total: {} = conforms). *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
CONSTANT Failures(_)

Cases == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 8

VARIABLE at
vars == <<at>>
Init == at \in (-Lanes)..(-1)
Next == /\ at < 0
        /\ \E j \in {j \in 1..Len(Cases) : j % Lanes = (-at) - 1} : at' = j
Spec == Init /\ [][Next]_vars
\* every case conforms; the broken clauses of one that does not are printed
Conforms == at > 0 => LET f == Failures(Cases[at]) IN f = {} \/ ~PrintT("BAD " \o ToString(at) \o " " \o ToJson(f))
=============================================================================
