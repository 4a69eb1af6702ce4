---------------------------- MODULE MCRankFiles ----------------------------
(***************************************************************************)
(* C03 design: P ranks own contiguous blocks of NQ momenta.  For each      *)
(* channel in turn a rank writes, in its own file, one group per momentum  *)
(* and bosonic frequency of each kind; group names are strings in which    *)
(* the sign of the frequency is a character.  When every rank is done the  *)
(* root reads all files.  A slice is modelled by the set of entries        *)
(* (channel, q, w, v, v') it holds.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Partition, TLC
CONSTANTS NQ, P, NW, NV
Kinds == {"pv", "f", "fq"}
Chans == <<"dens", "magn">>
Ranks == 0..(P - 1)
NPP == IF NW \div 2 < NV \div 2 THEN NW \div 2 ELSE NV \div 2
WS(kind) == IF kind = "pv" THEN {w \in (-NW)..NW : w < 2 * NPP /\ -w < 2 * NPP} ELSE (-NW)..NW
VS == (-NV)..(NV - 1)
PPV == (-NPP)..(NPP - 1)
\* name of a group: kind, digits of q, characters of the frequency
Abs2(x) == IF x < 0 THEN -x ELSE x
Group(kind, q, w) == <<kind, q, IF w < 0 THEN "-" ELSE "+", Abs2(w)>>
ParseW(g) == IF g[3] = "-" THEN -g[4] ELSE g[4]
Slice(kind, ch, q, w) ==
  CASE kind = "fq" -> {<<ch, q, w, v, vp>> : v \in VS, vp \in VS}
    [] kind = "pv" -> {<<ch, q, w, v, -(v - w) - 1>> : v \in {x \in PPV : x - w \in PPV}}
    [] kind = "f"  -> {<<ch, q, w, v, v - wc>> : v \in (-(NV - 1))..(NV - 2), wc \in {0, 1}}
VARIABLES files,   \* files[r]: group -> channel -> slice
          prog,    \* prog[r]: number of (channel, momentum) writes done
          out      \* assembled entries after loading, <<>> before
vars == <<files, prog, out>>
Mine(r) == Block(NQ, P, r)
Todo(r) == 2 * Len(Mine(r))
Init == files = [r \in Ranks |-> <<>>] /\ prog = [r \in Ranks |-> 0] /\ out = <<>>
Write(r) == /\ prog[r] < Todo(r)
            /\ LET n == Len(Mine(r))
                   ch == Chans[(prog[r] \div n) + 1]
                   q == Mine(r)[(prog[r] % n) + 1]
                   new == [g \in {Group(k, q, w) : k \in Kinds, w \in (-NW)..NW} \cap UNION {{Group(k, q, w) : w \in WS(k)} : k \in Kinds} |->
                             LET old == IF g \in DOMAIN files[r] THEN files[r][g] ELSE <<>>
                             IN [c \in DOMAIN old \cup {ch} |-> IF c = ch THEN Slice(g[1], ch, g[2], ParseW(g)) ELSE old[c]]]
               IN files' = [files EXCEPT ![r] = [g \in DOMAIN files[r] \cup DOMAIN new |-> IF g \in DOMAIN new THEN new[g] ELSE files[r][g]]]
            /\ prog' = [prog EXCEPT ![r] = @ + 1]
            /\ UNCHANGED out
Done == \A r \in Ranks : prog[r] = Todo(r)
\* what the loader puts at each (kind, channel, q, w): the union over the files (a group occurs in one file only)
Load == /\ Done /\ out = <<>>
        /\ out' = [i \in {<<k, ch, q, w>> : k \in Kinds, ch \in {"dens", "magn"}, q \in 0..(NQ - 1), w \in (-NW)..NW} |->
                     UNION {LET F == files[r] IN UNION {F[g][i[2]] : g \in {h \in DOMAIN F : h[1] = i[1] /\ h[2] = i[3] /\ ParseW(h) = i[4]}} : r \in Ranks}]
        /\ UNCHANGED <<files, prog>>
Next == (\E r \in Ranks : Write(r)) \/ Load
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* no momentum is written by two ranks
Disjoint == \A r, s \in Ranks : r # s => DOMAIN files[r] \cap DOMAIN files[s] = {}
\* every slice arrives where it belongs; none outside the frequency window
Assembled == out # <<>> => \A i \in DOMAIN out :
   out[i] = IF i[4] \in WS(i[1]) THEN Slice(i[1], i[2], i[3], i[4]) ELSE {}
\* the pairing slices of all frequencies cover each pair of pp frequencies exactly once
PPCover == out # <<>> => \A q \in 0..(NQ - 1), v \in PPV, vp \in PPV :
   Cardinality({w \in (-NW)..NW : <<"dens", q, w, v, -vp - 1>> \in out[<<"pv", "dens", q, w>>]}) = 1
Finishes == <>(out # <<>>)
=============================================================================
