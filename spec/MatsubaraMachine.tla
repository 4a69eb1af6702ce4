------------------------- MODULE MatsubaraMachine -------------------------
(***************************************************************************)
(* C07: histories of window operations on one object F(w, v) that has the  *)
(* physical symmetry F(-w,-v-1) = conj F(w,v).                             *)
(* The actions are written on stored positions, as the implementation      *)
(* does; the invariant says that whatever the history, the entry stored    *)
(* for (w, v) is F(w, v).                                                  *)
(***************************************************************************)
EXTENDS Matsubara, TLC, Json
CONSTANTS NW, NV, Depth

VARIABLES waxis, vaxis, full, data, hist
mvars == <<waxis, vaxis, full, data, hist>>
\* data: rows over w positions, each a sequence over v positions

K == <<"w", "v">>
Fsym(w, v) == SymLab(K, <<w, v>>)
Rows(wa, va) == [i \in 1..Len(wa) |-> [j \in 1..Len(va) |-> Fsym(wa[i], va[j])]]

MInit == /\ waxis = WAx(NW) /\ vaxis = VAx(NV) /\ full = TRUE
         /\ data = Rows(waxis, vaxis) /\ hist = <<>>

Log(op, n) == hist' = Append(hist, [o |-> op, n |-> n])
CutV(n) == LET h == HalfLen(vaxis) IN
  /\ n >= 1 /\ n <= h
  /\ data' = [i \in DOMAIN data |-> SubSeq(data[i], h - n + 1, h + n)]
  /\ vaxis' = VAx(n) /\ UNCHANGED <<waxis, full>> /\ Log("cutv", n)
CutW(n) == LET h == HalfLen(waxis) IN
  /\ full /\ n <= h
  /\ data' = SubSeq(data, h - n + 1, h + n + 1)
  /\ waxis' = WAx(n) /\ UNCHANGED <<vaxis, full>> /\ Log("cutw", n)
ClipW == LET h == HalfLen(waxis) IN
  /\ full
  /\ data' = SubSeq(data, h + 1, Len(data))
  /\ waxis' = WHalfAx(h) /\ full' = FALSE /\ UNCHANGED vaxis /\ Log("half", 0)
ExtendW == LET h == Len(waxis) - 1 IN
  /\ ~full
  /\ data' = [i \in 1..h |-> [j \in 1..Len(vaxis) |-> CConj(data[h + 2 - i][Len(vaxis) + 1 - j])]] \o data
  /\ waxis' = WAx(h) /\ full' = TRUE /\ UNCHANGED vaxis /\ Log("full", 0)
\* split into core and shell and concatenate again
SplitJoin(n) == LET h == HalfLen(vaxis) IN
  /\ n >= 1 /\ n < h
  /\ data' = [i \in DOMAIN data |-> SubSeq(data[i], 1, h - n) \o SubSeq(data[i], h - n + 1, h + n) \o SubSeq(data[i], h + n + 1, 2 * h)]
  /\ UNCHANGED <<waxis, vaxis, full>> /\ Log("splitjoin", n)
\* at a centred object only: positive half in v at w = 0 determines the rest
MNext == /\ Len(hist) < Depth
         /\ \/ \E n \in 1..NV : CutV(n) \/ SplitJoin(n)
            \/ \E n \in 0..NW : CutW(n)
            \/ ClipW \/ ExtendW
MSpec == MInit /\ [][MNext]_mvars

Provenance == /\ Len(data) = Len(waxis)
              /\ \A i \in DOMAIN data : /\ Len(data[i]) = Len(vaxis)
                                        /\ \A j \in DOMAIN vaxis : data[i][j] = Fsym(waxis[i], vaxis[j])
Centred == /\ vaxis = VAx(HalfLen(vaxis))
           /\ full => waxis = WAx(HalfLen(waxis))
           /\ ~full => waxis = WHalfAx(Len(waxis) - 1)
Emit == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
