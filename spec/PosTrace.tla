------------------------------ MODULE PosTrace -----------------------------
(* What the library says about the places of texts (harness/tinyc.c).       *)
EXTENDS TinyPos, Json

CONSTANT File
Cases == ndJsonDeserialize(File)
VARIABLES cid, idx

Consume(ev) ==
    /\ ev.e = "pos"
    /\ LET all == AllPlaces(ev.t)
       IN  /\ ev.p = all
           \* line numbers from 1, also for the place behind the text
           /\ ev.l = [i \in 1..(Len(ev.t) + 1) |-> IF i <= Len(ev.t) THEN all[i][1] + 1 ELSE LineAt(ev.t, Len(ev.t)) + 1]

Init == cid \in 1..Len(Cases) /\ idx = 1 /\ TLCSet(cid, 1)
Next ==
    /\ idx <= Len(Cases[cid].ev)
    /\ Consume(Cases[cid].ev[idx])
    /\ idx' = idx + 1
    /\ cid' = cid
    /\ (idx' > TLCGet(cid) => TLCSet(cid, idx'))
    /\ (idx' > Len(Cases[cid].ev) => PrintT(<<"ACC", Cases[cid].id, "ok", idx'>>))
View == <<cid, idx>>
Post == \A c \in 1..Len(Cases) : PrintT(<<"MAX", Cases[c].id, TLCGet(c), Len(Cases[c].ev)>>)
=============================================================================
