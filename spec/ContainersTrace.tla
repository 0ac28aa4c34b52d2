-------------------------- MODULE ContainersTrace --------------------------
(* Recorded histories of the containers (harness/tinyc.c): whether each is  *)
(* a behaviour of TinyContainers.                                           *)
EXTENDS TinyContainers, Json

CONSTANT File
Cases == ndJsonDeserialize(File)

VARIABLES cid, idx, st

Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}

\* What the driver saw in the object after the operation
SeenOk(s, ev) ==
    CASE s.k = "array" -> ev.c = s.c
      [] s.k = "dict" -> /\ ToSet(ev.c) = Pairs(s.c) /\ Len(ev.c) = Cardinality(DOMAIN s.c)
                         \* and by lookup of every key which was ever used
                         /\ \A j \in 1..Len(ev.g) :
                               ev.g[j][2] = IF Key(ev.g[j][1]) \in DOMAIN s.c THEN s.c[Key(ev.g[j][1])] ELSE NoResult
      [] OTHER -> TRUE

\* [ok, s]: whether the event is possible, and the object after it
Consume(ev) ==
    LET s  == st[ev.x]
        s2 == After(s, ev.o, ev.i, ev.v, ev.vs)
        b  == [m |-> ev.m, o |-> ev.off, n |-> ev.i]
    IN  IF ev.e # "op" THEN [ok |-> FALSE, s |-> s]
        ELSE IF ~Enabled(s, ev.o, ev.i, ev.v, ev.vs) THEN [ok |-> FALSE, s |-> s]
        ELSE IF ev.o = "ralloc" THEN [ok |-> AllocOk(s.c, b, ev.i, ev.v, ev.am, ev.cap) /\ ev.bad = 0 /\ ev.spoilt = 0,
                                      s |-> [s EXCEPT !.c = @ \cup {b}]]
        ELSE [ok |-> /\ ev.bad = 0                    \* memory is handed back to the allocator it came from
                     /\ (s2.k = "none" => ev.mem = 0) \* and all of it at the end
                     /\ ev.spoilt = 0                 \* nothing an arena handed out has changed
                     /\ ev.r = Result(s, ev.o, ev.i)
                     /\ SeenOk(s2, ev),
              s |-> s2]

Init == cid \in 1..Len(Cases) /\ idx = 1 /\ st = [x \in 1..4 |-> None] /\ TLCSet(cid, 1)

Next ==
    /\ idx <= Len(Cases[cid].ev)
    /\ LET ev == Cases[cid].ev[idx]
       IN  \E r \in {Consume(ev)} : /\ r.ok = TRUE
                                    /\ st' = [st EXCEPT ![ev.x] = r.s]
    /\ idx' = idx + 1
    /\ cid' = cid
    /\ (idx' > TLCGet(cid) => TLCSet(cid, idx'))
    /\ (idx' > Len(Cases[cid].ev) => PrintT(<<"ACC", Cases[cid].id, "ok", idx'>>))

View == <<cid, idx>>
Post == \A c \in 1..Len(Cases) : PrintT(<<"MAX", Cases[c].id, TLCGet(c), Len(Cases[c].ev)>>)
=============================================================================
