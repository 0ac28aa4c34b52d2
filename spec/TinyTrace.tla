------------------------------ MODULE TinyTrace ------------------------------
(* The library as its host sees it: states, threads and the calls of the    *)
(* interface. The module checks that recorded histories of the real library *)
(* are behaviours of the specification.                                     *)
(*                                                                          *)
(* A history is a sequence of events. Everything which the program does     *)
(* between two events is silent. Where a thread is driven in steps, the     *)
(* number of silent steps taken when the host looks at it is not known, so  *)
(* any number is tried.                                                     *)
EXTENDS TinyVM, TinyPos, Json, IOUtils

CONSTANT File
Cases == ndJsonDeserialize(File)

VARIABLES cid, idx, W

(* W.S: states by number + 1, W.T: threads [m, s, paused, out, nsteps]      *)
NoThread == [m |-> Machine0, s |-> 0, live |-> FALSE, paused |-> FALSE, cnt |-> 0]
NoState == [live |-> FALSE, S |-> NewState]
World0 == [S |-> [i \in 1..8 |-> NoState], T |-> [i \in 1..8 |-> NoThread], u |-> FALSE, chg |-> FALSE]

Has(r, f) == f \in DOMAIN r
Out(ev) == IF Has(ev, "o") THEN ev.o ELSE << >>
Fins(ev) == IF Has(ev, "x") THEN ev.x ELSE << >>

-----------------------------------------------------------------------------
(* Values in events                                                         *)
SerAddr(m, ser) == SelectInSeq(m.h, LAMBDA o : o.k = "X" /\ o.ser = ser)

\* b: [ok, ids] ids the addresses of the objects met so far in this event
RECURSIVE Match(_, _, _, _)
MatchAll(m, vs, es, b) ==
    IF Len(vs) # Len(es) THEN [b EXCEPT !.ok = FALSE]
    ELSE FoldLeft(LAMBDA a, i : IF a.ok THEN Match(m, vs[i], es[i], a) ELSE a, b, [i \in 1..Len(vs) |-> i])
MatchId(v, e, b) ==
    LET known == SelectInSeq(b.ids, LAMBDA a : a = v.a)
    IN  IF e.id <= Len(b.ids) THEN [b EXCEPT !.ok = known = e.id]
        ELSE [b EXCEPT !.ok = known = 0 /\ e.id = Len(b.ids) + 1, !.ids = Append(@, v.a)]
Match(m, v, e, b) ==
    CASE v.t = "x" -> [b EXCEPT !.ok = e.t \in {"x", "f"}]
      [] v.t = "d" -> [b EXCEPT !.ok = e.t = "i"]
      [] v.t # e.t -> [b EXCEPT !.ok = FALSE]
      [] v.t \in {"n", "b", "i", "I", "f", "s", "L"} -> [b EXCEPT !.ok = v = e]
      [] v.t = "S" ->
            LET b2 == MatchId(v, e, b)
            IN  IF b2.ok /\ Has(e, "f") THEN MatchAll(m, m.h[v.a].f, e.f, b2) ELSE b2
      [] v.t = "N" -> IF m.h[v.a].k = "X" THEN [b EXCEPT !.ok = Has(e, "ser") /\ e.ser = m.h[v.a].ser]
                      ELSE IF Has(e, "id") THEN MatchId(v, e, b) ELSE [b EXCEPT !.ok = FALSE]
      [] OTHER -> [b EXCEPT !.ok = FALSE]
B0 == [ok |-> TRUE, ids |-> << >>]
Matches(m, vs, es) == MatchAll(m, vs, es, B0).ok

\* A value given by the host: [m, x]
FromHost(m, e) ==
    IF e.t = "N"
    THEN LET a == SerAddr(m, e.ser)
         IN  IF a > 0 THEN [m |-> m, x |-> VNat(a)]
             ELSE [m |-> [m EXCEPT !.h = Append(@, [k |-> "X", ser |-> e.ser, e |-> << >>]), !.outst = @ \cup {e.ser}],
                   x |-> VNat(Len(m.h) + 1)]
    ELSE [m |-> m, x |-> e]
FromHostAll(m, es) ==
    FoldLeft(LAMBDA a, e : LET r == FromHost(a.m, e) IN [m |-> r.m, xs |-> Append(a.xs, r.x)], [m |-> m, xs |-> << >>], es)

-----------------------------------------------------------------------------
(* Finalized objects: each was outstanding and cannot be reached any more   *)
FinOk(m, ev) ==
    LET F == Range(Fins(ev))
        R == Reach(m)
    IN  IF Fins(ev) = << >> THEN TRUE
        ELSE /\ Cardinality(F) = Len(Fins(ev))
             /\ F \subseteq m.outst
             /\ F \cap LiveSerials(m, R) = {}
Finalize(m, ev) == IF Fins(ev) = << >> THEN m ELSE [m EXCEPT !.outst = @ \ Range(Fins(ev))]

\* Garbage stays bounded: evaluated when the host has created an object
SampleM(m) ==
    IF Len(m.h) - m.smp < 8 THEN m
    ELSE [m EXCEPT !.smp = Len(m.h), !.pk = MaxI(@, LiveSize(m, Reach(m)))]
GarbageOk(m) == Cardinality(m.outst) <= 4 * (m.pk + 24) + 16

\* What was printed since the last event
OutOk(m, ev) == m.out = Out(ev)
\* The machine after an event was observed
Seen(m, ev) == Finalize([m EXCEPT !.out = << >>], ev)
ObsOk(m, ev) == OutOk(m, ev) /\ FinOk(m, ev)

-----------------------------------------------------------------------------
(* Functions of the test host                                               *)
Fail(w) == [ok |-> FALSE, w |-> w]
Done(w) == [ok |-> TRUE, w |-> w]

\* An array with unspecified order in the order which was observed: [ok, e, amb], amb: several orders would do
Arrange(m, vs, es) ==
    IF Len(vs) # Len(es) THEN [ok |-> FALSE, e |-> vs, amb |-> FALSE]
    ELSE FoldLeft(LAMBDA a, x :
                IF ~a.ok THEN a
                ELSE LET i == SelectInSeq(a.rest, LAMBDA v : Match(m, v, x, a.b).ok)
                         v == a.rest[i]
                         others == SelectInSeq(a.rest, LAMBDA u : u # v /\ Match(m, u, x, a.b).ok)
                     IN  IF i = 0 THEN [a EXCEPT !.ok = FALSE]
                         ELSE [a EXCEPT !.b = Match(m, v, x, a.b), !.rest = RemoveAt(@, i), !.e = Append(@, v), !.amb = @ \/ others # 0],
            [ok |-> TRUE, b |-> B0, rest |-> vs, e |-> << >>, amb |-> FALSE], es)

\* What the conversions of the interface make of a value
ConvOk(m, v, c) ==
    LET isf == v.t \in {"f", "x"}
        FZ  == [t |-> "f", m |-> 0, e |-> 0]
    IN  /\ c.b = (IF v.t = "b" THEN v.b ELSE FALSE)
        /\ (IF IsIntV(v) \/ v.t = "d" THEN Matches(m, <<v>>, <<c.i>>) ELSE c.i = VInt(0))
        /\ (IF isf THEN Matches(m, <<v>>, <<c.f>>) ELSE c.f = FZ)
        /\ (CASE isf -> Matches(m, <<v>>, <<c.nm>>)
              [] IsIntV(v) -> Matches(m, <<ToF(v)>>, <<c.nm>>)
              [] v.t = "d" -> TRUE
              [] OTHER -> c.nm = FZ)
        /\ c.s = (v.t = "s")
        /\ c.n = (IF v.t = "s" THEN Len(v.s) ELSE 0)
        /\ c.nl = (v.t = "n")
        /\ c.ad = (v.t \in {"L", "N"})
        /\ c.pr = (IF v.t # "N" THEN "" ELSE IF m.h[v.a].k = "X" THEN "obj" ELSE "lib")
        /\ c.fd = (IF v.t = "S" THEN "S" ELSE "n")

HostRet(S, m, ev, kind, as) ==
    LET N == Len(as)
        Ret(x) == HRet(m, x)
        a == as[1].a
    IN
    CASE kind = "emit" -> Ret(VNull)
      [] kind = "echo" -> Ret(IF N > 0 THEN as[1] ELSE VNull)
      [] kind = "count" -> Ret(VInt(N))
      [] kind = "conv" -> [ok |-> Len(ev.cv) = N /\ \A i \in 1..N : ConvOk(m, as[i], ev.cv[i]), m |-> m, x |-> VInt(0)]
      [] kind = "pick" -> IF N = 0 THEN Ret(VNull)
                          ELSE IF as[1].t # "i" THEN Ret(VNull)
                          ELSE Ret(IF as[1].i >= 0 /\ as[1].i <= N - 2 THEN as[as[1].i + 2] ELSE VNull)
      [] kind = "str" -> Ret(IF N = 0 THEN VNull ELSE IF as[1].t = "s" THEN as[1] ELSE VNull)
      [] kind = "bytes" -> Ret(VStr([i \in 1..N |-> IF as[i].t = "i" THEN as[i].i % 256 ELSE 0]))
      [] kind = "c7" -> Ret(VInt(7))
      [] kind = "cf" -> Ret([t |-> "f", m |-> 5, e |-> 1])
      [] kind = "cs" -> Ret(VStr(<<104, 111, 115, 116>>))
      [] kind = "ct" -> Ret(VTrue)
      [] kind = "junk" -> Ret(VNull)
      [] kind = "usage" -> \* blocks held by the thread: a few for each object
            LET m2 == [m EXCEPT !.pk = MaxI(@, LiveSize(m, Reach(m)))]
            IN  [ok |-> ev.na <= 24 * m2.pk + 800, m |-> m2, x |-> VInt(0)]
      [] kind = "light" -> IF N = 0 THEN Ret(VNull) ELSE IF IsIntV(as[1]) THEN Ret(VLight(as[1])) ELSE Ret(VNull)
      [] kind = "mk" ->
            LET m2 == SampleM([m EXCEPT !.h = Append(@, [k |-> "X", ser |-> ev.r.ser, e |-> as]), !.outst = @ \cup {ev.r.ser}])
            IN  [ok |-> ev.r.ser \notin m.outst /\ GarbageOk(m2), m |-> m2, x |-> VNat(Len(m.h) + 1)]
      [] kind = "kid" ->
            IF N < 2 THEN Ret(VNull)
            ELSE IF ~IsObj(m, as[1], "X") \/ as[2].t # "i" THEN Ret(VNull)
            ELSE IF as[2].i < 0 \/ as[2].i >= Len(m.h[a].e) THEN Ret(VNull) ELSE Ret(m.h[a].e[as[2].i + 1])
      [] kind = "kset" ->
            IF N < 3 THEN Ret(VNull)
            ELSE IF ~IsObj(m, as[1], "X") \/ as[2].t # "i" THEN Ret(VNull)
            ELSE IF as[2].i < 0 \/ as[2].i >= Len(m.h[a].e) THEN Ret(VNull)
            ELSE HRet([m EXCEPT !.h[a].e[as[2].i + 1] = as[3]], VNull)
      [] kind = "getg" ->
            LET n == CodesToName(as[1].s, 1, Len(as[1].s))
            IN  IF N < 1 THEN Ret(VNull) ELSE IF as[1].t # "s" THEN Ret(VNull)
                ELSE IF n \notin DOMAIN S.gv THEN Ret(VNull)
                ELSE IF S.gv[n].i > Len(m.g) THEN Ret(VU) ELSE Ret(m.g[S.gv[n].i])
      [] kind = "setg" ->
            LET n == CodesToName(as[1].s, 1, Len(as[1].s))
            IN  IF N < 2 THEN Ret(VNull) ELSE IF as[1].t # "s" THEN Ret(VNull)
                ELSE IF n \notin DOMAIN S.gv THEN Ret(VNull)
                ELSE IF S.gv[n].i > Len(m.g) THEN Ret(VU) ELSE HRet([m EXCEPT !.g[S.gv[n].i] = as[2]], VNull)
      [] kind = "look" ->
            IF N < 1 THEN Ret(VNull)
            ELSE IF ~IsObj(m, as[1], "E") THEN Ret(VU)
            ELSE LET e == m.h[a].e
                 IN  IF m.h[a].p THEN (LET r == Arrange(m, e, ev.el)
                                       IN  IF r.amb THEN Ret(VU)
                                           ELSE IF r.ok THEN HRet([m EXCEPT !.h[a] = ArrObj(r.e)], as[1])
                                           ELSE [ok |-> FALSE, m |-> m, x |-> VNull])
                     ELSE IF Matches(m, e, ev.el) THEN Ret(as[1]) ELSE [ok |-> FALSE, m |-> m, x |-> VNull]

\* The reported position is that of the statement of the call
LineOk(sp, l) == sp = NoSp \/ (l[1] = sp[1] /\ l[2] >= sp[2] /\ l[2] <= sp[3])

\* A machine which stands at a call of a function of the host
AtCall(S, m) == m.st = "ev" /\ m.c[1].k = "callT"

SetM(w, t, m) == [w EXCEPT !.T[t].m = m]
\* The position of the thread is known now
Changed(w, t) == [w EXCEPT !.T[t].cnt = 0, !.chg = @ \/ w.T[t].paused]
SetU(w) == [w EXCEPT !.u = TRUE]

ConsumeCall(w, ev) ==
    LET t == ev.t + 1
        S == w.S[w.T[t].s].S
        m == RunM(S, w.T[t].m)
        c == m.c[1]
        as == SubSeq(m.v, Len(m.v) - c.n + 1, Len(m.v))
        f == S.fn[c.f]
        kind == f.def[2]
        m2 == Seen(m, ev)
        vs == DropV(m, c.n)
        r == HostRet(S, m2, ev, kind, as)
        n == CodesToName(as[1].s, 1, Len(as[1].s))
        callable == Len(as) > 0 /\ as[1].t = "s" /\ n \in DOMAIN S.fn /\ S.fn[n].k = "T"
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF ~AtCall(S, m) THEN Fail(w)
        ELSE IF ~(c.f = ev.f /\ Matches(m, as, ev.a) /\ LineOk(c.sp, ev.l) /\ ObsOk(m, ev)) THEN Fail(w)
        ELSE IF kind = "call" /\ callable
             THEN (IF ev.e # "cb" THEN Fail(w)
                   ELSE LET m3 == Enter(S, m2, n, Tail(as), vs, <<[k |-> "cend", sp |-> c.sp], m.c[2]>>)
                        IN  IF m3.st = "U" THEN Done(SetU(w)) ELSE Done(SetM(w, t, m3)))
        ELSE IF ev.e # "c" THEN Fail(w)
        ELSE IF kind = "call" THEN Done(SetM(w, t, [m2 EXCEPT !.st = "run", !.c = m.c[2], !.v = Append(vs, VNull)]))
        ELSE IF r.x.t = "U" THEN Done(SetU(w))
        ELSE IF ~r.ok THEN Fail(w)
        ELSE Done(SetM(w, t, [r.m EXCEPT !.st = "run", !.c = m.c[2], !.v = Append(vs, r.x)]))

\* The end of a call which the host made inside of a foreign function
ConsumeCend(w, ev) ==
    LET t == ev.t + 1
        S == w.S[w.T[t].s].S
        m == RunM(S, w.T[t].m)
        c == m.c[1]
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF ~(m.st = "ev" /\ c.k = "cend") THEN Fail(w)
        ELSE IF ~(Matches(m, <<TopV(m)>>, <<ev.r>>) /\ LineOk(c.sp, ev.l) /\ ObsOk(m, ev)) THEN Fail(w)
        ELSE Done(SetM(w, t, [Seen(m, ev) EXCEPT !.st = "run", !.c = m.c[2]]))

ConsumeHret(w, ev) ==
    LET t == ev.t + 1
        S == w.S[w.T[t].s].S
        m == RunM(S, w.T[t].m)
        c == m.c[1]
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF ~(m.st = "ev" /\ c.k = "hend") THEN Fail(w)
        ELSE IF ~(Matches(m, <<TopV(m)>>, <<ev.r>>) /\ ObsOk(m, ev)) THEN Fail(w)
        ELSE Done(SetM(w, t, [Seen(m, ev) EXCEPT !.st = c.st, !.c = m.c[2], !.v = DropV(m, 1)]))

ConsumeRan(w, ev) ==
    LET t == ev.t + 1
        S == w.S[w.T[t].s].S
        m == IF w.T[t].m.st = "run" THEN RunM(S, w.T[t].m) ELSE w.T[t].m
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF ~(m.st \in {"done", "idle"} /\ ev.done /\ ObsOk(m, ev)) THEN Fail(w)
        ELSE Done(SetM([w EXCEPT !.T[t].paused = FALSE], t, Seen(m, ev)))

ConsumeStepped(w, ev) ==
    LET t == ev.t + 1
        m0 == w.T[t].m
        S == w.S[w.T[t].s].S
        m == IF m0.st = "run" /\ ev.done THEN RunM(S, m0) ELSE m0
        w2 == SetM([w EXCEPT !.T[t].paused = ~ev.done, !.T[t].cnt = @ + ev.n], t, Seen(m, ev))
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF ev.done THEN (IF m.st \in {"done", "idle"} /\ ObsOk(m, ev) THEN Done(w2) ELSE Fail(w))
        ELSE IF m.st \in {"run", "ev"} /\ ObsOk(m, ev) THEN Done(w2) ELSE Fail(w)

ConsumeGetg(w, ev) ==
    LET t == ev.t + 1
        m == w.T[t].m
        S == w.S[w.T[t].s].S
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF ev.n \notin DOMAIN S.gv THEN (IF ev.r.t = "none" THEN Done(w) ELSE Fail(w))
        ELSE IF ev.r.t = "none" THEN Fail(w)
        ELSE IF S.gv[ev.n].i > Len(m.g) THEN Done(SetU(w))
        ELSE IF Matches(m, <<m.g[S.gv[ev.n].i]>>, <<ev.r>>) /\ ObsOk(m, ev) THEN Done(SetM(w, t, Seen(m, ev)))
        ELSE Fail(w)
ConsumeSetg(w, ev) ==
    LET t == ev.t + 1
        m == w.T[t].m
        S == w.S[w.T[t].s].S
        r == FromHost(Seen(m, ev), ev.v)
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF ev.n \notin DOMAIN S.gv \/ ~ObsOk(m, ev) THEN Fail(w)
        ELSE IF S.gv[ev.n].i > Len(m.g) THEN Done(SetU(w))
        ELSE Done(SetM(Changed(w, t), t, [r.m EXCEPT !.g[S.gv[ev.n].i] = r.x]))
ConsumeHcall(w, ev) ==
    LET t == ev.t + 1
        m == w.T[t].m
        S == w.S[w.T[t].s].S
        r == FromHostAll(Seen(m, ev), ev.a)
        m2 == HostEnter(S, r.m, ev.f, r.xs)
        known == ev.f \in DOMAIN S.fn /\ S.fn[ev.f].k = "T"
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF ~ObsOk(m, ev) THEN Fail(w)
        ELSE IF ~known THEN (IF ev.none THEN Done(SetM(w, t, Seen(m, ev))) ELSE Fail(w))
        ELSE IF ev.none THEN Fail(w)
        ELSE IF m2.st = "U" THEN Done(SetU(w))
        ELSE Done(SetM(Changed(w, t), t, m2))

ConsumeDestroy(w, ev) ==
    LET t == ev.t + 1
        m == w.T[t].m
        F == Range(Fins(ev))
    IN  IF m.st = "U" THEN Done(SetU(w))
        ELSE IF F = m.outst /\ Cardinality(F) = Len(Fins(ev)) /\ m.out = Out(ev)
        THEN Done([w EXCEPT !.T[t] = NoThread]) ELSE Fail(w)

\* A message is text: apart from what it cites of the source, characters which can be printed
Readable(mc, cited) == Range(mc) \subseteq (32..126) \cup {8, 9, 10, 13} \cup cited

ConsumeCompile(w, ev) ==
    LET s == ev.s + 1
        S == w.S[s].S
        r == CompileOn(S, ev.name, ev.src)
    IN  IF r.any THEN Done(SetU(w))
        ELSE IF r.ok # ev.ok /\ ~(r.may /\ ~ev.ok) THEN Fail(w)
        \* an error may be found before the macros which precede it have run
        ELSE IF ~(IF r.ok /\ ev.ok THEN r.log = ev.log ELSE r.lax \/ IsPrefix(ev.log, r.log)) THEN Fail(w)
        ELSE IF ~ev.ok /\ ~(ev.mlen > 0 /\ ev.pos >= 0 /\ ev.pos <= Len(ev.src)) THEN Fail(w)
        ELSE IF ~ev.ok /\ ~(ev.pos >= r.at.lo /\ ev.pos <= r.at.hi) THEN Fail(w)
        ELSE IF ~ev.ok /\ ~Readable(ev.mc, Range(ev.src) \cup Range(ev.nc)) THEN Fail(w)
        ELSE IF ~ev.ok /\ r.at.own /\ ~MessageOk(ev.mc, ev.msz, ev.src, ev.pos, ev.nc) THEN Fail(w)
        ELSE Done([w EXCEPT !.S[s].S = IF ev.ok THEN [r.S EXCEPT !.lst = NoListing] ELSE S])

\* A bound function: its kind is remembered in def
Bind(S, sig, kind) ==
    LET S2 == BindSig(S, sig)
        ns == DOMAIN S2.fn \ DOMAIN S.fn
    IN  [S2 EXCEPT !.fn = [n \in DOMAIN @ |-> IF n \in ns THEN [@[n] EXCEPT !.def = <<"host", kind>>] ELSE @[n]]]

\* The functions of the test host: kind and signature
HostSigs == <<
    <<"emit", <<101, 109, 105, 116, 40, 46, 46, 46, 41, 58, 32, 118, 111, 105, 100>>>>,
    <<"echo", <<101, 99, 104, 111, 40, 97, 110, 121, 41, 58, 32, 97, 110, 121>>>>,
    <<"count", <<99, 111, 117, 110, 116, 40, 46, 46, 46, 41, 58, 32, 105, 110, 116>>>>,
    <<"pick", <<112, 105, 99, 107, 40, 105, 110, 116, 44, 32, 46, 46, 46, 41, 58, 32, 97, 110, 121>>>>,
    <<"str", <<104, 115, 116, 114, 40, 115, 116, 114, 41, 58, 32, 115, 116, 114>>>>,
    <<"bytes", <<98, 121, 116, 101, 115, 40, 46, 46, 46, 41, 58, 32, 115, 116, 114>>>>,
    <<"mk", <<109, 107, 40, 46, 46, 46, 41, 58, 32, 97, 110, 121>>>>,
    <<"kid", <<107, 105, 100, 40, 97, 110, 121, 44, 32, 105, 110, 116, 41, 58, 32, 97, 110, 121>>>>,
    <<"kset", <<107, 115, 101, 116, 40, 97, 110, 121, 44, 32, 105, 110, 116, 44, 32, 97, 110, 121, 41, 58, 32, 118, 111, 105, 100>>>>,
    <<"call", <<99, 97, 108, 108, 40, 115, 116, 114, 44, 32, 46, 46, 46, 41, 58, 32, 97, 110, 121>>>>,
    <<"getg", <<104, 103, 101, 116, 103, 40, 115, 116, 114, 41, 58, 32, 97, 110, 121>>>>,
    <<"setg", <<104, 115, 101, 116, 103, 40, 115, 116, 114, 44, 32, 97, 110, 121, 41, 58, 32, 118, 111, 105, 100>>>>,
    <<"light", <<108, 105, 103, 104, 116, 40, 105, 110, 116, 41, 58, 32, 97, 110, 121>>>>,
    <<"junk", <<106, 117, 110, 107, 40, 105, 110, 116, 41, 58, 32, 118, 111, 105, 100>>>>,
    <<"look", <<108, 111, 111, 107, 40, 97, 110, 121, 41, 58, 32, 97, 110, 121>>>>,
    <<"emit", <<101, 105, 40, 105, 110, 116, 41, 58, 32, 118, 111, 105, 100>>>>,
    <<"emit", <<101, 102, 40, 102, 108, 111, 97, 116, 41, 58, 32, 118, 111, 105, 100>>>>,
    <<"emit", <<101, 115, 40, 115, 116, 114, 41, 58, 32, 118, 111, 105, 100>>>>,
    <<"emit", <<101, 98, 40, 98, 111, 111, 108, 41, 58, 32, 118, 111, 105, 100>>>>,
    <<"echo", <<111, 105, 40, 105, 110, 116, 41, 58, 32, 105, 110, 116>>>>,
    <<"echo", <<111, 102, 40, 102, 108, 111, 97, 116, 41, 58, 32, 102, 108, 111, 97, 116>>>>,
    <<"echo", <<111, 115, 40, 115, 116, 114, 41, 58, 32, 115, 116, 114>>>>,
    <<"echo", <<111, 98, 40, 98, 111, 111, 108, 41, 58, 32, 98, 111, 111, 108>>>>,
    <<"c7", <<99, 55, 40, 41, 58, 32, 105, 110, 116>>>>,
    <<"cf", <<99, 102, 40, 41, 58, 32, 102, 108, 111, 97, 116>>>>,
    <<"cs", <<99, 115, 40, 41, 58, 32, 115, 116, 114>>>>,
    <<"ct", <<99, 116, 40, 41, 58, 32, 98, 111, 111, 108>>>>,
    <<"count", <<117, 110, 116, 121, 112, 101, 100>>>>,
    <<"usage", <<117, 115, 97, 103, 101, 40, 41, 58, 32, 105, 110, 116>>>>,
    <<"conv", <<99, 111, 110, 118, 40, 46, 46, 46, 41, 58, 32, 105, 110, 116>>>>,
    <<"emit", <<110, 105, 108, 40, 41, 58, 32, 118, 111, 105, 100>>>>, \* leaves an object without an address behind
    <<"echo", <<115, 97, 109, 101, 40, 97, 110, 121, 41, 58, 32, 97, 110, 121>>>>>> \* another object with the same address
HostState == TLCEval(FoldLeft(LAMBDA S, h : Bind(S, h[2], h[1]), FullState, HostSigs))

ValType(v) == LitType(v)

Consume(w, ev) ==
    CASE ev.e = "state" ->
            Done([w EXCEPT !.S[ev.s + 1] = [live |-> TRUE,
                    S |-> IF ev.std THEN HostState ELSE FoldLeft(BindLib, NewState2, ev.libs)]])
      [] ev.e = "bind" -> Done([w EXCEPT !.S[ev.s + 1].S = Bind(@, ev.sig, ev.kind)])
      [] ev.e = "type" -> Done([w EXCEPT !.S[ev.s + 1].S = Register(@, ev.n)])
      [] ev.e = "const" -> Done([w EXCEPT !.S[ev.s + 1].S = BindConst(@, ev.n, ev.v, ValType(ev.v))])
      [] ev.e = "compile" -> ConsumeCompile(w, ev)
      [] ev.e = "xcompile" -> \* too deep to be parsed here: an error like any other, or a success
            IF ev.ok THEN Done(SetU(w))
            ELSE IF ev.mlen > 0 /\ ev.pos >= 0 /\ ev.pos <= ev.len THEN Done(w) ELSE Fail(w)
      [] ev.e = "nofile" -> \* a file which cannot be read is an error, and leaves the state as it was
            IF ~ev.ok /\ ev.mlen > 0 /\ ev.mlen < ev.msz THEN Done(w) ELSE Fail(w)
      [] ev.e = "gidx" -> IF (ev.n \in DOMAIN w.S[ev.s + 1].S.gv) = ev.r THEN Done(w) ELSE Fail(w)
      [] ev.e = "fidx" -> LET S == w.S[ev.s + 1].S
                          IN  IF (ev.n \in DOMAIN S.fn /\ S.fn[ev.n].k = "T") = ev.r THEN Done(w) ELSE Fail(w)
      [] ev.e = "ask" ->
            LET S == w.S[ev.s + 1].S
                c == AskConst(S, ev.n)
            IN  IF /\ ev.ty = AskType(S, ev.n)
                   /\ ev.fn = AskFunc(S, ev.n)
                   /\ (IF c.k = "const" /\ ev.ct.k = "const"
                       THEN [c EXCEPT !.v = VNull] = [ev.ct EXCEPT !.v = VNull] /\ (c.v.t = "U" \/ Matches(Machine0, <<c.v>>, <<ev.ct.v>>))
                       ELSE c = ev.ct)
                THEN Done(w) ELSE Fail(w)
      [] ev.e = "disasm" -> \* from now on the listing is what the state executes
            LET L == Listing(ev.is, ev.fn)
                none == Len(ev.is) = 1 /\ ~ev.is[1].ok /\ w.S[ev.s + 1].S.code = << >>
            IN  IF none THEN Done(w)
                ELSE IF ~Contiguous(ev.is) THEN Fail(w)
                ELSE IF ~L.ok THEN Fail(w)
                ELSE Done([w EXCEPT !.S[ev.s + 1].S.lst = L])
      [] ev.e = "dis1" -> \* a text which does not fit is cut, or refused
            LET L == w.S[ev.s + 1].S.lst
                k == SelectInSeq(L.raw, LAMBDA x : x.p = ev.p)
                t == L.raw[k].s
            IN  IF ~L.on THEN Done(w)
                ELSE IF ev.max > 0 /\ ~ev.in THEN Fail(w)
                ELSE IF ev.p < 0 \/ ev.p > 1000000 THEN (IF ~ev.ok /\ ev.q = ev.p THEN Done(w) ELSE Fail(w))
                ELSE IF k = 0 THEN Done(w)
                ELSE IF ~IsPrefix(ev.b, t) THEN Fail(w)
                ELSE IF ev.ok THEN (IF ev.q = L.raw[k].q /\ Len(ev.b) = MinI(Len(t), ev.max - 1) THEN Done(w) ELSE Fail(w))
                ELSE IF ev.max <= Len(t) /\ ev.q = ev.p THEN Done(w) ELSE Fail(w)
      [] ev.e = "stdin" -> LET t == ev.t + 1 IN Done([w EXCEPT !.T[t].m.inp = ev.b])
      [] ev.e = "line" -> \* of a thread which does not run
            LET m == w.T[ev.t + 1].m
            IN  IF m.st = "U" THEN Done(SetU(w))
                ELSE IF m.st \in {"idle", "done"} THEN (IF ev.l = <<"", 0>> THEN Done(w) ELSE Fail(w))
                ELSE Done(w)
      [] ev.e = "thread" -> Done([w EXCEPT !.T[ev.t + 1] = [NoThread EXCEPT !.live = TRUE, !.s = ev.s + 1]])
      [] ev.e = "start" -> LET t == ev.t + 1
            IN  IF w.T[t].m.st = "U" THEN Done(SetU(w))
                ELSE Done([Changed(w, t) EXCEPT !.T[t].m = StartM(w.S[w.T[t].s].S, @), !.T[t].paused = FALSE])
      [] ev.e \in {"run", "step"} -> Done(w)
      [] ev.e \in {"c", "cb"} -> ConsumeCall(w, ev)
      [] ev.e = "ce" -> ConsumeCend(w, ev)
      [] ev.e = "ran" -> ConsumeRan(w, ev)
      [] ev.e = "stepped" -> ConsumeStepped(w, ev)
      [] ev.e = "getg" -> ConsumeGetg(w, ev)
      [] ev.e = "setg" -> ConsumeSetg(w, ev)
      [] ev.e = "hcall" -> ConsumeHcall(w, ev)
      [] ev.e = "hret" -> ConsumeHret(w, ev)
      [] ev.e = "destroy" -> ConsumeDestroy(w, ev)
      [] ev.e = "delstate" -> Done([w EXCEPT !.S[ev.s + 1] = NoState])
      [] ev.e = "mem" -> IF ev.n = 0 /\ ev.bad = 0 /\ ev.raw = 0 THEN Done(w) ELSE Fail(w)
      [] ev.e = "big" -> Done(SetU(w)) \* values which are too large to be followed here
      [] ev.e \in {"crash", "timeout"} ->
            \* only a program whose behaviour is not specified may do this
            LET t == IF Has(ev, "t") THEN ev.t + 1 ELSE 0
                m == RunM(w.S[w.T[t].s].S, w.T[t].m)
            IN  IF t > 0 /\ t <= 8
                THEN (IF m.st # "U" THEN Fail(w)
                      \* what is beyond the limits is stopped by an assertion; nothing but that, or an exit
                      ELSE IF m.over /\ ev.e = "crash" /\ (ev.sig \notin {0, 6} \/ ev.rc = 77) THEN Fail(w)
                      ELSE Done(SetU(w)))
                ELSE Fail(w)
      [] OTHER -> Fail(w)

-----------------------------------------------------------------------------
\* A thread which is driven in steps may be anywhere between two events. What the host only reads tells
\* how far it got at least; where the host changes something, every position is tried.
Reads == {"stepped", "getg"}
Changes == {"setg", "hcall", "start"}
RECURSIVE AllRead(_, _, _)
AllRead(w, evs, i) ==
    IF i > Len(evs) THEN TRUE
    ELSE IF evs[i].e # "getg" THEN TRUE
    ELSE IF evs[i].t # evs[1].t THEN TRUE
    ELSE Consume(w, evs[i]).ok /\ AllRead(w, evs, i + 1)
Silent(w, ev, evs) ==
    LET t == ev.t + 1
        S == w.S[w.T[t].s].S
        m == w.T[t].m
        Go == Done(SetM(w, t, Step1(S, m)))
    IN  IF ~(ev.e \in Reads \cup Changes) THEN Fail(w)
        ELSE IF m.st # "run" \/ ~w.T[t].paused \/ w.T[t].cnt = 0 THEN
             (IF ev.e = "stepped" /\ m.st = "run" THEN (IF ev.done \/ ObsOk(m, ev) THEN Fail(w) ELSE Go) ELSE Fail(w))
        ELSE CASE ev.e = "stepped" -> IF ev.done \/ ObsOk(m, ev) THEN Fail(w) ELSE Go
               [] ev.e = "getg" -> IF AllRead(w, evs, 1) THEN Fail(w) ELSE Go
               [] OTHER -> Go

Init == cid \in 1..Len(Cases) /\ idx = 1 /\ W = World0 /\ TLCSet(cid, 1) /\ TLCSet(10000 + cid, << >>)

Finish(c, w) ==
    PrintT(<<"ACC", Cases[c].id, IF w.u THEN "U" ELSE "ok",
             FoldLeft(LAMBDA a, t : a + w.T[t].m.n, 0, [t \in 1..8 |-> t])>>)

Next ==
    /\ idx <= Len(Cases[cid].ev)
    /\ LET ev == Cases[cid].ev[idx]
       IN  \/ \E r \in {Consume(W, ev)} :
                /\ r.ok
                /\ W' = r.w
                /\ idx' = IF r.w.u THEN Len(Cases[cid].ev) + 1 ELSE idx + 1
                /\ (idx' > TLCGet(cid) => TLCSet(cid, idx'))
                /\ (r.w.u => PrintT(<<"OPEN", Cases[cid].id, idx, Len(Cases[cid].ev)>>))
                /\ (idx' > Len(Cases[cid].ev) => Finish(cid, r.w))
           \/ \E r \in {Silent(W, ev, SubSeq(Cases[cid].ev, idx, Len(Cases[cid].ev)))} :
                /\ r.ok
                /\ W' = r.w
                /\ idx' = idx
    /\ cid' = cid

\* Without changes by the host the number of steps determines the state
View == <<cid, idx, W.u, IF W.chg THEN [t \in 1..8 |-> W.T[t].m] ELSE [t \in 1..8 |-> W.T[t].m.n]>>

\* How far each history was followed
Post == \A c \in 1..Len(Cases) : PrintT(<<"MAX", Cases[c].id, TLCGet(c), Len(Cases[c].ev)>>)
=============================================================================
