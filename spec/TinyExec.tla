------------------------------ MODULE TinyExec ------------------------------
(* How a thread executes the resolved program of a state.                   *)
(*                                                                          *)
(* A thread is a machine m:                                                 *)
(*   st  idle, run, ev (stopped at something the host observes), done, or U *)
(*       (what happens from here on is not specified)                       *)
(*   c   what remains to be done in this call: a linked list <<task, rest>> *)
(*   v   values of the unfinished expressions of this call                  *)
(*   a,l arguments and locals of this call                                  *)
(*   k   the calls which wait for this one: linked list <<[c,v,a,l,base], ..>>*)
(*   base slots used by the waiting calls and the variables of this one     *)
(*   d   depth of the calls,  g globals (<<>> before they exist), hasg      *)
(*   h   heap: sequence of objects, never shortened: the specification has  *)
(*       no garbage collector, which is what "no reachable object is ever   *)
(*       reclaimed" means                                                   *)
(*         [k "S", n, f] struct   [k "E", e, p] array (p: order unspecified)*)
(*         [k "D", ks, vs] dictionary   [k "X", ser, e] object of the host  *)
(*         [k "F", path, mode, pos, op] file                                *)
(*   out what was printed and not yet observed,  fs files: path -> content  *)
(*   inp what can still be read from the standard input                      *)
(*   rv  result of the last call (only where a listing is executed)         *)
(*   n   steps taken                                                        *)
EXTENDS TinyCheck

VRef(a) == [t |-> "S", a |-> a]
VNat(a) == [t |-> "N", a |-> a]
VLight(v) == [t |-> "L", v |-> v]
VFun(n) == [t |-> "d", n |-> n]

\* Limits which a program may rely on
MaxSlots == 112
MaxDepth == 60

Machine0 == [st |-> "idle", c |-> << >>, v |-> << >>, a |-> << >>, l |-> << >>, k |-> << >>, base |-> 0, d |-> 0,
             g |-> << >>, hasg |-> FALSE, h |-> << >>, out |-> << >>, fs |-> EmptyMap, n |-> 0,
             outst |-> {}, pk |-> 0, smp |-> 0, inp |-> << >>, rv |-> VNull, over |-> FALSE]

GiveUp(m) == [m EXCEPT !.st = "U"]
\* Near or beyond the limits, or open in another way, but if this ends the process then in an orderly way
TooMuch(m) == [m EXCEPT !.st = "U", !.over = TRUE]
TopV(m) == m.v[Len(m.v)]
DropV(m, n) == SubSeq(m.v, 1, Len(m.v) - n)
\* Continue with the rest r and one more value
PushV(m, r, x) ==
    IF x.t = "U" THEN GiveUp(m)
    ELSE IF m.base + Len(m.v) >= MaxSlots THEN TooMuch(m)
    ELSE [m EXCEPT !.c = r, !.v = Append(@, x)]
\* Replace the last n values by x
Yield(m, n, r, x) ==
    IF x.t = "U" THEN GiveUp(m) ELSE [m EXCEPT !.c = r, !.v = Append(SubSeq(@, 1, Len(@) - n), x)]
Nulls(n) == [i \in 1..n |-> VNull]

IsStructRef(v) == v.t = "S"
IsObj(m, v, kind) == v.t = "N" /\ m.h[v.a].k = kind

-----------------------------------------------------------------------------
(* Equality                                                                 *)
EqV(a, b) ==
    IF a.t = "d" /\ b.t = "d" THEN VBool(a.n = b.n)
    ELSE IF a.t = "d" \/ b.t = "d" THEN VU
    ELSE IF IsFloatV(a) /\ IsFloatV(b)
         THEN (IF a.t = "x" \/ b.t = "x" THEN VU ELSE VBool((a.m = 0 /\ b.m = 0) \/ a = b))
    ELSE IF a.t # b.t THEN VFalse
    ELSE IF a.t = "n" THEN VTrue
    ELSE VBool(a = b)

BinV(op, a, b) ==
    CASE op \in {"+", "-", "*", "/"} -> Arith(op, a, b)
      [] op \in {"<", ">", "<=", ">="} -> Rel(op, a, b)
      [] op = "==" -> EqV(a, b)
      [] op = "!=" -> LET e == EqV(a, b) IN IF e.t = "U" THEN e ELSE VBool(~e.b)
      [] OTHER -> IntOp(op, a, b)

NegV(a) == IF IsIntV(a) THEN NegI(a) ELSE IF IsFloatV(a) THEN FloatNeg(a) ELSE VU

-----------------------------------------------------------------------------
(* Text of numbers                                                          *)
RECURSIVE DecCodes(_)
DecCodes(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecCodes(n \div 10), 48 + (n % 10))
Pad4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE PadN(_, _)
PadN(n, w) == IF w = 0 THEN << >> ELSE Append(PadN(n \div 10, w - 1), 48 + (n % 10))
MagCodes(d) == DecCodes(d[Len(d)]) \o FoldLeft(LAMBDA a, i : Pad4(d[i]) \o a, << >>, [i \in 1..(Len(d) - 1) |-> i])
IntCodes(v) == IF v.t = "i" THEN (IF v.i < 0 THEN <<45>> ELSE << >>) \o DecCodes(AbsI(v.i))
               ELSE (IF v.g < 0 THEN <<45>> ELSE << >>) \o MagCodes(v.d)

\* |v| = ip + fp / 10^6 exactly: [ok, neg, ip, fp]
Fixed6(v) ==
    IF v.t # "f" THEN [ok |-> FALSE]
    ELSE IF v.m = 0 THEN [ok |-> TRUE, neg |-> v.e = 1, ip |-> 0, fp |-> 0]
    ELSE IF v.e > 6 THEN [ok |-> FALSE]
    ELSE IF v.e <= 0 /\ ~ShlFits(v.m, -v.e) THEN [ok |-> FALSE]
    ELSE IF v.e <= 0 THEN [ok |-> TRUE, neg |-> v.m < 0, ip |-> AbsI(v.m) * Pow2[-v.e], fp |-> 0]
    ELSE [ok |-> TRUE, neg |-> v.m < 0, ip |-> AbsI(v.m) \div Pow2[v.e],
          fp |-> (AbsI(v.m) % Pow2[v.e]) * (1000000 \div Pow2[v.e])]
UText == [ok |-> FALSE, s |-> << >>]
Text(s) == [ok |-> TRUE, s |-> s]
\* %f
FloatText(v) ==
    LET x == Fixed6(v)
    IN  IF ~x.ok THEN UText
        ELSE Text((IF x.neg THEN <<45>> ELSE << >>) \o DecCodes(x.ip) \o <<46>> \o PadN(x.fp, 6))
\* A number as a single precision float: 24 bits, ties to even
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
Single(v) ==
    LET n == AbsI(v.m)
        k == Bits(n) - 24
        q == n \div Pow2[k]
        r == n % Pow2[k]
        h == Pow2[k - 1]
        q2 == IF r > h \/ (r = h /\ q % 2 = 1) THEN q + 1 ELSE q
    IN  IF v.t # "f" THEN VX
        ELSE IF k <= 0 THEN v
        ELSE NormF(SgnI(v.m) * q2, v.e - k)

\* The first six of the digits ds (no leading zero), rounded: [n, up] up: one more digit in front of the point
Six(ds) ==
    LET d == IF Len(ds) >= 6 THEN SubSeq(ds, 1, 6) ELSE ds \o SubSeq(<<48, 48, 48, 48, 48, 48>>, 1, 6 - Len(ds))
        n == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, d)
        rest == SubSeq(ds, 7, Len(ds))
        half == rest # << >> /\ rest[1] = 53 /\ TrimZeros(rest, 2, Len(rest)) = 1
        up == rest # << >> /\ (IF half THEN n % 2 = 1 ELSE rest[1] >= 53)
    IN  IF ~up THEN [n |-> n, up |-> FALSE]
        ELSE IF n = 999999 THEN [n |-> 100000, up |-> TRUE]
        ELSE [n |-> n + 1, up |-> FALSE]

\* %g of the number as a single precision float
GText(v0) ==
    LET v  == Single(ToF(v0))
        k  == -v.e
        n  == AbsI(v.m)
        i1 == IF k <= 0 THEN VInt(n \div Pow2[v.e])
              ELSE IF k <= 30 THEN IntMul(VInt(n), VInt(Pow2[k])) ELSE IntMul(IntMul(VInt(n), VInt(Pow2[30])), VInt(Pow2[k - 30]))
        ic == IntCodes(i1)
        fc == IF k >= 0 THEN << >> ELSE PadN((n % Pow2[v.e]) * (1000000 \div Pow2[v.e]), 6)
        all == IF ic = <<48>> THEN fc ELSE ic \o fc
        z  == First(all, 1, LAMBDA c : c # 48) - 1
        r  == Six(SubSeq(all, z + 1, Len(all)))
        X  == (IF ic = <<48>> THEN -z - 1 ELSE Len(ic) - 1) + (IF r.up THEN 1 ELSE 0)
        ds == PadN(r.n, 6)
        t  == MaxI(1, TrimZeros(ds, 1, 6))
        d  == SubSeq(ds, 1, t)
        Frac(x) == IF x = << >> THEN << >> ELSE <<46>> \o x
        sg == IF v.m < 0 \/ (v.m = 0 /\ v.e = 1) THEN <<45>> ELSE << >>
    IN  IF ~IsNumV(v0) THEN UText
        ELSE IF v.t # "f" THEN UText
        ELSE IF v.m = 0 THEN Text(sg \o <<48>>)
        ELSE IF v.e > 6 \/ k > 36 THEN UText
        ELSE IF X < -4 \/ X >= 6
             THEN Text(sg \o <<d[1]>> \o Frac(SubSeq(d, 2, t)) \o <<101, IF X < 0 THEN 45 ELSE 43>> \o PadN(AbsI(X), 2))
        ELSE IF X < 0 THEN Text(sg \o <<48, 46>> \o SubSeq(<<48, 48, 48, 48>>, 1, -X - 1) \o d)
        ELSE Text(sg \o SubSeq(ds, 1, X + 1) \o Frac(SubSeq(d, X + 2, t)))

\* C strings end at the first null character
CStr(s) == LET i == SelectInSeq(s, LAMBDA c : c = 0) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
SkipSp(s) == First(s, 1, LAMBDA c : ~IsSpace(c))
SignAt(s, i) == IF At(s, i) = 45 THEN <<TRUE, i + 1>> ELSE IF At(s, i) = 43 THEN <<FALSE, i + 1>> ELSE <<FALSE, i>>

Digit36(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87
              ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
\* strtol
StrToInt(s0, base0) ==
    LET s == CStr(s0)
        g == SignAt(s, SkipSp(s))
        hex == At(s, g[2]) = 48 /\ At(s, g[2] + 1) \in {120, 88} /\ Digit36(At(s, g[2] + 2)) < 16
        base == IF base0 = 0 THEN (IF hex THEN 16 ELSE IF At(s, g[2]) = 48 THEN 8 ELSE 10) ELSE base0
        i == IF hex /\ base = 16 THEN g[2] + 2 ELSE g[2]
        j == First(s, i, LAMBDA c : c = 0 \/ Digit36(c) >= base) - 1
        n == FoldLeft(LAMBDA a, c : IF a.t = "U" THEN a
                                    ELSE IF a.i > (MAXI - Digit36(c)) \div base THEN VU
                                    ELSE VInt(a.i * base + Digit36(c)), VInt(0), SubSeq(s, i, j))
    IN  IF base < 2 \/ base > 36 THEN VU
        ELSE IF n.t = "U" THEN VU ELSE IF g[1] THEN NegI(n) ELSE n
\* strtof
StrToFloat(s0) ==
    LET s == CStr(s0)
        g == SignAt(s, SkipSp(s))
        j == First(s, g[2], LAMBDA c : ~IsDigit(c)) - 1
        dot == At(s, j + 1) = 46
        e == IF dot THEN First(s, j + 2, LAMBDA c : ~IsDigit(c)) - 1 ELSE j
        f == TrimZeros(s, j + 2, e)
        ip == DigitsVal(s, g[2], j, 10, 0)
        fp == IF dot THEN DigitsVal(s, j + 2, f, 10, 0) ELSE VInt(0)
        k == IF dot THEN f - j - 1 ELSE 0
        none == j < g[2] /\ (~dot \/ e = j + 1)
        r == IF none THEN FZero
             ELSE IF ip.t = "U" \/ fp.t = "U" \/ k > 9 THEN VX
             ELSE IF ~MulFits(ip.i, 10 ^ k) THEN VX
             ELSE IF ~AddFits(ip.i * 10 ^ k, fp.i) THEN VX
             ELSE DecFloat(ip.i * 10 ^ k + fp.i, k)
        odd == {101, 69, 120, 88, 105, 73, 110, 78, 112, 80}
    IN  IF At(s, g[2]) \in odd \/ At(s, j + 1) \in odd \/ At(s, e + 1) \in odd THEN VX
        ELSE IF none THEN FZero        \* nothing is converted, not even the sign
        ELSE IF g[1] THEN FloatNeg(r) ELSE r

-----------------------------------------------------------------------------
(* Printing                                                                 *)
JoinText(a, b) == IF a.ok /\ b.ok THEN Text(a.s \o b.s) ELSE UText
RECURSIVE Repr(_, _, _)
ReprList(m, es, depth) ==
    FoldLeft(LAMBDA a, i : JoinText(a, JoinText(Text(IF i = 1 THEN << >> ELSE <<44, 32>>), Repr(m, es[i], depth))),
             Text(<< >>), [i \in 1..Len(es) |-> i])
Repr(m, v, depth) ==
    IF depth > 20 THEN UText
    ELSE CASE v.t = "n" -> Text(<<60, 110, 117, 108, 108, 62>>)
           [] v.t = "b" -> Text(IF v.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
           [] v.t \in {"i", "I"} -> Text(IntCodes(v))
           [] v.t \in {"f", "x"} -> FloatText(v)
           [] v.t = "s" -> Text(<<34>> \o v.s \o <<34>>)
           [] v.t = "S" -> JoinText(Text(<<115, 116, 114, 117, 99, 116, 32, 123>>),
                                    JoinText(ReprList(m, m.h[v.a].f, depth + 1), Text(<<125>>)))
           [] v.t = "N" -> IF m.h[v.a].k # "E" THEN UText
                           ELSE IF m.h[v.a].p THEN UText
                           ELSE JoinText(Text(<<91>>), JoinText(ReprList(m, m.h[v.a].e, depth + 1), Text(<<93>>)))
           [] OTHER -> UText

\* printf: the text, given the format and the other arguments
FmtStep(m, as, st) ==
    LET f == st.f
        c == f[st.i]
        d == At(f, st.i + 1)
        v == as[st.a]
        Next(x) == [st EXCEPT !.i = @ + 2, !.a = @ + 1, !.t = JoinText(@, x), !.done = st.i + 2 > Len(f)]
    IN  IF st.i > Len(f) THEN [st EXCEPT !.done = TRUE]
        ELSE IF c # 37
        THEN LET j == First(f, st.i, LAMBDA x : x = 37)
             IN  [st EXCEPT !.i = j, !.t = JoinText(@, Text(SubSeq(f, st.i, j - 1))), !.done = j > Len(f)]
        ELSE IF d = 37 THEN [st EXCEPT !.i = @ + 2, !.t = JoinText(@, Text(<<37>>)), !.done = st.i + 2 > Len(f)]
        ELSE IF st.a > Len(as) THEN [st EXCEPT !.done = TRUE, !.t = UText]
        ELSE CASE d = 105 /\ IsIntV(v) -> Next(Text(IntCodes(v)))
               [] d = 102 /\ IsFloatV(v) -> Next(FloatText(v))
               [] d = 115 /\ v.t = "s" -> Next(Text(v.s))
               [] d = 99 /\ v.t = "i" -> Next(Text(<<v.i % 256>>))
               [] d = 113 -> Next(Repr(m, v, 0))
               \* what a letter which is no specifier prints is open, but it must not do any harm
               [] OTHER -> [st EXCEPT !.done = TRUE, !.t = IF d \in {105, 102, 115, 99} THEN UText ELSE [UText EXCEPT !.s = <<d>>]]
Format(m, f, as) == IF \E i \in 1..Len(f) : f[i] = 0 THEN UText
                    ELSE Until(LAMBDA st : FmtStep(m, as, st), [i |-> 1, a |-> 1, f |-> f, t |-> Text(<< >>), done |-> FALSE]).t

-----------------------------------------------------------------------------
(* Library functions. as: arguments. Result: the machine with the result    *)
(* pushed; Ret(m, x) pushes                                                 *)
SInt(n) == VInt(n)
KeyIx(ks, key) == SelectInSeq(ks, LAMBDA x : EqV(x, key) = VTrue)
GoodKey(v) == v.t \in {"b", "i", "I", "s", "S", "N"} \/ (v.t = "L" /\ v # VLight(VInt(0)))

\* Find needle in s from index i on, 0 if absent
IndexOf(s, c) == SelectInSeq(s, LAMBDA x : x = c)

SubV(as) ==
    LET s == as[1].s
        a == as[2].i
        b == IF as[3].i = -1 THEN Len(s) ELSE as[3].i
    IN  IF as[1].t # "s" \/ as[2].t # "i" \/ as[3].t # "i" THEN VU
        ELSE IF a < 0 \/ a > b THEN VU
        ELSE IF a = b THEN VStr(<< >>)
        ELSE IF b > Len(s) THEN VU
        ELSE VStr(SubSeq(s, a + 1, b))

CatV(as) == IF \E i \in 1..Len(as) : as[i].t # "s" THEN VU
            ELSE VStr(FoldLeft(LAMBDA a, x : a \o x.s, << >>, as))

FloorV(v) ==
    IF v.t # "f" THEN VX
    ELSE IF v.e <= 0 \/ v.m = 0 THEN (IF AbsI(v.m) < 16777216 THEN v ELSE VX)
    ELSE IF AbsI(v.m) >= 16777216 \/ v.e > 30 THEN VX
    ELSE LET q == v.m \div Pow2[v.e] IN NormF(q, 0)
CeilV(v) == LET f == FloorV(FloatNeg(v)) IN FloatNeg(f)

ToIntV(v) == IF v.t # "f" THEN VU
             ELSE IF v.m = 0 THEN VInt(0)
             ELSE IF v.e > 30 THEN VInt(0)
             ELSE IF v.e > 0 THEN VInt(SgnI(v.m) * (AbsI(v.m) \div Pow2[v.e]))
             ELSE IF ShlFits(v.m, -v.e) THEN VInt(v.m * Pow2[-v.e]) ELSE VU

ArithL(op, as) ==
    IF \E i \in 1..Len(as) : as[i].t # "L" THEN VU
    ELSE LET r == FoldLeft(LAMBDA a, i : IF a.t = "U" THEN a ELSE IF op = "+" THEN IntAdd(a, as[i].v) ELSE IntMul(a, as[i].v),
                           as[1].v, [i \in 1..(Len(as) - 1) |-> i + 1])
         IN  IF r.t = "U" THEN VU ELSE VLight(r)

JsonV(as) ==
    IF Len(as) # 1 THEN VU
    ELSE LET v == as[1]
         IN  CASE v.t = "n" -> VStr(<<110, 117, 108, 108>>)
               [] v.t = "b" -> VStr(IF v.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
               [] IsIntV(v) -> VStr(IntCodes(v))
               [] IsFloatV(v) -> LET g == GText(v) IN IF g.ok THEN VStr(g.s) ELSE VU
               [] v.t = "s" -> VStr(<<34>> \o v.s \o <<34>>)
               [] OTHER -> VU

\* Functions which only compute a value
PureOps == {"toint", "tofloat", "strlen", "stridx", "strchr", "strcat", "substr", "ston", "stoi", "itos", "ntos",
            "floor", "ceil", "fnidx", "tojson", "i64", "i64add", "i64mul", "i64str"}
PureV(S, op, as) ==
    CASE op = "toint" -> ToIntV(as[1])
      [] op = "tofloat" -> IF IsIntV(as[1]) THEN ToF(as[1]) ELSE VU
      [] op = "strlen" -> IF as[1].t = "s" THEN VInt(Len(as[1].s)) ELSE VU
      [] op = "stridx" -> IF as[1].t # "s" \/ as[2].t # "i" THEN VU
                          ELSE IF as[2].i < 0 \/ as[2].i >= Len(as[1].s) THEN VU
                          ELSE LET c == as[1].s[as[2].i + 1] IN VInt(IF c > 127 THEN c - 256 ELSE c)
      [] op = "strchr" -> IF as[1].t # "s" \/ as[2].t # "i" THEN VU
                          ELSE VInt(IndexOf(as[1].s, as[2].i % 256) - 1)
      [] op = "strcat" -> CatV(as)
      [] op = "substr" -> SubV(as)
      [] op = "ston" -> IF as[1].t = "s" THEN StrToFloat(as[1].s) ELSE VU
      [] op = "stoi" -> IF as[1].t # "s" THEN VU
                        ELSE IF Len(as) = 1 THEN StrToInt(as[1].s, 10)
                        ELSE IF as[2].t # "i" THEN VU ELSE StrToInt(as[1].s, as[2].i)
      [] op = "itos" -> IF IsIntV(as[1]) THEN VStr(IntCodes(as[1])) ELSE VU
      [] op = "ntos" -> IF Len(as) = 0 THEN VU ELSE LET g == GText(as[1]) IN IF g.ok THEN VStr(g.s) ELSE VU
      [] op = "floor" -> IF IsFloatV(as[1]) THEN FloorV(as[1]) ELSE VU
      [] op = "ceil" -> IF IsFloatV(as[1]) THEN CeilV(as[1]) ELSE VU
      [] op = "fnidx" -> IF as[1].t # "s" THEN VU
                         ELSE IF ~IsNameCodes(as[1].s) THEN VInt(-1)
                         ELSE LET n == CodesToName(as[1].s, 1, Len(as[1].s))
                              IN  IF n \in DOMAIN S.fn /\ S.fn[n].k = "T" THEN VFun(n) ELSE VInt(-1)
      [] op = "tojson" -> JsonV(as)
      [] op = "i64" -> IF IsIntV(as[1]) THEN VLight(as[1]) ELSE VU
      [] op = "i64add" -> ArithL("+", as)
      [] op = "i64mul" -> ArithL("*", as)
      [] op = "i64str" -> IF as[1].t = "L" THEN VStr(IntCodes(as[1].v)) ELSE VU

\* Heap operations: [ok, m, x] with x the result
HBad(m) == [ok |-> FALSE, m |-> m, x |-> VNull]
HRet(m, x) == [ok |-> x.t # "U", m |-> m, x |-> x]
HNew(m, o) == [ok |-> TRUE, m |-> [m EXCEPT !.h = Append(@, o)], x |-> VNat(Len(m.h) + 1)]
ArrObj(e) == [k |-> "E", e |-> e, p |-> FALSE]

\* Operations on arrays; i is zero-based
ArrayOp(m, op, as) ==
    LET a == as[1].a
        e == m.h[a].e
        N == Len(e)
        Upd(e2) == [ok |-> TRUE, m |-> [m EXCEPT !.h[a].e = e2], x |-> VNull]
        I == as[2].i
        perm == m.h[a].p
        Ix == Len(as) >= 2 /\ as[2].t = "i" /\ I >= 0 /\ I < N
    IN  IF op = "array" THEN HNew(m, ArrObj(as))
        ELSE IF ~IsObj(m, as[1], "E") THEN HBad(m)
        ELSE IF op = "array_len" THEN HRet(m, VInt(N))
        ELSE IF op = "array_clear" THEN [ok |-> TRUE, m |-> [m EXCEPT !.h[a] = ArrObj(<< >>)], x |-> VNull]
        ELSE IF op = "array_sort" THEN
             IF \E i \in 1..N : ~IsIntV(e[i]) THEN HBad(m)
             ELSE [ok |-> TRUE, x |-> VNull,
                   m |-> [m EXCEPT !.h[a] = ArrObj(SortSeq(e, LAMBDA x, y : IntCmp(x, y) < 0))]]
        ELSE IF perm THEN HBad(m)
        ELSE CASE op = "array_push" -> Upd(Append(e, as[2]))
               [] op \in {"array_get", "array_get_index"} -> IF Ix THEN HRet(m, e[I + 1]) ELSE HBad(m)
               [] op \in {"array_set", "array_set_index"} -> IF Ix THEN Upd([e EXCEPT ![I + 1] = as[3]]) ELSE HBad(m)
               [] op = "array_pop" -> IF N = 0 THEN HBad(m) ELSE [Upd(SubSeq(e, 1, N - 1)) EXCEPT !.x = e[N]]
               [] op = "array_shift" -> IF N = 0 THEN HBad(m) ELSE [Upd(Tail(e)) EXCEPT !.x = e[1]]
               [] op = "array_remove" -> IF Ix THEN Upd(RemoveAt(e, I + 1)) ELSE HBad(m)
               [] op = "array_insert" -> IF Ix THEN Upd(InsertAt(e, I + 1, as[3])) ELSE HBad(m)
               [] op \in {"array_resize", "array_resize_fill"} ->
                    IF as[2].t # "i" THEN HBad(m)
                    ELSE IF I < 0 \/ I > 100000 THEN HBad(m)
                    ELSE Upd([i \in 1..I |-> IF i <= N THEN e[i] ELSE IF op = "array_resize" THEN VNull ELSE as[3]])
               [] OTHER -> HBad(m)

DictSetObj(o, key, val) ==
    LET i == KeyIx(o.ks, key)
    IN  IF i > 0 THEN [o EXCEPT !.vs[i] = val]
        ELSE [o EXCEPT !.ks = Append(@, key), !.vs = Append(@, val)]
DictOp(m, op, as) ==
    LET a == as[1].a
        o == m.h[a]
        i == KeyIx(o.ks, as[2])
        Upd(o2) == [ok |-> TRUE, m |-> [m EXCEPT !.h[a] = o2], x |-> VNull]
        new == FoldLeft(LAMBDA d, j : DictSetObj(d, as[2 * j - 1], as[2 * j]), [k |-> "D", ks |-> << >>, vs |-> << >>],
                        [j \in 1..(Len(as) \div 2) |-> j])
    IN  IF op = "dict" THEN
             IF Len(as) % 2 = 1 \/ \E j \in 1..(Len(as) \div 2) : ~GoodKey(as[2 * j - 1]) THEN HBad(m)
             ELSE HNew(m, new)
        ELSE IF ~IsObj(m, as[1], "D") THEN HBad(m)
        ELSE IF op = "dict_clear" THEN Upd([o EXCEPT !.ks = << >>, !.vs = << >>])
        ELSE IF op = "dict_keys" THEN HNew(m, [k |-> "E", e |-> o.ks, p |-> Len(o.ks) > 1])
        ELSE IF op = "dict_values" THEN HNew(m, [k |-> "E", e |-> o.vs, p |-> Len(o.ks) > 1])
        ELSE IF ~GoodKey(as[2]) THEN HBad(m)
        ELSE CASE op = "dict_put" -> Upd(DictSetObj(o, as[2], as[3]))
               [] op = "dict_exists" -> HRet(m, VBool(i > 0))
               [] op = "dict_get" -> HRet(m, IF i > 0 THEN o.vs[i] ELSE VNull)
               [] op = "dict_remove" -> IF i = 0 THEN HRet(m, VNull)
                                        ELSE Upd([o EXCEPT !.ks = RemoveAt(@, i), !.vs = RemoveAt(@, i)])
               [] OTHER -> HBad(m)

-----------------------------------------------------------------------------
(* Files. Writes through an open file are seen by others once it is closed  *)
RealPath(p) == p # << >> /\ \A i \in 1..Len(p) : p[i] = 46 \/ IsAlnum_(p[i])
FPut(fs, p, s) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN s ELSE fs[q]]
Writing(m, p) == \E i \in 1..Len(m.h) : m.h[i].k = "F" /\ m.h[i].op /\ m.h[i].path = p
FileOp(m, op, as) ==
    LET p == as[1].s
        a == as[1].a
        f == m.h[a]
        mode == as[2].s
        txt == m.fs[f.path]
    IN  CASE op = "read_file" ->
                IF as[1].t # "s" THEN HBad(m)
                ELSE IF ~RealPath(p) \/ Writing(m, p) THEN HBad(m)
                ELSE HRet(m, IF p \in DOMAIN m.fs THEN VStr(m.fs[p]) ELSE VNull)
          [] op = "write_file" ->
                IF as[1].t # "s" \/ as[2].t # "s" THEN HBad(m)
                ELSE IF ~RealPath(p) \/ Writing(m, p) THEN HBad(m)
                ELSE HRet([m EXCEPT !.fs = FPut(@, p, as[2].s)], VTrue)
          [] op = "fopen" ->
                IF as[1].t # "s" \/ as[2].t # "s" THEN HBad(m)
                ELSE IF ~RealPath(p) \/ Writing(m, p) THEN HBad(m)
                ELSE IF mode \in {<<114>>, <<114, 98>>}
                     THEN (IF p \notin DOMAIN m.fs THEN HRet(m, VNull)
                           ELSE HNew(m, [k |-> "F", path |-> p, w |-> FALSE, pos |-> 0, op |-> TRUE]))
                ELSE IF mode \in {<<119>>, <<119, 98>>}
                     THEN HNew([m EXCEPT !.fs = FPut(@, p, << >>)], [k |-> "F", path |-> p, w |-> TRUE, pos |-> 0, op |-> TRUE])
                ELSE IF mode \in {<<97>>, <<97, 98>>}
                     THEN HNew([m EXCEPT !.fs = IF p \in DOMAIN @ THEN @ ELSE FPut(@, p, << >>)],
                               [k |-> "F", path |-> p, w |-> TRUE, pos |-> -1, op |-> TRUE])
                ELSE HBad(m)
          [] ~IsObj(m, as[1], "F") -> HBad(m)
          [] ~f.op -> HBad(m)
          [] op = "fclose" -> HRet([m EXCEPT !.h[a].op = FALSE], VNull)
          [] op = "fread" ->
                IF f.w \/ as[2].t # "i" THEN HBad(m)
                ELSE IF as[2].i > 100000 THEN HBad(m)
                ELSE LET e == MinI(Len(txt), f.pos + MaxI(as[2].i, 0))
                     IN  HRet([m EXCEPT !.h[a].pos = MaxI(e, f.pos)], VStr(SubSeq(txt, f.pos + 1, e)))
          [] op = "fseek" ->
                IF f.pos < 0 \/ as[2].t # "i" THEN HBad(m)
                ELSE IF as[2].i < 0 THEN HRet(m, VNull)
                ELSE IF as[2].i > (IF f.w THEN Len(txt) ELSE 100000) THEN HBad(m)
                ELSE HRet([m EXCEPT !.h[a].pos = as[2].i], VNull)
          [] op = "fsize" -> IF f.pos < 0 THEN HBad(m)
                             ELSE HRet([m EXCEPT !.h[a].pos = 0], VInt(Len(txt)))
          [] op = "fwrite" ->
                IF ~f.w \/ as[2].t # "s" THEN HBad(m)
                ELSE IF Len(as) > 3 \/ (Len(as) = 3 /\ as[3].t # "i") THEN HBad(m)
                ELSE LET n == IF Len(as) = 3 THEN MaxI(0, MinI(as[3].i, Len(as[2].s))) ELSE Len(as[2].s)
                         s == SubSeq(as[2].s, 1, n)
                         q == IF f.pos < 0 THEN Len(txt) ELSE f.pos
                     IN  HRet([m EXCEPT !.fs = FPut(@, f.path, SubSeq(txt, 1, q) \o s \o SubSeq(txt, q + n + 1, Len(txt))),
                                             !.h[a].pos = IF f.pos < 0 THEN -1 ELSE q + n], VInt(n))
          [] OTHER -> HBad(m)

ArrayOps == {"array", "array_clear", "array_resize", "array_resize_fill", "array_get", "array_set", "array_get_index",
             "array_len", "array_set_index", "array_push", "array_pop", "array_shift", "array_remove", "array_insert", "array_sort"}
DictOps == {"dict", "dict_put", "dict_exists", "dict_get", "dict_remove", "dict_keys", "dict_values", "dict_clear"}
FileOps == {"fopen", "fclose", "fread", "fwrite", "fseek", "fsize", "read_file", "write_file"}

\* The bytes before the first zero
UpToNul(s) == LET z == SelectInSeq(s, LAMBDA c : c = 0) IN IF z = 0 THEN s ELSE SubSeq(s, 1, z - 1)

LibOp(S, m, op, as) ==
    CASE op \in PureOps -> HRet(m, PureV(S, op, as))
      [] op \in ArrayOps -> ArrayOp(m, op, as)
      [] op \in DictOps -> DictOp(m, op, as)
      [] op \in FileOps -> FileOp(m, op, as)
      [] op = "printf" ->
            IF as[1].t # "s" THEN HBad(m)
            ELSE LET t == Format(m, as[1].s, Tail(as))
                 IN  IF t.ok THEN HRet([m EXCEPT !.out = @ \o t.s], VNull)
                     ELSE HBad(IF t.s = << >> THEN m ELSE TooMuch(m))
      [] op = "input" ->
            LET e == SelectInSeq(m.inp, LAMBDA c : c = 10)
                n == IF e = 0 THEN Len(m.inp) ELSE e - 1
            IN  IF Len(as) > 0 /\ as[1].t # "s" THEN HBad(m)
                ELSE HRet([m EXCEPT !.out = @ \o (IF as = << >> THEN << >> ELSE UpToNul(as[1].s)),
                                    !.inp = SubSeq(@, MinI(n + 2, Len(@) + 1), Len(@))],
                          VStr(SubSeq(m.inp, 1, n)))
      [] OTHER -> HBad(m)

-----------------------------------------------------------------------------
(* Calls                                                                    *)
\* Calls the Tiny function n: r is what remains to be done after it, vs the other values of the caller
Enter(S, m, n, as, vs, r) ==
    LET f == S.fn[n]
        b == m.base + Len(vs)
    IN  IF Len(as) # Len(f.ps) THEN GiveUp(m)
        ELSE IF m.d >= MaxDepth \/ b + Len(as) + f.nl + 4 >= MaxSlots THEN TooMuch(m)
        ELSE IF S.lst.on /\ ~(n \in DOMAIN S.lst.fn) THEN GiveUp(m)
        ELSE [m EXCEPT !.st = "run", !.d = @ + 1, !.base = b + Len(as) + (IF S.lst.on THEN 0 ELSE f.nl),
                       !.k = <<[c |-> r, v |-> vs, a |-> m.a, l |-> m.l, base |-> m.base, rv |-> m.rv], @>>,
                       !.a = as, !.v = << >>,
                       !.l = IF S.lst.on THEN << >> ELSE Nulls(f.nl),
                       !.c = IF S.lst.on THEN <<[k |-> "vm", i |-> S.lst.fn[n]], << >>>> ELSE <<f.body, <<[k |-> "fret"], << >>>>>>]
\* Returns x to the caller
Leave(m, x) ==
    LET f == m.k[1]
    IN  IF m.k = << >> THEN GiveUp(m)
        ELSE [m EXCEPT !.c = f.c, !.v = Append(f.v, x), !.a = f.a, !.l = f.l, !.base = f.base, !.rv = f.rv, !.d = @ - 1, !.k = m.k[2]]

\* The loop which break and continue refer to
RECURSIVE FindLoop(_)
FindLoop(c) == IF c[1].k \in {"wm", "fm"} THEN c ELSE FindLoop(c[2])

CallStep(S, m, t, r) ==
    LET f  == S.fn[t.f]
        n  == t.n
        as == SubSeq(m.v, Len(m.v) - n + 1, Len(m.v))
        vs == DropV(m, n)
    IN  IF f.k = "T" THEN Enter(S, m, t.f, as, vs, r)
        ELSE IF f.def[1] = "host" THEN [m EXCEPT !.st = "ev"]
        ELSE IF f.def[1] = "callfn"
             THEN (IF as[1].t # "d" THEN GiveUp(m)
                   ELSE Enter(S, m, as[1].n, Tail(as), vs, r))
        ELSE IF f.def[1] = "line" \* where the header of the statement has one line
             THEN (IF t.sp[2] # t.sp[3] \/ t.sp[2] = 0 THEN GiveUp(m) ELSE [m EXCEPT !.c = r, !.v = Append(vs, VInt(t.sp[2]))])
        ELSE LET x == LibOp(S, m, f.def[1], as)
             IN  IF ~x.ok THEN GiveUp(x.m)
                 ELSE [x.m EXCEPT !.c = r, !.v = Append(vs, x.x)]

\* Pushes the tasks es in order, then the task t
Tasks(es, t, r) == FoldRight(LAMBDA e, acc : <<e, acc>>, es, <<t, r>>)

\* One step of a running machine
StepOf(S, m) ==
    LET t == m.c[1]
        r == m.c[2]
    IN
    IF m.c = << >> THEN [m EXCEPT !.st = "done"]
    ELSE
    CASE t.k = "lit" -> PushV(m, r, t.v)
      [] t.k = "loc" -> PushV(m, r, m.l[t.i])
      [] t.k = "arg" -> PushV(m, r, m.a[t.i])
      [] t.k = "glob" -> IF t.i > Len(m.g) THEN GiveUp(m) ELSE PushV(m, r, m.g[t.i])
      [] t.k = "bin" -> [m EXCEPT !.c = <<t.l, <<t.r, <<[k |-> "binT", op |-> t.op], r>>>>>>]
      [] t.k = "binT" -> Yield(m, 2, r, BinV(t.op, m.v[Len(m.v) - 1], TopV(m)))
      [] t.k = "call" -> [m EXCEPT !.c = Tasks(t.as, [k |-> "callT", f |-> t.f, n |-> Len(t.as), sp |-> t.sp], r)]
      [] t.k = "callT" -> CallStep(S, m, t, r)
      [] t.k = "seq" -> IF t.i > Len(t.ss) THEN [m EXCEPT !.c = r]
                        ELSE [m EXCEPT !.c = <<t.ss[t.i], <<[t EXCEPT !.i = @ + 1], r>>>>]
      [] t.k = "blk" -> [m EXCEPT !.c = <<[k |-> "seq", ss |-> t.ss, i |-> 1], r>>]
      [] t.k = "expr" -> [m EXCEPT !.c = <<t.e, <<[k |-> "pop"], r>>>>]
      [] t.k = "pop" -> [m EXCEPT !.c = r, !.v = DropV(m, 1)]
      [] t.k = "setl" -> [m EXCEPT !.c = <<t.e, <<[k |-> "setlT", i |-> t.i], r>>>>]
      [] t.k = "setlT" -> [m EXCEPT !.c = r, !.l[t.i] = TopV(m), !.v = DropV(m, 1)]
      [] t.k = "seta" -> [m EXCEPT !.c = <<t.e, <<[k |-> "setaT", i |-> t.i], r>>>>]
      [] t.k = "setaT" -> [m EXCEPT !.c = r, !.a[t.i] = TopV(m), !.v = DropV(m, 1)]
      [] t.k = "setg" -> [m EXCEPT !.c = <<t.e, <<[k |-> "setgT", i |-> t.i], r>>>>]
      [] t.k = "setgT" -> IF t.i > Len(m.g) THEN GiveUp(m)
                          ELSE [m EXCEPT !.c = r, !.g[t.i] = TopV(m), !.v = DropV(m, 1)]
      [] t.k = "if" -> [m EXCEPT !.c = <<t.c, <<[k |-> "ifT", a |-> t.a, b |-> t.b], r>>>>]
      [] t.k = "if3" -> [m EXCEPT !.c = <<t.c, <<[k |-> "ifT", a |-> t.a, b |-> t.b], r>>>>]
      [] t.k = "ifT" -> IF TopV(m).t # "b" THEN GiveUp(m)
                        ELSE [m EXCEPT !.c = <<IF TopV(m).b THEN t.a ELSE t.b, r>>, !.v = DropV(m, 1)]
      [] t.k = "while" -> [m EXCEPT !.c = <<t.c, <<[k |-> "wt", s |-> t], r>>>>]
      [] t.k = "wt" -> IF TopV(m).t # "b" THEN GiveUp(m)
                       ELSE [m EXCEPT !.v = DropV(m, 1),
                                      !.c = IF TopV(m).b THEN <<t.s.a, <<[k |-> "wm", s |-> t.s], r>>>> ELSE r]
      [] t.k = "wm" -> [m EXCEPT !.c = <<t.s, r>>]
      [] t.k = "for" -> [m EXCEPT !.c = <<t.i, <<t.c, <<[k |-> "ft", s |-> t], r>>>>>>]
      [] t.k = "ft" -> IF TopV(m).t # "b" THEN GiveUp(m)
                       ELSE [m EXCEPT !.v = DropV(m, 1),
                                      !.c = IF TopV(m).b THEN <<t.s.a, <<[k |-> "fm", s |-> t.s], r>>>> ELSE r]
      [] t.k = "fm" -> [m EXCEPT !.c = <<t.s.s, <<t.s.c, <<[k |-> "ft", s |-> t.s], r>>>>>>]
      [] t.k = "brk" -> [m EXCEPT !.c = FindLoop(r)[2]]
      [] t.k = "cont" -> [m EXCEPT !.c = FindLoop(r)]
      [] t.k = "nop" -> [m EXCEPT !.c = r]
      [] t.k = "ret" -> IF t.e.k = "none" THEN Leave(m, VNull)
                        ELSE [m EXCEPT !.c = <<t.e, <<[k |-> "retT"], r>>>>]
      [] t.k = "retT" -> Leave(m, TopV(m))
      [] t.k = "fret" -> Leave(m, VNull)
      [] t.k = "and" -> [m EXCEPT !.c = <<t.l, <<[k |-> "andT", r |-> t.r], r>>>>]
      [] t.k = "andT" -> IF TopV(m).t # "b" THEN GiveUp(m)
                         ELSE IF TopV(m).b THEN [m EXCEPT !.c = <<t.r, r>>, !.v = DropV(m, 1)]
                         ELSE [m EXCEPT !.c = r]
      [] t.k = "or" -> [m EXCEPT !.c = <<t.l, <<[k |-> "orT", r |-> t.r], r>>>>]
      [] t.k = "orT" -> IF TopV(m).t # "b" THEN GiveUp(m)
                        ELSE IF ~TopV(m).b THEN [m EXCEPT !.c = <<t.r, r>>, !.v = DropV(m, 1)]
                        ELSE [m EXCEPT !.c = r]
      [] t.k = "neg" -> [m EXCEPT !.c = <<t.e, <<[k |-> "negT"], r>>>>]
      [] t.k = "negT" -> Yield(m, 1, r, NegV(TopV(m)))
      [] t.k = "not" -> [m EXCEPT !.c = <<t.e, <<[k |-> "notT"], r>>>>]
      [] t.k = "notT" -> Yield(m, 1, r, IF TopV(m).t = "b" THEN VBool(~TopV(m).b) ELSE VU)
      [] t.k = "dot" -> [m EXCEPT !.c = <<t.e, <<[k |-> "dotT", i |-> t.i], r>>>>]
      [] t.k = "dotT" -> IF TopV(m).t # "S" THEN GiveUp(m)
                         ELSE IF t.i > Len(m.h[TopV(m).a].f) THEN GiveUp(m)
                         ELSE Yield(m, 1, r, m.h[TopV(m).a].f[t.i])
      [] t.k = "setdot" -> [m EXCEPT !.c = <<t.e, <<t.o, <<[k |-> "setdotT", i |-> t.i], r>>>>>>]
      [] t.k = "setdotT" -> IF TopV(m).t # "S" THEN GiveUp(m)
                            ELSE IF t.i > Len(m.h[TopV(m).a].f) THEN GiveUp(m)
                            ELSE [m EXCEPT !.c = r, !.h[TopV(m).a].f[t.i] = m.v[Len(m.v) - 1], !.v = DropV(m, 2)]
      [] t.k = "new" -> [m EXCEPT !.c = Tasks(t.as, [k |-> "newT", n |-> Len(t.as), ty |-> t.n], r)]
      [] t.k = "newT" -> [m EXCEPT !.c = r,
                                   !.h = Append(@, [k |-> "S", n |-> t.ty, f |-> SubSeq(m.v, Len(m.v) - t.n + 1, Len(m.v))]),
                                   !.v = Append(DropV(m, t.n), VRef(Len(m.h) + 1))]
      \* stops where a call by the host ends
      [] t.k \in {"hend", "cend"} -> [m EXCEPT !.st = "ev"]

-----------------------------------------------------------------------------
(* What can be reached                                                      *)
RefOf(v) == IF v.t \in {"S", "N"} THEN {v.a} ELSE {}
RefsOf(vs) == FoldLeft(LAMBDA s, v : s \cup RefOf(v), {}, vs)
StrCount(vs) == FoldLeft(LAMBDA n, v : IF v.t = "s" THEN n + 1 ELSE n, 0, vs)
ObjVals(o) == CASE o.k = "S" -> o.f
                [] o.k = "E" -> o.e
                [] o.k = "D" -> o.ks \o o.vs
                [] o.k = "X" -> o.e
                [] OTHER -> << >>
RECURSIVE FrameVals(_, _)
FrameVals(k, acc) == IF k = << >> THEN acc ELSE FrameVals(k[2], acc \o k[1].v \o k[1].a \o k[1].l)
Roots(m) == FrameVals(m.k, m.g \o m.v \o m.a \o m.l)
RECURSIVE ReachR(_, _, _)
ReachR(m, done, todo) ==
    IF todo = {} THEN done
    ELSE LET d == done \cup todo
             n == UNION {RefsOf(ObjVals(m.h[a])) : a \in todo}
         IN  ReachR(m, d, n \ d)
Reach(m) == ReachR(m, {}, RefsOf(Roots(m)))
LiveSerials(m, R) == {m.h[a].ser : a \in {a \in R : m.h[a].k = "X"}}
\* The number of objects and strings which can be reached
LiveSize(m, R) == Cardinality(R) + StrCount(Roots(m))
                  + FoldLeft(LAMBDA n, a : n + StrCount(ObjVals(m.h[a])), 0, SetToSeq(R))

-----------------------------------------------------------------------------
(* The libraries                                                            *)
Lib(S, op, n, ps, va, r) == AddFn(S, n, [Fn0 EXCEPT !.ps = ps, !.va = va, !.ret = r, !.def = <<op, 0>>])
TDict == T("dict")  TDsi == T("dict_str_int")  TFile == T("file")  TI64 == T("i64")
BindDict(S0) ==
    LET S1 == Register(Register(Register(S0, "array_any"), "array_str"), "dict")
        A(S) == Lib(S, "dict", "dict", << >>, TRUE, TDict)
        B(S) == Lib(S, "dict_put", "dict_put", <<TDict, TAny, TAny>>, FALSE, TVoid)
        C(S) == Lib(S, "dict_exists", "dict_exists", <<TDict, TAny>>, FALSE, TBool)
        D(S) == Lib(S, "dict_get", "dict_get", <<TDict, TAny>>, FALSE, TAny)
        E(S) == Lib(S, "dict_remove", "dict_remove", <<TDict, TAny>>, FALSE, TVoid)
        F(S) == Lib(S, "dict_keys", "dict_keys", <<TDict>>, FALSE, T("array_any"))
        G(S) == Lib(S, "dict_values", "dict_values", <<TDict>>, FALSE, T("array_any"))
        H(S) == Lib(S, "dict_clear", "dict_clear", <<TDict>>, FALSE, TVoid)
        I(S) == Lib(S, "dict_get", "dict_get_index", <<TDict, TStr>>, FALSE, TAny)
        J(S) == Lib(S, "dict_put", "dict_set_index", <<TDict, TStr, TAny>>, FALSE, TVoid)
        S2 == Register(J(I(H(G(F(E(D(C(B(A(S1)))))))))), "dict_str_int")
        K(S) == Lib(S, "dict", "dict_str_int", << >>, TRUE, TDsi)
        L(S) == Lib(S, "dict_put", "dict_str_int_put", <<TDsi, TStr, TInt>>, FALSE, TVoid)
        M(S) == Lib(S, "dict_exists", "dict_str_int_exists", <<TDsi, TStr>>, FALSE, TBool)
        N(S) == Lib(S, "dict_get", "dict_str_int_get", <<TDsi, TStr>>, FALSE, TInt)
        O(S) == Lib(S, "dict_remove", "dict_str_int_remove", <<TDsi, TStr>>, FALSE, TVoid)
        P(S) == Lib(S, "dict_keys", "dict_str_int_keys", <<TDsi>>, FALSE, T("array_str"))
        Q(S) == Lib(S, "dict_clear", "dict_str_int_clear", <<TDsi>>, FALSE, TVoid)
    IN  Q(P(O(N(M(L(K(S2)))))))
BindIO(S0) ==
    LET A(S) == Lib(S, "fopen", "fopen", <<TStr, TStr>>, FALSE, TFile)
        B(S) == Lib(S, "fclose", "fclose", <<TFile>>, FALSE, TVoid)
        C(S) == Lib(S, "fread", "fread", <<TFile, TInt>>, FALSE, TStr)
        D(S) == Lib(S, "fwrite", "fwrite", <<TFile, TStr>>, TRUE, TVoid)
        E(S) == Lib(S, "fseek", "fseek", <<TFile, TInt>>, FALSE, TVoid)
        F(S) == Lib(S, "fsize", "fsize", <<TFile>>, FALSE, TInt)
        G(S) == Lib(S, "read_file", "read_file", <<TStr>>, FALSE, TStr)
        H(S) == Lib(S, "write_file", "write_file", <<TStr, TStr>>, FALSE, TBool)
        I(S) == Lib(S, "input", "input", << >>, TRUE, TStr)
        J(S) == Lib(S, "printf", "printf", <<TStr>>, TRUE, TVoid)
    IN  J(I(H(G(F(E(D(C(B(A(Register(S0, "file")))))))))))
BindI64(S0) ==
    LET A(S) == Lib(S, "i64", "int_to_i64", <<TInt>>, FALSE, TI64)
        B(S) == Lib(S, "i64add", "i64_add_many", <<TI64>>, TRUE, TI64)
        C(S) == Lib(S, "i64mul", "i64_mul_many", <<TI64>>, TRUE, TI64)
        D(S) == Lib(S, "i64str", "i64_to_string", <<TI64>>, FALSE, TStr)
    IN  D(C(B(A(Register(S0, "i64")))))
BindStd(S0) ==
    LET Z(S) == BindConst(S, "INT_MAX", VInt(MAXI), TInt)
        A(S) == Lib(S, "strlen", "strlen", <<TStr>>, FALSE, TInt)
        B(S) == Lib(S, "stridx", "stridx", <<TStr, TInt>>, FALSE, TInt)
        C(S) == Lib(S, "stridx", "sget", <<TStr, TInt>>, FALSE, TInt)
        D(S) == Lib(S, "strchr", "strchr", <<TStr, TInt>>, FALSE, TInt)
        E(S) == Lib(S, "strcat", "strcat", <<TStr, TStr>>, TRUE, TStr)
        F(S) == Lib(S, "substr", "substr", <<TStr, TInt, TInt>>, FALSE, TStr)
        G(S) == Lib(S, "stridx", "str_get_index", <<TStr, TInt>>, FALSE, TInt)
        H(S) == Lib(S, "ston", "ston", <<TStr>>, FALSE, TFloat)
        I(S) == Lib(S, "stoi", "str_to_int", <<TStr>>, FALSE, TInt)
        J(S) == Lib(S, "itos", "int_to_str", <<TInt>>, FALSE, TStr)
        K(S) == Lib(S, "ntos", "ntos", << >>, TRUE, TStr)
        L(S) == Lib(S, "stoi", "stoi", <<TStr, TInt>>, FALSE, TInt)
        M(S) == Lib(S, "any", "time", << >>, FALSE, TInt)
        N(S) == Lib(S, "any", "srand", <<TInt>>, FALSE, TVoid)
        O(S) == Lib(S, "any", "rand", << >>, FALSE, TInt)
        P(S) == Lib(S, "floor", "floor", <<TFloat>>, FALSE, TFloat)
        Q(S) == Lib(S, "ceil", "ceil", <<TFloat>>, FALSE, TFloat)
        R(S) == Lib(S, "fnidx", "get_function_index", <<TStr>>, FALSE, TAny)
        U(S) == Lib(S, "callfn", "call_function", <<TAny>>, TRUE, TAny)
        V(S) == Lib(S, "any", "exit", <<TInt>>, FALSE, TVoid)
        W(S) == FoldLeft(LAMBDA s, n : Lib(s, "tojson", n \o "_to_json", << >>, TRUE, TAny), S, <<"bool", "str", "int", "float">>)
        X(S) == Lib(Lib(S, "line", "get_executing_line", << >>, TRUE, TAny), "any", "debug_break", << >>, TRUE, TAny)
        Y(S) == [S EXCEPT !.mac = @ \cup {"delegate", "json"}]
    IN  Y(X(W(V(U(R(Q(P(O(N(M(L(K(J(I(H(G(F(E(D(C(B(A(Z(S0))))))))))))))))))))))))
BindLib(S, lib) == CASE lib = "array" -> [S EXCEPT !.mac = @ \cup {"array"}]
                     [] lib = "dict" -> BindDict(S)
                     [] lib = "io" -> BindIO(S)
                     [] lib = "i64" -> BindI64(S)
                     [] lib = "std" -> BindStd(S)
                     [] lib = "host" -> [S EXCEPT !.mac = @ \cup {"host"}]
NewState2 == [NewState EXCEPT !.fn["int"].def = <<"toint", 0>>, !.fn["float"].def = <<"tofloat", 0>>]
AllLibs == <<"array", "dict", "io", "i64", "std", "host">>
FullState == TLCEval(FoldLeft(BindLib, NewState2, AllLibs))
=============================================================================
