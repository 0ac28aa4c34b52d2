------------------------------ MODULE TinyVM ------------------------------
(* A machine which executes a program by its listing alone, and how         *)
(* threads run: on the syntax tree or, where the host asked for a listing   *)
(* of the state, on the listing.                                            *)
(*                                                                          *)
(* The machine is the one of TinyExec. Its task is                          *)
(*   [k "vm", i] the instruction number i and those which follow            *)
(*   [k "rv"]    the result of a call becomes the value of GET_RETVAL       *)
(* v holds the locals and then the operands of the call, a the arguments.   *)
EXTENDS TinyDisasm

At2(m, n) == m.v[Len(m.v) - n]
VmNext(i, r) == <<[k |-> "vm", i |-> i], r>>
BadM(m) == [m EXCEPT !.st = "bad"]
VmBin(op) == CASE op = "ADD" -> "+" [] op = "SUB" -> "-" [] op = "MUL" -> "*" [] op = "DIV" -> "/" [] op = "MOD" -> "%"
               [] op = "OR" -> "|" [] op = "AND" -> "&" [] op = "SHIFT_LEFT" -> "<<" [] op = "SHIFT_RIGHT" -> ">>"
               [] op = "LT" -> "<" [] op = "LTE" -> "<=" [] op = "GT" -> ">" [] op = "GTE" -> ">=" [] op = "EQU" -> "=="
BinOps == {"ADD", "SUB", "MUL", "DIV", "MOD", "OR", "AND", "SHIFT_LEFT", "SHIFT_RIGHT", "LT", "LTE", "GT", "GTE", "EQU"}
\* The number of operands which an instruction takes from the stack
Needs(I) == CASE I.op \in BinOps \cup {"STRUCT_SET"} -> 2
              [] I.op \in {"ADD1", "SUB1", "LOG_NOT", "SET", "GOTOZ", "RETURN_VALUE", "SETLOCAL", "STRUCT_GET"} -> 1
              [] I.op \in {"CALL", "CALLF", "PUSH_STRUCT"} -> I.n
              [] OTHER -> 0

VmStep(S, m, t, r) ==
    LET I == S.lst.is[t.i]
        nx == VmNext(t.i + 1, r)
        Go(x) == [m EXCEPT !.c = x]
        Push(x) == PushV(m, nx, x)
        L == Len(m.v)
        A == Len(m.a)
    IN
    IF t.i > Len(S.lst.is) THEN BadM(m)
    ELSE IF L < Needs(I) THEN BadM(m)
    ELSE
    CASE I.op = "PUSH_NULL" -> Push(VNull)
      [] I.op = "PUSH_NULL_N" -> IF m.base + L + I.n >= MaxSlots THEN TooMuch(m) ELSE [m EXCEPT !.c = nx, !.v = @ \o Nulls(I.n)]
      [] I.op = "PUSH_TRUE" -> Push(VTrue)
      [] I.op = "PUSH_FALSE" -> Push(VFalse)
      [] I.op = "PUSH_0" -> Push(VInt(0))
      [] I.op = "PUSH_1" -> Push(VInt(1))
      [] I.op \in {"PUSH_INT", "PUSH_CHAR", "PUSH_FLOAT", "PUSH_STRING", "PUSH_STRING_FF"} -> Push(I.v)
      [] I.op \in BinOps -> Yield(m, 2, nx, BinV(VmBin(I.op), At2(m, 1), At2(m, 0)))
      [] I.op \in {"ADD1", "SUB1"} ->
            IF ~IsIntV(TopV(m)) THEN GiveUp(m) ELSE Yield(m, 1, nx, BinV(IF I.op = "ADD1" THEN "+" ELSE "-", TopV(m), VInt(1)))
      [] I.op = "LOG_NOT" -> IF TopV(m).t # "b" THEN GiveUp(m) ELSE Yield(m, 1, nx, VBool(~TopV(m).b))
      [] I.op = "SET" -> IF I.n < 0 THEN BadM(m)
                         ELSE IF I.n >= Len(m.g) THEN GiveUp(m)
                         ELSE [m EXCEPT !.c = nx, !.g[I.n + 1] = TopV(m), !.v = DropV(m, 1)]
      [] I.op = "GET" -> IF I.n < 0 THEN BadM(m) ELSE IF I.n >= Len(m.g) THEN GiveUp(m) ELSE Push(m.g[I.n + 1])
      [] I.op \in {"GETLOCAL", "GETLOCAL_W"} ->
            IF I.n >= 0 THEN (IF I.n >= L THEN BadM(m) ELSE Push(m.v[I.n + 1]))
            ELSE IF A + I.n < 0 THEN BadM(m) ELSE Push(m.a[A + I.n + 1])
      [] I.op = "SETLOCAL" ->
            IF I.n >= 0 THEN (IF I.n >= L - 1 THEN BadM(m)
                              ELSE [m EXCEPT !.c = nx, !.v = [DropV(m, 1) EXCEPT ![I.n + 1] = TopV(m)]])
            ELSE IF A + I.n < 0 THEN BadM(m)
            ELSE [m EXCEPT !.c = nx, !.a[A + I.n + 1] = TopV(m), !.v = DropV(m, 1)]
      [] I.op = "GOTO" -> Go(VmNext(I.t, r))
      [] I.op = "GOTOZ" -> IF TopV(m).t # "b" THEN GiveUp(m)
                           ELSE [m EXCEPT !.c = IF TopV(m).b THEN nx ELSE VmNext(I.t, r), !.v = DropV(m, 1)]
      [] I.op = "PUSH_STRUCT" ->
            [m EXCEPT !.c = nx, !.v = Append(DropV(m, I.n), VRef(Len(m.h) + 1)),
                      !.h = Append(@, [k |-> "S", n |-> "", f |-> SubSeq(m.v, L - I.n + 1, L)])]
      [] I.op = "STRUCT_GET" ->
            IF TopV(m).t # "S" THEN GiveUp(m)
            ELSE IF I.n < 0 \/ I.n >= Len(m.h[TopV(m).a].f) THEN BadM(m)
            ELSE Yield(m, 1, nx, m.h[TopV(m).a].f[I.n + 1])
      [] I.op = "STRUCT_SET" ->
            IF TopV(m).t # "S" THEN GiveUp(m)
            ELSE IF I.n < 0 \/ I.n >= Len(m.h[TopV(m).a].f) THEN BadM(m)
            ELSE [m EXCEPT !.c = nx, !.h[TopV(m).a].f[I.n + 1] = At2(m, 1), !.v = DropV(m, 2)]
      [] I.op = "CALL" ->
            IF m.d >= MaxDepth \/ m.base + L + 4 >= MaxSlots THEN TooMuch(m)
            ELSE [m EXCEPT !.d = @ + 1, !.base = @ + L,
                           !.k = <<[c |-> <<[k |-> "rv"], nx>>, v |-> DropV(m, I.n), a |-> m.a, l |-> m.l, base |-> m.base, rv |-> m.rv], @>>,
                           !.a = SubSeq(m.v, L - I.n + 1, L), !.l = << >>, !.v = << >>, !.c = VmNext(I.t, << >>)]
      [] I.op = "CALLF" ->
            IF I.f \notin DOMAIN S.fn THEN BadM(m)
            ELSE IF S.fn[I.f].k = "T" THEN BadM(m)
            ELSE Go(<<[k |-> "callT", f |-> I.f, n |-> I.n, sp |-> <<I.file, I.line, I.line>>], <<[k |-> "rv"], nx>>>>)
      [] I.op = "RETURN" -> IF m.k = << >> THEN BadM(m) ELSE Leave(m, VNull)
      [] I.op = "RETURN_VALUE" -> IF m.k = << >> THEN BadM(m) ELSE Leave(m, TopV(m))
      [] I.op = "GET_RETVAL" -> Push(m.rv)
      [] I.op = "HALT" -> Go(<< >>)
      [] OTHER -> BadM(m)

-----------------------------------------------------------------------------
(* Running                                                                  *)
AnyStep(S, m) ==
    IF m.c = << >> THEN StepOf(S, m)
    ELSE CASE m.c[1].k = "vm" -> VmStep(S, m, m.c[1], m.c[2])
           [] m.c[1].k = "rv" -> [m EXCEPT !.c = @[2], !.rv = TopV(m), !.v = DropV(m, 1)]
           [] OTHER -> StepOf(S, m)

\* Runs until something can be observed, but not for ever
MaxSteps == 150000
RunChunk == TLCEval([i \in 1..64 |-> i])
RECURSIVE RunM(_, _)
RunM(S, m) ==
    LET r == FoldLeft(LAMBDA x, i : IF x.st = "run" THEN AnyStep(S, x) ELSE x, m, RunChunk)
        r2 == [r EXCEPT !.n = @ + 64]
    IN  IF r.st # "run" THEN r2 ELSE IF r2.n > MaxSteps THEN [r2 EXCEPT !.st = "U"] ELSE RunM(S, r2)
\* A single step
Step1(S, m) == [AnyStep(S, m) EXCEPT !.n = @ + 1]

StartM(S, m) ==
    [m EXCEPT !.st = "run", !.hasg = TRUE, !.g = IF m.hasg THEN @ ELSE Nulls(S.ng),
              !.c = IF S.lst.on THEN VmNext(1, << >>) ELSE <<[k |-> "seq", ss |-> S.code, i |-> 1], << >>>>]

\* The host calls the function n: whatever was going on continues after the task hend
HostEnter(S, m, n, as) ==
    LET m1 == [m EXCEPT !.hasg = TRUE, !.g = IF m.hasg THEN @ ELSE Nulls(S.ng)]
    IN  Enter(S, m1, n, as, m1.v, <<[k |-> "hend", st |-> m.st], m1.c>>)
=============================================================================
