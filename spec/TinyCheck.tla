------------------------------ MODULE TinyCheck ------------------------------
(* What a state knows (its types, functions, globals, constants and macros),*)
(* which sources it accepts and what an accepted source adds to it.         *)
(*                                                                          *)
(* A state S is a record                                                    *)
(*   ty  name -> [k, fs]  k: prim, foreign, struct or undef (only mentioned *)
(*       by the host), fs: sequence of fields [n, ty]                       *)
(*   fn  name -> [k, ps, va, ret, nl, body, def]  k: "F" foreign, "T" Tiny  *)
(*   gv  name -> [i, ty]   globals and their slots                          *)
(*   ct  name -> [v, ty]   constants                                        *)
(*   mac set of macro names,  ng number of globals,  nd counter of sources  *)
(*   code sequence of resolved statements: the top level of the program     *)
(*                                                                          *)
(* Resolved expressions: lit v | loc i | arg i | glob i | call f as sp |    *)
(*   neg e | not e | and l r | or l r | bin op l r | new as n | dot e i |   *)
(*   if3 c a b.  sp = <<file, first line, last line>> of the statement.     *)
(* Resolved statements: nop | blk ss | expr e | setl/seta/setg i e |        *)
(*   setdot i o e (e before o) | ret e | brk | cont | if | while | for      *)
EXTENDS TinyParse

T(n) == [n |-> n, q |-> FALSE]
TNone == T("")
TInt == T("int")   TFloat == T("float")  TBool == T("bool")  TStr == T("str")
TAny == T("any")   TVoid == T("void")

Prims == {"void", "bool", "int", "float", "str", "any"}
TySym(k) == [k |-> k, fs |-> << >>]
Fn0 == [k |-> "F", ps |-> << >>, va |-> FALSE, ret |-> TAny, nl |-> 0, body |-> << >>, def |-> <<0, 0>>]
EmptyMap == [n \in {} |-> << >>]

Put(f, n, x) == [m \in (DOMAIN f) \cup {n} |-> IF m = n THEN x ELSE f[m]]

\* A new state: the conversion functions exist from the start
NewState ==
    [ty |-> [n \in Prims |-> TySym("prim")],
     fn |-> [n \in {"int", "float"} |->
               IF n = "int" THEN [Fn0 EXCEPT !.ps = <<TFloat>>, !.ret = TInt]
               ELSE [Fn0 EXCEPT !.ps = <<TInt>>, !.ret = TFloat]],
     gv |-> EmptyMap, ct |-> EmptyMap, mac |-> {}, ng |-> 0, nd |-> 0, code |-> << >>,
     lst |-> [on |-> FALSE, raw |-> << >>]]

AddFn(S, n, f) == IF n \in DOMAIN S.fn THEN S ELSE [S EXCEPT !.fn = Put(@, n, f)]
Register(S, n) == IF n \in DOMAIN S.ty /\ S.ty[n].k # "undef" THEN S
                  ELSE [S EXCEPT !.ty = Put(@, n, TySym("foreign"))]
Mention(S, n) == IF n \in DOMAIN S.ty THEN S ELSE [S EXCEPT !.ty = Put(@, n, TySym("undef"))]
DefinedType(S, n) == n \in DOMAIN S.ty /\ S.ty[n].k # "undef"

RECURSIVE Assignable(_, _)
Assignable(src, dst) ==
    IF src = TVoid THEN FALSE
    ELSE IF dst = TAny THEN TRUE
    ELSE IF src = TAny THEN FALSE
    ELSE IF dst.q THEN Assignable(T(src.n), T(dst.n))
    ELSE src = dst

TyName(t) == IF t.q THEN t.n \o "?" ELSE t.n

-----------------------------------------------------------------------------
(* Signatures given by the host: [ok, n, f, ms], ms the types mentioned     *)
RECURSIVE SigArgs(_, _, _, _)
SigArgs(ts, p, ps, va) ==
    IF ts[p].k = ")" THEN Ok(p + 1, [ps |-> ps, va |-> va])
    ELSE IF ts[p].k = "," THEN SigArgs(ts, p + 1, ps, va)
    ELSE IF ts[p].k = "..." THEN SigArgs(ts, p + 1, ps, TRUE)
    ELSE LET t == PType(ts, p) IN IF t.ok THEN SigArgs(ts, t.p, Append(ps, t.a), va) ELSE t

\* Binding a foreign function by its signature
BindSig(S, src) ==
    LET ts == Lex(src) \o <<Tok("ERR", 0, 0, 0), Tok("ERR", 0, 0, 0)>>
        n  == ts[1].s
    IN  IF ts[2].k # "("
        THEN AddFn(S, n, [Fn0 EXCEPT !.va = TRUE])
        ELSE LET a  == SigArgs(ts, 3, << >>, FALSE)
                 r  == IF ts[a.p].k = ":" THEN PType(ts, a.p + 1).a ELSE TAny
                 S2 == FoldLeft(LAMBDA s, t : Mention(s, t.n), S, Append(a.a.ps, r))
             IN  AddFn(S2, n, [Fn0 EXCEPT !.ps = a.a.ps, !.va = a.a.va, !.ret = r])

BindConst(S, n, v, ty) == [S EXCEPT !.ct = Put(@, n, [v |-> v, ty |-> ty])]

-----------------------------------------------------------------------------
(* Expressions. E is the environment of a statement:                        *)
(*   S, loc: sequence of [n, ty, live, sc], args: sequence of [n, ty],      *)
(*   fun: inside of a function, ret: its type, sc: scope, loop, sp, fk, file *)
Bad == [ok |-> FALSE, x |-> << >>, t |-> TNone]
Good(x, t) == [ok |-> TRUE, x |-> x, t |-> t]

\* Finds a variable: [k (loc arg glob const none), i, t, v]
LookVar(E, n) ==
    LET li == IF E.fun THEN SelectInSeq(E.loc, LAMBDA s : s.live /\ s.n = n) ELSE 0
        ai == IF E.fun THEN SelectInSeq(E.args, LAMBDA s : s.n = n) ELSE 0
    IN  IF li > 0 THEN [k |-> "loc", i |-> li, t |-> E.loc[li].ty, v |-> VNull]
        ELSE IF ai > 0 THEN [k |-> "arg", i |-> ai, t |-> E.args[ai].ty, v |-> VNull]
        ELSE IF n \in DOMAIN E.S.gv THEN [k |-> "glob", i |-> E.S.gv[n].i, t |-> E.S.gv[n].ty, v |-> VNull]
        ELSE IF n \in DOMAIN E.S.ct THEN [k |-> "const", i |-> 0, t |-> E.S.ct[n].ty, v |-> E.S.ct[n].v]
        ELSE [k |-> "none", i |-> 0, t |-> TNone, v |-> VNull]

LitType(v) == CASE v.t = "n" -> TAny
                [] v.t = "b" -> TBool
                [] v.t \in {"i", "I", "U"} -> TInt
                [] v.t \in {"f", "x"} -> TFloat
                [] v.t = "s" -> TStr

IsNumT(t) == t = TInt \/ t = TFloat

BinType(op, a, b) ==
    CASE op \in {"+", "-", "*", "/"} ->
            IF IsNumT(a) /\ IsNumT(b) THEN (IF a = TInt /\ b = TInt THEN TInt ELSE TFloat) ELSE TNone
      [] op \in {"&", "|", "%", "<<", ">>"} -> IF a = TInt /\ b = TInt THEN TInt ELSE TNone
      [] op \in {"&&", "||"} -> IF a = TBool /\ b = TBool THEN TBool ELSE TNone
      [] op \in {"<", ">", "<=", ">="} -> IF IsNumT(a) /\ IsNumT(b) THEN TBool ELSE TNone
      [] op \in {"==", "!="} -> IF a # TVoid /\ b # TVoid THEN TBool ELSE TNone

MkBin(op, l, r) == IF op = "&&" THEN [k |-> "and", l |-> l, r |-> r]
                   ELSE IF op = "||" THEN [k |-> "or", l |-> l, r |-> r]
                   ELSE [k |-> "bin", op |-> op, l |-> l, r |-> r]

\* Whether arguments of types ts fit the function f
ArgsFit(f, ts) ==
    /\ IF f.va THEN Len(ts) >= Len(f.ps) ELSE Len(ts) = Len(f.ps)
    /\ Len(ts) <= 255
    /\ \A i \in 1..Len(f.ps) : Assignable(ts[i], f.ps[i])

RECURSIVE TExpr(_, _)

\* Expressions in sequence: [ok, xs, ts]
TList(E, es) ==
    FoldLeft(LAMBDA a, e : IF ~a.ok THEN a
                           ELSE LET r == TExpr(E, e)
                                IN  [ok |-> r.ok, xs |-> Append(a.xs, r.x), ts |-> Append(a.ts, r.t)],
             [ok |-> TRUE, xs |-> << >>, ts |-> << >>], es)

FieldIx(fs, n) == SelectInSeq(fs, LAMBDA f : f.n = n)

TNew(E, e) ==
    LET a == TList(E, e.as)
        st == E.S.ty[e.n]
        N == Len(e.as)
        named == e.ns # << >>
    IN  IF ~(e.n \in DOMAIN E.S.ty) THEN Bad
        ELSE IF st.k # "struct" \/ ~a.ok THEN Bad
        ELSE IF N # Len(st.fs) \/ (named /\ Len(e.ns) # N) THEN Bad
        ELSE IF ~named
             THEN IF \A i \in 1..N : Assignable(a.ts[i], st.fs[i].ty)
                  THEN Good([k |-> "new", n |-> e.n, as |-> a.xs], T(e.n)) ELSE Bad
             ELSE LET ix == [i \in 1..N |-> SelectInSeq(e.ns, LAMBDA n : n = st.fs[i].n)]
                  IN  IF \A i \in 1..N : ix[i] > 0 /\ Assignable(a.ts[ix[i]], st.fs[i].ty)
                      THEN Good([k |-> "new", n |-> e.n, as |-> [i \in 1..N |-> a.xs[ix[i]]]], T(e.n)) ELSE Bad

CallOf(E, f, xs) == [k |-> "call", f |-> f, as |-> xs, sp |-> E.sp]

TExpr(E, e) ==
    CASE e.k = "lit" -> Good(e, LitType(e.v))
      [] e.k = "id" ->
            LET v == LookVar(E, e.n)
            IN  IF v.k = "none" \/ v.t = TNone THEN Bad
                ELSE IF v.k = "const" THEN Good([k |-> "lit", v |-> v.v], v.t)
                ELSE Good([k |-> v.k, i |-> v.i], v.t)
      [] e.k = "call" ->
            LET a == TList(E, e.as)
            IN  IF ~a.ok \/ e.f \notin DOMAIN E.S.fn THEN Bad
                ELSE LET f == E.S.fn[e.f]
                     IN  IF ArgsFit(f, a.ts) THEN Good(CallOf(E, e.f, a.xs), f.ret) ELSE Bad
      [] e.k = "un" ->
            LET r == TExpr(E, e.e)
            IN  IF ~r.ok THEN Bad
                ELSE IF e.op = "-" THEN (IF IsNumT(r.t) THEN Good([k |-> "neg", e |-> r.x], r.t) ELSE Bad)
                ELSE IF r.t = TBool THEN Good([k |-> "not", e |-> r.x], TBool) ELSE Bad
      [] e.k = "bin" ->
            LET l == TExpr(E, e.l)
                r == TExpr(E, e.r)
                t == BinType(e.op, l.t, r.t)
            IN  IF l.ok /\ r.ok /\ t # TNone THEN Good(MkBin(e.op, l.x, r.x), t) ELSE Bad
      [] e.k = "par" -> TExpr(E, e.e)
      [] e.k = "new" -> TNew(E, e)
      [] e.k = "cast" ->
            LET r == TExpr(E, e.e)
            IN  IF r.ok /\ (r.t = TAny \/ e.ty = TAny) THEN Good(r.x, e.ty) ELSE Bad
      [] e.k = "dot" ->
            LET r == TExpr(E, e.e)
            IN  IF ~r.ok \/ r.t.q \/ r.t.n \notin DOMAIN E.S.ty THEN Bad
                ELSE IF E.S.ty[r.t.n].k # "struct" THEN Bad
                ELSE LET i == FieldIx(E.S.ty[r.t.n].fs, e.f)
                     IN  IF i = 0 THEN Bad ELSE Good([k |-> "dot", e |-> r.x, i |-> i], E.S.ty[r.t.n].fs[i].ty)
      [] e.k = "idx" ->
            LET a == TExpr(E, e.e)
                i == TExpr(E, e.i)
                n == TyName(a.t) \o "_get_index"
            IN  IF ~a.ok \/ ~i.ok \/ n \notin DOMAIN E.S.fn THEN Bad
                ELSE IF ArgsFit(E.S.fn[n], <<a.t, i.t>>) THEN Good(CallOf(E, n, <<a.x, i.x>>), E.S.fn[n].ret)
                ELSE Bad
      [] e.k = "if3" ->
            LET c == TExpr(E, e.c)
                a == TExpr(E, e.a)
                b == TExpr(E, e.b)
            IN  IF c.ok /\ a.ok /\ b.ok /\ c.t = TBool /\ a.t = b.t
                THEN Good([k |-> "if3", c |-> c.x, a |-> a.x, b |-> b.x], a.t) ELSE Bad

-----------------------------------------------------------------------------
(* Statements: [ok, E, x]                                                   *)
SBad(E) == [ok |-> FALSE, E |-> E, x |-> << >>]
SGood(E, x) == [ok |-> TRUE, E |-> E, x |-> x]
Nop == [k |-> "nop"]

Open(E)  == [E EXCEPT !.sc = @ + 1]
Close(E) == IF E.loc = << >> THEN [E EXCEPT !.sc = @ - 1]
            ELSE [E EXCEPT !.sc = @ - 1,
                           !.loc = [i \in 1..Len(E.loc) |->
                                      IF E.loc[i].sc = E.sc THEN [E.loc[i] EXCEPT !.live = FALSE] ELSE E.loc[i]]]
\* Leaves an inner construct: only declarations survive
Back(E, E2) == [E2 EXCEPT !.loop = E.loop, !.sp = E.sp]

CompoundOp == [o \in {"+=", "-=", "*=", "/=", "%=", "|=", "&="} |->
    CASE o = "+=" -> "+" [] o = "-=" -> "-" [] o = "*=" -> "*" [] o = "/=" -> "/"
      [] o = "%=" -> "%" [] o = "|=" -> "|" [] o = "&=" -> "&"]

\* The value to be stored: e, or "l op e"
AsgValue(op, l, e) == IF op = "=" THEN e ELSE [k |-> "bin", op |-> CompoundOp[op], l |-> l, r |-> e]

AsgFits(op, lt, et) ==
    /\ Assignable(et, lt)
    /\ op # "=" => lt = TInt \/ (lt = TFloat /\ op \in {"+=", "-=", "*=", "/="})

TAsg(E, s) ==
    LET l == TExpr(E, s.l)
        e == TExpr(E, s.e)
        y == AsgValue(s.op, l.x, e.x)
    IN  IF ~l.ok \/ ~e.ok THEN SBad(E)
        ELSE IF ~AsgFits(s.op, l.t, e.t) THEN SBad(E)
        ELSE CASE s.l.k = "id" ->
                    (CASE l.x.k = "loc"  -> SGood(E, [k |-> "setl", i |-> l.x.i, e |-> y])
                       [] l.x.k = "arg"  -> SGood(E, [k |-> "seta", i |-> l.x.i, e |-> y])
                       [] l.x.k = "glob" -> SGood(E, [k |-> "setg", i |-> l.x.i, e |-> y])
                       [] OTHER -> SBad(E))
               [] s.l.k = "dot" -> SGood(E, [k |-> "setdot", i |-> l.x.i, o |-> l.x.e, e |-> y])
               [] s.l.k = "idx" ->
                    LET a == TExpr(E, s.l.e)
                        i == TExpr(E, s.l.i)
                        n == TyName(a.t) \o "_set_index"
                    IN  IF n \notin DOMAIN E.S.fn THEN SBad(E)
                        ELSE IF ArgsFit(E.S.fn[n], <<a.t, i.t, e.t>>)
                             THEN SGood(E, [k |-> "expr", e |-> CallOf(E, n, <<a.x, i.x, y>>)])
                        ELSE SBad(E)
               [] OTHER -> SBad(E)

TDecl(E, s) ==
    LET dup == IF E.fun THEN \E i \in 1..Len(E.loc) : E.loc[i].live /\ E.loc[i].n = s.n
               ELSE s.n \in DOMAIN E.S.gv \/ s.n \in DOMAIN E.S.ct
        i   == IF E.fun THEN Len(E.loc) + 1 ELSE E.S.ng + 1
        D(t) == IF E.fun THEN [E EXCEPT !.loc = Append(@, [n |-> s.n, ty |-> t, live |-> TRUE, sc |-> E.sc])]
                ELSE [E EXCEPT !.S.gv = Put(@, s.n, [i |-> i, ty |-> t]), !.S.ng = @ + 1]
        e   == TExpr(D(s.ty), s.e)
    IN  IF dup \/ ~e.ok THEN SBad(E)
        ELSE IF s.ty = TNone /\ e.t = TVoid THEN SBad(E)
        ELSE IF s.ty # TNone /\ ~Assignable(e.t, s.ty) THEN SBad(E)
        ELSE SGood(D(IF s.ty = TNone THEN e.t ELSE s.ty),
                   [k |-> IF E.fun THEN "setl" ELSE "setg", i |-> i, e |-> e.x])

RECURSIVE TStmt(_, _)

TStmts(E, ss) ==
    FoldLeft(LAMBDA a, s : IF ~a.ok THEN a
                           ELSE LET r == TStmt(a.E, s)
                                IN  [ok |-> r.ok, E |-> r.E, x |-> Append(a.x, r.x)],
             SGood(E, << >>), ss)

TFunc(E, s) ==
    LET E1 == [E EXCEPT !.fun = TRUE, !.args = s.ps, !.loc = << >>, !.ret = s.ret, !.loop = FALSE,
                        !.sc = @ + 1, !.fk = @ + 1]
        b  == TStmt(E1, s.body)
        d  == <<E.S.nd, E.fk + 1>>
        S2 == IF b.E.S.fn[s.n].k = "T" /\ b.E.S.fn[s.n].def = d
              THEN [b.E.S EXCEPT !.fn[s.n].body = b.x, !.fn[s.n].nl = Len(b.E.loc)] ELSE b.E.S
    IN  IF ~b.ok \/ Len(b.E.loc) > 255 THEN SBad(E)
        ELSE SGood([E EXCEPT !.S = S2, !.fk = @ + 1], Nop)

TStmt(E0, s) ==
    LET E == [E0 EXCEPT !.sp = <<E0.file, s.sp[1], s.sp[2]>>]
    IN
    CASE s.k = "blk" ->
            LET r == TStmts(Open(E), s.ss)
            IN  IF r.ok THEN SGood(Back(E, Close(r.E)), [k |-> "blk", ss |-> r.x]) ELSE SBad(E)
      [] s.k \in {"use", "struct"} -> SGood(E, Nop)
      [] s.k = "func" -> TFunc(E, s)
      [] s.k = "expr" -> LET r == TExpr(E, s.e) IN IF r.ok THEN SGood(E, [k |-> "expr", e |-> r.x]) ELSE SBad(E)
      [] s.k = "decl" -> TDecl(E, s)
      [] s.k = "asg" -> TAsg(E, s)
      [] s.k = "const" ->
            IF LookVar(E, s.n).k # "none" THEN SBad(E)
            ELSE SGood([E EXCEPT !.S.ct = Put(@, s.n, [v |-> s.v, ty |-> LitType(s.v)])], Nop)
      [] s.k = "ret" ->
            IF s.e.k = "none" THEN (IF E.ret = TVoid THEN SGood(E, [k |-> "ret", e |-> NoE]) ELSE SBad(E))
            ELSE LET r == TExpr(E, s.e)
                 IN  IF r.ok /\ Assignable(r.t, E.ret) THEN SGood(E, [k |-> "ret", e |-> r.x]) ELSE SBad(E)
      [] s.k \in {"brk", "cont"} -> IF E.loop THEN SGood(E, [k |-> s.k]) ELSE SBad(E)
      [] s.k = "if" ->
            LET c == TExpr(E, s.c)
                a == TStmt(E, s.a)
                b == IF s.b.k = "none" THEN SGood(a.E, Nop) ELSE TStmt(a.E, s.b)
            IN  IF ~c.ok \/ c.t # TBool THEN SBad(E)
                ELSE IF ~a.ok THEN SBad(E)
                ELSE IF ~b.ok THEN SBad(E)
                ELSE SGood(Back(E, b.E), [k |-> "if", c |-> c.x, a |-> a.x, b |-> b.x])
      [] s.k = "while" ->
            LET c == TExpr(E, s.c)
                a == TStmt([Open(E) EXCEPT !.loop = TRUE], s.a)
            IN  IF ~c.ok \/ c.t # TBool THEN SBad(E)
                ELSE IF ~a.ok THEN SBad(E)
                ELSE SGood(Back(E, Close(a.E)), [k |-> "while", c |-> c.x, a |-> a.x])
      [] s.k = "for" ->
            LET i == TStmt([Open(E) EXCEPT !.loop = FALSE], s.i)
                H == [i.E EXCEPT !.sp = E.sp]
                c == TExpr(H, s.c)
                p == TStmt([H EXCEPT !.loop = FALSE], s.s)
                a == TStmt([p.E EXCEPT !.loop = TRUE], s.a)
            IN  IF ~i.ok THEN SBad(E)
                ELSE IF ~c.ok \/ c.t # TBool THEN SBad(E)
                ELSE IF ~p.ok THEN SBad(E)
                ELSE IF ~a.ok THEN SBad(E)
                ELSE SGood(Back(E, Close(a.E)), [k |-> "for", i |-> i.x, c |-> c.x, s |-> p.x, a |-> a.x])

-----------------------------------------------------------------------------
(* What a source declares before anything else: its functions (also those   *)
(* in blocks), and the types which it mentions                              *)
RECURSIVE FuncsIn(_), TypesE(_), TypesS(_)
FuncsInAll(ss) == FoldLeft(LAMBDA a, s : a \o FuncsIn(s), << >>, ss)
FuncsIn(s) == CASE s.k = "func" -> <<s>>
                [] s.k = "blk" -> FuncsInAll(s.ss)
                [] s.k = "if" -> FuncsIn(s.a) \o (IF s.b.k = "none" THEN << >> ELSE FuncsIn(s.b))
                [] s.k = "while" -> FuncsIn(s.a)
                [] s.k = "for" -> FuncsIn(s.i) \o FuncsIn(s.s) \o FuncsIn(s.a)
                [] OTHER -> << >>

UnionAll(es, F(_)) == FoldLeft(LAMBDA a, e : a \cup F(e), {}, es)
TypesE(e) == CASE e.k \in {"lit", "id", "none"} -> {}
               [] e.k = "call" -> UnionAll(e.as, TypesE)
               [] e.k = "un" -> TypesE(e.e)
               [] e.k = "par" -> TypesE(e.e)
               [] e.k = "dot" -> TypesE(e.e)
               [] e.k = "idx" -> TypesE(e.e) \cup TypesE(e.i)
               [] e.k = "bin" -> TypesE(e.l) \cup TypesE(e.r)
               [] e.k = "new" -> {e.n} \cup UnionAll(e.as, TypesE)
               [] e.k = "cast" -> {e.ty.n} \cup TypesE(e.e)
               [] e.k = "if3" -> TypesE(e.c) \cup TypesE(e.a) \cup TypesE(e.b)
TypesS(s) == CASE s.k = "blk" -> UnionAll(s.ss, TypesS)
               [] s.k = "struct" -> {s.fs[i].ty.n : i \in 1..Len(s.fs)}
               [] s.k = "func" -> {s.ps[i].ty.n : i \in 1..Len(s.ps)} \cup {s.ret.n} \cup TypesS(s.body)
               [] s.k = "if" -> TypesE(s.c) \cup TypesS(s.a) \cup (IF s.b.k = "none" THEN {} ELSE TypesS(s.b))
               [] s.k = "while" -> TypesE(s.c) \cup TypesS(s.a)
               [] s.k = "for" -> TypesS(s.i) \cup TypesE(s.c) \cup TypesS(s.s) \cup TypesS(s.a)
               [] s.k = "ret" -> TypesE(s.e)
               [] s.k = "expr" -> TypesE(s.e)
               [] s.k = "decl" -> (IF s.ty = TNone THEN {} ELSE {s.ty.n}) \cup TypesE(s.e)
               [] s.k = "asg" -> TypesE(s.l) \cup TypesE(s.e)
               [] OTHER -> {}

Structs(ss) == SelectSeq(ss, LAMBDA s : s.k = "struct")

-----------------------------------------------------------------------------
(* Macros: [ok, any, lax, S, log]. any: what happens is not specified;      *)
(* lax: the source is wrong before its macros run, which may run or not     *)
MErr(M)  == [M EXCEPT !.ok = FALSE]
MAny(M)  == [M EXCEPT !.any = TRUE, !.ok = FALSE]
MOk(M, S) == [M EXCEPT !.S = S]
\* A success if the generated code is not too long for the library, otherwise an error or a success
MMay(M, long) == [M EXCEPT !.may = @ \/ long]

NoSp == <<"", 0, 0>>
GCall(f, as) == [k |-> "call", f |-> f, as |-> as, sp |-> NoSp]
GStr(v) == [k |-> "lit", v |-> VStr(v)]
GArg(i) == [k |-> "arg", i |-> i]

ArraySuffixes == {"", "_clear", "_resize", "_resize_fill", "_get", "_set", "_get_index", "_len",
                  "_set_index", "_push", "_pop", "_shift", "_remove", "_insert"}
\* The functions of the array type A with elements of type t
ArrayFns(A, t) ==
    LET F(ps, r) == [Fn0 EXCEPT !.ps = ps, !.ret = r]
    IN  [s \in ArraySuffixes \cup (IF t = TInt THEN {"_sort"} ELSE {}) |->
          CASE s = "" -> [Fn0 EXCEPT !.va = TRUE, !.ret = T(A), !.body = <<t.n>>]
            [] s \in {"_clear", "_sort"} -> F(<<T(A)>>, TVoid)
            [] s = "_resize" -> F(<<T(A), TInt>>, TVoid)
            [] s = "_resize_fill" -> F(<<T(A), TInt, t>>, TVoid)
            [] s \in {"_get", "_get_index"} -> F(<<T(A), TInt>>, t)
            [] s \in {"_set", "_set_index", "_insert"} -> F(<<T(A), TInt, t>>, TVoid)
            [] s = "_len" -> F(<<T(A)>>, TInt)
            [] s = "_push" -> F(<<T(A), t>>, TVoid)
            [] s \in {"_pop", "_shift"} -> F(<<T(A)>>, t)
            [] s = "_remove" -> F(<<T(A), TInt>>, TVoid)]

\* lib tells which library operation a foreign function performs
ArrayMacro(M, as, A) ==
    IF Len(as) # 1 \/ A = "" THEN MErr(M)
    ELSE IF DefinedType(M.S, A) /\ A \in DOMAIN M.S.fn THEN M
    ELSE IF ~IsNameCodes(as[1]) THEN MErr(M)
    ELSE LET t  == CodesToName(as[1], 1, Len(as[1]))
             fs == ArrayFns(A, T(t))
         IN  IF ~DefinedType(M.S, t) THEN MErr(M)
             ELSE IF t = "void" THEN MAny(M)
             ELSE IF DefinedType(M.S, A) /\ M.S.ty[A].k # "foreign" THEN MErr(M)
             ELSE IF \E s \in DOMAIN fs : (A \o s) \in DOMAIN M.S.fn /\ M.S.fn[A \o s].k = "F" THEN MErr(M)
             ELSE MOk(MMay(M, 2 * Len(A) + Len(t) > 448), [Register(M.S, A) EXCEPT
                            !.fn = [n \in DOMAIN @ \cup {A \o s : s \in DOMAIN fs} |->
                                      IF n \in DOMAIN @ THEN @[n]
                                      ELSE LET s == CHOOSE s \in DOMAIN fs : n = A \o s
                                           IN  [fs[s] EXCEPT !.def = <<"array" \o s, t>>]]])

RECURSIVE JsonFor(_, _, _)
\* Adds n_to_json for the struct n and those of its fields
JsonFor(M, n, depth) ==
    IF ~M.ok \/ M.any THEN M
    ELSE IF depth > 64 THEN MErr(M)
    ELSE IF n \notin DOMAIN M.S.ty \/ M.S.ty[n].k # "struct" THEN M
    ELSE IF (n \o "_to_json") \in DOMAIN M.S.fn THEN M
    ELSE LET fs == M.S.ty[n].fs
             M2 == FoldLeft(LAMBDA m, f : IF f.ty.q THEN MErr(m) ELSE JsonFor(m, f.ty.n, depth + 1), M, fs)
             J(i) == fs[i].ty.n \o "_to_json"
             One(i) == (IF i > 1 THEN <<GStr(<<44>>)>> ELSE << >>)
                       \o <<GStr(<<34>> \o NameCodes(fs[i].n) \o <<34, 58>>),
                            GCall(J(i), <<[k |-> "dot", e |-> GArg(1), i |-> i]>>)>>
             body == [k |-> "ret", e |-> GCall("strcat",
                        <<GStr(<<123>>)>> \o FoldLeft(LAMBDA a, i : a \o One(i), << >>, [i \in 1..Len(fs) |-> i])
                        \o <<GStr(<<125>>)>>)]
         IN  IF ~M2.ok \/ M2.any THEN M2
             ELSE IF \E i \in 1..Len(fs) : ~(J(i) \in DOMAIN M2.S.fn /\ ArgsFit(M2.S.fn[J(i)], <<fs[i].ty>>))
                  THEN MErr(M2)
             ELSE MOk(MMay(M2, FoldLeft(LAMBDA a, f : a + 2 * Len(f.n) + Len(f.ty.n) + 30, 2 * Len(n) + 39, fs) >= 1984), AddFn(M2.S, n \o "_to_json",
                                [Fn0 EXCEPT !.k = "T", !.ps = <<T(n)>>, !.ret = TStr, !.body = body]))

JsonMacro(M, as) ==
    IF Len(as) # 1 THEN MErr(M)
    ELSE IF ~IsNameCodes(as[1]) THEN MErr(M)
    ELSE LET n == CodesToName(as[1], 1, Len(as[1]))
         IN  IF ~(n \in DOMAIN M.S.ty /\ M.S.ty[n].k = "struct") THEN MErr(M)
             ELSE JsonFor(M, n, 0)

JoinTypes(ps) == FoldLeft(LAMBDA a, i : IF i = 1 THEN ps[1].n ELSE a \o "_" \o ps[i].n, "", [i \in 1..Len(ps) |-> i])

DelegateMacro(M, as, A) ==
    IF Len(as) # 1 \/ A = "" THEN MErr(M)
    ELSE IF ~IsNameCodes(as[1]) THEN MErr(M)
    ELSE LET f == CodesToName(as[1], 1, Len(as[1]))
         IN  IF f \notin DOMAIN M.S.fn THEN MErr(M)
             ELSE LET fn  == M.S.fn[f]
                      ty  == "delegate_" \o JoinTypes(fn.ps) \o "_" \o fn.ret.n
                      len == FoldLeft(LAMBDA a, p : a + Len(p.n), Len(A) + Len(f) + Len(fn.ret.n), fn.ps)
                      N   == Len(fn.ps)
                      c   == GCall("call_function", [i \in 1..(N + 1) |-> GArg(i)])
                      call == [Fn0 EXCEPT !.k = "T", !.ps = <<T(ty)>> \o fn.ps, !.ret = fn.ret,
                                          !.body = IF fn.ret = TVoid THEN [k |-> "expr", e |-> c] ELSE [k |-> "ret", e |-> c]]
                      make == [Fn0 EXCEPT !.k = "T", !.ret = T(ty),
                                          !.body = [k |-> "ret", e |-> GCall("get_function_index", <<GStr(as[1])>>)]]
                      S1  == IF ty \in DOMAIN M.S.ty THEN M.S ELSE AddFn(Register(M.S, ty), ty \o "_call", call)
                  IN  IF fn.k # "T" THEN MErr(M)
                      ELSE IF fn.ret.q \/ \E i \in 1..N : fn.ps[i].q \/ fn.ps[i].n = "void" THEN MErr(M)
                      ELSE IF A \in DOMAIN M.S.fn THEN MAny(M)
                      ELSE MOk(MMay(M, 3 * len + 20 * N > 384), AddFn(S1, A, make))

RECURSIVE Compile(_, _, _, _)

-----------------------------------------------------------------------------
(* What the host can ask about a state: types, functions and constants      *)
NoAnswer == [k |-> "none"]
AskType(S, n) ==
    IF ~DefinedType(S, n) THEN NoAnswer
    ELSE [k |-> IF S.ty[n].k = "prim" THEN n ELSE S.ty[n].k, n |-> n,
          fs |-> [i \in 1..Len(S.ty[n].fs) |-> [n |-> S.ty[n].fs[i].n, ty |-> TyName(S.ty[n].fs[i].ty)]]]
AskFunc(S, n) ==
    IF n \notin DOMAIN S.fn THEN NoAnswer
    ELSE LET f == S.fn[n]
         IN  [k |-> f.k, n |-> n, ps |-> [i \in 1..Len(f.ps) |-> TyName(f.ps[i])], va |-> f.va, ret |-> TyName(f.ret)]
AskConst(S, n) == IF n \notin DOMAIN S.ct THEN NoAnswer ELSE [k |-> "const", n |-> n, ty |-> TyName(S.ct[n].ty), v |-> S.ct[n].v]

\* The macro of the test host: logs its call; with the arguments "src", text it compiles the text,
\* with "fail" it fails, with "reg", name it registers a type, with "ask", name it asks for the type and the function
HostMacro(M, as, A) ==
    LET w  == IF Len(as) >= 1 /\ IsNameCodes(as[1]) THEN CodesToName(as[1], 1, Len(as[1])) ELSE ""
        n  == CodesToName(as[2], 1, Len(as[2]))
        M1 == [M EXCEPT !.log = Append(@, IF w = "ask" /\ Len(as) > 1 THEN [as |-> as, A |-> A, ty |-> AskType(M.S, n), fn |-> AskFunc(M.S, n)]
                                          ELSE [as |-> as, A |-> A])]
    IN  IF w = "fail" THEN MErr(M1)
        ELSE IF w = "reg" /\ Len(as) > 1 THEN MOk(M1, Register(M1.S, CodesToName(as[2], 1, Len(as[2]))))
        ELSE IF w = "src" /\ Len(as) > 1 THEN Compile(M1, M1.S, "(macro)", as[2])
        ELSE M1

RunMacro(M, s) ==
    IF s.n \notin M.S.mac THEN MErr(M)
    ELSE IF Len(s.as) > 128 THEN MErr(M)
    ELSE CASE s.n = "array" -> ArrayMacro(M, s.as, s.nm)
           [] s.n = "json" -> JsonMacro(M, s.as)
           [] s.n = "delegate" -> DelegateMacro(M, s.as, s.nm)
           [] s.n = "host" -> HostMacro(M, s.as, s.nm)
           [] OTHER -> MAny(M)

-----------------------------------------------------------------------------
(* Compiling: M accumulates [ok, any, S, log, pos]                          *)
RECURSIVE HasUse(_)
HasUse(s) == CASE s.k = "use" -> TRUE
               [] s.k = "if" -> HasUse(s.a) \/ (s.b.k # "none" /\ HasUse(s.b))
               [] OTHER -> FALSE

Compile(M, S0, name, src) ==
    LET ts == Lex(src)
        p  == ParseToks(ts)
        ss == p.a
        nd == S0.nd + 1
        sts == Structs(ss)
        fns == FuncsInAll(ss)
        \* types which this source defines, once each
        dupStruct == \E i \in 1..Len(sts) : \/ \E j \in 1..(i - 1) : sts[j].n = sts[i].n
                                            \/ sts[i].n \in DOMAIN S0.ty /\ S0.ty[sts[i].n].k = "struct"
        oddStruct == \E i \in 1..Len(sts) : sts[i].n \in DOMAIN S0.ty /\ S0.ty[sts[i].n].k \in {"prim", "foreign"}
        oddUse == \E i \in 1..Len(ss) : ss[i].k = "if" /\ HasUse(ss[i])
        S1 == [S0 EXCEPT !.nd = nd,
                         !.ty = FoldLeft(LAMBDA t, s : Put(t, s.n, [k |-> "struct", fs |-> s.fs]), @, sts)]
        S2 == FoldLeft(LAMBDA S, i : AddFn(S, fns[i].n,
                          [Fn0 EXCEPT !.k = "T", !.ps = [j \in 1..Len(fns[i].ps) |-> fns[i].ps[j].ty],
                                      !.ret = fns[i].ret, !.def = <<nd, i>>]),
                       S1, [i \in 1..Len(fns) |-> i])
        M3 == FoldLeft(LAMBDA m, s : IF s.k = "use" /\ m.ok /\ ~m.any THEN RunMacro(m, s) ELSE m,
                       [M EXCEPT !.S = S2], ss)
        E4 == [S |-> M3.S, loc |-> << >>, args |-> << >>, fun |-> FALSE, ret |-> TVoid, sc |-> 0, loop |-> FALSE,
               sp |-> NoSp, fk |-> 0, file |-> name]
        R  == TStmts([E4 EXCEPT !.S.nd = nd], ss)
        undef == \E n \in UnionAll(ss, TypesS) : n \notin DOMAIN M3.S.ty
        \* Where an error has to be: [lo, hi], places in the source. It is not before the first statement (of
        \* those at the outermost level) with an error. If leaving out this statement repairs the source, then it
        \* is in this statement, and if the source does not parse then it is not behind the first token which
        \* cannot be parsed; but the compiler may have read up to two more tokens and one more character.
        end == Len(src)
        Start(i) == IF i <= Len(ts) THEN ts[i].p - 1 ELSE end
        bad == FoldLeft(LAMBDA a, s : IF ~a.r.ok THEN a ELSE [r |-> TStmt(a.r.E, s), n |-> a.n + 1],
                        [r |-> SGood([E4 EXCEPT !.S.nd = nd], << >>), n |-> 0], ss).n
        rest == SubSeq(ss, 1, bad - 1) \o SubSeq(ss, bad + 1, Len(ss))
        \* (leaving it out also takes away what it declares: a second declaration would no longer be an error)
        Decls(I) == {ts[i].s : i \in {i \in I : ts[i].k = "ID" /\ i < Len(ts) /\ ts[i + 1].k \in {":=", ":", "::"}}}
        inBad == p.at[bad]..(p.at[bad + 1] - 1)
        only == /\ TStmts([E4 EXCEPT !.S.nd = nd], rest).ok
                /\ Decls(inBad) \cap Decls((1..Len(ts)) \ inBad) = {}
        noUse == \A i \in 1..Len(ts) : ts[i].k # "use"
        place == IF ~noUse \/ dupStruct THEN <<0, end>>
                 ELSE IF ~p.ok THEN LET f == Start(p.at[Len(p.at)])
                                    IN  <<IF Compile(M, S0, name, SubSeq(src, 1, f)).ok THEN f ELSE 0,
                                          IF p.soft THEN end ELSE Start(p.p + 3) + 1>>
                 ELSE IF undef \/ R.ok THEN <<0, end>>
                 ELSE <<Start(p.at[bad]), IF bad < Len(ss) /\ only THEN Start(p.at[bad + 1] + 1) + 1 ELSE end>>
        at == [lo |-> place[1], hi |-> place[2], own |-> noUse]
    IN  IF ~p.ok \/ dupStruct THEN [MErr(M) EXCEPT !.lax = TRUE, !.at = at]
        ELSE IF oddStruct \/ oddUse THEN MAny(M)
        ELSE IF M3.any \/ ~M3.ok THEN [M3 EXCEPT !.S = S0, !.at = at]
        ELSE IF (DOMAIN M3.S.gv # DOMAIN S0.gv \/ DOMAIN M3.S.ct # DOMAIN S0.ct)
                /\ Range([i \in 1..Len(ts) |-> ts[i].s])
                     \cap ((DOMAIN M3.S.gv \cup DOMAIN M3.S.ct) \ (DOMAIN S0.gv \cup DOMAIN S0.ct)) # {}
             THEN MAny(M) \* which of the two comes first
        ELSE IF undef THEN [MErr(M3) EXCEPT !.S = S0, !.at = at]
        ELSE IF ~R.ok THEN [MErr(M3) EXCEPT !.S = S0, !.at = at]
        ELSE [M3 EXCEPT !.S = [R.E.S EXCEPT !.nd = M3.S.nd, !.code = @ \o R.x]]

\* The outcome of compiling the source on the state S: [ok, any, lax, S, log, at]; at says where the place of an
\* error can be, and whether the error must be one of this source itself
CompileOn(S, name, src) ==
    Compile([ok |-> TRUE, any |-> FALSE, may |-> FALSE, lax |-> FALSE, S |-> S, log |-> << >>,
             at |-> [lo |-> 0, hi |-> Len(src), own |-> FALSE]], S, name, src)
=============================================================================
