------------------------------ MODULE TinyParse ----------------------------
(* The grammar of the language: groups tokens (TinyLex) into a tree.        *)
(*                                                                          *)
(* Every operator Pxxx(ts, p, ..) parses from token p on and returns        *)
(* [ok, p, a]: the index of the next token and the tree a; if ~ok there is  *)
(* no such construct and p is the offending token.                          *)
(*                                                                          *)
(* Expressions: [k] null | [k,v] lit | id n | call f as | un op e |         *)
(*   bin op l r | par e | new n ns as | cast e ty | dot e f | idx e i |     *)
(*   if3 c a b                                                              *)
(* Statements (sp is the range of lines of their header): blk ss |          *)
(*   func n ps ret body | if c a b | while c a | for i c s a | ret e |      *)
(*   brk | cont | use n as nm | decl n ty e | const n v | asg op l e | expr e *)
EXTENDS TinyLex

Ok(q, x) == [ok |-> TRUE, p |-> q, a |-> x]
Err(q)   == [ok |-> FALSE, p |-> q, a |-> << >>, soft |-> FALSE]
\* An error which may be found only later: an expression where a statement has to be, or two parameters with one name
Soft(q)  == [Err(q) EXCEPT !.soft = TRUE]

NoE == [k |-> "none"]
VoidT == [n |-> "void", q |-> FALSE]

Prec(k) == CASE k \in {"*", "/", "%", "&", "|"} -> 5
             [] k \in {"<<", ">>", "+", "-"} -> 4
             [] k \in {"<=", ">=", "==", "!=", "<", ">"} -> 3
             [] k \in {"&&", "||"} -> 2
             [] OTHER -> -1

AssignOps == {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&="}

PType(ts, p) ==
    IF ts[p].k # "ID" THEN Err(p)
    ELSE IF ts[p + 1].k = "?"
         THEN IF ts[p].s = "void" THEN Err(p) ELSE Ok(p + 2, [n |-> ts[p].s, q |-> TRUE])
         ELSE Ok(p + 1, [n |-> ts[p].s, q |-> FALSE])

RECURSIVE PExpr(_, _), PValue(_, _), PSuffix(_, _, _), PBin(_, _, _, _), PArgs(_, _, _),
          PFields(_, _, _, _)

PFactor(ts, p) == LET r == PValue(ts, p) IN IF r.ok THEN PSuffix(ts, r.p, r.a) ELSE r

\* Arguments up to the closing parenthesis
PArgs(ts, p, acc) ==
    IF ts[p].k = ")" THEN Ok(p + 1, acc)
    ELSE LET e == PExpr(ts, p)
         IN  IF ~e.ok THEN e
             ELSE IF ts[e.p].k = "," THEN PArgs(ts, e.p + 1, Append(acc, e.a))
             ELSE IF ts[e.p].k = ")" THEN Ok(e.p + 1, Append(acc, e.a))
             ELSE Err(e.p)

\* Arguments of a constructor: a sequence of [n, e], n = "" when positional
PFields(ts, p, ns, acc) ==
    IF ts[p].k = "}" THEN Ok(p + 1, <<ns, acc>>)
    ELSE LET named == ts[p].k = "."
             bad   == named /\ ~(ts[p + 1].k = "ID" /\ ts[p + 2].k = "=")
             e     == PExpr(ts, IF named THEN p + 3 ELSE p)
             ns2   == IF named THEN Append(ns, ts[p + 1].s) ELSE ns
         IN  IF bad THEN Err(p)
             ELSE IF ~e.ok THEN e
             ELSE IF ts[e.p].k = "," THEN PFields(ts, e.p + 1, ns2, Append(acc, e.a))
             ELSE IF ts[e.p].k = "}" THEN PFields(ts, e.p, ns2, Append(acc, e.a))
             ELSE Err(e.p)

PValue(ts, p) ==
    LET t == ts[p]
    IN
    CASE t.k = "NULL" -> Ok(p + 1, [k |-> "lit", v |-> VNull])
      [] t.k \in {"BOOL", "INT", "FLT", "CHR", "STR"} -> Ok(p + 1, [k |-> "lit", v |-> t.v])
      [] t.k = "ID" ->
            IF ts[p + 1].k = "("
            THEN LET r == PArgs(ts, p + 2, << >>)
                 IN  IF r.ok THEN Ok(r.p, [k |-> "call", f |-> t.s, as |-> r.a]) ELSE r
            ELSE Ok(p + 1, [k |-> "id", n |-> t.s])
      [] t.k \in {"-", "!"} ->
            LET r == PFactor(ts, p + 1)
            IN  IF r.ok THEN Ok(r.p, [k |-> "un", op |-> t.k, e |-> r.a]) ELSE r
      [] t.k = "(" ->
            LET r == PExpr(ts, p + 1)
            IN  IF ~r.ok THEN r
                ELSE IF ts[r.p].k = ")" THEN Ok(r.p + 1, [k |-> "par", e |-> r.a]) ELSE Err(r.p)
      [] t.k = "new" ->
            IF ts[p + 1].k # "ID" THEN Err(p + 1)
            ELSE IF ts[p + 2].k # "{" THEN Err(p + 2)
            ELSE LET r == PFields(ts, p + 3, << >>, << >>)
                 IN  IF r.ok THEN Ok(r.p, [k |-> "new", n |-> ts[p + 1].s, ns |-> r.a[1], as |-> r.a[2]]) ELSE r
      [] t.k = "cast" ->
            IF ts[p + 1].k # "(" THEN Err(p + 1)
            ELSE LET e == PExpr(ts, p + 2)
                 IN  IF ~e.ok THEN e
                     ELSE IF ts[e.p].k # "," THEN Err(e.p)
                     ELSE LET ty == PType(ts, e.p + 1)
                          IN  IF ~ty.ok THEN ty
                              ELSE IF ts[ty.p].k # ")" THEN Err(ty.p)
                              ELSE Ok(ty.p + 1, [k |-> "cast", e |-> e.a, ty |-> ty.a])
      [] t.k = "if" ->
            LET c == PExpr(ts, p + 1)
            IN  IF ~c.ok THEN c
                ELSE LET a == PExpr(ts, c.p)
                     IN  IF ~a.ok THEN a
                         ELSE IF ts[a.p].k # "else" THEN Err(a.p)
                         ELSE LET b == PExpr(ts, a.p + 1)
                              IN  IF b.ok THEN Ok(b.p, [k |-> "if3", c |-> c.a, a |-> a.a, b |-> b.a]) ELSE b
      [] OTHER -> Err(p)

PSuffix(ts, p, x) ==
    LET t == ts[p]
    IN
    CASE t.k = "[" ->
            LET r == PExpr(ts, p + 1)
            IN  IF ~r.ok THEN r
                ELSE IF ts[r.p].k # "]" THEN Err(r.p)
                ELSE PSuffix(ts, r.p + 1, [k |-> "idx", e |-> x, i |-> r.a])
      [] t.k = "->" ->
            IF ts[p + 1].k # "ID" THEN Err(p + 1)
            ELSE IF ts[p + 2].k # "(" THEN Err(p + 2)
            ELSE LET r == PArgs(ts, p + 3, << >>)
                 IN  IF r.ok THEN PSuffix(ts, r.p, [k |-> "call", f |-> ts[p + 1].s, as |-> <<x>> \o r.a]) ELSE r
      [] t.k = "." ->
            IF ts[p + 1].k # "ID" THEN Err(p + 1)
            ELSE PSuffix(ts, p + 2, [k |-> "dot", e |-> x, f |-> ts[p + 1].s])
      [] OTHER -> Ok(p, x)

PBin(ts, p, prec, lhs) ==
    LET op == ts[p].k
        pr == Prec(op)
    IN  IF pr < prec THEN Ok(p, lhs)
        ELSE LET r1 == PFactor(ts, p + 1)
             IN  IF ~r1.ok THEN r1
                 ELSE LET r == IF pr < Prec(ts[r1.p].k) THEN PBin(ts, r1.p, pr + 1, r1.a) ELSE r1
                      IN  IF ~r.ok THEN r
                          ELSE PBin(ts, r.p, prec, [k |-> "bin", op |-> op, l |-> lhs, r |-> r.a])

PExpr(ts, p) == LET r == PFactor(ts, p) IN IF r.ok THEN PBin(ts, r.p, 0, r.a) ELSE r

-----------------------------------------------------------------------------
(* Statements. cx: "top0" at the outermost level, "top" in a block there,   *)
(* "void" / "val" inside of a function which returns nothing / a value.     *)
Sp(ts, p, q) == <<ts[p].l1, ts[IF q > p THEN q - 1 ELSE p].l2>>
Deeper(cx) == IF cx = "top0" THEN "top" ELSE cx

RECURSIVE PStmt(_, _, _), PStmts(_, _, _, _), PParams(_, _, _), PUseArgs(_, _, _), PFieldDecls(_, _, _)

PFieldDecls(ts, p, acc) ==
    IF ts[p].k = "}" THEN (IF acc = << >> THEN Err(p) ELSE Ok(p + 1, acc))
    ELSE IF ts[p].k # "ID" THEN Err(p)
    ELSE IF Len(acc) >= 255 \/ \E i \in 1..Len(acc) : acc[i].n = ts[p].s THEN Err(p)
    ELSE IF ts[p + 1].k # ":" THEN Err(p + 1)
    ELSE LET ty == PType(ts, p + 2)
         IN  IF ty.ok THEN PFieldDecls(ts, ty.p, Append(acc, [n |-> ts[p].s, ty |-> ty.a])) ELSE ty

PStruct(ts, p) ==
    IF ts[p + 1].k # "ID" THEN Err(p + 1)
    ELSE IF ts[p + 2].k # "{" THEN Err(p + 2)
    ELSE LET r == PFieldDecls(ts, p + 3, << >>)
         IN  IF r.ok THEN Ok(r.p, [k |-> "struct", n |-> ts[p + 1].s, fs |-> r.a, sp |-> Sp(ts, p, r.p)]) ELSE r

\* Statements up to the token end
PStmts(ts, p, cx, end) ==
    LET Step(s) == IF ts[s.p].k = end THEN [s EXCEPT !.done = TRUE]
                   ELSE LET r == IF cx = "top0" /\ ts[s.p].k = "struct" THEN PStruct(ts, s.p) ELSE PStmt(ts, s.p, cx)
                        IN  IF r.ok THEN [s EXCEPT !.p = r.p, !.a = Append(@, r.a), !.at = Append(@, s.p)]
                            ELSE [s EXCEPT !.ok = FALSE, !.p = r.p, !.at = Append(@, s.p), !.soft = r.soft, !.done = TRUE]
        z == Until(Step, [ok |-> TRUE, p |-> p, a |-> << >>, at |-> << >>, soft |-> FALSE, done |-> FALSE])
    IN  \* at: the first token of each, and of the one with the error
        [ok |-> z.ok, p |-> IF z.ok THEN z.p + 1 ELSE z.p, a |-> z.a, at |-> z.at, soft |-> z.soft]

PParams(ts, p, acc) ==
    IF ts[p].k = ")" THEN Ok(p + 1, acc)
    ELSE IF ts[p].k # "ID" THEN Err(p)
    ELSE IF ts[p + 1].k # ":" THEN Err(p + 1)
    ELSE LET ty == PType(ts, p + 2)
         IN  IF ~ty.ok THEN ty
             ELSE IF \E i \in 1..Len(acc) : acc[i].n = ts[p].s THEN Soft(p)
             ELSE LET acc2 == Append(acc, [n |-> ts[p].s, ty |-> ty.a])
                  IN  IF ts[ty.p].k = "," THEN PParams(ts, ty.p + 1, acc2)
                      ELSE IF ts[ty.p].k = ")" THEN Ok(ty.p + 1, acc2)
                      ELSE Err(ty.p)

PUseArgs(ts, p, acc) ==
    IF ts[p].k = ")" THEN Ok(p + 1, acc)
    ELSE IF ts[p].k # "STR" THEN Err(p)
    ELSE PUseArgs(ts, IF ts[p + 1].k = "," THEN p + 2 ELSE p + 1, Append(acc, ts[p].v.s))

PFunc(ts, p) ==
    IF ts[p + 1].k # "ID" THEN Err(p + 1)
    ELSE IF ts[p + 2].k # "(" THEN Err(p + 2)
    ELSE LET ps == PParams(ts, p + 3, << >>)
         IN  IF ~ps.ok THEN ps
             ELSE LET rt == IF ts[ps.p].k = ":" THEN PType(ts, ps.p + 1) ELSE Ok(ps.p, VoidT)
                  IN  IF ~rt.ok THEN rt
                      ELSE LET b == PStmt(ts, rt.p, IF rt.a = VoidT THEN "void" ELSE "val")
                           IN  IF ~b.ok THEN b
                               ELSE Ok(b.p, [k |-> "func", n |-> ts[p + 1].s, ps |-> ps.a, ret |-> rt.a,
                                             body |-> b.a, sp |-> Sp(ts, p, rt.p)])

PFor(ts, p, cx) ==
    LET i == PStmt(ts, p + 1, Deeper(cx))
    IN  IF ~i.ok THEN i
        ELSE IF ts[i.p].k # ";" THEN Err(i.p)
        ELSE LET c == PExpr(ts, i.p + 1)
             IN  IF ~c.ok THEN c
                 ELSE IF ts[c.p].k # ";" THEN Err(c.p)
                 ELSE LET s == PStmt(ts, c.p + 1, Deeper(cx))
                      IN  IF ~s.ok THEN s
                          ELSE LET b == PStmt(ts, s.p, Deeper(cx))
                               IN  IF ~b.ok THEN b
                                   ELSE Ok(b.p, [k |-> "for", i |-> i.a, c |-> c.a, s |-> s.a, a |-> b.a,
                                                 sp |-> Sp(ts, p, s.p)])

\* Declarations, constants, assignments and calls
PSimple(ts, p) ==
    LET l == PFactor(ts, p)
    IN  IF ~l.ok THEN l
        ELSE IF l.a.k = "call" THEN Ok(l.p, [k |-> "expr", e |-> l.a, sp |-> Sp(ts, p, l.p)])
        ELSE LET op == ts[l.p].k
                 ty == IF op = ":" THEN PType(ts, l.p + 1) ELSE Ok(l.p, [n |-> "", q |-> FALSE])
             IN  IF op \notin AssignOps \cup {":=", ":", "::"} THEN Soft(l.p)
                 ELSE IF op \in {":=", ":"} /\ l.a.k # "id" THEN Err(l.p)
                 ELSE IF ~ty.ok THEN ty
                 ELSE IF op = ":" /\ ts[ty.p].k # "=" THEN Err(ty.p)
                 ELSE LET e == PExpr(ts, ty.p + 1)
                      IN  IF ~e.ok THEN e
                          ELSE IF op \in {":=", ":"}
                               THEN Ok(e.p, [k |-> "decl", n |-> l.a.n, ty |-> ty.a, e |-> e.a, sp |-> Sp(ts, p, e.p)])
                          ELSE IF op = "::"
                               THEN IF l.a.k = "id" /\ e.a.k = "lit" /\ e.a.v # VNull
                                    THEN Ok(e.p, [k |-> "const", n |-> l.a.n, v |-> e.a.v, sp |-> Sp(ts, p, e.p)])
                                    ELSE Err(e.p) \* found only once the value was read
                          ELSE Ok(e.p, [k |-> "asg", op |-> op, l |-> l.a, e |-> e.a, sp |-> Sp(ts, p, e.p)])

PStmt(ts, p, cx) ==
    LET t == ts[p]
    IN
    CASE t.k = "{" ->
            LET r == PStmts(ts, p + 1, Deeper(cx), "}")
            IN  IF r.ok THEN Ok(r.p, [k |-> "blk", ss |-> r.a, sp |-> Sp(ts, p, p + 1)]) ELSE r
      [] t.k = "func" -> IF cx \in {"void", "val"} THEN Err(p) ELSE PFunc(ts, p)
      [] t.k = "if" ->
            LET c == PExpr(ts, p + 1)
            IN  IF ~c.ok THEN c
                ELSE LET a == PStmt(ts, c.p, cx)
                     IN  IF ~a.ok THEN a
                         ELSE IF ts[a.p].k = "else"
                              THEN LET b == PStmt(ts, a.p + 1, cx)
                                   IN  IF ~b.ok THEN b
                                       ELSE Ok(b.p, [k |-> "if", c |-> c.a, a |-> a.a, b |-> b.a, sp |-> Sp(ts, p, c.p)])
                              ELSE Ok(a.p, [k |-> "if", c |-> c.a, a |-> a.a, b |-> NoE, sp |-> Sp(ts, p, c.p)])
      [] t.k = "while" ->
            LET c == PExpr(ts, p + 1)
            IN  IF ~c.ok THEN c
                ELSE LET a == PStmt(ts, c.p, Deeper(cx))
                     IN  IF ~a.ok THEN a
                         ELSE Ok(a.p, [k |-> "while", c |-> c.a, a |-> a.a, sp |-> Sp(ts, p, c.p)])
      [] t.k = "for" -> PFor(ts, p, cx)
      [] t.k = "return" ->
            IF cx \notin {"void", "val"} THEN Err(p)
            ELSE IF ts[p + 1].k = ";" THEN Ok(p + 2, [k |-> "ret", e |-> NoE, sp |-> Sp(ts, p, p + 2)])
            ELSE IF cx = "void" THEN Err(p + 1)
            ELSE LET e == PExpr(ts, p + 1)
                 IN  IF e.ok THEN Ok(e.p, [k |-> "ret", e |-> e.a, sp |-> Sp(ts, p, e.p)]) ELSE e
      [] t.k = "break" -> Ok(p + 1, [k |-> "brk", sp |-> Sp(ts, p, p + 1)])
      [] t.k = "continue" -> Ok(p + 1, [k |-> "cont", sp |-> Sp(ts, p, p + 1)])
      [] t.k = "use" ->
            IF cx # "top0" THEN Err(p)
            ELSE IF ts[p + 1].k # "ID" THEN Err(p + 1)
            ELSE IF ts[p + 2].k # "(" THEN Err(p + 2)
            ELSE LET r == PUseArgs(ts, p + 3, << >>)
                 IN  IF ~r.ok THEN r
                     ELSE IF ts[r.p].k = "ID" /\ ts[r.p].s = "as"
                          THEN IF ts[r.p + 1].k # "ID" THEN Err(r.p + 1)
                               ELSE Ok(r.p + 2, [k |-> "use", n |-> ts[p + 1].s, as |-> r.a, nm |-> ts[r.p + 1].s,
                                                 sp |-> Sp(ts, p, r.p + 2)])
                          ELSE Ok(r.p, [k |-> "use", n |-> ts[p + 1].s, as |-> r.a, nm |-> "", sp |-> Sp(ts, p, r.p)])
      [] OTHER -> PSimple(ts, p)

\* Parses a whole source (byte codes); tokens end with EOF or ERR, two more
\* ERR tokens keep the look ahead inside of the sequence
ParseToks(ts) == LET e == Tok("ERR", 0, 0, 0) IN PStmts(ts \o <<e, e, e>>, 1, "top0", "EOF")
Parse(src) == ParseToks(Lex(src))
=============================================================================
