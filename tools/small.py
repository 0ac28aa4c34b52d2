"""Small programs which are enumerated instead of drawn: every operator with every form of operand, every statement in every place, the sizes
around the limits. Many of them are compiled one after another on one state, so that a history costs little."""
from vlib import Case


def lines(*xs):
    return "\n".join(xs) + "\n"


def pack(o, fam, head, snips, per, run=True, how="run 0"):
    """Each of the sources on a state which has the head; then all of them are executed"""
    for i in range(0, len(snips), per):
        c = Case(o.id(fam)).state(0).compile(head)
        for s in snips[i:i + per]:
            c.compile(s)
        if run:
            c.add("thread 0 0").add("start 0").add(how).add("destroy 0")
        o.put(c.add("delstate 0").add("mem"), fam)


# --------------------------------------------------------------------------------- expressions
HEAD = lines('struct P { a: int f: float b: bool s: str y: any }', 'use array("int") as ai', 'K1 :: 1', 'K7 :: 7', 'KF :: 2.5', 'KT :: true', 'KS :: "ks"', 'g := 5', 'g1 := 1', 'gz := 0', 'gf := 1.5', 't := true', 'u := false', 's := "abc"',
             'ga: any = 8', 'gn: any = cast(null, any)', 'p := new P{3, 0.5, true, "abc", cast("abc", any)}', 'p2 := new P{3, 0.5, true, "abc", cast("abc", any)}', 'arr := ai(4, 1, 6)',
             'func f1(): int { return 1 }', 'func f2(x: int): int { return x * 2 }', 'func ff(): float { return 0.5 }', 'func ft(): bool { return true }', 'func fs(): str { return "abc" }', 'func ident(x: any): any { return x }')
# (expression, value or None)
INTS = [("0", 0), ("1", 1), ("2", 2), ("7", 7), ("-1", -1), ("-7", -7), ("(1)", 1), ("(-1)", -1), ("-(1)", -1), ("K1", 1), ("K7", 7), ("g", 5), ("g1", 1), ("gz", 0), ("l", 3), ("a", 9), ("oi(4)", 4), ("oi(1)", 1), ("oi(-1)", -1), ("p.a", 3),
        ("arr[1]", 1), ("arr[0]", 4), ("cast(ga, int)", 8), ("(g + 1)", 6), ("(g - 1)", 4), ("(l - g)", -2), ("(if t 1 else 2)", 1), ("'a'", 97), ("strlen(s)", 3), ("0x10", 16), ("f1()", 1), ("f2(a)", 18), ("(oi(2) * oi(3))", 6), ("-g", -5),
        ("1000000", 1000000), ("-K1", -1), ("256", 256), ("257", 257), ("65537", 65537)]
FLOATS = ["0.0", "1.0", "0.5", "-1.0", "-(0.5)", "KF", "gf", "lf", "of(1.5)", "p.f", "float(2)", "ff()", "(gf + 1.0)", "(gf - 1)", "-gf", "(if u 1.0 else 2.0)"]
BOOLS = ["true", "false", "ob(true)", "ob(false)", "t", "u", "KT", "!t", "!u", "(g == 5)", "(1 < g)", "p.b", "ft()", "!ob(true)", "(t && u)", "(u || t)", "(if t u else t)"]
STRS = ['""', '"abc"', '"ab"', "s", "KS", 'strcat("a", "bc")', "p.s", "fs()", "cast(p.y, str)", "ls"]
ANYS = ["ga", "gn", "ident(8)", "ident(null)", 'ident("abc")', "p.y", "ident(8.0)", "ident(t)", "ident(p)", "ident(p2)", "ident(1)", "ident(true)", "echo(0)", "echo(false)", "echo(0.0)", 'echo("")', "light(3)", "light(0)", "echo(arr)"]
INTOPS = ["+", "-", "*", "/", "%", "&", "|", "<<", ">>", "<", "<=", ">", ">=", "==", "!="]


def ok(op, x, y):
    if op in ("/", "%") and y == 0:
        return False
    if op in ("<<", ">>") and (y < 0 or x < 0 or y > 16 or x > 1000):
        return False
    if op == "*" and abs(x) * abs(y) >= 2 ** 31:
        return True
    return True


def int_pairs():
    return ["%s %s %s" % (a, op, b) for op in INTOPS for a, x in INTS for b, y in INTS if ok(op, x, y)]


def mixed_pairs():
    out = []
    for op in ["+", "-", "*", "<", "<=", ">", ">="]:
        out += ["%s %s %s" % (a, op, b) for a, _ in INTS for b in FLOATS] + ["%s %s %s" % (b, op, a) for a, _ in INTS for b in FLOATS] + ["%s %s %s" % (a, op, b) for a in FLOATS for b in FLOATS]
    out += ["%s / %s" % (a, b) for a in FLOATS for b in ["2", "-2", "4.0", "0.5", "of(2.0)", "oi(4)", "p.f", "float(2)", "ff()"]]
    out += ["%s / %s" % (a, b) for a, _ in INTS for b in ["4.0", "0.5", "of(2.0)", "p.f", "float(2)", "ff()"]]
    return out


def bool_pairs():
    out = ["%s %s %s" % (a, op, b) for op in ("&&", "||", "==", "!=") for a in BOOLS for b in BOOLS]
    few = ["true", "false", "ob(true)", "ob(false)", "t", "u"]
    out += ["%s %s (%s %s %s)" % (a, x, b, y, c) for x in ("&&", "||") for y in ("&&", "||") for a in few for b in few for c in few]
    out += ["(%s %s %s) %s %s" % (a, x, b, y, c) for x in ("&&", "||") for y in ("&&", "||") for a in few for b in few for c in few]
    out += ["%s %s %s %s %s" % (a, x, b, y, c) for x in ("&&", "||") for y in ("&&", "||") for a in few for b in few for c in few]
    return out


def other_pairs():
    out = ["%s %s %s" % (a, op, b) for op in ("==", "!=") for a in FLOATS for b in FLOATS]
    out += ["%s %s %s" % (a, op, b) for op in ("==", "!=") for a in STRS for b in STRS]
    out += ["%s %s %s" % (a, op, b) for op in ("==", "!=") for a in ANYS for b in ANYS]
    out += ["%s %s %s" % (a, op, b) for op in ("==", "!=") for a in ("p", "p2", "(if t p else p2)", "cast(ident(p), P)") for b in ("p", "p2", "(if u p else p2)", "cast(ident(p2), P)")]
    return out


def unaries():
    out = []
    for a, _ in INTS:
        out += ["-%s" % a, "- -%s" % a, "-(-(%s))" % a, "-(%s + 1)" % a, "1 - %s" % a, "2 - -%s" % a, "-%s * 2" % a, "-%s - 1" % a]
    out += ["-%s" % a for a in FLOATS] + ["-(-%s)" % a for a in FLOATS] + ["!%s" % a for a in BOOLS] + ["!!%s" % a for a in BOOLS] + ["!(%s)" % a for a in BOOLS]
    return out


def terns():
    out = []
    for c in BOOLS:
        out += ["(if %s 1 else 2)" % c, "if %s oi(1) else oi(2)" % c, "(if %s s else KS)" % c, "(if %s 0 + (if t oi(1) else 2) else oi(3))" % c, "(if t 0 + (if %s 1 else oi(2)) else 3)" % c, "(if u oi(1) else if %s 2 else oi(3))" % c, "1 + (if %s 2 else 3) * 2" % c]
    return out


def compounds(r):
    out = []
    for k, tgt in enumerate(["g", "l", "a", "p.a", "arr[1]", "arr[oi(1)]", "q#", "gf", "lf", "p.f"]):
        fl = tgt in ("gf", "lf", "p.f")
        for op in ["+", "-", "*", "/", "%", "|", "&"]:
            if fl and op in "%|&":
                continue
            for b, y in ([(f, 1) for f in FLOATS] if fl else INTS):
                if op in "/%" and y == 0 or op == "/" and fl and b not in ("0.5", "1.0", "-1.0", "float(2)", "-(0.5)", "p.f", "ff()"):
                    continue
                if b in ("0.0",) and op == "/":
                    continue
                out.append(("q# := 6\n" if tgt == "q#" else "") + "%s = %s\n%s %s= %s\nemit(%s)\n%s = %s" % (tgt, "6.5" if fl else "6", tgt, op, b, tgt, tgt, {"g": "5", "l": "3", "a": "9", "p.a": "3", "arr[1]": "1", "arr[oi(1)]": "1", "q#": "6", "gf": "1.5", "lf": "0.25", "p.f": "0.5"}[tgt]))
    return out


CTX = ["emit(%s)"] * 5 + ["emit(1, %s, 2)", "w# := %s\nemit(w#)", "emit((%s))", "emit(ident(%s))", "w#: any = %s\nemit(w#)"]
BCTX = ["if %s { emit(1) } else { emit(2) }", "while %s { emit(1)\nbreak }", "emit(if %s 1 else 2)", "for w# := 0; %s; w# += 1 { emit(w#)\nbreak }", "if !(%s) { emit(1) }"]


def exprs(o, r, n, fam="enum"):
    """n of the expressions, 25 to a source; those whose operands are literals or have effects more often"""
    pools = [(int_pairs(), 4, False), (mixed_pairs(), 2, False), (bool_pairs(), 3, True), (other_pairs(), 2, True), (unaries(), 1, False), (terns(), 1, False), (compounds(r), 2, None)]
    tot = sum(w for _, w, _ in pools)
    sts = []
    for p, w, isb in pools:
        r.shuffle(p)
        for e in p[:max(1, n * w // tot)]:
            if isb is None:
                sts.append(e)
            else:
                cmp = any(x in e for x in ("<", ">", "==", "!=", "&&", "||")) and "<<" not in e and ">>" not in e and not e.startswith(("if", "(if")) if not isb else True
                sts.append((r.choice(BCTX) if cmp and r.random() < 0.3 else r.choice(CTX)).replace("%s", e))
    r.shuffle(sts)
    snips = []
    for i in range(0, len(sts), 25):
        b = [x.replace("#", str(i + j)) for j, x in enumerate(sts[i:i + 25])]
        if r.random() < 0.7:
            snips.append("func e%d(a: int, lf: float) {\nl := 3\nls := \"abc\"\n%s}\ne%d(9, 0.25)\n" % (i, lines(*b), i))
        else:
            snips.append("l%d := 3\na%d := 9\nlf%d := 0.25\nls%d := \"abc\"\n" % (i, i, i, i) + sub(lines(*b), str(i)))
    r.shuffle(snips)
    pack(o, fam, HEAD, snips, 3)


def sub(t, k):
    import re
    return re.sub(r'''(?<![.\w"'])(lf|ls|l|a)(?![\w"'])''', lambda m: m.group(1) + k, t)


# ---------------------------------------------------------------------------------- statements
SHEAD = lines("n := 0", "tk := 0", "func tick(): bool { tk += 1\nif tk % 17 > 9 { return false }\nreturn tk % 4 != 0 }", "struct P { a: int b: any }", 'p := new P{1, cast(2, any)}', 'use array("int") as ai', "arr := ai(1, 2, 3)", "func give(x: int): int { return x }")
STMTS = ["break", "continue", "return", "return;", "return 3", "return give(4)", 'return "s"', "emit(#)", "n += 1", "n = 2", "v# := #", "v#: any = #", "v# :: #", "{ }", "{ emit(#) }", "{ v# := #\nemit(v#) }", ";", "func f#() { emit(#) }", "struct Q# { a: int }",
         "if tick() emit(#)", "if tick() { emit(#) } else emit(0)", "if tick() break else emit(#)", "if tick() { continue }", "{ break }", "{ continue }", "{ emit(#)\nbreak\nemit(0) }", "{ emit(#)\ncontinue\nemit(0) }", "{ return }", "{ return 5 }", "tick()", "p.a = #", "p.a += 1", "arr[0] = #", "arr[1] += 1",
         "3", "n", "tick() && tick()", "null", "-1", "new P{1, 2}", "emit", "else", "(emit(#))", "if tick() { if tick() { break } else { continue } }", "while tick() { break }", "for z# := 0; z# < 2; z# += 1 continue", "while tick() continue", "if tick() return", "if tick() return 6"]
PLACES = ["while tick() { X }", "while tick() X", "while tick() { emit(#)\nX\nemit(-#) }", "for i# := 0; i# < 3; i# += 1 { X }", "for i# := 0; i# < 3; i# += 1 X", "for i# := 0; i# < 3; i# += 1 { emit(i#)\nX\nemit(-i#) }", "for X; tick(); n += 1 { emit(#) }",
          "for i# := 0; i# < 2; X { i# += 1\nemit(i#) }", "for i# := 0; tick(); X emit(i#)", "if tick() { X }", "if tick() X", "if tick() X else emit(0)", "if tick() { emit(#) } else { X }", "if tick() emit(#) else X", "if tick() emit(#) else if tick() X else emit(0)",
          "if tick() emit(#) else if tick() { X }", "{ X }", "{ emit(#)\nX\nemit(-#) }", "func f#() { X }\nf#()", "func f#(): int { X\nreturn 1 }\nemit(f#())", "func f#(): int { emit(#)\nwhile tick() { X\nemit(-#) }\nreturn 1 }\nemit(f#())", "func f#() X\nf#()", "while tick() { X\nbreak }", "X\nemit(#)", "X"]


def stmts(o, r, n2, n3, fam="every"):
    """Every statement in every place, n2 of them in two places and n3 in three"""
    ctr = [0]

    def build(ps, s):
        ctr[0] += 1
        t = s.replace("#", str(ctr[0]))
        multi = False
        for p in ps:
            ctr[0] += 1
            if multi and p not in ("X", "X\nemit(#)") and "{ X" not in p and "\nX" not in p:
                t = "{ %s }" % t
                multi = False
            multi = multi and p in ("X", "X\nemit(#)") or p == "X\nemit(#)" or p.startswith("func")
            t = p.replace("#", str(ctr[0])).replace("X", t)
        return t + "\n"
    one = [build([p], s) for p in PLACES for s in STMTS]
    two = [build([r.choice(PLACES), r.choice(PLACES)], r.choice(STMTS)) for _ in range(n2)]
    three = [build([r.choice(PLACES), r.choice(PLACES), r.choice(PLACES)], r.choice(STMTS[:16] + STMTS[19:34] + STMTS[43:])) for _ in range(n3)]
    for i, l in enumerate((one, two, three)):
        r.shuffle(l)
        pack(o, fam + "%d" % (i + 1), SHEAD, l, 50)


# -------------------------------------------------------------------------------------- limits
EDGES = [1, 2, 31, 32, 33, 63, 64, 65]
FAR = [126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 300]


def prog(o, fam, src, how="run 0"):
    c = Case(o.id(fam)).state(0).compile(src).compile("emit(7777)\n")
    c.add("thread 0 0").add("start 0").add(how).add("destroy 0").add("delstate 0").add("mem")
    o.put(c, fam)


def many_locals(o, r, fam="edge"):
    """Numbers of locals, parameters and arguments around powers of two: up to what the stack holds they are executed"""
    for n in EDGES + [100]:
        vs = ["v%d" % i for i in range(n)]
        w = r.sample(vs, min(n, 8)) + [vs[-1], vs[0]]
        prog(o, fam, "func f(): int {\n" + lines(*["%s := %d" % (v, i * 3 + 1) for i, v in enumerate(vs)]) + lines(*["%s += %d" % (v, r.randint(1, 9)) for v in w]) + lines(*["emit(%s)" % v for v in vs]) + "return %s\n}\nemit(f())\n" % vs[-1])
        if n <= 65:
            prog(o, fam, "func f(%s): int {\n" % ", ".join(v + ": int" for v in vs) + lines(*["%s += %d" % (v, r.randint(1, 9)) for v in w]) + lines(*["emit(%s)" % v for v in vs]) + "return %s\n}\nemit(f(%s))\n" % (vs[-1], ", ".join(str(i * 2) for i in range(n))))
            prog(o, fam, "emit(count(%s), pick(%d, %s), bytes(%s))\n" % (", ".join("1" * n), n - 1, ", ".join(str(i * 5) for i in range(n)), ", ".join(str(65 + i % 26) for i in range(n))))
            # both, and a local and a parameter of the same position
            prog(o, fam, "func f(%s): int {\n" % ", ".join(v + ": int" for v in vs[:n // 2 + 1]) + lines(*["w%d := v%d * 2" % (i, i) for i in range(n // 2)]) + lines(*["emit(v%d, w%d)" % (i, i) for i in range(n // 2)]) + "return v0\n}\nemit(f(%s))\n" % ", ".join(str(i * 2) for i in range(n // 2 + 1)))
    for n in FAR:
        vs = ["v%d" % i for i in range(n)]
        c = Case(o.id(fam)).state(0)
        c.compile("func f(): int {\n" + lines(*["%s := %d" % (v, i) for i, v in enumerate(vs)]) + "return %s\n}\n" % vs[-1])
        c.compile("func g(%s): int {\n return v0 + %s }\n" % (", ".join(v + ": int" for v in vs), vs[-1]))
        c.compile("func h() { emit(g(%s)) }\n" % ", ".join(str(i) for i in range(n)))
        c.compile("func h2() { emit(g(%s)) }\n" % ", ".join(str(i) for i in range(n - 1)))
        c.compile("func k() { emit(count(%s)) }\n" % ", ".join("1" * n))
        c.compile("func k2() { emit(%s) }\n" % ", ".join("1" * n))
        c.compile("emit(1, 2)\n")
        c.compile("func l(%s): int {\nw := 3\nz := v0 + w\nreturn z }\n" % ", ".join(v + ": int" for v in vs))
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)


def many_fields(o, r, fam="edge"):
    for n in EDGES + [100, 110]:
        d = lines("struct S {", *["f%d: int" % i for i in range(n)]) + "}\n"
        b = ["p := new S{%s}" % ", ".join(str(i * 2) for i in range(n)), "q := new S{%s}" % ", ".join(".f%d = %d" % (i, i * 3) for i in r.sample(range(n), n))]
        b += ["p.f%d += q.f%d" % (i, n - 1 - i) for i in r.sample(range(n), min(n, 10)) + [n - 1]]
        b += ["emit(p.f%d, q.f%d)" % (i, i) for i in range(n)]
        prog(o, fam, d + lines(*b))
    for n in FAR:
        d = lines("struct S {", *["f%d: int" % i for i in range(n)]) + "}\n"
        c = Case(o.id(fam)).state(0).compile(d)
        c.compile("func a(p: S): int { p.f%d = 4\nreturn p.f%d + p.f%d }\n" % (n - 1, n - 1, n // 2)).compile("func a1(): S { return new S{%s} }\n" % ", ".join(str(i) for i in range(n)))
        c.compile("func a2(): S { return new S{%s} }\n" % ", ".join(".f%d = 1" % i for i in range(n))).compile("func a3(): S { return new S{%s} }\n" % ", ".join(".f%d = 1" % i for i in range(1, n))).compile("emit(3)\n")
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)
    # fields beyond the first 127 read and written in a struct made by parts: none can be made without all its values on the stack
    # many structs
    n = 300
    src = lines(*["struct T%d { a%d: int b: T%d? }" % (i, i, (i + 1) % n) for i in range(n)])
    src += lines(*["t%d := new T%d{%d, cast(null, T%d?)}" % (i, i, i, (i + 1) % n) for i in range(0, n, 7)]) + lines(*["emit(t%d.a%d)" % (i, i) for i in range(0, n, 7)])
    prog(o, fam, src)


def many_strings(o, r, fam="edge"):
    """String constants: as many as 300 of them, those around 256 in every use"""
    for n in (60, 140, 255, 256, 257, 300, 520):
        b = ["emit(\"s%dx\")" % i for i in range(n)]
        prog(o, fam, lines(*b))
    for n in (18, 20):     # there is room for 1024
        prog(o, fam, lines(*["emit(%s)" % ", ".join('"s%d_%d"' % (j, i) for i in range(50)) for j in range(n)]))
    ss = ["\"k%d\"" % i for i in range(270)]
    prog(o, fam, lines(*["C%d :: %s" % (i, x) for i, x in enumerate(ss)]) + lines(*["emit(C%d, C%d == %s)" % (i, i, x) for i, x in enumerate(ss)]))
    prog(o, fam, "func f(i: int): str {\n" + lines(*["if i == %d { return %s }" % (i, x) for i, x in enumerate(ss)]) + "return \"none\" }\nfor i := 240; i < 271; i += 1 { emit(f(i), strlen(f(i)), f(i) == \"k256\") }\n")
    c = Case(o.id(fam)).state(0)
    for i in range(30):
        c.compile(lines(*["emit(\"p%d_%d\")" % (i, j) for j in range(10)]), 0, "file%d.tiny" % i)
    o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)


def many_functions(o, r, fam="edge"):
    for n in (100, 255, 256, 257, 300):
        prog(o, fam, lines(*["func f%d(a: int): int { return a * 1000 + %d }" % (i, i) for i in range(n)]) + lines(*["emit(f%d(%d))" % (i, i % 7) for i in range(0, n, 1 if n < 260 else 3)]) + "emit(f%d(3), f%d(2))\n" % (n - 1, n - 2))
    c = Case(o.id(fam)).state(0)
    n = 300
    for i in range(n):
        c.add("bind 0", "count" if i % 3 else "c7", ("hf%d(%s): int" % (i, "int" if i % 3 else "")).encode().hex())
    c.compile(lines(*["emit(hf%d(%s))" % (i, "1" if i % 3 else "") for i in range(n)]))
    o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)


def long_names(o, r, fam="edge"):
    for L in (1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2000):
        a, b = "n" * (L - 1) + "a", "n" * (L - 1) + "b"
        prog(o, fam, "%s := 1\n%s := 2\nemit(%s, %s)\n%s = 3\nemit(%s, %s)\nfunc f%s(%s: int): int { %s := %s + 1\nreturn %s }\nfunc f%s(%s: int): int { return -%s }\nemit(f%s(5), f%s(6))\n" % (a, b, a, b, a, a, b, a, a, b, a, b, b, a, a, a, b)
             + "struct T%s { %s: int %s: int }\nz := new T%s { .%s = 1, .%s = 2 }\nemit(z.%s, z.%s)\nstruct T%s { q: int }\ny := new T%s{9}\nemit(y.q)\nfunc w(p: T%s?, q: T%s) { emit(q.q) }\nw(z, y)\nG%s :: 41\nG%s :: 42\nemit(G%s, G%s)\n" % (a, a, b, a, b, a, a, b, b, b, a, b, a, b, a, b)
             + "emit(\"%s\", \"%s\", \"%s\" == \"%s\", strlen(\"%s\"))\n" % (a, b, a, b, a))


def index_functions(o, r, fam="index"):
    """x[i] and x[i] = v for functions of the program, of the host, or none"""
    G = {"none": "", "fn": "func {T}_get_index(p: {T}, i: int): int { emit(100, i)\nreturn p.a * 10 + i }", "host": ("pick", "{T}_get_index({T}, int): any"), "fnstr": "func {T}_get_index(p: {T}, i: str): str { emit(101, i)\nreturn strcat(i, \"!\") }",
         "fn1": "func {T}_get_index(p: {T}): int { return 1 }", "fn3": "func {T}_get_index(p: {T}, i: int, j: int): int { return 1 }", "fnother": "func {T}_get_index(p: int, i: int): int { return 1 }", "fnvoid": "func {T}_get_index(p: {T}, i: int) { emit(102) }", "hostva": ("count", "{T}_get_index(...): int"), "fnany": "func {T}_get_index(p: any, i: any): any { emit(103)\nreturn i }"}
    S = {"none": "", "fn": "func {T}_set_index(p: {T}, i: int, v: int) { emit(200, i, v)\np.a = v }", "host": ("emit", "{T}_set_index({T}, int, int): void"), "fnstr": "func {T}_set_index(p: {T}, i: str, v: str) { emit(201, i, v) }", "fn2": "func {T}_set_index(p: {T}, i: int) { emit(202) }",
         "fnret": "func {T}_set_index(p: {T}, i: int, v: int): int { emit(203, v)\nreturn v }", "hostva": ("emit", "{T}_set_index(...): void"), "fnany": "func {T}_set_index(p: {T}, i: any, v: any) { emit(204, i, v) }"}
    U = ["emit(x[3])", "x[2] = 5", "x[1] += 4", "x[\"k\"] = \"v\"", "emit(x[\"k\"])", "x[oi(1)] = oi(6)", "emit(x[oi(4)] == x[4])", "x[x.a] = x.a + 1", "x[1.5] = 2", "x[1] = null", "f(x)", "emit((x)[2])", "emit(g()[1])", "g()[1] = 3", "emit(new P{5}[1])"]
    k = 0
    for g, gv in G.items():
        for s, sv in S.items():
            c = Case(o.id(fam))
            c.add("state 0", Case.LIBS)
            for kind, sig in (("emit", "emit(...): void"), ("echo", "oi(int): int")):
                c.add("bind 0", kind, sig.encode().hex())
            T = "P"
            host = isinstance(gv, tuple) or isinstance(sv, tuple)
            if host:
                c.add("type 0 P")
                x = "struct Q { a: int }\nx0: any = 1\nx := cast(x0, P)\n"
            else:
                x = "struct P { a: int }\nx := new P{7}\n"
            for v in (gv, sv):
                if isinstance(v, tuple):
                    c.add("bind 0", v[0], v[1].replace("{T}", T).encode().hex())
                else:
                    x += v.replace("{T}", T) + "\n"
            if host:
                x = x.replace("p.a = v", "emit(v)").replace("p.a * 10", "10")
            c.compile(x + "func f(p: P) { p[1] = 8\nemit(p[2]) }\nfunc g(): P { return x }\n").compile(x + "func g(): P { return x }\n")
            for u in U:
                c.compile(u + "\n")
            o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)
            k += 1


def arg_counts(o, r, fam="arity"):
    """Every number of arguments for every kind of signature"""
    sigs = ["s0(): int", "s1(int): int", "s2(int, str): int", "s3(int, str, bool): int", "v0(...): int", "v1(int, ...): int", "v2(int, str, ...): int", "v3(int, str, bool, ...): int", "u"]
    vals = ["1", "\"a\"", "true", "2.5", "null"]
    for first in range(5):
        c = Case(o.id(fam))
        c.add("state 0", Case.LIBS).add("bind 0 emit", "emit(...): void".encode().hex())
        for s in sigs:
            c.add("bind 0 count", s.encode().hex())
        c.compile("func q0(): int { return 0 }\nfunc q1(a: int): int { return a }\nfunc q2(a: int, b: str): int { return a }\nfunc q3(a: int, b: str, c: bool): int { return a }\n")
        for f in [s.split("(")[0] for s in sigs] + ["q0", "q1", "q2", "q3"]:
            for n in range(6):
                args = (vals[first:] + vals)[:n] if first else vals[:n]
                c.compile("emit(%s(%s))\n" % (f, ", ".join(args)))
                if n == 3:
                    c.compile("emit(%s(%s))\n" % (f, ", ".join(["1", "\"a\"", "1"])))
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)


def far_lines(o, r, fam="farline"):
    for n in (250, 255, 256, 257, 300, 32766, 32768, 65535, 65536, 66000):
        src = "emit(1)\n" + "\n" * (n - 3) + "emit(2)\nfunc f() {\nemit(3)\n\nemit(4) }\nf()\n\nemit(5)\n"
        c = Case(o.id(fam)).state(0).compile(src).compile("\n\nemit(6)\nf()\n", 0, "n.tiny")
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)


# ----------------------------------------------------------------------- tables of the library
WIDE = ["0", "1", "-1", "9", "10", "-10", "127", "128", "255", "256", "32767", "65535", "65536", "99999", "100000", "999999", "1000000", "16777216", "16777217", "2147483646", "2147483647", "-2147483647", "-2147483647 - 1", "2147483647 + 1",
        "-2147483647 - 2", "65536 * 65536 - 1", "65536 * 65536", "65536 * 65536 + 1", "-65536 * 65536", "65536 * 65536 * 1000", "2147483647 * 2147483647", "-2147483647 * 2147483647", "1000000 * 1000000 * 1000000", "99999999 * 99999999 + 12345"]
DYAD = ["0.0", "1.0", "-1.0", "0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "0.25", "0.75", "-0.75", "0.125", "0.0625", "0.03125", "0.015625", "99.5", "-99.5", "100.0", "999.75", "1023.9375", "1024.0", "12345.5", "-12345.5", "99999.5", "99999.75",
        "100000.0", "123456.0", "999999.0", "999999.5", "1000000.0", "1234567.0", "8388607.5", "8388608.0", "16777215.0", "3.0", "-3.0", "7.5", "65535.5", "65536.0", "10.0", "1000.5", "-0.0625", "2097151.875"]
TEXTS = ["0", "00", "7", "12", "-12", "+7", "  42", "\\t-3", "12abc", "abc", "", "-", "+", " ", "0x1F", "0X1f", "-0x10", "0x", "0xg", "077", "08", "1.5", "-2.25", ".5", "5.", ".", "-.5", "+.25", "2147483647", "-2147483647", "99999", "zz", "1010", "ff", "FF", "z", "Zz", " 1.25x",
         "1 2", "\\n7", "000012", "-0", "- 1", "--1", "1-1", "0.1", "0.0625", "100.125", "1,5", "1_0", "\xb2", "a1", "0b11", "0o17", "%d", "\\\\1"]


def batch(o, fam, head, sts, per, how="run 0", files=3):
    pack(o, fam, head, [lines(*sts[i:i + per]) for i in range(0, len(sts), per)], files, how=how)


def numbers(o, r, fam="table"):
    """Every conversion and format of every number"""
    st = []
    for x in WIDE:
        st += ["emit(int_to_str(%s), i64_to_string(int_to_i64(%s)), int_to_json(%s))" % (x, x, x), "printf(\"%%i|%%q|%%i\\n\", %s, %s, 5)" % (x, x), "emit(%s == %s, stoi(\"7\", 10) + %s - 7)" % (x, x, x)]
        if "* 2147483647" not in x and "1000000 * 1000000 * 1" not in x and "99999999 *" not in x and "* 1000" not in x:
            st += ["emit(i64_to_string(i64_add_many(%s)))" % ", ".join("int_to_i64(%s)" % y for y in [x, y, x][:n]) for y in ["-1", "65536 * 65536", "2147483647"] for n in (1, 2, 3)]
            st += ["emit(i64_to_string(i64_mul_many(%s)))" % ", ".join("int_to_i64(%s)" % z for z in [x, y, "3"][:n]) for y in ["-1", "65536", "2147483647"] for n in ((2, 3) if y != "2147483647" else (2,))]
    st += ["emit(%s)" % ", ".join("int_to_i64(%s) %s int_to_i64(%s)" % (x, op, y) for op in ("==", "!=")) for x in WIDE for y in WIDE[:60] if x != y]
    for x in WIDE[:19]:
        st += ["emit(float(%s))" % x, "emit(ntos(%s))" % x]
    for x in DYAD:
        st += ["emit(floor(%s), ceil(%s), int(%s))" % (x, x, x), "emit(ntos(%s), float_to_json(%s))" % (x, x), "printf(\"%%f|%%q\\n\", %s, %s)" % (x, x), "emit(int(-(%s)), floor(-(%s)), ceil(-(%s)))" % (x, x, x)]
    batch(o, fam, "x := 1\n", st, 30)
    st = []
    for t in TEXTS:
        st += ["emit(%s)" % ", ".join('stoi("%s", %s)' % (t, b) for b in ((0, 10) if "2147" in t else (0, 2, 8, 10, 16, 36, 3, 35))), 'emit(str_to_int("%s"))' % t]
    batch(o, fam, "x := 1\n", st, 20)
    st = ['emit(ston("%s"))' % t for t in TEXTS if not any(c in t for c in "xX") and not t[-1:] in "zZ"]
    batch(o, fam, "x := 1\n", st, 10)


def formats(o, r, fam="table"):
    """Every format of up to three pieces; the representation of every value within every container"""
    P = {"%i": ["42", "-7", "65536 * 65536"], "%f": ["1.5", "-0.25"], "%s": ['"abc"', '""', 'strcat("he", "ap")', 'bytes(65, 0, 66)'], "%c": ["65", "'z'"], "%q": ['"q"', "3", "null", "true", "ar", "p", 'strcat("he", "ap")'], "%%": None, "x": None, " \\n": None}
    hd = lines("struct P { a: int s: str o: any }", 'p := new P{1, strcat("s", "t"), null}', 'use array("int") as ai', 'use array("any") as aa', 'use array("str") as as_', 'use array("float") as af', 'use array("bool") as ab', "ar := ai(1, 2)")
    ks = list(P)
    fs = [[]] + [[a] for a in ks] + [[a, b] for a in ks for b in ks] + [[a, b, c] for a in ks for b in ks for c in ks]
    st = []
    for f in fs:
        args = [r.choice(P[x]) for x in f if P[x]]
        st.append('printf("%s"%s)' % ("".join(f), "".join(", " + a for a in args)))
        if r.random() < 0.05:
            st.append('printf("%s"%s, 1, "more")' % ("".join(f), "".join(", " + a for a in args)))
    batch(o, fam, hd, st, 40)
    for f in ['"%"', 'strcat("", "%")', 'strcat("ab", "c%")', 'strcat("%i", "%")', 'strcat("%%", "%")', 'strcat("%", "z")', "bytes(37)", "bytes(37, 0)", "bytes(37, 0, 37)"]:      # not specified, other than that they are safe
        for args in ("", ", 1", ", 1, 2"):
            if args or "%" not in f and "37" not in f:
                o.put(Case(o.id("percent")).state().compile("printf(%s%s)\n" % (f, args)).add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "percent")
    vals = ["0", "-5", "65536 * 65536", "1.5", "-0.25", "true", "false", "null", '"lit"', '""', 'strcat("he", "ap")', 'bytes(34, 0, 92)', "new P{2, \"in\", p}", "ai()", "ai(7)", "ai(1, -2, 3)", "aa(1, aa(), null)", 'as_(strcat("a", "b"), "c")', "af(0.5, 1.0)", "ab(true, false)", 'hstr("h")', "cast(null, P?)"]
    st = []
    for v in vals:
        st += ["printf(\"%%q\\n\", %s)" % c.replace("V", v) for c in ["V", "aa(V)", "aa(V, V)", "aa(1, V, \"z\")", "new P{1, \"s\", V}", "aa(aa(V), new P{1, \"t\", V})", "ai(1, V)", "as_(V)", "af(V, 1)", "ab(V)"]]
    for n in [3, 9, 10, 16, 17, 99, 100, 101, 128, 129, 255, 256, 257, 300]:
        st += ["w%d := ai()\nfor i%d := 0; i%d < %d; i%d += 1 { ai_push(w%d, i%d) }\nprintf(\"%%q.\\n\", w%d)" % ((n, n, n, n) + (n,) * 4), "printf(\"%%s|%%q|%%i\\n\", \"%s\", \"%s\", %d)" % ("s" * n, "q" * n, n)]
    batch(o, fam, hd, st, 40)


def strings(o, r, fam="table"):
    """substr, strchr, stridx, strcat, strlen at every place of small strings and at the limits of large ones; bytes of every value"""
    st = []
    for s in ["", "a", "ab", "abc", "abca", "hello"]:
        n = len(s)
        forms = ['"%s"' % s, "bytes(%s)" % ", ".join(str(ord(c)) for c in s)]
        for f in forms:
            st.append("emit(%s)" % ", ".join("substr(%s, %d, %d)" % (f, a, b) for a in range(n + 1) for b in list(range(a, n + 1)) + [-1]))
            st.append("emit(strlen(%s), strchr(%s, 'a'), strchr(%s, 'c'), strchr(%s, 'z'), strchr(%s, 0)%s)" % (f, f, f, f, f, "".join(", stridx(%s, %d), sget(%s, %d), %s[%d]" % (f, i, f, i, "s_" if f[0] == '"' else "b_", i) for i in range(n)) if n == 5 else "".join(", stridx(%s, %d)" % (f, i) for i in range(n))))
    for k in range(2, 24):
        xs = [r.choice(['"%s"' % ("x" * (i % 4)), "int_to_str(%d)" % i, "bytes(0, %d)" % i]) for i in range(k)]
        st.append("emit(strcat(%s), strlen(strcat(%s)))" % (", ".join(xs), ", ".join(xs)))
    batch(o, fam, 's_ := "hello"\nb_ := bytes(104, 101, 108, 108, 111)\n', st, 12)
    hd = "al := \"\"\n" + "".join("al = strcat(al, bytes(%s))\n" % ", ".join(map(str, range(q, q + 64))) for q in (0, 64, 128, 192)) + "L := \"\"\nfor k := 0; k < 60; k += 1 { L = strcat(L, int_to_str(k % 10), \"abcdefghi\") }\nZ := strcat(bytes(0, 1, 0), \"tail\", bytes(0))\n"
    st = ["for c%d := %d; c%d < %d; c%d += 1 { emit(strchr(al, c%d), stridx(al, c%d), al[c%d]) }" % ((i, i * 64, i, i * 64 + 64) + (i,) * 4) for i in range(4)]
    st += ["emit(%s)" % ", ".join("strchr(al, %d)" % c for c in (-1, -128, 256, 257, -255, 65536)), "emit(strchr(Z, 0), strchr(Z, 1), strchr(Z, 't'), strlen(Z), stridx(Z, 2), stridx(Z, 7), substr(Z, 1, 5), strcat(Z, Z), Z == Z, substr(Z, 0, 3) == bytes(0, 1, 0))"]
    cut = [0, 1, 7, 126, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 598, 599, 600]
    for a in cut:
        st.append("emit(%s)" % ", ".join("strlen(substr(L, %d, %d)), strchr(substr(L, %d, %d), 'd')" % (a, b, a, b) for b in cut if b >= a))
        if a < 600:
            st.append("emit(stridx(L, %d), L[%d], substr(L, %d, %d), substr(L, %d, -1) == substr(L, %d, 600), strlen(substr(L, %d, -1)))" % (a, a, a, a + 1, a, a, a))
    batch(o, fam, hd, st, 14)


def fileops(o, r, fam="table"):
    """Every way to read and write a small file, and sizes around those of buffers"""
    st = []
    u = 0
    for txt in ['""', '"a"', '"hello"', "bytes(0, 10, 13, 255, 0)"]:
        for sk in (None, 0, 1, 4, 5, 9, -1):
            for n in (-1, 0, 1, 3, 5, 100):
                u += 1
                st.append("write_file(\"f.txt\", %s)\nh%d := fopen(\"f.txt\", \"%s\")\n%semit(fread(h%d, %d), fread(h%d, 2))\n%sfclose(h%d)" % (txt, u, r.choice(["r", "rb"]), "" if sk is None else "fseek(h%d, %d)\n" % (u, sk), u, n, u, r.choice(["", "emit(fsize(h%d), fread(h%d, 9))\n" % (u, u), "fseek(h%d, 0)\nemit(fread(h%d, 3))\n" % (u, u)]), u))
    for md in ("w", "wb", "a", "ab"):
        for txt in ('""', '"abc"', "bytes(1, 0, 2)"):
            for n in (None, -1, 0, 1, 2, 3, 4, 70000):
                u += 1
                st.append("write_file(\"f.txt\", \"was\")\nh%d := fopen(\"f.txt\", \"%s\")\nemit(fwrite(h%d, %s%s), fwrite(h%d, \"+\"))\nfclose(h%d)\nemit(read_file(\"f.txt\"))" % (u, md, u, txt, "" if n is None else ", %d" % n, u, u))
    for n in (1, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8192, 9000):
        u += 1
        st.append("s%d := \"%s\"\nemit(write_file(\"g.txt\", s%d))\nemit(read_file(\"g.txt\") == s%d, strlen(read_file(\"g.txt\")))\nh%d := fopen(\"g.txt\", \"r\")\nemit(fsize(h%d))\nq%d := fread(h%d, %d)\nemit(strlen(q%d), q%d == substr(s%d, 0, %d), strlen(fread(h%d, 5)))\nfclose(h%d)" % ((u, "z" * (n - 1) + "e", u, u, u, u, u, u, max(1, n - 1), u, u, u, max(1, n - 1), u, u)))
    st.append("emit(read_file(\"none\"), fopen(\"none\", \"r\") == null, fopen(\"none\", \"rb\") == null, read_file(\".\"), read_file(\"/\") == null, write_file(\".\", \"x\"))")
    st.append("write_file(\"f.txt\", \"few\")\nh0 := fopen(\"f.txt\", \"r\")\nemit(fread(h0, 2147483647))\nfclose(h0)\nh1 := fopen(\"f.txt\", \"r\")\nemit(fread(h1, 1000000), fsize(h1))\nfclose(h1)")
    batch(o, fam, "x := 1\n", st, 12, files=2)


def inputs(o, r, fam="table"):
    """Lines of every length, and the ends of the input"""
    from cases import hexs
    for grp in range(6):
        ls = ["".join(chr(97 + (j + n) % 26) for j in range(n)) for n in range(grp * 11, grp * 11 + 11)]
        ls[grp % 3] = ["a\rb\r", "\x00mid\x00", "\xff\xfe", " lead ", "\t", "\r"][grp]
        text = "\n".join(ls) + ["\n", "", "\n\n", "\nlast", "\n", ""][grp]
        c = Case(o.id(fam)).state().compile("for i := 0; i < %d; i += 1 { s := input()\nemit(s, strlen(s)) }\n" % (len(ls) + 3)).add("thread 0 0").add("stdin", 0, hexs(text)).add("start 0").add("run 0")
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), fam)


def library(o, r):
    numbers(o, r)
    formats(o, r)
    strings(o, r)
    fileops(o, r)
    inputs(o, r)


# ------------------------------------------------------------------------ paths to objects (GC)
GHEAD = lines("struct N { v: any n: any s: str }", 'use array("any") as aa', 'use array("int") as ai', 'use array("float") as af', 'use array("bool") as ab', 'use array("str") as as_', 'use array("N") as an', 'use array("any") as array_any', "struct F { a: int b: N c: aa d: str }", "func ident(x: any): any { return x }",
              "func j(): int { junk(700)\nreturn 1 }", "func hold(x: any): any { y := x\njunk(600)\nreturn y }")
CONTS = [("new N{V, null, \"s\"}", "cast(X, N).v"), ("new N{null, V, \"s\"}", "cast(X, N).n"), ("new N{.s = \"q\", .n = V, .v = 5}", "cast(X, N).n"), ("aa(V)", "cast(X, aa)[0]"), ("aa(1, null, V)", "aa_get(cast(X, aa), 2)"), ("ai(V, 2)", "ident(ai_get(cast(X, ai), 0))"), ("ai(7, V)", "ident(ai_get(cast(X, ai), 1))"),
         ("ab(true, 2, V)", "ident(ab_get(cast(X, ab), 2))"), ("af(V)", "ident(af_get(cast(X, af), 0))"), ("as_(\"a\", V)", "ident(as__get(cast(X, as_), 1))"), ("an(V)", "ident(an_get(cast(X, an), 0))"), ("dict(\"k\", V)", "dict_get(cast(X, dict), \"k\")"), ("dict(1, 2, 33, V)", "dict_get(cast(X, dict), 33)"),
         ("dict(strcat(\"d\", \"k\"), V)", "dict_get(cast(X, dict), \"dk\")"), ("dict(V, 4)", "array_any_get(dict_keys(cast(X, dict)), 0)"), ("mk(V)", "kid(X, 0)"), ("mk(1, V)", "kid(X, 1)"), ("dict_keys(dict(V, 1))", "array_any_get(cast(X, array_any), 0)"), ("dict_values(dict(1, V))", "array_any_get(cast(X, array_any), 0)"),
         ("dict_values(dict(\"z\", V))", "array_any_get(cast(X, array_any), 0)")]
# things of many parts; the reference is one of the last
for _n, _k in ((9, 8), (18, 16), (33, 32)):
    GHEAD += "struct W%d { %s }\n" % (_n, " ".join("f%d: any" % i for i in range(_n)))
    CONTS.append(("new W%d{.f%d = V, %s}" % (_n, _k, ", ".join(".f%d = %d" % (i, i) for i in range(_n) if i != _k)), "cast(X, W%d).f%d" % (_n, _k)))
    CONTS.append(("aa(%sV)" % ("0, " * _k), "aa_get(cast(X, aa), %d)" % _k))
    if _n < 20:
        CONTS.append(("dict(%s, %d, V)" % (", ".join("%d, null" % i for i in range(_k)), _n), "dict_get(cast(X, dict), %d)" % _n))
LEAVES = ["mk()", 'strcat("a", "b")', 'new N{1, null, strcat("z", "y")}', "aa(mk())", 'dict("k", strcat("v", "w"))', "substr(\"hello\", 1, 3)", "mk(mk())", "int_to_str(12)", "hstr(\"h\")"]


def gc_paths(o, r, n3, fam="path"):
    """An object at the end of every path of one, two or three references, held in every kind of place, across collections"""
    ps = [([c], l) for c in CONTS for l in LEAVES] + [([c, d], l) for c in CONTS for d in CONTS for l in r.sample(LEAVES, 1)] + [([r.choice(CONTS) for _ in range(3)], r.choice(LEAVES)) for _ in range(n3)]
    snips = []
    for i, (cs, l) in enumerate(ps):
        e, a = l, "X"
        for c, g in reversed(cs):
            e = c.replace("V", e)
        for c, g in cs:
            a = g.replace("X", "cast(ident(%s), any)" % a if a != "X" else a)
        x = "x%d" % i
        A = lambda v: a.replace("X", v)
        snips.append([
            "%s: any = ident(%s)\njunk(700)\nemit(%s)\n%s = null\n" % (x, e, A(x), x),
            "func f%d(): any { %s: any = ident(%s)\njunk(700)\nemit(%s)\nreturn %s }\ng%d := f%d()\njunk(600)\nemit(%s)\ng%d = null\n" % (i, x, e, A(x), x, i, i, A("g%d" % i), i),
            "func f%d(%s: any): any { junk(700)\nreturn %s }\nemit(f%d(%s))\n" % (i, x, A(x), i, e),
            "func f%d(%s: any, n: int): any { return %s }\nemit(f%d(%s, j()))\n" % (i, x, A(x), i, e),
            "func f%d(): any { return %s }\nemit(j(), hold(%s), j(), 3)\n" % (i, e, A("f%d()" % i)),
            "func f%d(): any { return hold(%s) }\n%s := f%d()\nemit(j())\nemit(%s)\n%s = null\n" % (i, e, x, i, A(x), x),
        ][r.randrange(6)])
    r.shuffle(snips)
    pack(o, fam, GHEAD, snips, 8)


# --------------------------------------------------------------------------------- delegates, JSON
def delegates(o, r, n, fam="sig"):
    """Delegates of functions of every signature of up to two parameters, with names of types which share their beginnings"""
    hd = lines("struct Shape { a: int }", "struct ShapeBox { a: int }", "struct ShapeBoxBig { a: int }", 'use array("int") as ShapeArr', 'use array("Shape") as Shapes', "sh := new Shape{1}", "sb := new ShapeBox{2}", "sbb := new ShapeBoxBig{3}", "sa := ShapeArr(4)", "ss := Shapes(sh)", "d := dict(1, 2)", "an: any = 5")
    TY = {"int": "7", "bool": "true", "str": '"s"', "float": "1.5", "any": "an", "Shape": "sh", "ShapeBox": "sb", "ShapeBoxBig": "sbb", "ShapeArr": "sa", "Shapes": "ss", "dict": "d"}
    sigs = [([], t) for t in list(TY) + ["void"]] + [([a], t) for a in TY for t in list(TY) + ["void"]] + [([a, b], t) for a in TY for b in TY for t in list(TY) + ["void"]]
    sigs = sigs[:12] + r.sample(sigs[12:], min(n, len(sigs) - 12)) if n else sigs
    r.shuffle(sigs)
    snips = []
    for i in range(0, len(sigs), 12):
        b, use = [], []
        for j, (ts, t) in enumerate(sigs[i:i + 12]):
            k = i + j
            b.append("func f%d(%s)%s {\nemit(%s)\n%s}" % (k, ", ".join("p%d: %s" % (q, x) for q, x in enumerate(ts)), "" if t == "void" else ": " + t, ", ".join([str(k)] + ["p%d" % q for q in range(len(ts))]), "" if t == "void" else "return %s\n" % TY[t]))
            b.append("use delegate(\"f%d\") as m%d" % (k, k))
            T = "delegate_" + "".join(x + "_" for x in ts) + t if ts else "delegate__" + t
            call = "%s_call(%s)" % (T, ", ".join(["m%d()" % k] + [TY[x] for x in ts]))
            use.append(call if t == "void" else "emit(%s)" % call)
            use.append("v%d: %s = m%d()\nemit(m%d() == v%d)" % (k, T, k, k, k))
        snips.append(lines(*b))
        snips.append(lines(*use))
    pack(o, fam, hd, snips, 4)


def macros_on_types(o, r, fam="sig"):
    """The types which the library registers, as the name of an array; chains of structs given to json; strings of every content in JSON"""
    for t in ["array_any", "array_str", "dict", "dict_str_int", "file", "i64", "int", "any", "void"]:
        for e in ["any", "str", "int"]:
            o.put(Case(o.id(fam)).state().compile('use array("%s") as %s\n' % (e, t)).compile("x := %s()\n%s_push(x, %s)\nemit(%s_len(x), %s_get(x, 0))\nlook(x)\n" % (t, t, {"any": "1", "str": '"a"', "int": "2"}[e], t, t)).compile('d_ := dict("k", 1)\ny := dict_keys(d_)\nemit(array_any_get(y, 0))\n')
                  .compile('z := dict_str_int("k", 1)\nw := dict_str_int_keys(z)\nemit(array_str_get(w, 0))\n').add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)
    for n in [1, 2, 5, 16, 19, 31, 32, 33, 40, 50, 60, 64, 65, 66]:
        src = "struct J0 { a: int }\n" + "".join("struct J%d { a: int j: J%d }\n" % (i, i - 1) for i in range(1, n)) + "v0 := new J0{0}\n" + "".join("v%d := new J%d{%d, v%d}\n" % (i, i, i, i - 1) for i in range(1, n))
        prog(o, fam, src + 'use json("J%d")\n' % (n - 1) + ('emit(J%d_to_json(v%d))\n' % (n - 1, n - 1) if n < 20 else 'emit(J12_to_json(v12))\n'))
    vals = ['""', '"a"', '"\\""', '"\\\\"', '"\\n"', "bytes(0)", "bytes(97, 0, 98)", "bytes(255)", 'strcat("a", "b")', 'strcat("", bytes(1, 2))', '"{}"', '"%s"', "hstr(\"h\")", "int_to_str(5)"]
    st = ["emit(S_to_json(new S{%d, %s, true, 1.5}), str_to_json(%s))" % (i, v, v) for i, v in enumerate(vals)] + ["emit(S_to_json(new S{%s, \"\", %s, %s}))" % (x, r.choice(["true", "false"]), r.choice(DYAD)) for x in WIDE] + ["emit(S_to_json(new S{1, \"\", false, %s}))" % x for x in DYAD]
    batch(o, fam, lines("struct S { i: int s: str b: bool f: float }", 'use json("S")'), st, 30)


# ---------------------------------------------------------------------- sequences of operations
def array_seqs(o, r, n3, fam="seq"):
    """All pairs of operations on small arrays however they were made, longer sequences at random"""
    hd = lines('use array("int") as A', 'use array("any") as array_any', "func idn(x: any): any { return x }", "func shown(a: A) { emit(A_len(a))\nlook(a) }")
    INIT = [("A()", 0), ("A(5)", 1), ("A(5, 3)", 2), ("A(5, 3, 9)", 3), ("K0", 0), ("K1", 1), ("V2", 2), ("R0", 0), ("R4", 4), ("F16", 16), ("F17", 17)]
    mk = {"K0": "%s := cast(idn(dict_keys(dict())), A)", "K1": "%s := cast(idn(dict_keys(dict(8, 1))), A)", "V2": "%s := cast(idn(dict_values(dict(1, 7, 1, 6))), A)\nA_push(%s, 2)", "R0": "%s := A(1, 2)\nA_resize(%s, 0)", "R4": "%s := A(1, 2)\nA_resize_fill(%s, 4, 6)", "F16": "%s := A()\nfor %si := 0; %si < 16; %si += 1 { A_push(%s, %si) }", "F17": "%s := A()\nfor %si := 0; %si < 17; %si += 1 { A_insert(%s, 0, %si)\nA_push(%s, A_shift(%s)) }"}
    mk["F17"] = "%s := A(1)\nfor %si := 0; %si < 16; %si += 1 { A_insert(%s, 0, %si) }"
    cnt = [0]

    def ops(n):
        x = [("A_push(a, 4)", n + 1), ("A_clear(a)", 0), ("A_sort(a)", n)]
        x += [("A_resize_fill(a, %d, 2)" % m, m) for m in sorted({0, 1, n - 1, n, n + 1, n + 2, 2 * n} - {-1})]
        x += [("A_resize(a, %d)" % m, m) for m in sorted({0, n - 1, n} - {-1})]
        if n:
            x += [("emit(A_pop(a))", n - 1), ("emit(A_shift(a))", n - 1)]
            for i in sorted({0, n // 2, n - 1}):
                x += [("A_insert(a, %d, 1)" % i, n + 1), ("A_remove(a, %d)" % i, n - 1), ("a[%d] = 8" % i, n), ("emit(a[%d])" % i, n), ("a[%d] += 10" % i, n)]
        return x
    snips = []

    def start(i, v):
        e = INIT[i][0]
        if e in mk:
            return mk[e].replace("%s", v)
        return "%s := %s" % (v, e)

    def add(i, seq):
        v = "w%d" % cnt[0]
        cnt[0] += 1
        snips.append(start(i, v) + "\n" + "\n".join(s.replace("(a", "(" + v).replace("a[", v + "[") for s in seq) + "\nshown(%s)" % v)
    for i, (e, n) in enumerate(INIT):
        for s1, n1 in ops(n):
            for s2, _ in (ops(n1) if n < 4 else r.sample(ops(n1), 3)):
                add(i, [s1, s2])
    for _ in range(n3):
        i = r.randrange(len(INIT))
        n, seq = INIT[i][1], []
        for _ in range(r.randint(3, 7)):
            s, n = r.choice(ops(n))
            seq.append(s)
        add(i, seq)
    r.shuffle(snips)
    batch(o, fam, hd, snips, 40, files=3)


def dict_seqs(o, r, n, depth, fam="seq"):
    """Sequences of puts and removals over keys which want the same place; what every key has at the end"""
    hd = lines("func shown(d: dict, a: any, b: any, c: any, e: any) { emit(dict_get(d, a), dict_get(d, b), dict_get(d, c), dict_get(d, e), dict_exists(d, a), dict_exists(d, b), dict_exists(d, c), dict_exists(d, e))\nk := dict_keys(d)\nlook(k) }")
    sets = [["1", "33", "65", "2"], ["31", "63", "0", "32"], ["30", "31", "62", "0"], ["0", "1", "2", "3"], ["true", "1", "2", "33"], ['"a"', '"b"', '"c"', '"d"'], ["1", "(65536 * 65536 + 1)", "33", "-31"], ["-1", "31", "30", "-2"], ['""', "5381 % 32", '"\\""', "37"]]
    snips = []
    for i in range(n):
        ks = r.choice(sets)
        seq = [r.randrange(8) for _ in range(depth)]
        v = "d%d" % i
        b = ["%s := dict(%s)" % (v, ", ".join("%s, %d" % (x, q) for q, x in enumerate(ks[:r.choice([0, 0, 2, 3, 4])])))]
        for j, s in enumerate(seq):
            b.append("dict_put(%s, %s, %d)" % (v, ks[s % 4], 10 + j) if s < 4 else "dict_remove(%s, %s)" % (v, ks[s % 4]))
        b.append("shown(%s, %s)" % (v, ", ".join(ks)))
        snips.append("\n".join(b))
    batch(o, fam, hd, snips, 30, files=3)


# -------------------------------------------------------------------------------- edits of tokens
EHEAD = lines('struct P { a: int n: any q: P? }', 'use array("int") as ai', "x := 1", "y := 2", 'f := 1.5', "t := true", 's := "st"', "p := new P{1, null, cast(null, P?)}", "z: P? = cast(null, P?)", "arr := ai(1, 2, 3)", "an: any = 4", "C :: 3", "tk := 0",
              "func tick(): bool { tk += 1\nreturn tk % 5 < 3 }", "func g(a: int): int { return a + 1 }", "func h() { emit(0) }", "func k(p: P, i: int): int { return p.a + i }")
EDITED = ["x = x + y * 2", "x += g(y) - 1", "emit(x, y, \"q\")", "p.a = g(3)", "p.q = p", "arr[x] = y", "arr[0] += 2", "if t { emit(1) }", "if t emit(1) else emit(2)", "if x < y { emit(1) } else { emit(2) }", "while tick() { emit(x) }", "for i# := 0; i# < 2; i# += 1 { emit(i#) }", "for i# := 0; tick(); emit(1) emit(2)",
          "v# := x", "v#: int = y", "v#: P? = z", "C# :: 4", "func e#() { h() }", "func e#(a: int, b: str): int { return a }", "func e#(a: P?): any { return a }", "struct S# { a: int b: str }", "struct S# { n: S#? }", "w# := new P{1, null, z}", "w# := new P{.n = 2, .a = 1, .q = z}", "emit(cast(an, int))", "emit(if t x else y)",
          "emit(-x, !t)", "emit(p.a, p->k(2))", "emit((x + 1) * y)", "h()", "p->k(1)->g()", "use array(\"str\") as aw#", "use host(\"a\", \"b\")", "return", "{ emit(1) emit(2) }", "while tick() { if t break }", "while tick() { continue }", "foreach i in arr { emit(i) }", "emit(x == y && t || !t)", "emit(C, 'c', 0x1f, 1.25)", "x = if t 1 else g(2)", "emit(arr[g(0)], s[1])",
          "func e#(): int { if t { return 1 } return 2 }", "foreign func_", ";x = 1;;y = 2;"]
ETOK = ["(", ")", "{", "}", "[", "]", "+", "-", "*", "/", "%", "<", ">", "=", "!", "&", "|", ",", ";", ":", ".", "?", "->", "::", ":=", "==", "!=", "<=", ">=", "+=", "-=", "&&", "||", "<<", ">>", "...", "if", "else", "while", "for", "func", "foreign", "return", "struct", "new", "cast", "break", "continue", "use", "foreach",
        "null", "true", "x", "g", "P", "int", "a", "1", "1.5", "'q'", "\"a\"", "nosuch", "//", "@", "in", "as"]


def token_edits(o, r, n, fam="edit"):
    """Small programs with one token replaced, removed, inserted, doubled or exchanged with the next"""
    import re
    todo = []
    for e in EDITED:
        ts = re.findall(r'"[^"]*"|\'.\'|\w+#?|\d+\.\d+|:=|::|->|[-+]=|&&|\|\||[<>=!]=|.', e)
        ts = [t for t in re.findall(r'"[^"]*"|\'[^\']\'|\d+\.\d+|\w+#?|:=|::|->|[-+]=|&&|\|\||[<>=!]=|\S', e)]
        for i in range(len(ts)):
            todo += [(ts[:i] + [t] + ts[i + 1:], 1) for t in ETOK if t != ts[i]] + [(ts[:i] + [t] + ts[i:], 1) for t in ETOK] + [(ts[:i] + ts[i + 1:], 9), (ts[:i] + [ts[i], ts[i]] + ts[i + 1:], 9), (ts[:i + 1], 9)]
            if re.match(r"[a-zA-Z]", ts[i]):
                todo += [(ts[:i] + [q + ts[i] + q] + ts[i + 1:], 4 if q == '"' else 1) for q in "\"'"]
            if i + 1 < len(ts):
                todo.append((ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:], 9))
    todo = r.choices([t for t, _ in todo], [w for _, w in todo], k=n) if n < len(todo) else [t for t, _ in todo]
    snips = []
    for j, ts in enumerate(todo):
        snips.append(r.choice([" ", " ", "\n", " "]).join(ts).replace("#", str(j)) + "\n")
    for i in range(0, len(snips), 30):
        c = Case(o.id(fam)).state(0).compile(EHEAD)
        for s in snips[i:i + 30]:
            c.compile(s)
        c.compile("emit(x, y, p.a)\n")
        o.put(c.add("thread 0 0").add("start 0").add("step 0 4000").add("destroy 0").add("delstate 0").add("mem"), fam)
    return len(todo)


def limits(o, r, fam="limits"):
    """Programs which need more of the stack or more calls than there are"""
    srcs = ["func f(n: int): int { return f(n + 1) }\nemit(f(0))\n",
            "func f() { f() }\nf()\n",
            "func g(x: any): any\n{ return f(x) }\nfunc f(x: any): any { return g(x) }\nemit(f(1))\n",
            "func f(n: int): int { emit(n) if n > 0 { return 1 + f(n - 1) } return 0 }\nemit(f(50))\nemit(f(70))\n"]
    for na in (1, 2, 3, 5, 9, 20):
        ps = ", ".join("a%d: int" % i for i in range(na))
        srcs.append("func f(%s): int { emit(a0) return f(%s) }\nf(%s)\n" % (ps, ", ".join(["a0 + 1"] + ["a%d" % i for i in range(1, na)]), ", ".join(str(i) for i in range(na))))
    for nl in (5, 20, 40, 126, 127, 128, 129, 200, 255):
        srcs.append("func f(n: int): int { emit(n)\n%s\nreturn f(n + 1) }\nf(0)\n" % "\n".join("l%d := n" % i for i in range(nl)))
    for n in (126, 128, 130, 200, 255):
        srcs.append("emit(%s)\n" % ", ".join(str(i) for i in range(n)))
        srcs.append("emit(count(%s))\n" % ", ".join(str(i) for i in range(n)))
        srcs.append("struct S { %s }\ns := new S{%s}\nemit(s.f0)\n" % (" ".join("f%d: int" % i for i in range(n)), ", ".join(str(i) for i in range(n))))
        srcs.append("func f(%s): int { return a0 }\nemit(f(%s))\n" % (", ".join("a%d: int" % i for i in range(n)), ", ".join(str(i) for i in range(n))))
    for d in (30, 70):
        srcs.append("func f(a: int, b: int): int { return b }\nemit(%s2%s)\n" % ("f(1, " * d, ")" * d))
        srcs.append("func f(a: int, b: int): int { return b }\nfunc h(n: int): int { if n > 0 { return %sh(n - 1)%s } return 0 }\nemit(h(9))\n" % ("f(1, " * d, ")" * d))
    for src in srcs:
        c = Case(o.id(fam)).state(0).compile(src)
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)
    c = Case(o.id(fam)).state(0).compile("func f(n: int): int { return f(n + 1) }\n")
    o.put(c.add("thread 0 0").add("start 0").add("run 0").add("call 0 f i0").add("destroy 0"), fam)


def literals(o, r, n, fam="literal"):
    """Every character as a literal, alone and after a backslash, in quotes of both kinds; every short number"""
    snips = []
    for c in range(1, 256):
        ch = chr(c)
        snips += ["emit('%s')\n" % ch, "emit('\\%s')\n" % ch, 'emit("a%sb")\n' % ch, 'emit("a\\%sb", "\\%s")\n' % (ch, ch)]
        if not (ch.isalnum() or ch in "_"):
            snips += ["emit(1 %s 2)\n" % ch]
    digits = ["0", "1", "8", "9", "x", "X", "a", "e", "E", "f", ".", "_"]
    nums = [a + b for a in "0189" for b in [""] + digits] + [a + b + c for a in "018" for b in digits for c in digits] + ["0x" + a + b + c for a in "0a9EF" for b in ["", "0", "e", "E", "8", "D", "f"] for c in ["", "B", "b", "1", "g", "."]]
    nums += ["1" + a + b + c for a in ".e0" for b in digits for c in digits]
    nums += ["00012", "0x0", "0x00ff", "0x7fffffff", "0x80000000", "0x80000001", "0xffffffff", "0xFFFFFF00", "0x00000deadBEEF", "0x9000000F", "0xfffffff", "2147483647", "1.25", "0.5", "00.5", "10.0", "1.0000", "007.25", "0x1.5", "1..2", "1.2.3"]
    snips += ["emit(%s)\n" % x for x in nums]
    if n < len(snips):
        snips = r.sample(snips, n)
    head = "x := 1\ne := 2\nE := 3\na := 4\n"
    for i in range(0, len(snips), 40):
        c = Case(o.id(fam)).state(0).compile(head)
        for s in snips[i:i + 40]:
            c.compile(s)
        o.put(c.add("thread 0 0").add("start 0").add("step 0 4000").add("destroy 0").add("delstate 0").add("mem"), fam)


def natives(o, r, n, fam="native"):
    """Objects of the host: which are equal, as operands, elements and keys; objects without an address"""
    hd = lines('struct H { o: any p: any }', 'use array("any") as aa', "func id(x: any): any { return x }", 'x := mk(1, "a")', "y := mk(2)", "z := same(x)", "h := new H{x, same(y)}", "arr := aa(x, same(y), light(3), z)", "d := dict(x, 1, same(y), 2, light(3), 3)", "i := int_to_i64(3)", "j := int_to_i64(65536 * 65536 + 3)")
    es = ["x", "y", "z", "same(x)", "same(z)", "same(y)", "same(same(y))", "h.o", "h.p", "arr[0]", "arr[1]", "arr[2]", "arr[3]", "light(3)", "light(4)", "light(0)", "id(x)", "id(z)", "id(3)", "id(null)", "id(h)", 'id("a")', "mk(1)", "same(mk(1))", "kid(mk(x), 0)", "id(arr)", "id(d)"]
    st = ["emit(%s %s %s)" % (a, op, b) for op in ("==", "!=") for a in es for b in es if not (a.startswith("light(") and b in ("x", "y", "z"))]
    ks = [e for e in es if e not in ("id(null)", "id(3)", "arr[2]", "light(0)")]
    for a in ks:
        st += ["emit(dict_exists(d, %s), dict_get(d, %s))" % (a, a), "dict_put(d, %s, # + 10)\nemit(dict_get(d, x), dict_get(d, z), dict_get(d, y), dict_get(d, light(3)))" % a, "dict_remove(d, %s)\nemit(dict_exists(d, x), dict_exists(d, same(y)), dict_exists(d, light(3)))" % a]
    st += ["nil()"] * 30
    for i in range(n):
        b = [s.replace("#", str(j)) for j, s in enumerate(r.choices(st, k=40))]
        o.put(Case(o.id(fam)).state(0).compile(hd).compile(lines(*b)).add("thread 0 0").add("start 0").add(r.choice(["run 0", "step 0 4000"])).add("destroy 0").add("delstate 0").add("mem"), fam)


def huge_strings(o, r, fam="huge"):
    """Strings whose lengths need more than 8 or 16 bits"""
    for n in (255, 256, 65535, 65536, 65537):
        t = "".join(chr(97 + (i * 7 + i // 26) % 26) for i in range(n))
        c = Case(o.id(fam)).state(0).add("const 0 HA s" + t.encode().hex()).add("const 0 HB s" + (t[:-1] + "!").encode().hex()).add("const 0 HC s" + (t + "x").encode().hex())
        c.compile(lines("emit(strlen(HA), strlen(HC), HA == HB, HA == HC, HA == HA)", "a := strcat(HA, \"x\")", "emit(strlen(a), a == HC, HC == a, a == HA, HB == a)", "b := substr(HC, 0, strlen(HA))", "emit(b == HA, HA == b, strlen(b), substr(a, strlen(a) - 4, strlen(a)))",
                        "d := dict(HA, 1, HB, 2, HC, 3)", "emit(dict_get(d, b), dict_get(d, a), dict_get(d, HB), dict_exists(d, substr(a, 1, strlen(a))))", "emit(stridx(a, strlen(HA)), strchr(a, 'x'))"))
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)


def file_sizes(o, r, fam="filesize"):
    """Source files whose lengths are around those of buffers; the last statement ends with the file"""
    for n in (1, 2, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000):
        body = "x := 7\nemit(x)\n"
        end = "emit(12)" if n > 40 else ""
        pad = n - len(body) - len(end)
        src = ("x"[:n] if n < 40 else body + "".join("\n" if i % 4000 == 3999 else "/" if i % 4000 < 2 else "c" for i in range(pad - 1)) + "\n" + end)
        if n <= 2:
            src = "5 "[:n]
        assert len(src) == n, (len(src), n)
        c = Case(o.id(fam)).state(0).add("compilef 0 size.tiny", src.encode().hex())
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)


def registrations(o, r, n, fam="again"):
    """Names of types which are registered when there is a type, a function or a variable of that name already"""
    pre = ["struct T { a: int b: str }\nv := new T{1, \"x\"}\nemit(v.a, v.b)\n", "use array(\"int\") as T\nv := T(1, 2)\nemit(v[0])\n", "func k(x: T): int { return 1 }\n", "func d(x: int): int { return x + 1 }\nuse delegate(\"d\") as T\n", "T := 5\nemit(T)\n", "func T(x: int): int { return x }\nemit(T(2))\n", "T :: 4\nemit(T)\n",
           "struct U { t: T? n: int }\nw := new U{cast(null, T?), 3}\n", "v: T = cast(mk(), T)\n", "x := 1\n"]
    post = ["emit(v.a)\nv.a = 2\nemit(v.b, v.a)\n", "z := new T{5, \"y\"}\nemit(z.b)\n", "struct T { a: int }\n", "z: T = cast(mk(2), T)\nfunc q(x: T): T { return x }\nemit(q(z))\n", "emit(v[1])\n", "z := T(3, 4)\nemit(z[1])\n", "z := T()\nemit(delegate_int_int_call(z, 4))\n", "func q(x: T?): bool { return x == null }\nemit(q(cast(null, T?)))\n", "emit(k(cast(mk(), T)))\n", "emit(T)\n", "use array(\"T\") as at\n",
            "use json(\"T\")\n", "w2 := new U{cast(mk(), T), 1}\nemit(w2.t)\n", "emit(cast(v, any) == v)\n"]
    todo = [(a, b, h) for a in pre for b in post for h in (0, 1, 2)]
    if n < len(todo):
        todo = r.sample(todo, n)
    for a, b, h in todo:
        c = Case(o.id(fam)).state(0)
        two = r.random() < 0.3
        if h == 0:
            c.compile(a).add("type 0 T")
        elif h == 1:
            c.compile(a).compile('use host("reg", "T")\n')
        else:
            c.add("type 0 T").compile(a).add("type 0 T")
        if two:
            c.add("type 0 T")
        c.add("ask 0 T").compile(b).add("ask 0 T").compile("emit(9)\n")
        o.put(c.add("thread 0 0").add("start 0").add("step 0 3000").add("destroy 0").add("delstate 0").add("mem"), fam)


def half_defined(o, r, n, fam="half"):
    """Types which only a signature of the host mentions, and sources which define them and fail"""
    defs = ["struct Foo { a: int }\n", "struct Foo { a: int b: Bar? }\nstruct Bar { c: str f: Foo? }\n", "use host(\"reg\", \"Foo\")\n", "struct Bar { f: Foo }\nstruct Foo { b: int }\n", "use host(\"src\", \"struct Foo { q: int }\")\n", "use host(\"src\", \"struct Foo { a: New? } struct New { b: int }\")\n", "struct Foo { a: int a: str }\n", "struct Foo {\n", "struct Foo { a: Nope }\n",
            "struct Foo { a: int b: str c: any }\n", "func q(x: Foo?): int { return 1 }\n"]
    fails = ["nope()\n", "x := 1\nx = \"a\"\n", "use nope(1)\n", "func h(): int { }\nh(1)\n", "@\n", "y: Foo = 3\n"]
    goods = ["struct Foo { a: int b: str }\nx := new Foo{1, \"s\"}\nhf(cast(null, Foo))\nemit(x.a, x.b)\nhf(x)\n", "struct Foo { a: int b: Bar? }\nstruct Bar { c: str f: Foo? }\nx := new Foo{1, cast(null, Bar?)}\nemit(hg(x, cast(null, Bar)))\n", "use host(\"reg\", \"Foo\")\nemit(1)\n", "func q(x: Foo): int { return 2 }\nstruct Foo { z: int }\nemit(q(new Foo{1}))\n", "struct Bar { c: int }\nstruct Foo { b: Bar }\nemit(hg(new Foo{new Bar{1}}, new Bar{2}))\n", "emit(5)\n",
             "use json(\"Foo\")\n", "use array(\"Foo\") as af\nemit(af_len(af()))\n"]
    binds = [("emit", "emit(...): void"), ("emit", "hf(Foo): void"), ("echo", "hg(Foo, Bar): any"), ("mk", "mk(...): any")]
    for i in range(n):
        c = Case(o.id(fam)).bare(0, Case.LIBS, [b for b in binds if b[1][0] != "h" or r.random() < 0.8])
        for j in range(r.randint(1, 3)):
            x = r.random()
            if x < 0.75:
                ds = r.sample(defs, r.choice([1, 1, 1, 2]))
                c.compile("".join(ds) + r.choice(fails), 0, "bad.tiny")
            if x > 0.5:
                c.compile(r.choice(goods), 0, "g%d.tiny" % j)
            c.add("ask 0 Foo").add("ask 0 Bar")
        c.compile(r.choice(goods))
        o.put(c.add("ask 0 Foo").add("thread 0 0").add("start 0").add("step 0 3000").add("destroy 0").add("delstate 0").add("mem"), fam)


def name_limits(o, r, fam="limit"):
    """Code generated by the macros around the length at which it is refused"""
    def put(src):
        c = Case(o.id(fam)).state().compile(src).compile("emit(77)\n")
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)
    # use delegate: 3 * (the lengths of all names) + 20 * (parameters) + 128 > 512
    for na in (0, 1, 2, 5, 9, 14):
        for d in (-25, -9, -2, -1, 0, 1, 2):
            tot = (384 - 20 * na) // 3 + d
            ty = r.choice(["int", "str", "float"])
            asl = r.choice([2, 7, 20])
            fl = tot - asl - 3 - len(ty) * na
            if fl < 1 or asl < 1:
                continue
            f, m = "f" * fl, "m" * asl
            val = {"int": "1", "str": "\"s\"", "float": "1.5"}[ty]
            T = "delegate_%s_int" % "_".join([ty] * na)
            put("func %s(%s): int { return %d }\nuse delegate(\"%s\") as %s\nemit(%s_call(%s))\n" % (f, ", ".join("p%d: %s" % (j, ty) for j in range(na)), na + 5, f, m, T, ", ".join(["%s()" % m] + [val] * na)))
    # use array: 2 * (the as-name) + (the type) + 64 > 512
    for al in (3, 80, 150, 219, 222):
        for d in (-20, -1, 0, 1, 2):
            tl = 448 - 2 * al + d
            if tl < 1:
                continue
            t, a = "t" * tl, "a" * al
            put("struct %s { x: int }\nuse array(\"%s\") as %s\nq := %s(new %s{3})\n%s_push(q, new %s{4})\n%s_resize_fill(q, 4, q[1])\nemit(q[1].x, %s_len(q), q[3].x)\n" % (t, t, a, a, t, a, t, a, a))
    # use json: more than 1984 bytes after some field
    for n in (1, 2, 5, 12, 20, 30):
        for d in (-400, -40, -2, -1, 0, 1, 30):
            nm = r.choice(["S", "Longer", "s" * 40])
            used = len("func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t" % (nm, nm))
            fs = []
            ty = r.choice(["int", "str", "float"])
            per = len('"\\"\\":", _to_json(v.)') + len(ty)
            room = 1984 + d - used - n * per - (n - 1) * len(", \",\",\n\t\t")
            room = room // 2
            if room < 4 * n:
                continue
            each = room // n
            fs = [("f%d" % j).ljust(each, "x") for j in range(n)]
            fs[-1] = ("f%d" % (n - 1)).ljust(room - each * (n - 1), "y")
            if sum(map(len, fs)) != room:
                continue
            val = {"int": "1", "str": "\"s\"", "float": "1.5"}[ty]
            put("struct %s {\n%s\n}\nuse json(\"%s\")\nemit(%s_to_json(new %s{%s}))\n" % (nm, "\n".join("%s: %s" % (f, ty) for f in fs), nm, nm, nm, ", ".join([val] * n)))
    # structs with structs in every place
    for n in range(1, 13):
        for at in range(n):
            fs = ["a%d: %s" % (j, "In" if j == at else r.choice(["int", "str", "bool"])) for j in range(n)]
            vs = [{"In": "new In{%d}" % j, "int": str(j), "str": "\"s%d\"" % j, "bool": "true"}[x.split(": ")[1]] for j, x in enumerate(fs)]
            if n < 5 or at >= n - 3 or r.random() < 0.3:
                put("struct In { v: int }\nstruct Out {\n%s\n}\nuse json(\"Out\")\nemit(Out_to_json(new Out{%s}), In_to_json(new In{5}))\n" % ("\n".join(fs), ", ".join(vs)))


def line_pairs(o, r, n, fam="pair"):
    """Two states in use at the same time, threads which are made again, and sources whose statements stand on the same lines"""
    for i in range(n):
        c = Case(o.id(fam))
        ns = r.choice([1, 2, 2])
        short = r.random() < 0.25
        twin = r.random() < (0.8 if short else 0.3)
        first = []
        for s in range(ns):
            c.state(s)
            if twin and s:
                # the same program on other lines
                for src in first:
                    c.compile("\n" * r.randint(1, 5) + src, s, "t%d.tiny" % s)
                continue
            at = r.randint(0, 12)
            for j in range(1 if short else r.randint(1, 4)):
                b, line = "", 0
                # the first statement of a source often stands where the last one of the source before it stood
                start = at if r.random() < 0.6 else r.randint(0, 12)
                b += "\n" * start
                line = start
                for q in range(1 if short else r.randint(1, 4)):
                    st = r.choice(["emit(%d)", "x%d_%d_%d := oi(%%d)" % (s, j, q), "func f%d_%d_%d(a: int): int { return oi(a) } emit(f%d_%d_%d(%%d))" % ((s, j, q) * 2), "func g%d_%d_%d(a: int): int {\n\nreturn oi(a) }\nemit(g%d_%d_%d(%%d))" % ((s, j, q) * 2), "if ob(true) { emit(%d) }", "emit(" + " + ".join("oi(%d)" % z for z in range(r.randint(2, 12))) + ", %d)", "".join("d%d_%d_%d_%d := 1 " % (s, j, q, z) for z in range(r.randint(3, 12))) + "emit(%d)", "for i%d_%d_%d := 0; i%d_%d_%d < 2; i%d_%d_%d += 1 { emit(%%d) }" % ((s, j, q) * 3)]) % q
                    b += st
                    line += st.count("\n")
                    at = line
                    gap = r.choice([0, 1, 1, 1, 3])
                    b += "\n" * gap if gap else " ; " if "emit" in st and 0 else "\n"
                    line += gap if gap else 1
                first.append(b)
                c.compile(b, s, "s%d_%d.tiny" % (s, j))
                if r.random() < 0.2:
                    c.compile("\n" * r.randint(0, 12) + "emit(1)\nnope()\n", s, "bad.tiny")
        for rnd in range(r.randint(1, 3)):
            order = []
            for s in range(ns):
                c.add("thread %d %d" % (s, s if rnd != 1 else ns - 1 - s)).add("start %d" % s)
            for _ in range(r.randint(0, 8)):
                c.add("step %d %d" % (r.randrange(ns), r.randint(1, 9)))
                if r.random() < 0.5:
                    c.add("line %d" % r.randrange(ns))
            for s in range(ns):
                c.add(r.choice(["run %d" % s, "finish %d 3" % s, "step %d %d" % (s, r.randint(5, 40))]))
                if r.random() < 0.5:
                    c.add("line %d" % s)
            for s in range(ns):
                c.add("destroy %d" % s)
        for s in range(ns):
            c.add("delstate %d" % s)
        o.put(c.add("mem"), fam)


def use_places(o, r, fam="place"):
    """use where it stands and where it must not, with few and with very many arguments"""
    u = "use host(\"a\")"
    ss = ["if true { %s }", "{ %s }", "{ }\n%s", "while false { { %s } }", "func f() { %s }\nf()", "for i := 0; i < 1; i += 1 { %s }", "if false { } else { %s }", "func f() { { %s } }", "struct S { a: int }\n%s", "x := 1\n%s\nemit(x)", "%s;", "%s %s", "{ emit(3)\n%s\n}", "emit(1) %s emit(2)", "func f() { }\n%s\nf()"]
    ss = [s.replace("%s", u) for s in ss]
    ss += ["use host(%s)" % ", ".join('"a%d"' % i for i in range(n)) for n in (2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200)]
    for s in ss:
        c = Case(o.id(fam)).state().compile(s + "\nemit(1)\n").compile("emit(7)\n")
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), fam)


def bare_bodies(o, r, fam="bare"):
    """A declaration which is the whole body of a statement, and the same name before, after and beside it"""
    cons = ["if ob(true) D", "if ob(false) D else D2", "if ob(false) emit(1) else D", "while tick() D", "for i := 0; i < 2; i += 1 D", "if ob(true) if ob(true) D", "while tick() if ob(true) D", "if ob(true) while tick() D else D2", "for D v < 2; v += 1 { emit(v) }", "{ D }", "{ { D } D2 }", "if ob(true) { D } else { D2 }", "if ob(true) { D }", "while tick() { D }",
            "for v := 0; v < 2; v += 1 { emit(v) }", "for v := 0; v < 2; v += 1 emit(v)", "for v := 0; v < 2; v += 1 D", "for v := 0; v < 2; v += 1 { D emit(v) }", "for v := 0; v < 2; v += 1 { for v := 5; v < 7; v += 1 { emit(v) } emit(v) }", "for i9 := 0; i9 < 2; i9 += 1 { for v := 5; v < 7; v += 1 { emit(v) } }", "for v := 0; v < 2; v += 1 { } for v := 5; v < 7; v += 1 { emit(v) }", "while tick() { for v := 0; v < 1; v += 1 { emit(v) } }", "if ob(true) for v := 0; v < 2; v += 1 { emit(v) } else D", "for v: int = 0; v < 2; v += 1 { if v == 0 { continue } emit(v) break }"]
    before = ["", "v := 1\n", "emit(v)\n", "v: str = \"s\"\n"]
    after = ["emit(v)", "v = 4\nemit(v)", "v := 5\nemit(v)", "v: str = \"t\"\nemit(v)", "{ v := 6\nemit(v) }", "emit(2)"]
    combos = [(c, b, a, f) for c in cons for b in before for a in after for f in (0, 1, 2)]
    r.shuffle(combos)
    for i in range(0, len(combos), 12):
        cs = Case(o.id(fam))
        for c, b, a, f in combos[i:i + 12]:
            src = c.replace("D2", "v := 8").replace("for D", "for v := 0;").replace("D", "v := 7")
            body = b + src + "\n" + a + "\n"
            src = [body, "func f() {\n" + body + "}\nf()\nemit(9)\n", "func f(v: int) {\n" + body + "}\nf(3)\nemit(9)\n"][f]
            src = ("gt := 0\nfunc tick(): bool { gt += 1\nreturn gt % 3 != 0 }\n" + src)
            cs.state(0).compile(src).add("thread 0 0").add("start 0").add("step 0 3000").add("destroy 0").add("delstate 0")
        o.put(cs.add("mem"), fam)
