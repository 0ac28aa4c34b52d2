"""The cases (scripts for the harness) of each property."""
import random, re
import gen, small
from vlib import Case, hexs

LIMIT = 12000        # characters of one source


def lines(*xs):
    return "\n".join(xs) + "\n"


def basic(cid, src, drive="run 0", s=0, name="m.tiny", tags=()):
    c = Case(cid, tags).state(s).compile(src, s, name)
    c.add("thread 0", s).add("start 0").add(drive).add("destroy 0").add("delstate", s).add("mem")
    return c


def fresh(items, decl=r"\bfor (\w+) :="):
    """Gives the variables which each of the statements declares names of their own"""
    out = []
    for k, t in enumerate(items):
        for v in set(re.findall(decl, t)):
            t = re.sub(r'(?<![".\w])%s(?!["\w])' % v, "%s_%d" % (v, k), t)
        out.append(t)
    return out


def drive(r):
    return r.choice(["run 0", "run 0", "finish 0 1", "finish 0 %d" % r.randint(2, 40)])


def prog(r, **kw):
    for _ in range(20):
        s = gen.Gen(r, **kw).source()
        if len(s) < LIMIT:
            return s
    return "emit(1)\n"


PLAIN = {"compile", "hstate", "thread", "start", "run", "step", "finish", "destroy", "delstate", "mem", "call", "getg", "setg", "fidx", "gidx", "type", "ask", "gc"}
KEEP = set("int str float bool any void null true false emit file i64 array dict host use as func struct new cast if else while for break continue return foreign foreach delegate json".split())
LONG = ["one_quite_long_prefix_of_all_", "namespace_", "the_names_of_this_program_share_their_first_letters_"]


def lengthen(c, n, limit=2500):
    """The same history with names which agree in their first letters: what a program means does not depend on how long its names are"""
    srcs = [bytes.fromhex(l.split()[3]).decode("latin-1") if len(l.split()) > 3 else "" for l in c.lines if l.startswith("compile ")]
    if any(l.split()[0] not in PLAIN for l in c.lines) or not srcs or sum(map(len, srcs)) > limit:
        return
    text = "\n".join(srcs)
    if "printf" in text or "%" in "".join(re.findall(r'"[^"]*"', text)) or "\0" in text:
        return
    names = set()
    for pat in (r"\bfunc (\w+)", r"\bstruct (\w+)", r"\b([A-Za-z]\w*)\s*:", r"\bas (\w+)"):
        names.update(re.findall(pat, text))
    names = {x for x in names - KEEP if not re.search(r"\b%s_\w*\(" % x, text) or ("as " + x) in text}
    if not names:
        return
    pre = LONG[n // 7 % len(LONG)]
    pat = re.compile(r"(?<![%%\\\w])(%s)(?=\b|_\w)" % "|".join(sorted(names, key=len, reverse=True)))
    for i, l in enumerate(c.lines):
        w = l.split()
        if w[0] == "compile" and len(w) > 3:
            w[3] = pat.sub(lambda m: pre + m.group(1), bytes.fromhex(w[3]).decode("latin-1")).encode("latin-1").hex()
        elif w[0] in ("call", "getg", "setg", "fidx", "gidx", "type", "ask"):
            w[2:3] = [pre + x if x in names else x for x in w[2:3]]
        c.lines[i] = " ".join(w)


class Out:
    """Collects cases"""

    def __init__(self, prefix, pool=20):
        self.cs, self.p, self.pool = [], prefix, pool

    def id(self, fam):
        return "%s-%s%d" % (self.p, fam, len(self.cs))

    def put(self, c, fam):
        c.tags = [fam]
        if len(self.cs) % 7 == 3:
            lengthen(c, len(self.cs), 12000 if fam == "types" else 2500)
        if len(self.cs) % self.pool == 1 and "pool 0" not in c.lines:
            # An allocator which places every block right below the last
            c.lines.insert(0, "pool 0")
        self.cs.append(c)
        return c

    def prog(self, fam, src, how="run 0"):
        return self.put(basic(self.id(fam), src, how), fam)

    def rand(self, fam, r, n, **kw):
        for _ in range(n):
            self.prog(fam, prog(r, **kw), drive(r))


# ------------------------------------------------------------------------------------------- C01
EDGE = {
    "int": ["0", "1", "-1", "2", "7", "-7", "10", "127", "128", "-128", "255", "256", "-256", "65535", "65536", "16777216",
            "2147483647", "-2147483647", "1073741824", "46341"],
    "float": ["0.0", "1.0", "-1.0", "0.5", "2.5", "-2.5", "0.25", "100.0", "3.75", "16777216.0", "-0.125"],
    "bool": ["true", "false"],
    "str": ['""', '"a"', '"b"', '"ab"', '"a\\n"'],
}


def operand(r, ty, v, form, pre, uid):
    """Statements which precede and the expression for the value v of the type ty"""
    if form == "lit":
        return v
    n = "q%d" % uid
    if form == "const":
        if v.startswith("-"):
            return v
        pre["top"].append("%s :: %s" % (n, v))
        return n
    if form == "var":
        pre["in"].append("%s := %s" % (n, v))
        return n
    if form == "glob":
        pre["top"].append("%s := %s" % (n, v))
        return n
    if form == "arg":
        pre["args"].append((n, ty, v))
        return n
    if form == "field":
        pre["top"].append("struct Z%s { p: int w: %s q: int }" % (n, ty))
        pre["top"].append("%s := new Z%s{9, %s, 8}" % (n, n, v))
        return n + ".w"
    if form == "call":
        pre["top"].append("func %s(): %s { return %s }" % (n, ty, v))
        return n + "()"
    if form == "idx":
        pre["top"].append('use array("%s") as ay%s' % (ty, n))
        pre["top"].append("%s := ay%s(%s, %s)" % (n, n, v, v))
        return n + "[1]"
    if form == "host":
        return "o%s(%s)" % (ty[0], v)
    if form == "any":
        return "cast(echo(%s), %s)" % (v, ty)
    if form == "tern":
        return "(if cast(echo(true), bool) %s else %s)" % ("(%s)" % v if v[0] in "-" else v, "(%s)" % v)
    return "(%s)" % v


FORMS = ["lit", "const", "var", "glob", "arg", "field", "call", "idx", "host", "any", "tern", "paren"]


def c01_ops(o, r, n):
    """Every operator with operands of every form"""
    combos = []
    for op in ["+", "-", "*", "/", "%", "&", "|", "<<", ">>", "<", "<=", ">", ">=", "==", "!="]:
        combos += [(op, "int", "int")] * 4
        if op in ("+", "-", "*", "/", "<", "<=", ">", ">="):
            combos += [(op, "int", "float"), (op, "float", "int"), (op, "float", "float")]
        if op in ("==", "!="):
            combos += [(op, t, t) for t in ("float", "bool", "str", "bool", "str")] + [(op, "any", "any")] * 2
    combos += [("&&", "bool", "bool"), ("||", "bool", "bool")] * 2
    for k in range(n):
        top, body = [], []
        pre = {"top": top, "in": body, "args": []}
        for j in range(9):
            op, ta, tb = r.choice(combos)
            if ta == "any":
                t1, t2 = r.choice(list(EDGE)), r.choice(list(EDGE))
                if r.random() < 0.6:
                    t2 = t1
                a, b = "echo(%s)" % r.choice(EDGE[t1]), "echo(%s)" % r.choice(EDGE[t2])
                if r.random() < 0.3:
                    a = "light(%s)" % r.choice(["0", "1", "3", "3"])
                    b = r.choice([b, "light(%s)" % r.choice(["0", "1", "3", "3"])])
                body.append("emit(%s %s %s)" % (a, op, b))
                continue
            va, vb = r.choice(EDGE[ta]), r.choice(EDGE[tb])
            if op in "/%":
                while float(vb) == 0 or (tb == "int" and int(float(vb)) == 0):
                    vb = r.choice(EDGE[tb])
                if op == "%":
                    va = r.choice(EDGE["int"][:14])
            if op in ("<<", ">>"):
                va, vb = r.choice(["0", "1", "5", "255", "4095"]), str(r.randint(0, 18))
            if ta == "float" and op in "*/" and r.random() < 0.8:
                vb = r.choice(["2.0", "0.5", "-4.0"] if tb == "float" else ["2", "-4"])
            fa, fb = r.choice(FORMS), r.choice(FORMS)
            a = operand(r, ta, va, fa, pre, 1000 * k + 10 * j)
            b = operand(r, tb, vb, fb, pre, 1000 * k + 10 * j + 1)
            e = "%s %s %s" % (a, op, b)
            x = r.random()
            if x < 0.6:
                body.append("emit(%s)" % e)
            elif x < 0.75:
                body.append("w%d := %s\nemit(w%d)" % (j, e, j))
            elif x < 0.85 and op in ("<", "<=", ">", ">=", "==", "!=", "&&", "||"):
                body.append("if %s { emit(1, %d) } else { emit(2, %d) }" % (e, j, j))
            else:
                body.append("emit(1, (%s), 2)" % e)
            # compound assignment
            if op in "+-*/%&|" and ta == "int" and tb == "int" and r.random() < 0.4:
                body.append("z%d := %s\nz%d %s= %s\nemit(z%d)" % (j, va, j, op, b, j))
            if op in ("+", "-") and ta == "float" and r.random() < 0.4:
                body.append("z%d := %s\nz%d %s= %s\nemit(z%d)" % (j, va, j, op, b, j))
        if r.random() < 0.5:
            ps = ", ".join("%s: %s" % (n2, t) for n2, t, _ in pre["args"])
            src = lines(*top) + "func main_(%s) {\n%s}\nmain_(%s)\n" % (ps, lines(*body), ", ".join(v for _, _, v in pre["args"]))
        else:
            src = lines(*top) + lines(*["%s := %s" % (n2, v) for n2, _, v in pre["args"]]) + lines(*body)
        o.prog("ops", src, drive(r))


def c01_order(o, r, n):
    """Operands which can be seen to be evaluated: order, exactly once, only when needed"""
    for k in range(n):
        g = gen.Gen(r, order=3, depth=4, funcs=1, stmts=4, loops=0.3, anys=1, strings=0.6, calls=1.5, structs=0.5)
        src = g.source()
        b = []
        for _ in range(4):
            def e(d, ty):
                x = r.random()
                if ty == "bool":
                    if d <= 0 or x < 0.25:
                        return "ob(%s)" % r.choice(["true", "false"])
                    if x < 0.65:
                        return "(%s %s %s)" % (e(d - 1, "bool"), r.choice(["&&", "||"]), e(d - 1, "bool"))
                    if x < 0.8:
                        return "(%s %s %s)" % (e(d - 1, "int"), r.choice(["<", "==", "!=", ">="]), e(d - 1, "int"))
                    if x < 0.9:
                        return "!%s" % e(d - 1, "bool")
                    return "(if %s %s else %s)" % (e(d - 1, "bool"), e(d - 1, "bool"), e(d - 1, "bool"))
                if d <= 0 or x < 0.3:
                    return "oi(%d)" % r.randint(0, 9) if r.random() < 0.7 else str(r.randint(0, 9))
                if x < 0.7:
                    return "(%s %s %s)" % (e(d - 1, "int"), r.choice("+-*"), e(d - 1, "int"))
                if x < 0.8:
                    return "count(%s)" % ", ".join(e(d - 1, r.choice(["int", "bool"])) for _ in range(r.randint(0, 4)))
                if x < 0.9:
                    return "cast(pick(%d, %s), int)" % (1, ", ".join(e(d - 1, "int") for _ in range(3)))
                return "(if %s %s else %s)" % (e(d - 1, "bool"), e(d - 1, "int"), e(d - 1, "int"))
            b.append(r.choice(["emit(%s)", "if %s { emit(1) } else { emit(2) }"]) % e(3, "bool"))
            b.append("emit(%s, %s)" % (e(3, "int"), e(2, "int")))
        o.prog("order", src + lines(*b), drive(r))


def c01_deep(o, r, n):
    """Deeply nested expressions"""
    for k in range(n):
        d = r.choice([5, 20, 50, 80])
        kind = k % 6
        if kind == 0:
            e = "1"
            for i in range(d):
                e = "(%s %s %d)" % (e, r.choice("+-"), i)
        elif kind == 1:
            e = "1"
            for i in range(d):
                e = "(%d %s %s)" % (i, r.choice("+-"), e)
        elif kind == 2:
            e = "true"
            for i in range(d):
                e = "(%s %s %s)" % (r.choice(["true", "false", "ob(true)", "ob(false)"]), r.choice(["&&", "||"]), e)
        elif kind == 3:
            e = "oi(7)"
            for i in range(d):
                e = r.choice(["-(%s)", "oi(%s)", "(%s)", "int(float(%s))", "cast(echo(%s), int)"]) % e
        elif kind == 4:
            e = "3"
            for i in range(min(d, 40)):
                e = "if %s %s else %s" % (r.choice(["true", "ob(false)", "ob(true)", "1 < %d" % r.randint(0, 3)]), r.randint(0, 99), e)
        else:
            e = " ".join(["%d %s" % (r.randint(1, 9), r.choice("+-*")) for _ in range(2 * d)]) + " 1"
        ty = "bool" if kind == 2 else "int"
        if r.random() < 0.5:
            o.prog("deep", "emit(%s)\n" % e)
        else:
            o.prog("deep", "func f(a: %s): %s {\n  return %s\n}\nx := f(%s)\nemit(x)\n" % (ty, ty, e, "ob(true)" if ty == "bool" else "5"), drive(r))


def c01(o, r, k):
    small.natives(o, r, 8 * k)
    small.exprs(o, r, 7000 * k)
    c01_ops(o, r, 60 * k)
    c01_order(o, r, 60 * k)
    c01_deep(o, r, 18 * k)
    o.rand("rand", r, 90 * k, depth=4, stmts=8, bigint=0.4, chain=1.0, loops=0.3, ifs=0.6, anys=1.0)
    # 64 bits
    for i in range(12 * k):
        b = ["x := %s" % r.choice(["2147483647", "65536", "1000000", "99999"])]
        for j in range(6):
            b.append("x %s= %s" % (r.choice("+-*"), r.choice(["2147483647", "x", "3", "65536", "7"]) if j < 2 else r.choice(["2", "3", "x - x + 5", "99999"][:2])))
            b.append("emit(x, x + 1, -x, x == x + 0, x < x + 1, %s)" % r.choice(["x - 1", "int_to_str(x)", "x / 7", "x / -3", "0 - x"]))
        o.prog("wide", lines(*b))


# ------------------------------------------------------------------------------------------- C02
SOUP = ["+", "-", "*", "/", "%", "&", "|", "&&", "||", "<", "<=", "<<", ">", ">=", ">>", "=", "==", "!", "!=", ":", ":=", "::", ".", "...",
        "->", "(", ")", "[", "]", "{", "}", ",", ";", "?", "if", "else", "while", "for", "func", "struct", "new", "cast", "return",
        "break", "continue", "use", "as", "null", "true", "false", "foreign", "x", "y1", "_z", "int", "0", "1", "12", "0x1F", "1.5", "3.",
        "\"s\"", "'c'", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "foreach", "//c\n", "ifx", "newx", "truex", "else_", "9a"]


def c02_layout(o, r, n):
    for i in range(n):
        src = prog(r, stmts=6, funcs=2, strings=1.4, chain=1.5)
        toks = gen.tokens(src)
        o.prog("layout", gen.layout(r, toks, r.choice([0, 0.2, 0.6, 0.95])) + r.choice(["", "\n", " // end", "//", "\t", "\n\n"]), "run 0")


def c02_chain(o, r, n):
    """Operators without parentheses: the grouping decides the value"""
    nums = ["1", "2", "3", "5", "7", "9", "12", "20", "100"]
    for i in range(n):
        b = ["struct P { n: int q: P? f: float }", 'use array("int") as ai', "p := new P{4, cast(null, P?), 2.5}", "p.q = new P{6, p, 0.5}", "a := ai(3, 8, 1)",
             "func g(x: int): int { return x * 2 + 1 }", "t := true", "u := false"]
        for _ in range(10):
            def num():
                x = r.random()
                if x < 0.55:
                    return r.choice(nums)
                s = r.choice(["p.n", "a[1]", "a[0 + 2]", "g(3)", "p.n->g()", "-p.n", "-a[2]", "-3", "(2 - 9)", "-g(1)", "g(p.n + a[0])", "a[a[2]]", "strlen(\"abc\")", "\"abcd\"->strlen()", "- -2" if 0 else "-(-2)"])
                return s
            k = r.random()
            e = num()
            ops = r.randint(2, 5)
            for j in range(ops):
                op = r.choice(["+", "-", "*", "/", "%", "&", "|", "+", "-", "<<", ">>"])
                rhs = num()
                if op in "/%":
                    rhs = r.choice(["1", "2", "3", "7", "4"])
                if op in ("<<", ">>"):
                    rhs = r.choice(["1", "2", "3"])
                    e = "%s %s %s" % (e, op, rhs)
                    continue
                e = "%s %s %s" % (e, op, rhs)
            if k < 0.5:
                b.append("emit(%s)" % e)
            elif k < 0.75:
                b.append("emit(%s %s %s)" % (e, r.choice(["<", "<=", ">", ">=", "==", "!="]), r.choice(nums) + r.choice([" + ", " - ", " * "]) + num()))
            else:
                cs = ["%s %s %s" % (r.choice(nums) + r.choice([" + ", " - "]) + num(), r.choice(["<", ">", "=="]), num()) if r.random() < 0.5 else r.choice(["t", "u", "!t", "!u", "true"])
                      for _ in range(r.randint(2, 4))]
                e = cs[0]
                for c in cs[1:]:
                    e += " %s %s" % (r.choice(["&&", "||"]), c)
                b.append("emit(%s)" % e)
            if r.random() < 0.2:
                b.append("emit(if %s %s else %s)" % (r.choice(["t", "!t", "u || t", "1 < 2"]), num().lstrip("-("[0]) if 0 else r.choice(nums), num()))
        o.prog("chain", lines(*b))


def c02_soup(o, r, n):
    for i in range(n):
        c = Case(o.id("soup"))
        for j in range(8):
            k = r.random()
            c.state(0)
            if k < 0.35:
                toks = [r.choice(SOUP) for _ in range(r.randint(1, 12))]
                src = r.choice(["", " ", "\n"]).join(toks)
            else:
                toks = gen.tokens(prog(r, stmts=3, funcs=1, structs=1, arrays=1, depth=2))
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    x = r.random()
                    p = r.randrange(len(toks))
                    if x < 0.3:
                        toks[p] = r.choice(SOUP)
                    elif x < 0.55:
                        toks.insert(p, r.choice(SOUP))
                    elif x < 0.8 and len(toks) > 1:
                        del toks[p]
                    elif p + 1 < len(toks):
                        toks[p], toks[p + 1] = toks[p + 1], toks[p]
                src = gen.layout(r, toks, 0.2) if r.random() < 0.7 else " ".join(toks)
            c.compile(src).add("delstate 0")
        o.put(c.add("mem"), "soup")


LITS = ["0", "00", "007", "1", "10", "2147483647", "2147483646", "0x0", "0x1", "0xff", "0xFF", "0xAbC", "0x7fffffff", "0xffffffff", "0x80000001", "0x0deadbeef", "0x00010", "1.0", "1.", "0.5", "12.25", "100.125",
        "3.14159", "0.1", "1234567.5", "'a'", "'0'", "' '", "'\\n'", "'\\t'", "'\\\\'", "'\\''", "'\\\"'", "'\"'", "'~'", "'\\r'",
        '""', '"a"', '"\\n"', '"\\t\\\\\\""', '"\'"', '"a b  c"', '"// not"', '"%i %s"', '"multi\nline"', '"tab\tx"', '"' + "long " * 60 + '"', '"\xc3\xa9"', "true", "false", "null"]


def c02_lits(o, r, n):
    for i in range(n):
        b = []
        for _ in range(12):
            l = r.choice(LITS)
            if r.random() < 0.35:
                k = r.random()
                if k < 0.25:
                    l = "0x%s" % "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randint(1, 8)))
                elif k < 0.5:
                    l = str(r.randint(0, 2 ** r.randint(1, 31) - 1))
                elif k < 0.75:
                    l = "%d.%s" % (r.randint(0, 999), r.choice(["5", "25", "75", "125", "0", "50", "", "375"]))
                else:
                    l = '"%s"' % "".join(r.choice(["a", "Z", " ", "\\n", "\\t", "\\\\", "\\\"", "'", "/", "%", "0", "\n", "\x7f", "{", "#", "$", "\xe9"]) for _ in range(r.randint(0, 30)))
            x = r.random()
            if x < 0.6:
                b.append("emit(%s)" % l)
            elif x < 0.75:
                b.append("emit(1,%s,2)" % l)
            elif x < 0.85 and l != "null":
                n2 = "v%d" % len(b)
                b.append("%s%s%s\nemit(%s)" % (n2, r.choice([":=", " := ", "::", " :: ", " :\n= " if 0 else " :="]), l, n2))
            elif l[0].isdigit():
                b.append("emit(%s%s-%s)" % (l, r.choice(["+", " - ", "*"]) if False else "", l) if l[-1] != "." else "emit(%s - 1.0)" % l)
            else:
                b.append("emit(%s==%s)" % (l, l))
        o.prog("lits", r.choice(["\n", "\n\n", " ", "\n // c\n"]).join(b) + "\n")


def c02_words(o, r, n):
    """Numbers and names of every form, next to one another"""
    KW = ["if", "func", "foreign", "return", "while", "for", "else", "struct", "new", "cast", "break", "continue", "use", "foreach", "null", "true", "false"]

    def num():
        x = r.random()
        if x < 0.3:
            return r.choice("0123456789") + "".join(r.choice("0123456789x.") for _ in range(r.randint(0, 6)))
        if x < 0.6:
            return r.choice("0123456789") * r.randint(1, 3) + "x" + "".join(r.choice("0123456789abcdefABCDEF.x") for _ in range(r.randint(0, 6)))
        if x < 0.8:
            return "%s.%s" % (r.choice(["0", "00", "1", "007", "12"]), "".join(r.choice("0123456789") for _ in range(r.randint(0, 5))) + r.choice(["", "", "x", "x1", "xa", "a", "f", "e1", ".5"]))
        return r.choice(["0", "9", "10"]) + r.choice(["a", "f", "g", "L", "u", "e3", "E3", "_", "_1", "b1", "X1", "o7", "..", "...", ". 5", "xg", "x_", "xx"])

    def name():
        w = r.choice(KW + ["a", "x", "A", "Z", "nul", "tru", "i", "fo"])
        w = r.choice([w + r.choice(["_", "1", "x", "s", "_1", "X", "e", "each", "_" + w, w]), w.upper(), w.capitalize(), w[:-1] + "_", r.choice("axZ") + w, "_" + w if r.random() < 0.2 else w + "0"])
        return w
    for i in range(n):
        c = Case(o.id("words")).state(0)
        for j in range(14):
            x = r.random()
            if x < 0.6:
                src = "emit(%s)" % num()
            elif x < 0.8:
                w = name()
                src = "%s%s:=%s%d\nemit(%s)" % (w, r.choice(["", " ", "\n"]), r.choice(["", " "]), j, w)
            elif x < 0.9:
                w = name()
                src = "struct Q%d { %s: int }\nemit(new Q%d{%d}.%s)" % (j, w, j, j, w) if r.random() < 0.5 else "func %s_%d(%s: int): int { return %s * 2 }\nemit(%s_%d(%d))" % (w, j, w, w, w, j, j)
            else:
                src = "v%d := %s%s%s" % (j, num(), r.choice(["+", "-", " ", "", "*"]), num())
            c.compile(src, 0, "w%d.tiny" % j)
        c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem")
        o.put(c, "words")


def c02_ops(o, r, n):
    """Every two operator characters, and some three, between, before and after operands"""
    CH = "+-*/%<>=!&|,;:.?()[]{}"
    seqs = [a + b for a in CH for b in CH]
    seqs += ["".join(r.choice(CH[:15]) for _ in range(3)) for _ in range(n)] + ["".join(r.choice("+-*/%<>=!&|") for _ in range(r.randint(3, 5))) for _ in range(n)]
    forms = ["emit(a%sb)", "emit(a %s b)", "a%sb", "a %s b", "emit(%sa)", "emit(a%s)", "emit(t%su)", "emit(p%sx)", "p %s x", "a %s 1", "c#%s1", "emit(1%s2)"]
    todo = [(q, f) for q in seqs for f in (forms if len(q) > 2 else r.sample(forms, 3))]
    r.shuffle(todo)
    todo = todo[:1300 + 3 * n]
    for i in range(0, len(todo), 60):
        c = Case(o.id("ops")).state(0).compile("struct P { x: int }\na := 13\nb := 5\nx := 2\nt := true\nu := false\np := new P{3}\n")
        for j, (q, f) in enumerate(todo[i:i + 60]):
            c.compile(f.replace("#", str(j)) % q if "%s" in f and "%" not in f.replace("%s", "") else f.replace("%s", q), 0, "o.tiny")
        c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem")
        o.put(c, "ops")


def c02(o, r, k):
    if k == 1:
        small.literals(o, r, 99999)
        small.long_names(o, r)
    c02_layout(o, r, 60 * k)
    c02_chain(o, r, 70 * k)
    c02_lits(o, r, 50 * k)
    c02_soup(o, r, 40 * k)
    c02_words(o, r, 40 * k)
    c02_ops(o, r, 100 * k)
    small.token_edits(o, r, 1500 * k)
    # every pair of operators
    ops = ["+", "-", "*", "/", "%", "&", "|", "<<", ">>", "<", ">", "==", "&&"]
    body = []
    for a in ops[:9]:
        for b in ops[:12]:
            body.append("emit(29 %s 3 %s 2)" % (a, b))
    for a in ["<", ">", "<=", ">=", "==", "!="]:
        for b in ops[:9]:
            body.append("emit(12 %s 7 %s 2)" % (a, b))
        for b in ["&&", "||"]:
            body.append("emit(t %s 3 %s 4)" % (b, a))
            body.append("emit(3 %s 4 %s t)" % (a, b))
            body.append("emit(u %s !t %s 3 %s 4)" % (b, r.choice(["&&", "||"]), a))
    for a in ["&&", "||"]:
        for b in ["&&", "||"]:
            for x in "tu":
                for y in "tu":
                    for z in "tu":
                        body.append("emit(%s %s %s %s %s)" % (x, a, y, b, z))
    for i in range(0, len(body), 40):
        o.prog("pairs", "t := true\nu := false\n" + lines(*body[i:i + 40]))


# ------------------------------------------------------------------------------------------- C03
def c03_nest(o, r, n):
    """Nested loops with jumps, which tell where they are"""
    for i in range(n):
        ctr = [0]

        def st(d, inloop, infn):
            ctr[0] += 1
            u = ctr[0]
            x = r.random()
            if ctr[0] > 60 or d <= 0 or x < 0.25:
                return ["emit(%d)" % u]
            if x < 0.45:
                c = "ob(%s)" % r.choice(["true", "false", "a < %d" % r.randint(0, 5), "a %% 2 == %d" % r.randint(0, 1), "b > 1"])
                out = ["if %s {" % c] + blk(d - 1, inloop, infn) + ["}"]
                y = r.random()
                if y < 0.3:
                    out[-1] = "} else {"
                    out += blk(d - 1, inloop, infn) + ["}"]
                elif y < 0.5:
                    out[-1] = "} else if b %% 2 == %d {" % r.randint(0, 1)
                    out += blk(d - 1, inloop, infn) + ["} else {"] + blk(d - 1, inloop, infn) + ["}"]
                return out
            if x < 0.62:
                v = "k%d" % u
                return ["%s := 0" % v, "while %s < %d {" % (v, r.randint(0, 3)), "%s += 1" % v] + blk(d - 1, True, infn) + ["}"]
            if x < 0.8:
                v = "i%d" % u
                return ["for %s := 0; %s < %d; %s" % (v, v, r.randint(0, 3), r.choice(["%s += 1", "%s = %s + 1"]) % ((v,) if 0 else (v,) * 1 if False else (v,)) if False else "%s += 1" % v) + " {"] + blk(d - 1, True, infn) + ["}"]
            if x < 0.9 and inloop:
                return [r.choice(["break", "continue"])] if r.random() < 0.3 else ["if %s { %s }" % (r.choice(["a % 3 == 0", "b > a", "a > 2", "true", "false"]), r.choice(["break", "continue"]))]
            if x < 0.95 and infn:
                return ["if a > %d { return a * 100 + %d }" % (r.randint(1, 9), u)]
            return ["a += 1", "b = a - b"] if r.random() < 0.7 else ["{"] + blk(d - 1, inloop, infn) + ["}"]

        def blk(d, inloop, infn):
            out = []
            for _ in range(r.choice([0, 1, 2, 2, 3])):
                out += st(d, inloop, infn)
            return out
        if r.random() < 0.6:
            b = blk(4, False, True)
            src = "func f(a: int, b: int): int {\n%semit(a, b)\nreturn a\n}\n" % lines(*b)
            src += "for i := 0; i < 3; i += 1 { emit(f(i, 2)) }\nemit(99)\n"
        else:
            src = "a := %d\nb := 2\n" % r.randint(0, 2) + lines(*blk(4, False, False)) + "emit(a, b)\n"
        o.prog("nest", src, drive(r))


def c03_long(o, r):
    """Bodies too large for short jumps"""
    for n in (60, 300, 1000, 2600):
        body = lines(*["x += %d" % (i % 7) for i in range(n)])
        forms = ["if %s {\n" + body + "} else { emit(2)\n}\nemit(3, x)\n",
                 "while x < %d {\n" % (n * 5) + body + "if x > 100000 { break }\n}\nemit(3, x)\n",
                 "for i := 0; i < 2; i += 1 {\nif i == 1 { continue }\n" + body + "}\nemit(3, x)\n",
                 "func f(): int {\nif %s { return 1 }\n" + body + "return x }\nemit(f(), x)\n"]
        for f in forms if n < 2000 else forms[:2]:
            for c in (["true", "false"] if "%s" in f else [""]):
                o.prog("long", "x := 0\n" + (f % c if "%s" in f else f))


def c03_chain(o, r, n):
    """Loops whose bodies are chains of conditions with a jump anywhere in them"""
    for i in range(n):
        infn = r.random() < 0.6

        def leaf(d):
            j = r.choice(["emit(%d)" % r.randint(10, 99), "break", "continue", "x += %d" % r.randint(1, 9)] + (["return x * 1000 + i"] if infn else []))
            q = r.random()
            if d <= 0 or q < 0.55:
                return j
            if q < 0.75:
                return "%s\n%s" % (r.choice(["x += 7", "emit(x)"]), j)
            if q < 0.9:
                return "{ emit(i)\n%s }" % leaf(d - 1)
            return chain(d - 1)

        def br(d):
            x = leaf(d)
            return "{ %s }" % x if r.random() < 0.85 or "\n" in x or x.startswith(("if", "{")) else x

        def chain(d):
            c = lambda: r.choice(["i == %d" % r.randint(0, 6), "i %% 3 == %d" % r.randint(0, 2), "i > %d" % r.randint(2, 7), "x > %d" % r.randint(5, 60), "ob(i < %d)" % r.randint(1, 5)])
            s = "if %s %s" % (c(), br(d))
            for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
                s += "\nelse if %s %s" % (c(), br(d))
            return s + ("\nelse %s" % br(d) if r.random() < 0.5 else "")
        ctr = r.choice(["for i := 0; i < %d; i += 1 {\n", "i := -1\nwhile i < %d {\ni += 1\n"]) % r.randint(3, 9)
        body = ctr + "x += 1\n" + chain(2) + "\nx += 2\n" + (chain(1) + "\n" if r.random() < 0.5 else "") + ("{ " + leaf(0) + " }\n" if r.random() < 0.15 else "") + "x += 3\nemit(x)\n}\n"
        if r.random() < 0.3:
            body = "for o := 0; o < 3; o += 1 {\nif o == %d { %s }\n" % (r.randint(0, 3), r.choice(["break", "continue", "emit(o)"])) + body.replace("i := -1\nwhile", "i := -1\nwhile") + "emit(o)\n}\n"
        if infn:
            src = "func f(x: int): int {\n" + body + "return x\n}\nemit(f(0))\nemit(f(%d))\n" % r.randint(1, 30)
        else:
            src = "x := %d\n" % r.randint(0, 9) + body + "emit(x)\n"
        o.prog("chain", src, drive(r))


def c03(o, r, k):
    small.stmts(o, r, 1000 * k, 500 * k)
    c03_nest(o, r, 110 * k)
    c03_chain(o, r, 90 * k)
    o.rand("rand", r, 130 * k, loops=3, ifs=2, stmts=6, fstmts=6, funcs=2, depth=2, blocks=1, unbraced=0.3, arrays=0, structs=0.3)
    if k == 1 or r.random() < 0.5:
        c03_long(o, r)
    # loops of every shape, taken exactly as often as said
    shapes = []
    for n in (0, 1, 2, 5):
        shapes += ["i := 0\nwhile i < %d { i += 1\nemit(i) }\nemit(i)" % n,
                   "for i := 0; i < %d; i += 1 { emit(i) }" % n,
                   "for i := 0; i < %d; i += 1 { if i == 1 { continue }\nemit(i) }" % n,
                   "for i := 0; i < %d; i += 1 { if i == 2 { break }\nemit(i) }" % n,
                   "i := 0\nwhile true { if i == %d { break }\ni += 1\nemit(i) }" % n,
                   "i := 0\nwhile i < %d { i += 1\nif i == 2 { continue }\nfor j := 0; j < 4; j += 1 { if j == i { break }\nif j == 1 { continue }\nemit(i, j) }\nif i == 3 { break } }\nemit(i)" % n,
                   "func f(n: int): int { for i := 0; i < 10; i += 1 { while true { if i == n { return i * 7 }\nbreak } }\nreturn -1 }\nemit(f(%d))\nemit(f(20))" % n,
                   "func f(n: int): int { if n > 2 { return 1 } else if n > 1 { return 2 } else { return 3 } }\nemit(f(%d))" % n,
                   "func f(n: int) { if n > 2 { emit(1)\nreturn; }\nemit(2) }\nf(%d)\nemit(7)" % n,
                   "for i := 0; ob(i < %d); i += oi(1) { emit(i)\nif ob(i == 1) { continue }\nemit(100) }" % n]
    for s in shapes:
        o.prog("shape", s + "\n", r.choice(["run 0", "finish 0 1"]))
        o.prog("shape", "func main_() {\n%s\n}\nmain_()\nemit(5)\n" % s if "func" not in s else s + "\n", "run 0")


# ------------------------------------------------------------------------------------------- C04
def c04_many(o, r, n):
    """Many locals, arguments and globals, each with a value of its own"""
    for i in range(n):
        k = r.choice([1, 2, 3, 8, 16, 40, 70, 90])
        na = r.choice([0, 1, 2, 5, 10, 14])
        if k + na > 95:
            na = 0
        vs = ["v%d" % j for j in range(k)]
        b = []
        cut = r.randint(0, k)
        for j, v in enumerate(vs):
            b.append("%s := %d" % (v, j * 3 + 1) if r.random() < 0.8 else "%s := %s" % (v, "v%d + 1" % r.randrange(j) if j else "5"))
            if j == cut:
                b.append("if n > 0 { f(n - 1%s) }" % "".join(", a%d + 1" % q for q in range(na)) if k + na < 14 else "g(%s)" % v)
        for _ in range(3):
            v = r.choice(vs)
            b.append("%s += %s" % (v, r.choice(vs + ["n"])))
        chunks = [vs[j:j + 12] for j in range(0, len(vs), 12)]
        b += ["emit(%s)" % ", ".join(c) for c in chunks]
        if na:
            b.append("emit(%s)" % ", ".join("a%d" % q for q in range(na)))
        src = "func g(x: int): int { v0 := x * 2\nv1 := v0 + 1\nx = 99\nreturn v1 }\n"
        src += "func f(n: int%s): int {\n%sreturn v%d\n}\nemit(f(%d%s))\n" % ("".join(", a%d: int" % q for q in range(na)), lines(*b), r.randrange(k), r.randint(0, 3),
                                                                       "".join(", %d" % (100 + q) for q in range(na)))
        o.prog("many", src, drive(r))


def c04_globals(o, r, sizes):
    for n in sizes:
        b = ["g%d := %d" % (i, i * 2) for i in range(n)]
        for _ in range(30):
            b.append("g%d = g%d + %d" % (r.randrange(n), r.randrange(n), r.randint(1, 5)))
        b += ["func f(a: int): int { g%d += a\nreturn g%d }" % (n - 1, n // 2), "emit(f(3))"]
        for j in range(0, n, 40):
            b.append("emit(%s)" % ", ".join("g%d" % i for i in range(j, min(n, j + 40))))
        o.prog("globals", lines(*b))


def c04_scope(o, r, n):
    """The same few names at every level"""
    for i in range(n):
        names = ["x", "y", "z"]
        ctr = [10]

        def body(d, here, infn):
            out = []
            here = set()
            for _ in range(r.randint(1, 4)):
                q = r.random()
                nm = r.choice(names)
                ctr[0] += 1
                if q < 0.3 and nm not in here and infn:
                    out.append("%s := %d" % (nm, ctr[0]))
                    here.add(nm)
                elif q < 0.5:
                    out.append("%s %s %d" % (nm, r.choice(["=", "+="]), ctr[0]))
                elif q < 0.75:
                    out.append("emit(x, y, z)")
                elif d > 0:
                    h = r.choice(["{", "if true {", "if false { emit(0) } else {", "for i%d := 0; i%d < 2; i%d += 1 {" % ((ctr[0],) * 3), "while ob(x < 0) {"])
                    out.append(h)
                    out += body(d - 1, set(here), infn)
                    out.append("}")
                else:
                    out.append("emit(%s)" % nm)
            return out
        ps = r.sample(names, r.randint(0, 2))
        src = "x := 1\ny := 2\nz := 3\n"
        if r.random() < 0.3:
            src = "x := 1\ny := 2\nz :: 3\n".replace("z :: 3", "z := 3")
        # other variables come first: what holds for a name must not depend on where it lives
        npad = r.choice([0, 0, 0, 4, 7, 13, 20, 31, 45, 65])
        pads = ["p%d := %d" % (j, j) for j in range(npad)]
        if npad and r.random() < 0.4:
            pads = ["if true {"] + pads + ["}"]
        elif npad and r.random() < 0.3:
            src = lines(*["g%d := %d" % (j, j) for j in range(npad)]) + src
        src += "func f(%s) {\n%s%semit(x, y, z)\n}\n" % (", ".join("%s: int" % p for p in ps), lines(*pads) if pads else "", lines(*body(3, set(), True)))
        src += "f(%s)\nemit(x, y, z)\n" % ", ".join(str(50 + j) for j in range(len(ps)))
        src += lines(*body(2, set(), False)) + "emit(x, y, z)\nf(%s)\nemit(x, y, z)\n" % ", ".join(str(60 + j) for j in range(len(ps)))
        o.prog("scope", src, drive(r))


def c04_recur(o, r, n):
    for i in range(n):
        t = i % 6
        k = r.randint(1, 12)
        if t == 0:
            s = "func f(n: int, a: int): int {\nl := n * 10 + a\nif n <= 0 { return l }\nr := f(n - 1, a + 1)\nemit(n, a, l, r)\nreturn r + l }\nemit(f(%d, 3))\n" % k
        elif t == 1:
            s = "func fib(n: int): int {\nif n < 2 { return n }\na := fib(n - 1)\nb := fib(n - 2)\nreturn a + b }\nemit(fib(%d))\n" % min(k, 9)
        elif t == 2:
            s = "func ev(n: int): bool { if n == 0 { return true }\nreturn od(n - 1) }\nfunc od(n: int): bool { if n == 0 { return false }\nreturn ev(n - 1) }\nemit(ev(%d), od(%d))\n" % (k, k)
        elif t == 3:
            s = "func h(n: int, s: str): str {\nt := strcat(s, int_to_str(n))\nif n == 0 { return t }\nu := h(n - 1, t)\nemit(t, u)\nreturn strcat(u, t) }\nemit(h(%d, \"x\"))\n" % min(k, 6)
        elif t == 4:
            s = "func d(n: int): int { if n == 0 { return 0 }\nreturn 1 + d(n - 1) }\nemit(d(%d))\n" % r.choice([10, 30, 22, 20])
        else:
            s = "func noval(x: int): int { if x > 5 { return x } }\nemit(echo(noval(9)))\nemit(echo(noval(1)))\nfunc v(x: int) { emit(x) }\nv(3)\n"
        o.prog("recur", s, drive(r))


def c04(o, r, k):
    if k == 1:
        small.limits(o, r)
    if k == 1:
        small.many_locals(o, r)
        small.many_functions(o, r)
    small.bare_bodies(o, r)
    c04_many(o, r, 60 * k)
    c04_scope(o, r, 100 * k)
    c04_recur(o, r, 36 * k)
    c04_globals(o, r, [3, 130, 260, 320])
    o.rand("rand", r, 100 * k, shadow=0.6, funcs=4, fstmts=6, recursion=0.5, calls=3, stmts=6, depth=3, blocks=1, structs=0.5, arrays=0.3)
    # evaluation of arguments while the stack is in use
    for i in range(20 * k):
        fs = "func f(a: int, b: int, c: int): int { x := a - b\ny := x * c\nreturn x + y * 2 }\nfunc g(a: int): int { t := a + 1\nu := t\nreturn f(t, u, a) }\n"

        def e(d):
            if d == 0:
                return str(r.randint(0, 9))
            return r.choice([lambda: "f(%s, %s, %s)" % (e(d - 1), e(d - 1), e(d - 1)), lambda: "g(%s)" % e(d - 1), lambda: "(%s %s %s)" % (e(d - 1), r.choice("+-"), e(d - 1)),
                             lambda: "count(%s, %s)" % (e(d - 1), e(d - 1))])()
        o.prog("args", fs + "emit(%s)\nl := %s\nemit(l)\nfunc m(a: int): int { b := %s\nc := %s\nreturn a + b * c }\nemit(m(4))\n" % (e(3), e(3), e(2), e(3)), drive(r))


# ------------------------------------------------------------------------------------------- C06
def c06(o, r, k):
    if k == 1:
        small.many_fields(o, r)
    for i in range(150 * k):
        b = ["struct N { v: int next: N? o: any s: str f: float }", "struct M { a: N b: N c: int }"]
        ns, ms = [], []
        for j in range(r.randint(2, 4)):
            n = "n%d" % j
            vals = [str(j), r.choice(["cast(null, N?)"] + ns), r.choice(["null", "1", "\"q\""] + ns), '"%d"' % j, "%d.5" % j]
            if r.random() < 0.4:
                xs = [".%s = %s" % (f, v) for f, v in zip(["v", "next", "o", "s", "f"], vals)]
                r.shuffle(xs)
                b.append("%s := new N{%s}" % (n, ", ".join(xs)))
            else:
                b.append("%s := new N{%s}" % (n, ", ".join(vals)))
            ns.append(n)
        for j in range(2):
            b.append("m%d := new M{%s, %s, %d}" % (j, r.choice(ns), r.choice(ns), j))
            ms.append("m%d" % j)
        b.append("func swap(m: M) { t := m.a\nm.a = m.b\nm.b = t }")
        b.append("func setv(n: N, v: int): N { n.v = v\nreturn n }")
        b.append("func fresh(n: N): N { n = new N{77, n, null, \"f\", 0.0}\nreturn n }")

        def ref():
            return r.choice(ns + ["%s.a" % r.choice(ms), "%s.b" % r.choice(ms), "setv(%s, %d)" % (r.choice(ns), r.randint(0, 9))])
        for j in range(r.randint(6, 18)):
            x = r.random()
            if x < 0.15:
                b.append("%s.v %s %d" % (r.choice(ns + ["%s.a" % r.choice(ms)]), r.choice(["=", "+=", "-=", "*="]), r.randint(0, 9)))
            elif x < 0.28:
                b.append("%s.next = %s" % (r.choice(ns), ref()))
            elif x < 0.36:
                b.append("%s.o = %s" % (r.choice(ns), r.choice([ref(), "null", "3", "\"z\""] + ms)))
            elif x < 0.42:
                b.append("%s.%s = %s" % (r.choice(ms), r.choice("ab"), ref()))
            elif x < 0.48:
                b.append("%s.s = strcat(%s.s, \"+\")" % (r.choice(ns), r.choice(ns)))
            elif x < 0.53:
                b.append("%s.f += 1.5" % r.choice(ns))
            elif x < 0.6:
                b.append("swap(%s)" % r.choice(ms))
            elif x < 0.66:
                b.append("%s = %s" % (r.choice(ns), ref()))
            elif x < 0.7:
                b.append("%s = fresh(%s)" % (r.choice(ns), r.choice(ns)))
            elif x < 0.76:
                b.append("emit(%s == %s, %s != %s)" % (ref(), ref(), r.choice(ms), r.choice(ms)))
            elif x < 0.82:
                b.append("if echo(%s.next) != null { emit(cast(echo(%s.next), N).v) }" % ((r.choice(ns),) * 2))
            elif x < 0.86:
                b.append("%s.c %s %d" % (r.choice(ms), r.choice(["=", "+="]), r.randint(0, 99)))
            elif x < 0.92:
                b.append("emit(%s.v, %s.f, %s.s, %s.c)" % (r.choice(ns), r.choice(ns), r.choice(ns), r.choice(ms)))
            else:
                b.append("emit(%s)" % ", ".join(ns + ms))
        b.append("emit(%s)" % ", ".join(ns + ms))
        if r.random() < 0.4:
            hd = [x for x in b if x.startswith(("struct", "func"))]
            b = hd + ["func main_() {"] + [x for x in b if x not in hd] + ["}", "main_()"]
        o.prog("alias", lines(*b), drive(r))
    # structs with many fields; constructors in any order
    for i in range(40 * k):
        n = r.choice([1, 2, 5, 12, 30, 60])
        tys = [r.choice(["int", "str", "float", "bool", "any"]) for _ in range(n)]
        g = gen.Gen(r)
        vals = [g.lit(t) if t != "any" else r.choice(["1", "null", '"a"']) for t in tys]
        xs = [".f%d = %s" % (j, v) for j, v in enumerate(vals)]
        if r.random() < 0.6:
            r.shuffle(xs)
        else:
            xs = vals
        b = ["struct S {"] + ["f%d: %s" % x for x in enumerate(tys)] + ["}", "s := new S{%s}" % ", ".join(xs), "t := new S{%s}" % ", ".join(vals), "emit(s)", "emit(s == t, s == s, s != t)"]
        for _ in range(6):
            j = r.randrange(n)
            v = g.lit(tys[j]) if tys[j] != "any" else "5"
            b.append("%s.f%d = %s" % (r.choice("st"), j, v))
            b.append("emit(s.f%d, t.f%d)" % (r.randrange(n), r.randrange(n)))
        b.append("emit(s)\nemit(t)")
        o.prog("fields", lines(*b))
    o.rand("rand", r, 90 * k, structs=2.5, structops=3, depth=3, stmts=9, anys=1, arrays=0.5, funcs=2)


# ------------------------------------------------------------------------------------------- C07, C08
def gcprog(r, deep=1, use=True, collect=(3, 300)):
    """A program with objects of every kind, reached in every way, which makes garbage"""
    b = ["struct N { v: any n: any s: str }", 'use array("any") as aa', 'use array("N") as an', 'use array("str") as as_',
         "func ring(k: int): N { a := new N{mk(k), null, int_to_str(k)}\nb := new N{mk(a), a, strcat(a.s, \"!\")}\na.n = b\nreturn a }",
         "func tree(d: int): any { if d <= 0 { return mk() }\nreturn mk(tree(d - 1), new N{tree(d - 1), null, int_to_str(d)}) }",
         "func hold(x: N, k: int): N { y := mk(x)\nz := new N{y, x, \"held\"}\njunk(k)\nemit(x, y)\nreturn z }",
         "func id(x: any): any { t := x\njunk(%d)\nreturn t }" % r.randint(*collect),
         "func deep(n: int, x: any): any { l := mk(x, n)\nif n > 0 { x = deep(n - 1, l) } else { junk(%d) }\nemit(l)\nreturn mk(x, l) }" % r.randint(*collect)]
    g = ["g0: any = null", "g1 := aa()", "g2 := dict()", "g3 := new N{null, null, \"g3\"}", "g4 := an()", "g5 := as_()", "g6 := strcat(\"a\", \"b\")"]
    b += g
    n = r.randint(6, 16)
    J = lambda: "junk(%d)" % r.randint(*collect)
    for i in range(n):
        x = r.randrange(26)
        k = r.randint(0, 4)
        b.append([
            lambda: "g0 = mk(g0, %d)" % i,
            lambda: "aa_push(g1, mk(%d))" % i,
            lambda: "aa_push(g1, ring(%d))" % i,
            lambda: "dict_put(g2, \"k%d\", mk(g3))" % k,
            lambda: "dict_put(g2, int_to_str(%d), strcat(\"v\", int_to_str(%d)))" % (k, i),
            lambda: "g3.v = ring(%d)" % i,
            lambda: "g3 = new N{mk(), g3, int_to_str(%d)}" % i,
            lambda: "an_push(g4, new N{mk(%d), null, strcat(\"n\", int_to_str(%d))})" % (i, i),
            lambda: "as__push(g5, strcat(\"s\", int_to_str(%d)))" % i,
            lambda: "g6 = strcat(g6, int_to_str(%d))" % i,
            lambda: "for i := 0; i < %d; i += 1 { ring(i)\ntree(1) }" % r.randint(1, 8),
            lambda: "emit(mk(tree(%d), id(mk(%d))), g3, g6)" % (min(2, k), i),
            lambda: "emit(hold(g3, %d))" % r.randint(*collect),
            lambda: "emit(deep(%d, mk()))" % r.randint(0, 5),
            lambda: "if aa_len(g1) > 0 { aa_pop(g1) }",
            lambda: "dict_remove(g2, \"k%d\")" % k,
            lambda: "g3.v = null",
            lambda: "if aa_len(g1) > 1 { aa_remove(g1, 0) }",
            lambda: "g0 = id(mk(g0, g3))",
            lambda: "emit(g0, strcat(g6, strcat(int_to_str(%d), \"x\")), id(strcat(\"t\", g6)))" % i,
            lambda: "look(g1)\nlook(g4)",
            lambda: "look(g5)\nlook(dict_keys(g2))",
            lambda: "emit(dict_get(g2, \"k%d\"), dict_get(g2, \"%d\"))" % (k, k),
            lambda: "g1 = aa(g1, g2, g3, g4)",
            lambda: "g0 = null",
            lambda: "an_clear(g4)",
        ][x]())
        b.append(J() if r.random() < 0.6 else "emit(g3)")
        if use and r.random() < 0.25:
            b.append("usage()")
    b += ["junk(600)", "emit(g0, g3, g6)", "look(g1)", "look(g4)", "look(g5)", "look(dict_values(g2))"]
    if r.random() < 0.3:
        hd = [x for x in b if x.startswith(("struct", "func", "use"))]
        b = hd + ["func main_() {"] + [x for x in b if x not in hd] + ["}", "main_()", "junk(400)"]
    return lines(*b)


def c07(o, r, k):
    small.gc_paths(o, r, 60 if k == 1 else 400 * k)
    for i in range(150 * k):
        src = gcprog(r)
        c = basic(o.id("gc"), src, r.choice(["run 0", "run 0", "finish 0 1", "finish 0 %d" % r.randint(2, 60)]))
        if r.random() < 0.2:
            c.lines.insert(-3, "call 0 hold_ s41 i5")
        o.put(c, "gc")
    # each root kind alone, across a collection
    roots = ["x := mk()\n%s\nemit(x)", "func f(a: any): any { %s\nreturn a }\nemit(f(mk()))", "func f(): any { a := mk()\nb := mk(a)\n%s\nemit(a)\nreturn b }\nemit(f())",
             "func f(): any { return mk(1) }\nfunc g(): int { %s\nreturn 3 }\nemit(f(), g(), f())", "struct N { a: any b: any }\nfunc g(): int { %s\nreturn 3 }\nemit(new N{mk(), g()})",
             "struct N { a: any b: any }\nn := new N{mk(), null}\nn.b = n\n%s\nemit(n)\nn.a = null\n%s\nemit(n)",
             'use array("any") as aa\na := aa(mk(), mk())\naa_push(a, a)\n%s\nlook(a)\naa_shift(a)\n%s\nlook(a)',
             "d := dict(\"a\", mk(), \"b\", mk())\n%s\nemit(dict_get(d, \"a\"), dict_get(d, \"b\"))\ndict_remove(d, \"a\")\n%s\nemit(dict_get(d, \"b\"))",
             "o := mk(mk(mk()))\n%s\nemit(o, kid(o, 0), kid(cast(kid(o, 0), any), 0))\nkset(o, 0, null)\n%s\nemit(o)",
             "func f(n: int): any { l := mk(n)\nif n > 0 { r := f(n - 1)\nemit(r) } else { %s }\nreturn l }\nemit(f(6))",
             "func cb(x: any): any { %s\nreturn mk(x) }\ny := mk(2)\nemit(call(\"cb\", mk(1)), y, call(\"cb\", y))",
             "s := strcat(\"ab\", \"cd\")\nt := substr(s, 1, 3)\n%s\nemit(s, t, strcat(s, t))",
             "d := dict(strcat(\"k\", \"1\"), strcat(\"v\", \"1\"))\n%s\nemit(dict_get(d, \"k1\"))\nlook(dict_keys(d))",
             "func f(a: any, b: int, c: any): any { return mk(a, c) }\nfunc g(): int { %s\nreturn 1 }\nemit(f(mk(), g(), strcat(\"x\", int_to_str(g()))))",
             "x := mk()\nfor i := 0; i < 5; i += 1 { y := mk(x)\n%s\nx = y }\nemit(x)",
             'use array("str") as sa\na := sa()\nfor i := 0; i < 40; i += 1 { sa_push(a, int_to_str(i)) }\n%s\nlook(a)',
             "struct L { v: any n: L? }\nl := new L{mk(), cast(null, L?)}\nfor i := 0; i < 60; i += 1 { l = new L{mk(i), l} }\n%s\nc := l\nfor k := 0; k < 30; k += 1 { emit(c.v)\nc = cast(echo(c.n), L) }",
             "x := if ob(true) mk(1) else mk(2)\n%s\nemit(x, if ob(false) mk(3) else id(mk(4)))\nfunc id(x: any): any { %s\nreturn x }"]
    for i, s in enumerate(roots):
        for jn in ["junk(2)", "junk(700)", "for i_ := 0; i_ < 300; i_ += 1 { strcat(\"a\", \"b\") }", "for j_ := 0; j_ < 40; j_ += 1 { mk(mk()) }"]:
            n = s.count("%s")
            s2, f = s, 0
            for q in range(n):
                s2 = s2.replace("%s", re.sub(r"\b([ij])_", r"\g<1>%d_" % q, jn), 1)
            o.prog("root", s2 + "\njunk(700)\nemit(0)\n", r.choice(["run 0", "finish 0 3"]))
    o.rand("rand", r, 60 * k, objs=3, structs=2, arrays=2, dicts=1.5, stmts=14, strings=2, anys=1.5, funcs=3)


def c08(o, r, k):
    small.natives(o, r, 8 * k)
    garbage = ["mk(i)", "mk(mk(i), mk())", "a := new N{mk(), null, i}\nb := new N{mk(), a, i}\na.n = b", "aa(mk(), aa(mk()))", "q := aa(mk())\naa_push(q, q)",
               "q := dict(\"k\", mk(i))\ndict_put(q, \"self\", q)", "p := mk(null)\nkset(p, 0, p)", "p := mk(null)\nq := new N{p, null, i}\nkset(p, 0, q)", "strcat(int_to_str(i), \"abcdefgh\")",
               "f(mk(i))", "emit(mk())", "mk(strcat(\"a\", int_to_str(i)))", "ring(mk())", "look(aa(mk()))", "q := dict(i, mk(), int_to_str(i), aa(mk()))", "r := dict_keys(dict(\"a\", mk(), \"b\", 1))",
               "q := aa()\nfor j := 0; j < 3; j += 1 { aa_push(q, i) }", "x = mk(i)", "h = new N{mk(), null, i}", "call(\"f\", mk(i))", "hstr(int_to_str(i))", "substr(\"hello world\", 1, 5)",
               "q := new One{i}", "q := new Two{i, 0.5}", "nil()", "q := new Any1{mk(i)}\nq.v = q", "q := aa()", "q := dict()", "q := strcat(\"\", \"\")", "same(mk(i))", "q := new One{i}\nr := new Any1{q}"]
    hd = ["struct One { v: int } struct Two { v: int w: float } struct Any1 { v: any }", "struct N { o: any n: any i: int }", 'use array("any") as aa', "x: any = null", "h := new N{null, null, 0}", "live := aa()",
          "func f(a: any): any { b := mk(a)\nc := new N{b, a, 1}\nreturn c }", "func ring(a: any): any { x := new N{a, null, 1}\nx.n = x\nreturn mk(x) }"]
    for i in range(110 * k):
        gs = fresh(r.sample(garbage, r.randint(1, 3)), r"\b(\w+) :=")
        n = r.choice([30, 100, 250])
        b = ["for i := 0; i < %d; i += 1 {" % n] + gs
        if r.random() < 0.4:
            b.append("if i < %d { aa_push(live, mk(i)) }" % r.randint(1, 30))
        if r.random() < 0.5:
            b.append("if i % 25 == 0 { usage() }")
        b.append("}")
        b += ["usage()", "look(live)"]
        if r.random() < 0.4:
            b = ["func main_() {"] + b + ["}", "main_()", "usage()"]
        src = lines(*(hd + b))
        c = Case(o.id("garbage")).state().compile(src).add("thread 0 0").add("start 0")
        x = r.random()
        if x < 0.6:
            c.add(r.choice(["run 0", "finish 0 %d" % r.randint(1, 200)]))
        else:
            c.add("step 0 %d" % r.randint(1, 3000))
        if r.random() < 0.3:
            c.add("call 0 f N")
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "garbage")
    # garbage after a peak of live objects; every kind of garbage for a long time
    for i, g in enumerate(garbage):
        n = 1200 if k == 1 else 4000
        if "emit" in g or "look" in g or "call" in g:
            n //= 4
        elif "for" in g:
            n = n * 5 // 12
        o.prog("long", lines(*(hd + ["for i := 0; i < %d; i += 1 {" % n, g, "if i %% %d == 0 { usage() }" % (n // 6), "}", "usage()"])))
    for i in range(6 * k):
        n = r.choice([50, 150, 300])
        o.prog("peak", lines(*(hd + ["for i := 0; i < %d; i += 1 { aa_push(live, mk(i)) }" % n, "usage()", "aa_clear(live)", "for j := 0; j < 600; j += 1 { mk(j) }", "usage()"])), drive(r))
    for i in range(30 * k):
        src = gcprog(r)
        c = Case(o.id("cut")).state().compile(src).add("thread 0 0")
        for j in range(r.randint(0, 3)):
            c.add("start 0").add(r.choice(["step 0 %d" % r.randint(0, 400), "run 0"]))
            if r.random() < 0.5:
                break
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "cut")


# ------------------------------------------------------------------------------------------- C09
def c09(o, r, k):
    kw = dict(stmts=7, depth=2, objs=1.0, funcs=2, fstmts=3, loops=0.8, files=0)
    for i in range(140 * k):
        nt = r.randint(2, 4)
        ns = 1 if r.random() < 0.75 else 2
        c = Case(o.id("inter"))
        fns = []
        for s in range(ns):
            g = gen.Gen(r, **kw)
            src = g.source()
            src += "cnt := 0\nfunc bump(n: int): int { cnt += n\nreturn cnt }\nfunc keep(x: any): any { o := mk(x)\njunk(20)\nreturn o }\nbump(1)\nemit(cnt)\nfor i_ := 0; i_ < 3; i_ += 1 { keep(i_)\nemit(bump(2)) }\n"
            c.state(s).compile(src, s, "s%d.tiny" % s)
        st = {}
        alive = []
        for t in range(nt):
            c.add("thread", t, r.randrange(ns))
            alive.append(t)
            st[t] = 0
        for t in list(alive):
            if r.random() < 0.9:
                c.add("start", t)
                st[t] = 1
        ncall = 0
        for _ in range(r.randint(8, 30)):
            if not alive:
                break
            t = r.choice(alive)
            x = r.random()
            if st[t] == 0:
                if x < 0.5:
                    c.add("start", t)
                    st[t] = 1
                elif ncall < 3:
                    c.add("call", t, "bump", "i%d" % r.randint(1, 9))
                    ncall += 1
            elif st[t] == 2:
                if x < 0.15:
                    c.add("destroy", t)
                    alive.remove(t)
                elif x < 0.4:
                    c.add("call", t, r.choice(["bump", "keep"]), "i%d" % r.randint(1, 9))
                elif x < 0.6:
                    c.add("getg", t, "cnt")
                elif x < 0.75:
                    c.add("setg", t, "cnt", "i%d" % r.randint(100, 200))
                elif x < 0.85:
                    c.add("start", t)
                    st[t] = 1
            elif x < 0.65:
                c.add("step", t, r.choice([1, 1, 2, 3, 5, 8, 13, 30, 60]))
                if r.random() < 0.3:
                    c.add("getg", t, "cnt")
            elif x < 0.75:
                c.add("finish", t, r.randint(1, 30))
                st[t] = 2
            elif x < 0.85:
                c.add("run", t)
                st[t] = 2
            elif x < 0.9:
                c.add("destroy", t)
                alive.remove(t)
        for t in alive:
            if r.random() < 0.7 and st[t] == 1:
                c.add(r.choice(["run", "finish"]), t)
            c.add("destroy", t)
        for s in range(ns):
            c.add("delstate", s)
        o.put(c.add("mem"), "inter")
    # round robin, one step at a time
    for i in range(40 * k):
        g = gen.Gen(r, stmts=3, depth=2, funcs=1, fstmts=2, objs=0.5, loopmax=2)
        src = g.source()
        c = Case(o.id("robin")).state().compile(src + "emit(0)\n")
        nt = r.randint(2, 3)
        for t in range(nt):
            c.add("thread", t, 0).add("start", t)
        for _ in range(r.randint(20, 60)):
            for t in range(nt):
                c.add("step", t, 1)
        for t in range(nt):
            c.add("finish", t, 1).add("destroy", t)
        o.put(c.add("delstate 0").add("mem"), "robin")
    # the same program in one go and in steps of every size
    for i in range(25 * k):
        src = prog(r, stmts=8, objs=0.6)
        c = Case(o.id("same")).state().compile(src)
        for t in range(4):
            c.add("thread", t, 0).add("start", t).add(["run 0", "finish 1 1", "finish 2 %d" % r.randint(2, 9), "run 3"][t])
        for t in range(4):
            c.add("destroy", t)
        o.put(c.add("delstate 0").add("mem"), "same")


# ------------------------------------------------------------------------------------------- C10
def c10(o, r, k):
    small.natives(o, r, 10 * k)
    FN = ["g := 1", "struct N { v: int o: any }", "h := new N{1, null}", 'use array("int") as ai', "arr := ai(1, 2, 3)",
          "func add(a: int, b: int): int { return a + b }",
          "func eff(n: int): int { g += n\nh.v = g\nemit(g)\nreturn g * 2 }",
          "func noret(x: any) { emit(x)\nh.o = x }",
          "func rec(n: int): int { l := n\nif n > 0 { m := rec(n - 1)\nreturn l + m }\nreturn l }",
          "func str1(s: str): str { t := strcat(s, \"!\")\njunk(300)\nreturn t }",
          "func obj(x: any): any { y := mk(x)\njunk(200)\nreturn new N{5, y} }",
          "func nest(n: int): int { x := n * 2\nif n > 0 { y := cast(call(\"nest\", n - 1), int)\nemit(x, y)\nreturn x + y }\nreturn cast(call(\"add\", x, 100), int) }",
          "func loop(n: int): int { t := 0\nfor i := 0; i < n; i += 1 { if i == 3 { continue }\nt += i }\nreturn t }",
          "func early(n: int): int { while true { if n > 2 { return n }\nn += 1 } }",
          "func pushit(n: int): int { ai_push(arr, n)\nreturn ai_len(arr) }"]
    calls = ["add i3 i4", "eff i2", "noret N", "noret s6162", "rec i5", "str1 s616263", "obj N", "obj i7", "nest i2", "loop i6", "early i0", "pushit i9", "eff i-1", "nosuch i1"]
    tiny = ["add(3, g)", "eff(1)", "rec(4)", "loop(5)", "nest(2)", "early(1)", "pushit(8)", "cast(call(\"add\", 1, 2), int)", "cast(call(\"eff\", 3), int)", "cast(call(\"nest\", 1), int)", "strlen(cast(call(\"str1\", \"ab\"), str))"]

    def body(n, infn):
        b = []
        for j in range(n):
            x = r.random()
            e = lambda: r.choice(tiny + ["g", "h.v", str(r.randint(0, 9)), "ai_len(arr)"])
            if x < 0.4:
                b.append("emit(%s, %s + %s, call(\"obj\", %s))" % (e(), e(), e(), e()) if r.random() < 0.3 else "emit(%s %s %s)" % (e(), r.choice("+-"), e()))
            elif x < 0.55:
                b.append("w%d := %s\nemit(w%d)" % (j, e(), j))
            elif x < 0.7:
                b.append("for i%d := 0; i%d < %d; i%d += 1 { emit(i%d, %s) }" % (j, j, r.randint(1, 3), j, j, e()))
            elif x < 0.8:
                b.append("g = %s" % e())
            elif x < 0.9:
                b.append("if %s > 5 { emit(1) } else { emit(2) }" % e())
            else:
                b.append("h.o = call(\"obj\", h.v)\nemit(h)")
        return b
    for i in range(70 * k):      # calls between steps
        x = r.random()
        fb = body(r.randint(1, 2), True)
        src = lines(*(FN + ["func main_(p: int): int { l := p + 1"] + fb + ["emit(l, p)\nreturn l }"] + body(1, False) + ["emit(main_(3))", "emit(g, h)"]))
        c = Case(o.id("step")).state().compile(src).add("thread 0 0")
        if r.random() < 0.25:
            c.add("call 0", r.choice(calls))
        c.add("start 0")
        for _ in range(r.randint(1, 2)):
            c.add("step 0", r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 33, 50]))
            for _ in range(r.choice([1, 1, 2])):
                c.add("call 0", r.choice(calls))
            if r.random() < 0.2:
                c.add("getg 0 g")
        c.add(r.choice(["run 0", "finish 0 1", "finish 0 9"]))
        for _ in range(r.randint(0, 3)):
            c.add("call 0", r.choice(calls))
        if r.random() < 0.3:
            c.add("start 0").add("run 0").add("call 0", r.choice(calls))
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "step")
    for i in range(90 * k):      # calls from foreign functions
        src = lines(*(FN + ["func main_(p: int): int { l := p + 1"] + body(r.randint(2, 6), True) + ["emit(l, p)\nreturn l }"] + body(r.randint(2, 6), False) + ["emit(main_(3))", "emit(g, h)\nlook(arr)"]))
        o.put(basic(o.id("cb"), src, drive(r)), "cb")
    o.rand("rand", r, 80 * k, callback=2.5, funcs=3, fstmts=4, stmts=8, depth=3, objs=0.6, recursion=0.4)
    # before the start, after the end, many times
    for i in range(25 * k):
        c = Case(o.id("idle")).state().compile(lines(*(FN + ["emit(g)"]))).add("thread 0 0")
        for _ in range(r.randint(1, 6)):
            c.add("call 0", r.choice(["add i3 i4", "rec i5", "str1 s6162", "loop i6", "early i0", "nest i1"]))
        c.add("start 0").add(r.choice(["run 0", "finish 0 2"]))
        for _ in range(r.randint(1, 12)):
            c.add("call 0", r.choice(calls))
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "idle")
    # a call of a function with any number of arguments and locals, anywhere in an expression
    for i in range(25 * k):
        na, nl = r.randint(0, 9), r.randint(0, 9)
        f = "func f(%s): int { %s\nreturn %s }" % (", ".join("a%d: int" % j for j in range(na)), "\n".join("l%d := %d" % (j, j + 1) for j in range(nl)),
                                                   " + ".join(["1"] + ["a%d * %d" % (j, j + 2) for j in range(na)] + ["l%d" % j for j in range(nl)]))
        args = ", ".join(str(j) for j in range(na))
        cb = "cast(call(\"f\"%s), int)" % (", " + args if na else "")
        dr = "f(%s)" % args
        src = "%s\nx := 3\nemit(x + %s * 2 - x, %s == %s)\nfunc g(p: int): int { q := p\nr := %s + q\ns := (q - %s) * (p + %s)\nreturn q + r + s + p }\nemit(g(4))\nemit(x)\n" % (f, cb, cb, dr, cb, cb, dr)
        c = basic(o.id("arity"), src, drive(r))
        c.lines.insert(-3, "call 0 f " + " ".join("i%d" % j for j in range(na)))
        o.put(c, "arity")


# ------------------------------------------------------------------------------------------- C05
TYPES = ["int", "bool", "float", "str", "any", "S", "S?", "ai", "I?"]
BADS = [  # statements which are wrong, or nearly
    "x1 := undefined", "undefined = 3", "undefined()", "undefined += 1", "gi = \"a\"", "gs = 3", "gf = 1", "gi = 1.5", "gb = 1", "gi = null", "gs = null", "gS = null", "gq = null", "gq = gS", "gS = gq",
    "ga = gi", "gi = ga", "gi = cast(ga, int)", "gs = cast(gi, str)", "gi := 3", "C = 5", "C := 5", "C :: 6", "gi :: 3", "emit(gS.nofield)", "gS.a = \"x\"", "gS.b = 1", "gS.nofield = 1", "gi.a = 1", "emit(gi.a)",
    "new S{1, \"a\"}", "emit(new S{1})", "emit(new S{1, \"a\", 3})", "emit(new S{\"a\", 1})", "emit(new S{.a = 1, .b = \"x\"})", "emit(new S{.b = \"x\", .a = 1})", "emit(new S{.a = 1})", "emit(new S{.a = 1, .a = 2})", "emit(new S{.a = 1, .b = \"x\", .c = 1})",
    "emit(new S{})", "emit(new E{})", "emit(new Nope{1})", "emit(new int{1})", "emit(new S{.a = 1, \"x\"})", "emit(new S{1, .b = \"x\"})",
    "fi()", "fi(1)", "fi(1, 2)", "fi(\"a\")", "gi = fv(1)", "fv(1)", "emit(fv(1))", "gs = fi(1)", "fi(ga)", "fa(1)", "fa(\"x\")", "fa(null)", "fS(null)", "fS(gS)", "fS(gq)", "fq(gS)", "fq(null)", "fq(gq)", "fi(gi)->fi()", "gi->fi()", "gs->fi()", "gi->fi(2)", "3->fi()",
    "break", "continue", "while true { break }", "while gi { break }", "while gi > 1 { continue }", "if gi { }", "if gs { }", "if gb { }", "if ga { }", "if null { }", "for i := 0; i; i += 1 { }", "for i := 0; i < 1; i += 1 { break }", "for i := 0; i < 1; i += 1 { continue }",
    "return 1", "return", "return;", "gi = if gb 1 else 2", "gi = if gb 1 else \"a\"", "gi = if gi 1 else 2", "ga = if gb gi else gs", "emit(if gb gS else gS)", "emit(if gb null else gS)",
    "emit(gi + gs)", "emit(gi + gf)", "emit(gs + gs)", "emit(gb + gi)", "emit(ga + 1)", "emit(gS + gS)", "emit(gi % gf)", "emit(gf % gf)", "emit(gi & gf)", "emit(gi | gb)", "emit(gi << gf)", "emit(gi << 2)", "emit(gb && gi)", "emit(gb && gb)", "emit(gi && gi)", "emit(gs || gb)",
    "emit(gi < gs)", "emit(gs < gs)", "emit(gi < gf)", "emit(gb < gb)", "emit(ga < 1)", "emit(gi == gs)", "emit(gs == gs)", "emit(gS == gS)", "emit(ga == gi)", "emit(gi == ga)", "emit(null == ga)", "emit(gS == null)", "emit(gq == null)", "emit(gi == null)", "emit(gS == gq)", "emit(gi == gf)",
    "emit(-gi)", "emit(-gf)", "emit(-gs)", "emit(-gb)", "emit(-ga)", "emit(!gb)", "emit(!gi)", "emit(!ga)", "emit(!gs)", "emit(-gS)",
    "gi += 1", "gi += 1.5", "gi += gs", "gf += 1", "gf += 1.5", "gs += gs", "gb += 1", "gb |= gb", "gi |= gi", "gi |= gf", "gf %= 2.0", "gi %= 2", "ga += 1", "gS.a += 1", "gS.b += 1", "gS += gS", "C += 1",
    "emit(gr[0])", "gr[0] = 1", "gr[0] = \"a\"", "gr[\"a\"] = 1", "emit(gr[\"a\"])", "emit(gi[0])", "gi[0] = 1", "emit(gs[0])", "gs[0] = 1", "emit(gd[\"a\"])", "gd[\"a\"] = gS", "gd[0] = 1", "emit(gd[1])", "gr[0] += 1", "gd[\"a\"] += 1", "emit(gS[0])",
    "ai_push(gr, 1)", "ai_push(gr, \"a\")", "ai_push(gi, 1)", "ai_push(gr)", "gr = ai(1, \"a\")", "gr = 3", "emit(ai_len(gr))", "gr = gr", "ar2 := ai()", "use array(\"Nope\") as xx", "use array(\"int\")", "use nope(\"a\") as b", "use array(\"str\") as bs\nq9 := bs(\"a\")\ngs = q9[0]",
    "lb: int = 3", "lb: int = \"a\"", "lb: any = 3", "lb: any = null", "lb: int = null", "lb: S? = null", "lb: S? = gS", "lb: S? = cast(null, S?)", "lb: Nope = 3", "lb: void = 3", "lb: float = 1", "lb: S = gq", "lb := null", "lb := fv(1)", "lb: int", "lb := cast(3, Nope)", "lb := cast(3, any)", "lb := cast(fv(1), any)", "lb := cast(null, S)", "lb := cast(\"a\", int)", "lb: S?? = gS",
    "func fi(x: int): int { return x }", "func g7(a: int, a: int) { }", "func g7(a: Nope) { }", "func g7(): Nope { }", "func g7(): int { return \"a\" }", "func g7(): int { return }", "func g7(): int { return; }", "func g7() { return 1 }", "func g7() { return; }", "func g7(): int { }", "func g7(a: int) { a := 3 }", "func g7(a: int) { { a := 3\nemit(a) } }",
    "func g7() { x9 := 1\nx9 := 2 }", "func g7() { zz := 1\nzz :: 2 }", "func g7(zz: int) { zz :: 2 }", "func g7() { zz :: 2\nemit(zz) }\nemit(zz)", "func g7() { { zz := 1 }\nzz :: 2\nemit(zz) }", "func g7() { zz :: 2\nzz := 1 }", "func g7() { gi :: 2 }", "func g7() { zz :: 2 }\nfunc h7() { zz :: 3 }", "func g7() { x9 := 1\n{ x9 := 2 } }", "func g7() { { x9 := 1 }\n{ x9 := 2 } }", "func g7() { { x9 := 1 }\nemit(x9) }", "func g7(): any { return 3 }", "func g7(): int { return ga }", "func g7(): S? { return gS }", "func g7(): S? { return null }", "func g7(): S { return gq }", "func g7() { func h7() { } }", "func g7() { emit(later9) }\nlater9 := 3", "func g7() { h9() }\nfunc h9() { }",
    "struct S { a: int }", "struct Q { a: int a: int }", "struct Q { a: Nope }", "struct Q { a: Q }", "struct Q { a: Q? }", "struct Q { a: R9 }\nstruct R9 { b: int }", "struct Q { }", "struct int { a: int }", "struct Q { a: void }", "func g7() { struct Q { a: int } }", "q9 := new Q9{1}\nstruct Q9 { a: int }",
    "foreign ff9(int): int\nff9(1)", "emit(count())", "emit(hstr(1))", "emit(hstr(ga))", "emit(strcat(\"a\"))", "emit(strcat(\"a\", \"b\", 3))", "emit(strcat(\"a\", \"b\", \"c\"))", "emit(pick(1))", "emit(pick(\"a\", 2))", "untyped()", "emit(untyped(1, \"a\"))", "gi = untyped(1)", "gi = echo(1)", "strlen(gs)", "strlen()", "strlen(gs, gs)",
    "emit", "gi", "3", "\"a\"", "gi == 3", "-gi", "(gi)", "gi + 1", "new S{1, \"a\"}", "gS.a", "gr[0]", "null", "cast(gi, any)", "if gb 1 else 2", "fi(1) + 1", "fi", "emit(fi)", "emit(S)", "emit(int)", "gi = fi", "int(gf)", "float(gi)", "emit(int(1))", "emit(float(1.5))", "emit(int(gs))", "emit(int(gb))", "gi = int(gf)", "gf = float(gi)", "int := 3", "emit(C)", "gi = C", "gs = C",
    "{ }", "{ x8 := 1 }\nemit(x8)", "x8 := x8", "x8 := x8 + 1", "if gb { x8 := 1 }\nx8 = 2", "for i := 0; i < 1; i += 1 { }\nemit(i)", "for i := 0; i < 1; i += 1 { i := 3 }", "while gb { x8 := 3\nbreak }", ";", "emit(1);", "emit(1); emit(2)", "gS.a.b = 1", "emit(gS.a.b)", "gq.a = 1", "emit(gq.a)", "emit(cast(gq, S).a)", "fS(cast(gq, S))", "emit(gt.n.n.a)", "emit(gt.q.n)", "gt.n.a = 1",
    "use json(\"S\")\nemit(S_to_json(gS))", "use json(\"int\")", "use json(\"Nope\")", "use delegate(\"fi\") as mkd\ndd := mkd()\nemit(delegate_int_int_call(dd, 3))", "use delegate(\"fi\") as mkd\ndd := mkd()\nemit(delegate_int_int_call(dd, \"a\"))", "use delegate(\"nope\") as mkd",
]
HEAD05 = lines("struct S { a: int b: str }", "struct E { }" if False else "struct T { n: S q: S? }", 'use array("int") as ai', "gi := 1", "gs := \"s\"", "gf := 1.5", "gb := true", "ga: any = 3", "gS := new S{1, \"a\"}",
               "gq := cast(null, S?)", "gr := ai(1, 2)", "gd := dict()", "gt := new T{gS, gq}", "C :: 7",
               "func fi(x: int): int { return x }", "func fv(x: int) { }", "func fa(x: any): any { return x }", "func fS(x: S) { }", "func fq(x: S?) { }")


def c05(o, r, k):
    small.registrations(o, r, 50 * k)
    small.stmts(o, r, 600 * k, 300 * k)
    small.token_edits(o, r, 800 * k)
    small.bare_bodies(o, r)
    if k == 1:
        small.arg_counts(o, r)
    # one questionable statement, at the top and in a function
    allb = [(b, f) for b in BADS for f in ("top", "fn")]
    r.shuffle(allb)
    # wrap
    def wrap(b, f):
        if f == "top" or "func" in b or "struct" in b or "use " in b or "foreign" in b or "::" in b:
            return HEAD05 + b + "\n"
        x = r.random()
        if x < 0.6:
            return HEAD05 + "func main_() {\n%s\n}\n" % b
        if x < 0.8:
            return HEAD05 + "func main_() {\nwhile gb {\nif gi > 1 {\n%s\n}\n}\n}\n" % b
        return HEAD05 + "func main_(p: int): int {\n%s\nreturn 1\n}\n" % b
    per = 10
    for i in range(0, len(allb), per):
        c = Case(o.id("stmt"))
        for b, f in allb[i:i + per]:
            c.state(0).compile(wrap(b, f)).add("delstate 0")
        o.put(c.add("mem"), "stmt")
    # the type of every place against the type of every value, each a source of its own on one state
    vals = {"int": "gi", "bool": "gb", "float": "gf", "str": "gs", "any": "ga", "S": "gS", "S?": "gq", "ai": "gr", "null": "null", "void": "fv(1)", "dict": "gd", "T": "gt",
            "T?": "gtq", "int?": "giq", "str?": "gsq", "any?": "gaq", "ai?": "grq", "af": "gaf", "file": "gfi", "i64": "g64", "bool?": "gbq", "float?": "gfq", "dict?": "gdq"}
    HD = HEAD05 + lines('use array("float") as af', "gtq := cast(ga, T?)", "giq := cast(ga, int?)", "gsq := cast(ga, str?)", "gaq := cast(ga, any?)", "grq := cast(ga, ai?)", "gaf := cast(ga, af)", "gfi := cast(ga, file)",
                        "g64 := cast(ga, i64)", "gbq := cast(ga, bool?)", "gfq := cast(ga, float?)", "gdq := cast(ga, dict?)")
    places = ["vv#: %s = {v}", "func tt#(x: %s) { }\ntt#({v})", "func tt#(): %s { return {v} }", "struct ZZ# { f: %s }\nzz# := new ZZ#{{v}}", "struct ZZ# { f: %s }\nzz# := new ZZ#{.f = {v}}", "struct ZZ# { f: %s }\nfunc pp#(z: ZZ#) { z.f = {v} }",
              "func pp#(z: %s) { z = {v} }", "vv# := cast({v}, %s)", 'use array("%s") as zz#\nfunc pp#(z: zz#) { zz#_push(z, {v}) }', 'use array("%s") as zz#\nfunc pp#(z: zz#) { z[0] = {v} }', "func pp#(z: %s) { emit(z == {v}) }", "func pp#(z: %s) { emit({v} != z) }",
              "func pp#(z: %s) { emit(z + {v}) }", "func pp#(z: %s) { emit(z < {v}) }", "func pp#(z: %s) { emit(if gb z else {v}) }", "func pp#(z: %s) { emit(if gb z else if gb {v} else {v}) }", "func pp#(z: %s) { emit(if gb {v} else if gb z else {v}) }", "func pp#(z: %s) { emit(if gb {v} else if gb {v} else z) }", "func pp#(z: %s) { z += {v} }", "func pp#(z: %s) { emit(z && {v}) }", "func pp#(z: %s) { emit(z | {v}) }",
              "func pp#(z: %s) { while z { emit({v}) } }", "func pp#(z: %s) { emit(-z, !{v}) }", "func pp#(z: %s): int { if z { return {v} }\nreturn 1 }", "func pp#(z: %s) { zl := z\nzl = {v} }", "func pp#(z: %s) { for zl := z; zl < {v}; zl += 1 { } }"]
    combos = [(p, t, v) for p in places[:12] for t in list(vals) if t not in ("null",) for v in vals] + [(p, t, v) for p in places[12:] for t in list(vals)[:8] + ["dict", "int?", "S?"] for v in list(vals)[:14]]
    combos = [c for c in combos if not (c[1] == "void" and "use array" in c[0])]
    r.shuffle(combos)
    for i in range(0, len(combos), 100):
        c = Case(o.id("types")).state(0).compile(HD)
        for j, (p, t, v) in enumerate(combos[i:i + 100]):
            e = vals[v] if r.random() < 0.6 else r.choice(["(%s)", "(if gb %s else %s)", "if gb %s else if gb %s else %s", "(if gb %s else (if gb %s else %s))"]).replace("%s", vals[v])
            c.compile((p % t).replace("{v}", e).replace("#", str(j)) + "\n")
        o.put(c.add("delstate 0").add("mem"), "types")
    # random programs with a type error somewhere, or a token changed
    for i in range(70 * k):
        c = Case(o.id("inject"))
        for j in range(4):
            c.state(0)
            g = gen.Gen(r, stmts=5, funcs=2, structs=1, arrays=1, depth=3, delegates=0.3)
            g.inject = r.randint(0, 60)
            src = g.source()
            x = r.random()
            if x < 0.35:
                toks = gen.tokens(g.source() if 0 else src)
                p = r.randrange(len(toks))
                ids = [t for t in toks if re.match(r"[A-Za-z_]\w*$", t)]
                y = r.random()
                if y < 0.5:
                    q = [a for a, t in enumerate(toks) if re.match(r"[A-Za-z_]\w*$", t)]
                    toks[r.choice(q)] = r.choice(ids)
                elif y < 0.75:
                    del toks[p]
                else:
                    toks.insert(p, r.choice(ids + ["1", "\"a\"", "null"]))
                src = " ".join(toks)
            c.compile(src).add("delstate 0")
        o.put(c.add("mem"), "inject")
    # accepted programs run, rejected programs never do
    for i in range(20 * k):
        g = gen.Gen(r, stmts=4, funcs=1)
        g.inject = r.randint(0, 80)
        o.prog("runs", g.source(), "run 0")


# ------------------------------------------------------------------------------------------- C11
FAILS = ["x9 := undefined", "func bad(a: int): int { return \"s\" }", "struct Half { a: int b: Nope }", "emit(1", "x9 := 5\ny9 := 6\nz9 := nope", "C9 :: 3\nfoo bar", "func later(x: int): int { return x }\nlater(\"a\")",
         "use array(\"int\") as fresh9\nfresh9_push(1)", "use array(\"nope\") as fresh9", "\"unterminated", "'", "for i := 0; i < 3; i += 1 { emit(i)", "struct Q9 { a: int }\nq := new Q9{\"a\"}", "func a9() { b9() }\nfunc b9() { c9() }",
         "break", "return \"a\" + 1", "gi := 7", "func f0(x: int): int { return x }\nx := nope", "use json(\"Nope\")", "struct J9 { a: int }\nuse json(\"J9\")\nnope()", "use delegate(\"nope\") as d9", "func dd9(a: int): int { return a }\nuse delegate(\"dd9\") as d9\nnope", "@",
         "x9: Nope = 3", "s9 := \"new string constant\"\nt9 := 12345.5\nnope", "while true { x9 := 1\nnope() }", "gi = \"a\"", "emit(\"side\")\nnope", "if true { y9 := 3 }\nnope", "use host(\"fail\")", "use host(\"reg\", \"HT9\")\nnope", "use host(\"src\", \"func hs9(): int { return 5 }\")\nnope",
         "use host(\"src\", \"func hs9(: int { return 5 }\")", "struct S0 { a: int }", "func f9() { l9 := 1\nm9 := 2\nnope }", "x9 := new S0{1, 2, 3}", "x9 := (((1 + 2)", "}", "func", "struct", "use", "new", "C0 = 4", "x9 := 0x", "x9 := 1.2.3", "func t9() { break }", "foreign f9(int): int\nf9()", "x9 :: y9"]


def c11(o, r, k):
    small.half_defined(o, r, 90 * k)
    USE = ["x9 := 3\nemit(x9)", "func bad(a: int): int { return a }\nemit(bad(4))", "struct Half { a: int }\nh9 := new Half{3}\nemit(h9)", "C9 :: 4\nemit(C9)", "func later(x: int): int { return x + 1 }\nemit(later(2))",
           "use array(\"int\") as fresh9\nfr := fresh9(1, 2)\nfresh9_push(fr, 3)\nlook(fr)", "func a9(): int { return b9() }\nfunc b9(): int { return c9() }\nfunc c9(): int { return 3 }\nemit(a9())", "struct Q9 { a: int }\nq9 := new Q9{3}\nemit(q9)",
           "func dd9(a: int): int { return a }\nuse delegate(\"dd9\") as d9\nemit(delegate_int_int_call(d9(), 3))", "struct J9 { a: int b: str }\nuse json(\"J9\")\nemit(J9_to_json(new J9{1, \"x\"}))", "emit(x9)", "emit(fresh9())", "later(1)", "emit(new Half{1})", "emit(C9)", "emit(y9)", "hs9()", "func hs9(): int { return 6 }\nemit(hs9())",
           "t9: HT9 = 3", "l9 := 4\nm9 := 5\nemit(l9, m9)", "s9 := \"new string constant\"\nemit(s9, 12345.5)", "y9 := 6\nz9 := \"q\"\nemit(y9, z9)", "emit(f0(1), gi)", "emit(new S0{1, \"a\"})", "x9 := \"str\"\nfunc useX(): str { return x9 }\nemit(useX())"]
    for i in range(150 * k):
        base = "gi := 1\nC0 :: 3\nstruct S0 { a: int b: str }\nfunc f0(x: int): int { gi += x\nreturn gi }\nemit(gi)\n"
        rnd = gen.Gen(r, stmts=4, funcs=2, depth=2)
        c = Case(o.id("fail")).state()
        if r.random() < 0.85:
            c.compile(base + (rnd.source() if r.random() < 0.5 else ""), 0, "base.tiny")
        for j in range(r.randint(1, 4)):
            x = r.random()
            if x < 0.5:
                src = r.choice(FAILS)
                if r.random() < 0.4:
                    src = r.choice(USE) + "\n" + src
            elif x < 0.8:
                g = gen.Gen(r, stmts=4, funcs=2, depth=2)
                s = g.source()
                src = s + "\n" + r.choice(FAILS) if r.random() < 0.5 else r.choice(FAILS) + "\n" + s
                if r.random() < 0.3:
                    src = s[:r.randint(0, len(s))]
            else:
                src = r.choice(USE)
            c.compile(src, 0, "p%d.tiny" % j)
            if r.random() < 0.3:
                c.add("gidx 0", r.choice(["x9", "gi", "y9", "z9", "s9"])).add("fidx 0", r.choice(["bad", "later", "f0", "a9", "hs9", "dd9", "fresh9_push"]))
        for j in range(r.randint(1, 3)):
            c.compile(r.choice(USE), 0, "u%d.tiny" % j)
        c.add("thread 0 0").add("start 0").add(drive(r))
        if r.random() < 0.3:
            c.add("call 0 f0 i3").add("getg 0 gi")
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "fail")
    # a random program cut anywhere, then the whole program
    for i in range(60 * k):
        g = gen.Gen(r, stmts=5, funcs=2, depth=2, delegates=0.5)
        s = g.source()
        c = Case(o.id("cut")).state()
        for j in range(r.randint(1, 3)):
            toks = gen.tokens(s)
            cut = " ".join(toks[:r.randrange(len(toks))]) + r.choice(["", " nope", " @", " )", " \"a"])
            c.compile(cut + ("" if r.random() < 0.3 else " nope_%d" % j))
        c.compile(s, 0, "whole.tiny")
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "cut")


# ------------------------------------------------------------------------------------------- C12
def c12(o, r, k):
    small.registrations(o, r, 50 * k)
    if k == 1:
        small.file_sizes(o, r)
    for i in range(150 * k):
        g = gen.Gen(r, stmts=3, funcs=1, depth=2, structs=0.7, arrays=0.6, consts=1.0, shadow=0.4, delegates=0.5, gets=0.3)
        np = r.randint(2, 5)
        c = Case(o.id("pieces")).state()
        for j in range(np):
            c.compile(g.source(), 0, "p%d.tiny" % j)
            if r.random() < 0.35:
                c.add("thread 0 0").add("start 0").add(r.choice(["run 0", "finish 0 3", "step 0 %d" % r.randint(0, 40)]))
                if g.globals and r.random() < 0.4:
                    c.add("getg 0", r.choice(list(g.globals)))
                c.add("destroy 0")
            if r.random() < 0.2 and g.funcs:
                c.add("fidx 0", r.choice(list(g.funcs)))
        c.add("thread 0 0").add("start 0").add(drive(r)).add("destroy 0").add("delstate 0").add("mem")
        o.put(c, "pieces")
    P = ["a := 1\nfunc f(x: int): int { return x + a }\nemit(f(1))\n", "struct S { v: int n: S? }\ns := new S{3, cast(null, S?)}\nemit(s)\n", "C :: 10\nuse array(\"int\") as ai\narr := ai(1, 2, 3)\nlook(arr)\n"]
    Q = ["b := f(a) + 1\nfunc g(x: int): int { t := f(x)\na += t\nreturn a }\nemit(b, g(2))\n", "s.n = new S{C, s}\nemit(s)\nfunc h(q: S): int { return q.v * C }\nemit(h(s))\n", "ai_push(arr, C)\narr[0] = a\nlook(arr)\nfor i := 0; i < 2; i += 1 { emit(i, arr[i]) }\n",
         "struct T { s: S a: ai }\nt := new T{s, arr}\nemit(t.s.v, t.a[0])\nt.a[0] = 5\nlook(arr)\n"]
    R = ["emit(a, b, g(3), f(4))\na = 100\nemit(f(1), g(1))\n", "func f2(x: int): int { a := x * 2\nreturn f(a) + g(a) }\nemit(f2(3), a)\n", "emit(h(new S{2, s}))\nD :: 20\nemit(C, D)\n", "func rec(n: int): int { if n == 0 { return f(n) }\nreturn rec(n - 1) + g(n) }\nemit(rec(3))\n"]
    for i in range(50 * k):
        c = Case(o.id("ext")).state()
        ps = list(P) + r.sample(Q, r.randint(2, 4)) + r.sample(R, r.randint(1, 3))
        if r.random() < 0.3:
            j = r.randrange(len(ps) - 1)
            ps[j] += ps.pop(j + 1)
        for j, p in enumerate(ps):
            c.compile(p, 0, "p%d.tiny" % j)
            if r.random() < 0.3:
                c.add("thread 0 0").add("start 0").add(r.choice(["run 0", "step 0 %d" % r.randint(0, 50)])).add("destroy 0")
        c.add("thread 0 0").add("start 0").add(drive(r))
        c.add("call 0 f i3").add("getg 0 a").add("destroy 0").add("delstate 0").add("mem")
        o.put(c, "ext")
    # many pieces, with many strings, numbers, functions and globals of their own
    for i in range(6 * k):
        n = r.choice([10, 30, 60])
        c = Case(o.id("long")).state()
        for j in range(n):
            c.compile("v%d := %d\nfunc f%d(): str { return \"piece%d\" }\nemit(f%d(), v%d, %d.5, \"lit%d\")\n" % (j, j * 1000, j, j, r.randint(0, j), r.randint(0, j), j, j % 7), 0, "p%d.tiny" % j)
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "long")
    # empty pieces, failing pieces and files
    for i in range(30 * k):
        c = Case(o.id("mixed")).state()
        for j in range(r.randint(2, 5)):
            src = r.choice(["", "\n", "// nothing\n", "x%d := %d\nemit(x%d)\n" % (j, j, j), "x%d := nope\n" % j, "func f%d(): int { return %d }\n" % (j, j), "struct S%d { a: int }\n" % j, "C%d :: %d\n" % (j, j), "emit(%d)\n" % j, "{ emit(%d) }\n" % j, "if true { emit(%d) }\n" % j, "for i%d := 0; i%d < 2; i%d += 1 { emit(i%d) }\n" % (j, j, j, j)])
            if r.random() < 0.3:
                c.add("compilef 0 p%d.tiny" % j, hexs(src)) if src else c.compile(src)
            else:
                c.compile(src, 0, "p%d.tiny" % j)
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "mixed")


# ------------------------------------------------------------------------------------------- C13
def c13(o, r, k):
    small.half_defined(o, r, 30 * k)
    small.token_edits(o, r, 500 * k)
    if k == 1:
        c = Case(o.id("nofile")).state()
        for n in ("none.tiny", ".", "/", "..", "no/such.tiny", "x" * 5000, "a.tiny/b"):
            c.add("nofile", 0, n).compile("emit(%d)\n" % len(n)).add("nofile", 0, n)
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "nofile")
    good = "emit(41 + 1)\n"
    chars = list(range(1, 256))

    def bad():
        x = r.random()
        if x < 0.2:
            return "".join(chr(r.choice(chars)) for _ in range(r.randint(1, 60)))
        if x < 0.4:
            return "".join(chr(r.randint(32, 126)) for _ in range(r.randint(1, 80)))
        s = prog(r, stmts=4, funcs=1, depth=2, delegates=0.3)
        if x < 0.6:
            return s[:r.randint(0, len(s))]
        if x < 0.85:
            b = list(s)
            for _ in range(r.choice([1, 1, 2, 4, 10])):
                p = r.randrange(len(b))
                y = r.random()
                if y < 0.4:
                    b[p] = chr(r.choice(chars))
                elif y < 0.7:
                    del b[p]
                else:
                    b.insert(p, chr(r.choice([34, 39, 40, 41, 123, 125, 91, 93, 46, 58, 61, 92, 10, 48, 120, 128, 255])))
                if not b:
                    b = [" "]
            return "".join(b)
        return r.choice(["", " "]).join(r.choice(SOUP) for _ in range(r.randint(1, 40)))
    for i in range(110 * k):
        c = Case(o.id("bytes")).state()
        for j in range(5):
            c.compile(bad())
            if r.random() < 0.4:
                c.add("delstate 0").state(0)
        c.compile(good, 0, "good.tiny").add("thread 0 0").add("delstate 0") if False else c.compile("func ok_9(): int { return 42 }\n", 0, "good.tiny")
        o.put(c.add("fidx 0 ok_9").add("delstate 0").add("mem"), "bytes")
    tricky = ["\"", "'", "'a", "'\\", "\"\\", "\"a\\", "0x", "0xg", "0x" + "f" * 30, "1" * 30, "1" * 300, "1." + "0" * 300, "1e5", ".5", "1..2", "...", "//", "/", "/*", "#", "@x", "$", "`", "~", "^", "\\", "\x00"[:0], "a" * 300, "a" * 5000, "\"" + "x" * 5000 + "\"", "'\\q'", "\"\\q\"", "''", "'ab'",
              "\n" * 2000, "//" * 2000, "x" * 255 + " := 1", "func " + "f" * 400 + "() { }", "struct " + "S" * 400 + " { a: int }", "use array(\"" + "i" * 600 + "\") as x", "use array(\"int\") as " + "y" * 600, "use host(" + ", ".join("\"a\"" for _ in range(130)) + ")", "use host(\"" + "q" * 3000 + "\")",
              "struct S { a: int }\nuse json(\"S\")\nuse json(\"S\")", "struct S { a: S }\nuse json(\"S\")", "struct S { a: T }\nstruct T { a: S }\nuse json(\"T\")", "struct S {" + "\n".join("field_number_%d: int" % i for i in range(80)) + "}\nuse json(\"S\")", "use json(\"int\")", "use delegate(\"emit\") as d", "use delegate(\"d\") as d", "func f(x: int) { }\nuse delegate(\"f\") as f", "use array(\"int\") as strcat", "use array(\"int\") as int", "use array(\"void\") as v",
              "func f(" + ", ".join("a%d: int" % i for i in range(300)) + ") { }", "emit(" + ", ".join("1" for _ in range(300)) + ")", "func f() {\n" + "\n".join("x%d := %d" % (i, i) for i in range(300)) + "\n}", "struct B {" + "\n".join("f%d: int" % i for i in range(300)) + "}\nx := new B{" + ", ".join("1" for _ in range(300)) + "}",
              "\n".join("s%d := \"str%d\"" % (i, i) for i in range(1100)), "\n".join("f%d := %d.25" % (i, i) for i in range(1100)), "x := " + " + ".join("1" for _ in range(3000)), "x := " + " && ".join("true" for _ in range(3000)), "\n".join("func f%d() { }" % i for i in range(400)), "\n".join("struct S%d { a: int }" % i for i in range(300)), "\n".join("C%d :: %d" % (i, i) for i in range(400)),
              "x := " + "if true 1 else " * 300 + "2", "a := 1\n" * 2, "func f(): int { return f() }", "emit(" * 20 + "1" + ")" * 20, "x := cast(1, int", "x := new", "x.y", "x->", "x->f", "x[", "x[]", "->", "f(,)", "f(1,)", "new S{,}", "new S{.}", "new S{.a}", "new S{.a=}", "if", "if x", "if true else", "while", "for", "for ;;", "for i", "for i := 0", "func f", "func f(", "func f(a", "func f(a:", "func f(a: int", "func f(a: int,", "func f():", "struct S", "struct S {", "struct S { a", "struct S { a:", "use", "use x", "use x(", "use x(\"", "use x(\"a\"", "use x(\"a\",", "use x(1)", "use x(\"a\") as", "use x(\"a\") as 3", "foreign", "foreign f", "foreign f(", "foreign f(int)", "foreign f(int):", "cast", "cast(", "cast(1", "cast(1,", "return", "break", "continue", "x :", "x ::", "x :=", "x : int", "x : int =", "x =", "x +=", "=", "==", "1 = 2", "f() = 2", "f() := 2", "1 := 2", "\"a\" := 2", "x.y := 2", "x[0] := 3", "(x) = 3", "-x = 3", "null = 1", "true := 1", "if := 3", "int = 3"]
    # structs which only a signature, a macro or a type mentions
    und = ["x := mkq()\nemit(x.a)", "emit(mkq().a)", "x := new Qq{1}", "x := new Qq{}", "x := new Qq{.a = 1}", "x: Qq = mkq()", "func f(q: Qq): int { return q.a }", "func f(q: Qq) { q.a = 1 }", "tkq(mkq())", "mkq().a += 1", "x := mkq()\nx.b.c = 2", "new Qq{1}", "mkq()->tkq()", "use json(\"Qq\")", "use array(\"Qq\") as aq\nx := aq()\nx[0].a = 3", "emit(cast(null, Qq).a)", "struct R { q: Qq }\nx := new R{new Qq{}}", "struct R { q: Qq }\nemit(new R{mkq()}.q.a)", "func g(): Qq { return new Qq{2} }", "x := mkq()\nstruct Qq { a: int }\nemit(x.a)", "emit(mkq() == mkq())", "foreach x in mkq() { }", "mkq()[0]", "mkq() + 1"]
    for s in und:
        c = Case(o.id("undef")).state().add("bind 0 count", hexs("mkq(): Qq")).add("bind 0 emit", hexs("tkq(Qq): void")).compile(s + "\n").compile("func ok_9(): int { return 42 }\n", 0, "good.tiny")
        o.put(c.add("fidx 0 ok_9").add("delstate 0").add("mem"), "undef")
    r.shuffle(tricky)
    for i in range(0, len(tricky), 6):
        c = Case(o.id("tricky"))
        for t in tricky[i:i + 6]:
            c.state(0)
            if t.count("+") > 500 or t.count("&&") > 500 or t.count("\"str") > 1000:       # deeper than the nesting the parser promises to take
                c.add("xcompile", 0, "deep.tiny", hexs(t))
            else:
                c.compile(t)
            c.compile("func ok_9(): int { return 42 }\n", 0, "good.tiny").add("fidx 0 ok_9").add("delstate 0")
        o.put(c.add("mem"), "tricky")
    nest = {"par": ("(", "1", ")"), "plus": ("(1 + ", "1", ")"), "min": ("-", "1", ""), "not": ("!", "true", ""), "cast": ("cast(", "1", ", int)"), "call": ("oi(", "1", ")"), "tern": ("if true (", "1", ") else 2"), "right": ("1 + (", "1", ")"),
            "blk": ("{", "", "}"), "ifs": ("if true {", "", "}"), "els": ("if false { } else ", "{ }", ""), "whl": ("while false {", "", "}"), "forr": ("for i := 0; i < 1; i += 1 {", "", "}"), "fn": ("func f() {", "", "}"), "dots": ("", "x", ".a"), "idx": ("", "x", "[0]"), "arrow": ("", "x", "->f()"), "new": ("new S{", "1", "}"), "bang": ("! (", "true", ")"),
            "cmt": ("//c\n", "1", ""), "cmt2": ("// \n\n", "1", ""), "nl": ("\n \t", "1", "\n")}
    for nm, (a, m, z) in nest.items():
        for d in ([30, 300, 3000, 60000] if k == 1 else [100, 900, 1100, 20000, 120000]) + [500000] * (nm[:3] == "cmt"):
            s = a * d + m + z * d
            if len(s) > 400000 and d < 500000:
                continue
            stmt = nm in ("blk", "ifs", "els", "whl", "forr", "fn")
            src = s if stmt else "q := " + s
            c = Case(o.id("nest" + nm)).state().add("xcompile" if len(src) > 4000 or d > 400 else "compile", 0, "n.tiny", hexs(src + "\n"))
            c.compile("func ok_9(): int { return 42 }\n", 0, "good.tiny").add("fidx 0 ok_9").add("delstate 0").add("mem")
            o.put(c, "nest")


# ------------------------------------------------------------------------------------------- C14
def c14(o, r, k):
    for i in range(150 * k):
        ns = r.randint(1, 3)
        c = Case(o.id("mem"))
        for s in range(ns):
            x = r.random()
            if x < 0.6:
                c.state(s)
            else:
                libs = [l for l in "array dict io i64 std".split() if r.random() < 0.7]
                c.bare(s, " ".join(libs), [("emit", "emit(...): void"), ("mk", "mk(...): any"), ("echo", "echo(any): any")][:r.randint(0, 3)])
                if r.random() < 0.3:
                    c.add("type", s, "Opq").add("const", s, "HC", r.choice(["i5", "b1", "f2.5", "s6869"]))
            c.compile(r.choice([lambda: gcprog(r), lambda: prog(r, delegates=1, structs=2, dicts=1, objs=1), lambda: prog(r, stmts=4), lambda: "", lambda: "emit(1)\n"])(), s)
            if r.random() < 0.5:
                y = r.random()
                bad = prog(r, stmts=4, funcs=2)
                toks = gen.tokens(bad)
                c.compile(r.choice(FAILS) if y < 0.4 else " ".join(toks[:r.randrange(len(toks))]) if y < 0.7 else bad + "\n" + r.choice(FAILS), s, "bad.tiny")
            if r.random() < 0.2:
                c.compile("use host(\"src\", \"func hx(): int { return 1 }\")\nuse host(\"reg\", \"HT\")\n", s, "mac.tiny")
        alive = []
        for t in range(r.randint(0, 3)):
            c.add("thread", t, r.randrange(ns))
            alive.append(t)
            if r.random() < 0.85:
                c.add("start", t)
                x = r.random()
                if x < 0.5:
                    c.add("step", t, r.randint(0, 500))
                elif x < 0.8:
                    c.add("run", t)
                if r.random() < 0.2:
                    c.add("start", t)
                    c.add("step", t, r.randint(0, 100))
        r.shuffle(alive)
        for t in alive:
            c.add("destroy", t)
        ss = list(range(ns))
        r.shuffle(ss)
        for s in ss:
            c.add("delstate", s)
        c.lines = [l.replace("compile ", "compilef ", 1) if l.startswith("compile ") and l.split()[3:] and r.random() < 0.3 else l for l in c.lines]
        o.put(c.add("mem"), "mem")
    # the default context
    for i in range(60 * k):
        ns = r.randint(1, 2)
        c = Case(o.id("def"))
        for s in range(ns):
            c.add("dstate", s) if s == 0 or r.random() < 0.5 else c.state(s)
            c.compile(r.choice([lambda: gcprog(r), lambda: prog(r, delegates=1, structs=2, dicts=1, objs=1), lambda: ""])(), s)
            if r.random() < 0.3:
                c.compile(r.choice(FAILS), s, "bad.tiny")
        alive = []
        for t in range(r.randint(0, 3)):
            c.add(r.choice(["dthread", "dthread", "thread"]), t, r.randrange(ns))
            alive.append(t)
            if r.random() < 0.85:
                c.add("start", t).add(*r.choice([("step", t, r.randint(0, 500)), ("run", t)]))
        r.shuffle(alive)
        for t in alive:
            c.add("destroy", t)
        for s in range(ns):
            c.add("delstate", s)
        o.put(c.add("mem"), "def")
    # states with nothing, deleted at once and created again
    for libs in ["", "array", "dict", "io", "i64", "std", "array dict io i64 std"]:
        c = Case(o.id("empty"))
        for j in range(3):
            c.bare(0, libs).add("delstate 0")
        c.bare(0, libs).compile("x := 1\n").compile("x := nope").add("thread 0 0").add("destroy 0").add("thread 0 0").add("start 0").add("destroy 0").add("delstate 0")
        o.put(c.add("mem"), "empty")
    for f in FAILS:
        c = Case(o.id("fails"))
        for pre in ["", "struct P9 { a: int b: str }\nfunc z9(a: int, b: str): str { l := a\nreturn b }\nK9 :: \"const\"\nv9 := z9(1, \"x\")\nuse array(\"P9\") as ap9\nfor i := 0; i < 3; i += 1 { if i == 2 { break } }\n"]:
            c.state(0).compile(pre + f + "\n").compile(pre).compile(f).add("delstate 0")
        o.put(c.add("mem"), "fails")


# ------------------------------------------------------------------------------------------- C15
def c15(o, r, k):
    small.array_seqs(o, r, 200 * k)
    ET = {"int": lambda: str(r.randint(-9, 99)), "str": lambda: r.choice(['"a"', '"bb"', 'int_to_str(%d)' % r.randint(0, 9), 'strcat("x", "y")']), "float": lambda: r.choice(["0.5", "1.5", "-2.0"]), "bool": lambda: r.choice(["true", "false"]),
          "any": lambda: r.choice(["mk()", "1", '"s"', "null", "mk(1)"]), "P": lambda: r.choice(["new P{%d}" % r.randint(0, 9), "p0", "p1"])}
    for i in range(190 * k):
        t = r.choice(list(ET))
        v = ET[t]
        b = ["struct P { a: int }", "p0 := new P{1}", "p1 := new P{2}", 'use array("%s") as A' % t]
        n = {}
        big = r.random() < 0.25
        for x in "xyz":
            m = r.choice([0, 0, 1, 2, 3, 5, 8] + ([20, 40] if big else []))
            b.append("%s := A(%s)" % (x, ", ".join(v() for _ in range(m))))
            n[x] = m
        alias = {"x": "x", "y": "y", "z": "z"}
        for j in range(r.randint(8, 40)):
            x = r.choice("xyz")
            root = alias[x]
            m = n[root]
            q = r.random()
            ix = lambda: r.choice([0, m - 1, r.randrange(m), r.randrange(m)])
            if q < 0.25:
                if big:
                    c = r.choice([3, 17, 40])
                    b.append("for i := 0; i < %d; i += 1 { A_push(%s, %s) }" % (c, x, v()))
                    n[root] += c
                else:
                    b.append("A_push(%s, %s)" % (x, v()))
                    n[root] += 1
            elif q < 0.33 and m:
                b.append("emit(A_pop(%s))" % x)
                n[root] -= 1
            elif q < 0.41 and m:
                b.append("emit(A_shift(%s))" % x)
                n[root] -= 1
            elif q < 0.51 and m:
                b.append("A_insert(%s, %d, %s)" % (x, ix(), v()))
                n[root] += 1
            elif q < 0.59 and m:
                b.append("A_remove(%s, %d)" % (x, ix()))
                n[root] -= 1
            elif q < 0.66 and m:
                b.append(r.choice(["emit(A_get(%s, %d))", "emit(%s[%d])"]) % (x, ix()))
            elif q < 0.74 and m:
                b.append(r.choice(["A_set(%s, %d, %s)", "%s[%d] = %s"]) % (x, ix(), v()))
                if t == "int" and r.random() < 0.3:
                    b.append("%s[%d] %s= %d" % (x, ix(), r.choice("+-*"), r.randint(1, 3)))
            elif q < 0.77:
                b.append("A_clear(%s)" % x)
                n[root] = 0
            elif q < 0.83:
                c = r.choice([0, 1, m, max(0, m - 1), m + 1, 2 * m, r.randint(0, 12), 33 if big else 4])
                if r.random() < 0.25:
                    b.append("A_resize(%s, %d)" % (x, c))
                    if c > m:      # nothing can be done with nulls, other than looking
                        b.append("look(%s)" % x)
                        b.append("A_resize(%s, %d)" % (x, m))
                        c = m
                else:
                    b.append("A_resize_fill(%s, %d, %s)" % (x, c, v()))
                n[root] = c
            elif q < 0.88 and t == "int":
                b.append("A_sort(%s)" % x)
            elif q < 0.91:
                y = r.choice("xyz")
                b.append("%s = %s" % (x, y))
                alias[x] = alias[y]
            elif q < 0.94:
                b.append("emit(A_len(%s), %s == %s)" % (x, x, r.choice("xyz")))
            else:
                b.append("look(%s)" % x)
            if r.random() < 0.12:
                b.append("look(%s)" % r.choice("xyz"))
            if r.random() < 0.05:
                b.append("junk(300)")
        b += ["look(x)", "look(y)", "look(z)"]
        # aliases only lead to reassignments: rebuild with names of the roots kept alive
        if r.random() < 0.3:
            hd = b[:4]
            b = hd + ["func main_() {"] + b[4:] + ["}", "main_()"]
        b = fresh(b)
        o.prog("ops", lines(*b), drive(r))
    # every length across growth; sorting
    for n in ([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100]):
        src = ["use array(\"int\") as A", "a := A()", "for i := 0; i < %d; i += 1 { A_push(a, i * 7 %% 11) }" % n, "look(a)", "b := A()", "for j := 0; j < %d; j += 1 { A_push(b, 0)\nA_insert(b, 0, j) }" % n, "look(b)", "A_sort(a)", "look(a)"]
        src += ["while A_len(b) > %d { emit(A_shift(b), A_pop(b)) }" % 1, "look(b)"]
        if n:
            src += ["A_remove(a, %d)" % (n // 2), "A_resize_fill(a, %d, -5)" % (n + 3), "look(a)", "A_resize_fill(a, %d, 6)" % (n // 2), "look(a)"]
        o.prog("len", lines(*src))
    for i in range(20 * k):
        n = r.randint(0, 60)
        wide = lambda: "%d * %s" % (r.randint(-9, 9), r.choice(["65536 * 65536", "2147483647", "65536 * 65536 * 1000"])) + r.choice(["", " + %d" % r.randint(-3, 3)])
        xs = [r.choice([r.randint(-5, 5), r.randint(-2147483647, 2147483647), 0] + [wide()] * (i % 2)) for _ in range(n)]
        src = ["use array(\"int\") as A", "a := A(%s)" % ", ".join(map(str, xs[:20]))] + ["A_push(a, %s)" % x for x in xs[20:]] + ["A_sort(a)", "look(a)", "A_push(a, 3)", "A_sort(a)", "look(a)"]
        o.prog("sort", lines(*src))
    # arrays longer than what a byte or a page can count
    for i in range(8 * k):
        n = r.choice([120, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 400, 511, 513, 700])
        src = ["use array(\"int\") as A", "a := A()", "for i := 0; i < %d; i += 1 { A_push(a, i) }" % n]
        ix = lambda: r.choice([0, 1, 2, n // 2, n - 1, n - 2, r.randrange(n)])
        for j in range(r.choice([1, 2, 5])):
            x = ix()
            q = r.randrange(7)
            src.append(["A_remove(a, %d)" % x, "A_insert(a, %d, -7)" % x, "emit(A_shift(a))", "emit(A_pop(a))", "A_resize_fill(a, %d, -1)" % r.choice([x + 1, n + x]), "a[%d] = -3" % x, "emit(a[%d], A_get(a, %d))" % (x, ix())][q])
            n += [-1, 1, -1, -1, 0, 0, 0][q]
            if q == 4:
                n = int(src[-1].split(",")[1])
        src += ["emit(A_len(a))", "look(a)"]
        if r.random() < 0.3:
            src += ["A_sort(a)", "look(a)"]
        o.prog("large", lines(*src))
    # arrays of arrays and of themselves
    for i in range(20 * k):
        src = ["use array(\"int\") as ai", "use array(\"ai\") as aa", "use array(\"any\") as an", "x := ai(1, 2)", "y := aa(x, ai(3), x)", "z := an(x, y)", "an_push(z, z)"]
        for j in range(10):
            src.append(r.choice(["ai_push(x, %d)" % j, "ai_push(y[0], %d)" % j, "ai_push(aa_get(y, 1), %d)" % j, "emit(y[0] == y[2], y[0] == y[1], y[0][0])", "aa_insert(y, 0, ai(%d))" % j, "aa_push(y, x)", "an_push(z, y)", "look(z)", "look(y)", "look(x)", "y[0] = x", "y[0][0] = %d" % j, "emit(an_len(z), aa_len(y), ai_len(x))", "emit(cast(z[0], ai)[0])", "aa_remove(y, 0)\naa_push(y, ai(%d))\naa_insert(y, 0, x)" % j]))
        o.prog("nested", lines(*(src + ["look(x)", "look(y)", "look(z)"])))


# ------------------------------------------------------------------------------------------- C16
def c16(o, r, k):
    small.natives(o, r, 10 * k)
    small.dict_seqs(o, r, 600 * k, 5)
    small.dict_seqs(o, r, 100 * k, 9)
    for i in range(150 * k):
        ty = r.choice(["dict", "dict", "dict_str_int"])
        if ty == "dict":
            ks = ['"a"', '"b"', '"key"', '""', '"0"', "0", "1", "-1", "true", "false", "32", "64", "2147483647", "p0", "p1", "light(5)", "light(6)", "strcat(\"k\", \"ey\")", "h0", "\"q%d\"", "%d", "int_to_str(%d)", "(65536 * 65536 + 1)", "(65536 * 65536 + %d)", "-%d", "(0 - 65536 * 65536 + %d)"]
            vs = ["1", '"v"', "mk()", "null", "p0", "light(5)", "2.5", "dict()" if i % 8 == 0 else "d0", "true"]
        else:
            ks = ['"a"', '"b"', '"key"', '""', '"0"', "int_to_str(%d)", "\"q%d\"", 'strcat("k", "ey")']
            vs = ["1", "2", "-7", "99", "0"]
        sp = r.choice([3, 10, 60])
        K = lambda: (lambda s: s % r.randint(0, sp) if "%d" in s else s)(r.choice(ks))
        V = lambda: r.choice(vs)
        b = ["struct P { a: int }", "p0 := new P{1}", "p1 := new P{1}", "h0 := mk()\nd0 := dict()"]
        for x in "xy":
            b.append("%s := %s(%s)" % (x, ty, ", ".join("%s, %s" % (K(), V()) for _ in range(r.choice([0, 0, 1, 3, 6])))))
        for j in range(r.randint(8, 40)):
            x = r.choice("xxy")
            q = r.random()
            if q < 0.38:
                b.append("%s_put(%s, %s, %s)" % (ty, x, K(), V()))
            elif q < 0.44 and ty == "dict":
                b.append("%s[\"q%d\"] = %s" % (x, r.randint(0, sp), V()))
            elif q < 0.6:
                b.append("%s_remove(%s, %s)" % (ty, x, K()))
            elif q < 0.7:
                b.append("emit(%s_exists(%s, %s))" % (ty, x, K()))
            elif q < 0.85:
                b.append("emit(%s_get(%s, %s))" % (ty, x, K()) if ty == "dict" else "(lambda)") if ty == "dict" else b.append((lambda kk: "if %s_exists(%s, %s) { emit(%s_get(%s, %s)) }" % (ty, x, kk, ty, x, kk))(K()))
            elif q < 0.88 and ty == "dict":
                b.append("emit(%s[\"q%d\"])" % (x, r.randint(0, sp)))
            elif q < 0.91:
                b.append("look(%s_keys(%s))" % (ty, x))
            elif q < 0.93 and ty == "dict":
                b.append("look(dict_values(%s))" % x)
            elif q < 0.95:
                b.append("%s_clear(%s)" % (ty, x))
            elif q < 0.98:
                b.append("for i := %d; i < %d; i += 1 { %s_put(%s, int_to_str(i), %s) }" % (r.randint(0, 9), r.choice([12, 25, 45, 70]), ty, x, "i" if r.random() < 0.7 else V()))
            else:
                b.append("for i := 0; i < %d; i += 1 { %s_remove(%s, int_to_str(i)) }" % (r.choice([5, 20, 40]), ty, x))
        b += ["look(%s_keys(x))" % ty, "look(%s_keys(y))" % ty]
        if ty == "dict":
            b += ["look(dict_values(x))", "look(dict_values(y))"]
        if r.random() < 0.3:
            b = b[:4] + ["func main_() {"] + b[4:] + ["}", "main_()"]
        o.prog("ops", lines(*fresh(b)), drive(r))
    # growth with removals, with keys of every kind
    for i in range(25 * k):
        n = r.choice([10, 20, 30, 33, 40, 64, 70, 100])
        mk = r.choice(["int_to_str(i)", "i", "strcat(\"key\", int_to_str(i))", "i * 32", "i * 64 + 1", "strcat(int_to_str(i % 10), int_to_str(i))"])
        m2 = mk.replace("(i", "(j").replace("i *", "j *") if mk != "i" else "j"
        m2 = re.sub(r"\bi\b", "j", mk)
        src = ["d := dict()", "for i := 0; i < %d; i += 1 { dict_put(d, %s, i)" % (n, mk), "if i %% 3 == 2 { dict_remove(d, %s) }\n}" % re.sub(r"\bi\b", "(i - 1)", mk),
               "for i := 0; i < %d; i += 1 { emit(dict_exists(d, %s), dict_get(d, %s)) }" % (n, mk, mk),
               "for i := 0; i < %d; i += 2 { dict_remove(d, %s) }" % (n, mk), "look(dict_keys(d))",
               "for i := 0; i < %d; i += 1 { dict_put(d, %s, i + 1000) }" % (n // 2, mk), "look(dict_keys(d))", "look(dict_values(d))", "dict_clear(d)", "emit(dict_get(d, %s))" % re.sub(r"\bi\b", "1", mk), "dict_put(d, 1, 2)", "look(dict_keys(d))"]
        src[1:3] = ["\n".join(src[1:3])]
        o.prog("grow", lines(*fresh(src)), drive(r))
    # put and remove again and again: probing must end, tombstones must not fill the table
    for i in range(6 * k):
        src = ["d := dict()", "for i := 0; i < %d; i += 1 { dict_put(d, %s, i)\ndict_put(d, \"stay\", i)\ndict_remove(d, %s) }" % ((r.choice([100, 300]),) + (r.choice(["i", "int_to_str(i)"]),) * 2), "emit(dict_get(d, \"stay\"), dict_exists(d, \"nope\"), dict_get(d, 5))",
               "for i := 0; i < 200; i += 1 { dict_put(d, \"t\", i)\ndict_remove(d, \"t\") }", "emit(dict_exists(d, \"t\"), dict_get(d, \"stay\"))"]
        o.prog("churn", lines(*fresh(src)))
    # keys which want the same places in the table, removed in every order
    def djb(t):
        h = 5381
        for ch in t:
            h = (h * 33 + ord(ch)) % 2 ** 64
        return h
    names = [a + b for a in "abcdefghijkmnpqrstuvwxyz" for b in ["", "1", "x", "q"]]
    for i in range(60 * k):
        base = r.choice([0, 1, 5, 30, 31, 29, 15, 62])
        span = r.choice([1, 2, 3, 5])
        near = lambda h, m: (h - base) % m < span
        pool = [str(v) for v in range(0, 260) if near(v, 32)] + [str(v) for v in (1 << 30, (1 << 30) + 1, (1 << 20) + 31, (1 << 12) + 30) if near(v, 32)]
        pool += ['"%s"' % t for t in names if near(djb(t), 32)]
        pool += ["(65536 * 65536 + %d)" % v for v in range(64) if near(v, 32)] + ["(%d - 65536 * 65536)" % v for v in range(64) if near(v, 32)] + [str(-v) for v in range(1, 80) if near(-v % 2 ** 64, 32)]
        if near(1, 32):
            pool.append("false")
        if near(2, 32):
            pool.append("true")
        pool = r.sample(pool, min(len(pool), r.choice([3, 5, 8, 12])))
        m = r.choice([r.randint(2, len(pool)), len(pool)])
        b = ["d := dict(%s)" % ", ".join("%s, %d" % (x, n) for n, x in enumerate(pool[:m]))]
        for j in range(r.choice([2, 4, 8, 16])):
            x = r.choice(pool)
            if r.random() < 0.55:
                b.append("dict_remove(d, %s)" % x)
            else:
                b.append("dict_put(d, %s, %d)" % (x, 100 + j))
            if r.random() < 0.4:
                y = r.choice(pool)
                b.append("emit(dict_exists(d, %s), dict_get(d, %s))" % (y, r.choice(pool)))
        b.append("emit(%s)" % ", ".join("dict_get(d, %s)" % x for x in pool))
        b.append("emit(%s)" % ", ".join("dict_exists(d, %s)" % x for x in pool))
        if r.random() < 0.3:
            b += ["for i := 1000; i < 1024; i += 1 { dict_put(d, i, i) }", "dict_remove(d, %s)" % r.choice(pool), "emit(%s)" % ", ".join("dict_get(d, %s)" % x for x in pool)]
        b.append("look(dict_keys(d))")
        o.prog("collide", lines(*b))
    o.rand("rand", r, 30 * k, dicts=3, stmts=10, strings=1.5)


# ------------------------------------------------------------------------------------------- C17
def c17(o, r, k):
    if k == 1:
        small.many_strings(o, r)
        small.huge_strings(o, r)
        small.strings(o, r)
    small.literals(o, r, 500 * k)
    S = ['"abc"', '"ab"', '"b"', '""', '"hello world"', '"a\\nb"', "strcat(\"ab\", \"c\")", "substr(\"xabcx\", 1, 4)", "int_to_str(12)", '"12"', "ntos(12)", "hstr(\"abc\")", "cs()", '"host"', "bytes(97, 98, 99)", "bytes()", "bytes(97, 0, 98)", "bytes(97, 0, 99)", "bytes(0)", "bytes(255, 200)",
         "substr(\"abc\", 0, 3)", "substr(\"abc\", 0, -1)", "strcat(\"\", \"abc\")", "strcat(\"abc\", \"\")", "strcat(\"a\", \"b\", \"c\")", "cast(echo(\"abc\"), str)", "strcat(bytes(97, 0), bytes(98))", "i64_to_string(int_to_i64(12))", "fld.s", "arr[0]", "cast(dict_get(dd, \"k\"), str)", "gs", "fun(\"c\")", "KC", "hstr(bytes(97, 0, 98))", "substr(bytes(97, 0, 98, 99), 0, 3)", "strcat(substr(bytes(0, 97), 1, 2), \"bc\")"]
    HD = lines("struct F { s: str }", "fld := new F{strcat(\"ab\", \"c\")}", 'use array("str") as as_', "arr := as_(strcat(\"ab\", \"c\"), \"q\")", "dd := dict(\"k\", strcat(\"a\", \"bc\"))", "gs := substr(\"abcabc\", 3, 6)", "func fun(x: str): str { return strcat(\"ab\", x) }", "KC :: \"abc\"")
    pairs = [(a, b) for a in S for b in S]
    r.shuffle(pairs)
    for i in range(0, min(len(pairs), 700 * k), 25):
        b = ["emit(%s %s %s)" % (x, r.choice(["==", "!=", "=="]), y) for x, y in pairs[i:i + 25]]
        o.prog("eq", HD + lines(*b))
    for i in range(60 * k):
        b = []
        for j in range(10):
            s = r.choice(S)
            b.append(r.choice([lambda: "t%d := %s\nemit(t%d, strlen(t%d))\nfor i%d := 0; i%d < strlen(t%d); i%d += 1 { emit(stridx(t%d, i%d), sget(t%d, i%d), t%d[i%d]) }" % ((j, s) + (j,) * 12),
                               lambda: "emit(strchr(%s, %d), strchr(%s, '%s'))" % (s, r.choice([0, 97, 98, 99, 255, 10, 32, 120]), s, r.choice("abcx")),
                               lambda: "u%d := strcat(%s, \"0123456789\")\nemit(substr(u%d, %d, %d), substr(u%d, %d, -1))" % (j, s, j, r.randint(0, 4), r.randint(4, 10), j, r.randint(0, 9)),
                               lambda: "emit(strcat(%s))" % ", ".join(r.choice(S) for _ in range(r.randint(2, 6))),
                               lambda: "a%d := %s\nb%d := a%d\na%d = strcat(a%d, \"!\")\nemit(a%d, b%d, a%d == b%d)" % ((j, s) + (j,) * 8),
                               lambda: "emit(str_to_int(%s), stoi(%s, 10))" % (s, s)])())
        o.prog("ops", HD + lines(*b), drive(r))
    # literals which are equal up to somewhere, or from somewhere on, in one program and in several
    for i in range(30 * k):
        n = r.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 600])
        base = "".join(r.choice("abcdef01") for _ in range(n))
        ls = {base, base + "x", base + "y", base + "xy", "x" + base, base[:-1], base[1:], base[:-1] + "#", "#" + base[1:], base[:n // 2] + "#" + base[n // 2 + 1:], base.upper(), base + base, base + " ", " " + base, base + "\\n", base[:n // 2]}
        ls = sorted(ls)
        r.shuffle(ls)
        ls = ls[:7]
        b = ["l%d := \"%s\"" % (j, x) for j, x in enumerate(ls)]
        b += ["emit(%s)" % ", ".join("l%d == \"%s\"" % (j, y) for y in r.sample(ls, 3)) for j in range(len(ls))] + ["emit(%s)" % ", ".join("strlen(l%d), l%d" % (j, j) for j in range(len(ls)))]
        b += ["d := dict()"] + ["dict_put(d, l%d, %d)" % (j, j) for j in range(len(ls))] + ["emit(%s)" % ", ".join('dict_get(d, "%s")' % x for x in ls)]
        b += ["K%d :: \"%s\"" % (j, x) for j, x in enumerate(ls)] + ["emit(%s)" % ", ".join("K%d" % j for j in range(len(ls)))]
        if r.random() < 0.5:
            o.prog("lits", lines(*b))
        else:
            q = r.randint(1, len(b) - 1)
            c = Case(o.id("lits")).state().compile(lines(*b[:q])).compile(lines(*b[q:]), 0, "n.tiny")
            o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "lits")
    # long strings; many strings; strings in dictionaries
    for n in [1, 7, 15, 16, 31, 63, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2047, 2048, 4096, 5000]:
        L = "x" * (n - 1) + "y"
        src = ["a := \"%s\"" % L, "b := \"\"", "b = strcat(substr(a, 0, %d), \"y\")" % (n - 1), "emit(strlen(a), strlen(b), a == b, strchr(a, 'y'), stridx(b, %d))" % (n - 1), "c := strcat(b, \"z\")", "emit(c == a, strlen(c), substr(c, %d, -1))" % (n - 1), "d := dict(a, 1)", "emit(dict_get(d, b), dict_exists(d, c))", "printf(\"%s\\n\", c)", "write_file(\"t.txt\", c)", "e := read_file(\"t.txt\")", "emit(e == c, strlen(e))"]
        o.prog("len", lines(*src))
    for i in range(10 * k):
        src = ["s := \"\"", "t := s", "for i := 0; i < %d; i += 1 { t = s\ns = strcat(s, int_to_str(i))\nif strlen(t) > 0 { emit(t == s, substr(s, 0, strlen(t)) == t) } }" % r.randint(5, 40), "emit(s)", "emit(s == t)"]
        o.prog("build", lines(*src), drive(r))
    # files and bytes
    for i in range(25 * k):
        bs = ", ".join(str(r.choice([0, 1, 10, 13, 26, 65, 97, 128, 200, 255])) for _ in range(r.randint(0, 12)))
        src = ["s := bytes(%s)" % bs, "write_file(\"f.bin\", s)", "t := read_file(\"f.bin\")", "emit(s, t, s == t, strlen(t))", "u := strcat(s, t)", "emit(u, substr(u, strlen(s), -1) == t, hstr(u) == u)", "d := dict(s, 1)", "emit(dict_get(d, t), dict_exists(d, u))", "printf(\"%s|%q\\n\", s, t)"]
        o.prog("bytes", lines(*src))
    o.rand("rand", r, 60 * k, strings=3, lib=1.5, stmts=9, depth=4, printf=0.3)


# ------------------------------------------------------------------------------------------- C18
def c18(o, r, k):
    if k == 1:
        small.library(o, r)
    ints = ["0", "1", "-1", "7", "10", "99", "100", "-100", "255", "65536", "2147483647", "-2147483647", "1000000"]
    flts = ["0.0", "1.0", "-1.0", "0.5", "-0.5", "2.5", "1.5", "-1.5", "2.25", "99.75", "100.0", "1000000.0", "0.125", "12345.5", "3.0", "-2.0", "123456.0", "0.0625", "1234567.0"]
    texts = ['"0"', '"12"', '"-12"', '"+7"', '"  42"', '"12abc"', '"abc"', '""', '"-"', '"0x1F"', '"077"', '"1.5"', '"-2.25"', '"1e3"', '".5"', '"5."', '"2147483647"', '"99999"', '"zz"', '"1010"', '"ff"', '"FF"', '"z"', '" 1.25x"', '"1 2"', '"\\n7"', '"000012"', '"-0"', '"0.1"']
    for i in range(60 * k):
        b = []
        for j in range(14):
            b.append(r.choice([lambda: "emit(int(%s))" % r.choice(flts), lambda: "emit(float(%s))" % r.choice(ints), lambda: "emit(floor(%s), ceil(%s))" % ((r.choice(flts),) * 2), lambda: "emit(ston(%s))" % r.choice(texts), lambda: "emit(stoi(%s, %s))" % (r.choice(texts), r.choice(["10", "16", "8", "2", "36", "10"])),
                               lambda: "emit(str_to_int(%s))" % r.choice(texts), lambda: "emit(int_to_str(%s))" % r.choice(ints), lambda: "emit(ntos(%s))" % r.choice(ints + flts), lambda: "emit(i64_to_string(i64_add_many(%s)))" % ", ".join("int_to_i64(%s)" % r.choice(ints) for _ in range(r.randint(1, 4))),
                               lambda: "emit(i64_to_string(i64_mul_many(%s)))" % ", ".join("int_to_i64(%s)" % r.choice(ints[:9]) for _ in range(r.randint(1, 4))), lambda: "emit(i64_to_string(i64_add_many(i64_mul_many(int_to_i64(%s), int_to_i64(%s)), int_to_i64(%s))))" % (r.choice(ints), r.choice(ints), r.choice(ints)),
                               lambda: "emit(INT_MAX, INT_MAX - 1)", lambda: "emit(int(%s) == %s, ntos(%s) == %s)" % (r.choice(flts), r.choice(ints), r.choice(ints), r.choice(texts))])())
        o.prog("conv", lines(*b))
    pv = {"%i": ints, "%f": flts, "%s": ['"abc"', '""', '"a%b"', "strcat(\"x\", \"y\")", "bytes(65, 66)"], "%c": ["65", "'z'", "10", "48"],
          "%q": ints + flts + ['"abc"', "true", "null", "p", "ar", "new P{3, \"in\", p}", "aa(1, aa(2), \"s\")", "as_(\"a\", \"b\")", "ar2", "cast(null, P?)"]}
    for i in range(80 * k):
        b = ["struct P { a: int s: str o: any }", "p := new P{1, \"s\", null}", "use array(\"int\") as ai", "use array(\"any\") as aa", "use array(\"str\") as as_", "ar := ai(1, 2, 3)", "ar2 := ai()"]
        for j in range(6):
            f, a = "", []
            for _ in range(r.randint(0, 6)):
                x = r.random()
                if x < 0.25:
                    f += r.choice(["text ", "\\n", "%%", "\\t", "x", "100%% ", ", ", "\\\\", "'"])
                else:
                    d = r.choice(list(pv))
                    f += d
                    a.append(r.choice(pv[d]))
            if r.random() < 0.15:
                a.append("1")
            b.append("printf(\"%s\"%s)" % (f, "".join(", " + x for x in a)))
        b.append("emit(p, ar)")
        o.prog("printf", lines(*b), drive(r))
    for i in range(60 * k):     # files
        b = []
        names = ["a.txt", "b.txt", "c_1"]
        cont = ['""', '"hello"', '"two\\nlines\\n"', "bytes(0, 1, 2, 255)", "strcat(\"x\", int_to_str(%d))" % i, '"%s %i"', "big"]
        b.append("big := \"%s\"" % ("0123456789" * r.choice([1, 50, 130])))
        for j in range(r.randint(4, 12)):
            n = r.choice(names)
            x = r.random()
            if x < 0.3:
                b.append("emit(write_file(\"%s\", %s))" % (n, r.choice(cont)))
            elif x < 0.5:
                b.append("emit(read_file(\"%s\"))" % n)
            elif x < 0.62:
                md = r.choice(["wb", "w", "ab", "a"])
                sk = r.choice(["", "", "fseek(f%d, %d)\n" % (j, r.choice([0, 1, 2, -3])), "emit(fsize(f%d))\n" % j]) if md[0] == "w" else ""
                b.append("f%d := fopen(\"%s\", \"%s\")\nemit(fwrite(f%d, %s, %s))\n%sfwrite(f%d, %s)\nfclose(f%d)\nemit(read_file(\"%s\"))" % (j, n, md, j, r.choice(cont[1:]), r.choice(["0", "1", "2", "3", "4", "5", "77", "-1"]), sk, j, r.choice(cont), j, n))
            elif x < 0.8:
                b.append("write_file(\"%s\", %s)\nf%d := fopen(\"%s\", \"rb\")\nemit(fsize(f%d))\nfseek(f%d, %d)\nemit(fread(f%d, %d), fread(f%d, %d))\nfseek(f%d, 0)\nemit(fread(f%d, %d))\nfclose(f%d)" % (n, r.choice(cont), j, n, j, j, r.choice([0, 1, 2, 3, 4, 6, 20, -1]), j, r.randint(0, 4), j, r.randint(0, 9), j, j, r.choice([2000, 2000, 5, -1]), j))
            else:
                b.append("f%d := fopen(\"%s\", \"%s\")\n" % (j, n, r.choice(["wb", "w"])) + "fwrite(f%d, %s)\nfclose(f%d)\nemit(read_file(\"%s\"))" % (j, r.choice(cont), j, n))
        o.prog("files", lines(*b))
    for i in range(15 * k):     # the standard input
        text = "".join(r.choice(["\n", "\n", "a", "hello", "x" * r.choice([6, 7, 8, 15, 16, 31, 33, 200]), " ", "7", "\xff", "\t"]) for _ in range(r.randint(0, 14)))
        b = []
        for j in range(r.randint(1, 8)):
            e = r.choice(["input()", "input(\"name: \")", "input(\"\")", "input(hstr(\"? \"))", "strcat(input(), input())", "input(input())"])
            b.append(r.choice(["emit(%s)", "emit(strlen(%s))", "v%d := %%s\nemit(v%d, strlen(v%d))" % (j, j, j), "for i%d := 0; i%d < 2; i%d += 1 { emit(%%s) }" % (j, j, j)]) % e)
        c = Case(o.id("input")).state().compile(lines(*b)).add("thread 0 0").add("stdin", 0, hexs(text)).add("start 0").add(drive(r))
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "input")
    for i in range(40 * k):     # json
        b = []
        g = gen.Gen(r)
        ns = r.randint(1, 4)
        st = {}
        for j in range(ns):
            fs = [("f%d" % q if r.random() < 0.5 else r.choice(["name", "x", "long_field_name", "v"]) + str(q), r.choice(["int", "str", "bool", "float"] + list(st))) for q in range(r.choice([1, 2, 3, 4, 5, 6, 8, 11]))]
            st["J%d" % j] = fs
            b.append("struct J%d {\n%s\n}" % (j, "\n".join("%s: %s" % f for f in fs)))
            if r.random() < 0.7 or j == ns - 1:
                b.append("use json(\"J%d\")" % j)

        def val(t):
            if t in st:
                return "new %s{%s}" % (t, ", ".join(val(x) for _, x in st[t]))
            if t == "float":
                return r.choice(flts)
            return g.lit(t)
        for _ in range(4):
            b.append("emit(J%d_to_json(%s))" % (ns - 1, val("J%d" % (ns - 1))))
        o.prog("json", lines(*b))
    for n in [1, 5, 10, 20, 30, 40, 60]:
        fs = ["field%d" % i for i in range(n)]
        o.prog("jsonbig", "struct B {\n%s\n}\nuse json(\"B\")\nx := new B{%s}\nemit(B_to_json(x))\n" % ("\n".join("%s: int" % f for f in fs), ", ".join(str(i) for i in range(n))))
    for i in range(10 * k):
        o.prog("typedjson", "emit(int_to_json(%s), float_to_json(%s), str_to_json(%s), bool_to_json(%s))\nemit(get_executing_line())\n" % (r.choice(ints), r.choice(flts), '"q r"', r.choice(["true", "false"])))
    o.rand("rand", r, 50 * k, lib=3, printf=1.0, strings=2, floats=2, stmts=9, depth=3)


# ------------------------------------------------------------------------------------------- C19
# Ends of lines inside of literals: every one of them counts once
LINEENDS = ["emit(\"a\\\nb\")\n", "emit('\n')\n", "emit('\\\n')\n", "emit(\"\\\n\\\n\\\n\", \"\n\\\n\")\n", "emit(\"\\\\\n\")\n", "emit(\"\\n\\n\")\n", "emit('\\n')\n", "emit(\"a\r\nb\")\r\n", "// a \\\n", "emit(\"\r\", '\r')\n"]


def c19(o, r, k):
    if k == 1:
        small.far_lines(o, r)
    small.line_pairs(o, r, 60 * k)
    for i in range(150 * k):
        np = r.randint(1, 3)
        g = gen.Gen(r, stmts=5, funcs=2, fstmts=5, depth=3, order=1.2, callback=0.5, loops=0.8, anys=1, structs=0.6, arrays=0.5, delegates=0.3)
        c = Case(o.id("line")).state()
        for j in range(np):
            if r.random() < 0.3:
                c.compile(r.choice(["\n" * r.randint(0, 20) + r.choice(FAILS), prog(r, stmts=4)[:-8] + "\n\n@"]), 0, "fail%d.tiny" % j)
            toks = g.program()
            src = "\n".join(toks) + "\n"
            x = r.random()
            if x < 0.4:
                ls = []
                for l in toks:
                    for _ in range(r.choice([0, 0, 0, 1, 2, 7])):
                        ls.append(r.choice(["", "// comment", "   ", "\t// \"", "//", "// emit(1)"]))
                    ls.append(l)
                src = "\n".join(ls) + "\n"
            elif x < 0.7:
                src = gen.layout(r, gen.tokens(src), r.choice([0.1, 0.3, 0.6]))
            if r.random() < 0.3:
                src = r.choice(["\n\n\n", "// c\n", "ml%d := \"x\ny\nz\"\n" % j, "\n" * 300, r.choice(LINEENDS)]) + src
            if r.random() < 0.15:
                c.add("compilef 0 src%d.tiny" % j, hexs(src))
            else:
                c.compile(src, 0, r.choice(["src%d.tiny" % j, "m.tiny", "dir/other%d.tiny" % j]))
        c.add("thread 0 0").add("start 0").add(drive(r)).add("destroy 0").add("delstate 0").add("mem")
        o.put(c, "line")
    # one call at every kind of place
    pl = ["emit(1)", "x := oi(1)", "x := 1 +\noi(2) +\n\noi(3)", "if ob(true) {\n\nemit(1)\n}\nelse {\nemit(2)\n}", "if ob(false) {\n\nemit(1)\n}\nelse {\n\nemit(2)\n}\nemit(3)", "i := 0\nwhile ob(i < 2) {\n\ni += oi(1)\nemit(i)\n\n}\nemit(9)", "for i := oi(0);\nob(i < 2);\ni += oi(1) {\nemit(i)\n\nif ob(i == 0) { continue }\nemit(5)\n}\nemit(6)",
          "func f(a: int): int {\n\nb := oi(a)\nemit(b)\n\nreturn oi(b)\n}\n\n\nemit(f(1))\nemit(f(oi(2)),\n\nf(3))", "{\n\nemit(1)\n{\nemit(2)\n}\n}", "s := \"a\nb\n\nc\"\nemit(s)\nemit(2)", "struct S {\na: int\n\nb: int\n}\nx := new S{\noi(1),\n\noi(2)\n}\nemit(x)\nx.a = oi(4)\n\nx.a += oi(1)", "use array(\"int\") as ai\n\na := ai(\n1,\noi(2))\n\na[oi(0)] =\noi(5)\nlook(a)",
          "emit(if ob(true)\noi(1)\nelse\noi(2))", "func v() {\nemit(1)\nif ob(true) {\nreturn;\n}\nemit(2)\n}\nv()\n\nv()", "emit(call(\"cb\", 1))\nfunc cb(x: int): int {\n\nemit(x)\nreturn oi(x)\n}\n\nemit(call(\"cb\",\n2))", "while true {\nemit(1)\n\nif ob(true) {\n\nbreak\n}\n}\nemit(2)", "// c\n\n// d\nemit(1) // e\n//f\nemit(2)", "emit(1); emit(2);\n;\nemit(3)", "func rec(n: int) {\nemit(n)\nif n > 0 {\nrec(n - 1)\n}\n\nemit(n)\n}\n\nrec(2)",
          "x := 3\nx +=\noi(1)\nx = x *\n\noi(2)\nemit(x)", "C :: 5\nemit(C)\n\nfunc g(): int {\nreturn\noi(C)\n}\nemit(g())", "emit(ob(true) &&\n\nob(true) ||\nob(false))", "emit(-oi(1),\n!ob(true))", "o := cast(echo(1),\nint)\nemit(o)", "d := dict(\"a\",\noi(1))\nd[\"b\"] = oi(2)\nemit(d[\"b\"])", "oi(1)->emit()\n\noi(2)->oi()->emit()", "if ob(true)\nemit(1)\nelse\nemit(2)\nemit(3)", "while ob(false)\nemit(1)\nemit(2)", "else_ := 1\nemit(else_)", "\tmk(1)\n   mk(2)\n\r\nmk(3)"]
    for p in pl:
        for pre in ["", "\n\n", "// a\n", "s0 := \"1\n2\"\n", r.choice(LINEENDS)]:
            c = Case(o.id("place")).state()
            if r.random() < 0.5:
                c.compile("func p0(): int {\n\nreturn oi(77)\n}\nemit(p0())\n", 0, "first.tiny")
            c.compile(pre + p, 0, "m.tiny")
            c.compile("\n\nemit(100)\n", 0, "last.tiny")
            o.put(c.add("thread 0 0").add("start 0").add(r.choice(["run 0", "finish 0 1"])).add("destroy 0").add("delstate 0").add("mem"), "place")
    for i in range(12 * k):
        c = Case(o.id("idle")).state().compile(prog(r, stmts=4, callback=0.5)).add("thread 0 0").add("line 0").add("start 0")
        c.add(*r.choice([("step", 0, r.randint(0, 60)), ("run", 0)])).add("line 0").add("run 0").add("line 0")
        if r.random() < 0.5:
            c.add("start 0").add("finish 0 7").add("line 0")
        c.add("thread 1 0").add("line 1")
        o.put(c.add("destroy 0").add("destroy 1").add("delstate 0").add("mem"), "idle")
    # far down
    for n in [100, 255, 256, 300, 1200]:
        o.prog("far", "emit(1)\n" + "\n" * n + "func f(a: int): int {\nemit(a)" + "\n" * n + "return oi(a)\n}\n" + "// x\n" * n + "emit(f(3))\n\n\nemit(2)\n")
        if n <= 300:
            o.prog("far", lines(*["x%d := %d" % (i, i) for i in range(n)]) + "emit(x1)\n")


# ------------------------------------------------------------------------------------------- C21
def c21(o, r, k):
    if k == 1:
        small.index_functions(o, r)
        small.macros_on_types(o, r)
    small.delegates(o, r, 150 if k == 1 else 0)
    small.name_limits(o, r)
    small.use_places(o, r)
    # host macros: exactly the arguments
    for i in range(60 * k):
        c = Case(o.id("host")).state()
        b, late = [], []
        for j in range(r.randint(1, 5)):
            x = r.random()
            args = ", ".join('"%s"' % "".join(r.choice(["a", "b", " ", "\\n", "\\\"", "\\\\", "1", "(", ")", ",", "%", "//", "\t"]) for _ in range(r.randint(0, 8))) for _ in range(r.randint(1, 6)))
            if x < 0.5:
                b.append("use host(%s)%s" % (args, r.choice(["", " as nm%d" % j, "\nas nm%d" % j])))
            elif x < 0.65:
                b.append("use host(\"src\", \"func hs%d(x: int): int { return x * %d }\")\nemit(hs%d(3))" % (j, j + 2, j))
            elif x < 0.75:
                b.append("use host(\"reg\", \"HT%d\")\nfunc t%d(x: HT%d): HT%d { return x }" % (j, j, j, j))
            elif x < 0.8:
                b.append("use host(\"fail\"%s)" % r.choice(["", ", \"x\""]))
            elif x < 0.9:
                b.append("use host(\"src\", \"hv%d := %d\\nemit(hv%d)\")%s" % (j, j, j, "" if r.random() < 0.8 else "\nemit(hv%d)" % j))
                late.append("emit(hv%d)\nhv%d = hv%d + 1\nemit(hv%d)\n" % (j, j, j, j))
            else:
                b.append(r.choice(["use host()", "use host(\"a\",)", "use host(a)", "use host", "use nope(\"a\")", "use host(\"a\") as", "use host(\"src\", \"nope(\")", "use host(\"b\"", "use host(\"a\" \"b\")"]))
            if r.random() < 0.3:
                b.append("emit(%d)" % j)
        c.compile(lines(*b))
        if r.random() < 0.4:
            c.compile("use host(\"again\") as z\nemit(9)\n" + "".join(late))
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "host")
    # delegates of functions of every type
    for i in range(90 * k):
        g = gen.Gen(r, structs=1, arrays=1, depth=2)
        hd = g.struct() + g.array()
        b, uses = [], []
        for j in range(r.randint(1, 4)):
            ts = [g.types() for _ in range(r.randint(0, 5))]
            ret = r.choice([g.types(), "void", g.types()])
            f = "df%d" % j
            ps = ", ".join("a%d: %s" % (q, t) for q, t in enumerate(ts))
            body = ["emit(%s)" % ", ".join([str(j)] + ["a%d" % q for q in range(len(ts))])]
            if ret != "void":
                same = [q for q, t in enumerate(ts) if t == ret]
                body.append("return %s" % ("a%d" % r.choice(same) if same and r.random() < 0.6 else g.expr(ret, 1)))
            b.append("func %s(%s)%s {\n%s}" % (f, ps, "" if ret == "void" else ": " + ret, lines(*body)))
            m = "make%d" % j
            b.append("use delegate(\"%s\") as %s" % (f, m))
            T = "delegate_%s_%s" % ("_".join(ts), ret)
            T = "delegate_" + "".join(t + "_" for t in ts) + ret if ts else "delegate__" + ret
            for _ in range(2):
                call = "%s_call(%s)" % (T, ", ".join(["%s()" % m] + [g.expr(t, 1) for t in ts]))
                uses.append(call if ret == "void" else "emit(%s)" % call)
            if r.random() < 0.4:
                uses.append("v%d: %s = %s()\nfunc via%d(d: %s) { emit(d == %s()) }\nvia%d(v%d)" % (j, T, m, j, T, m, j, j))
        o.prog("del", lines(*(hd + b + uses)), drive(r))
    o.rand("rand", r, 60 * k, delegates=1.5, funcs=3, stmts=8, depth=2, structs=1)
    bad = ["use delegate(\"nope\") as d", "func f() { }\nuse delegate(\"f\")", "func f() { }\nuse delegate(\"f\", \"f\") as d", "use array(\"int\")", "use array(\"nope\") as a", "use array(\"int\", \"str\") as a", "use array(\"int\") as a\nuse array(\"int\") as a\nx := a(1)\nlook(x)", "use array(\"int\") as a\nuse array(\"str\") as a\nx := a(1)\nlook(x)", "use json(\"nope\")", "use json(\"int\")", "struct S { a: int }\nuse json(\"S\") as q\nemit(S_to_json(new S{1}))", "use json()",
           "struct S { a: any }\nuse json(\"S\")", "struct S { a: int? }\nuse json(\"S\")", "use array(\"int\") as ai\nstruct S { a: ai }\nuse json(\"S\")", "use array(\"int\") as ai\nfunc ai_to_json(a: ai): str { return \"[..]\" }\nstruct S { a: ai b: int }\nuse json(\"S\")\nemit(S_to_json(new S{ai(1), 2}))", "struct A { x: int }\nstruct B { a: A b: A }\nuse json(\"B\")\nuse json(\"A\")\nemit(B_to_json(new B{new A{1}, new A{2}}), A_to_json(new A{3}))",
           "func f(a: int): int { return a }\nuse delegate(\"f\") as m1\nuse delegate(\"f\") as m2\nfunc g(a: int): int { return -a }\nuse delegate(\"g\") as m3\nemit(delegate_int_int_call(m1(), 1), delegate_int_int_call(m2(), 2), delegate_int_int_call(m3(), 3), m1() == m2(), m1() == m3())", "func f(a: int) { emit(a) }\nuse delegate(\"f\") as m1\nfunc hold(d: delegate_int_void) { delegate_int_void_call(d, 7) }\nhold(m1())", "func f(a: int) { }\nfunc g(s: str) { }\nuse delegate(\"f\") as m1\nuse delegate(\"g\") as m2\ndelegate_int_void_call(m2(), 1)",
           "func outer(n: int): int { if n == 0 { return 0 }\nreturn n + delegate_int_int_call(mo(), n - 1) }\nuse delegate(\"outer\") as mo\nemit(outer(4))", "use delegate(\"emit\") as d", "use delegate(\"strlen\") as d\nemit(delegate_str_int_call(d(), \"abc\"))", "emit(call_function(get_function_index(\"f\"), 3))\nfunc f(x: int): int { return x * 2 }", "emit(get_function_index(\"nope\"))",
           "if true { use array(\"int\") as ai }\nx := ai(1)\nlook(x)", "func f() { use array(\"int\") as ai\nx := ai(1)\nlook(x) }\nf()", "x := ai(1)\nlook(x)\nuse array(\"int\") as ai", "use array(\"S\") as as_\nstruct S { a: int }\nx := as_(new S{1})\nemit(x[0].a)", "func f(): S { return new S{1} }\nuse delegate(\"f\") as m\nstruct S { a: int }\nemit(delegate__S_call(m()))", "for i := 0; i < 2; i += 1 { use array(\"bool\") as ab\nx := ab(true)\nlook(x) }"]
    for s in bad:
        c = Case(o.id("misc")).state().compile(s + "\n").compile("use array(\"float\") as af_\nq_ := af_(1.5)\nlook(q_)\n")
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "misc")
    # generated code of every length
    for i in range(28 * k):
        L = r.choice([1, 10, 30, 60, 100, 150, 200, 230, 250, 300, 400, 500, 700, 1000])
        nm = "n" * L
        x = i % 4
        if x == 0:
            n = r.choice([0, 1, 5, 10, 20, 30, 40, 60])
            ty = r.choice(["int", "str", nm])
            src = "struct %s { a: int }\nvv := new %s{4}\nfunc ff(%s): int { return %d }\nuse delegate(\"ff\") as mk_\n" % (nm, nm, ", ".join("p%d: %s" % (j, ty) for j in range(n)), n)
            src += "emit(delegate_%s_int_call(%s))\n" % ("_".join([ty] * n), ", ".join(["mk_()"] + [{"int": "1", "str": '"s"'}.get(ty, "vv")] * n))
        elif x == 1:
            src = "func %s(a: int): int { return a * 2 }\nuse delegate(\"%s\") as %s\nemit(delegate_int_int_call(%s(), 21))\n" % (nm, nm, r.choice(["mk_", "m" * L]), "mk_")
        elif x == 2:
            src = "struct %s { a: int }\nuse array(\"%s\") as %s\nx := %s(new %s{3})\nlook(x)\n%s_push(x, new %s{4})\nemit(x[1].a, %s_len(x))\n" % ((nm, nm) + (("arr",) * 2 if r.random() < 0.5 else ("a" * L,) * 2) + (nm,) + (("arr", nm, "arr") if 0 else ("@A@", nm, "@A@")))
            a = re.search(r" as (\w+)", src).group(1)
            src = src.replace("@A@", a)
        else:
            n = r.choice([1, 3, 8, 15, 16, 20, 30])
            fn = "f" * r.choice([1, 10, 20, 40, 60, 90])
            src = "struct %s {\n%s\n}\nuse json(\"%s\")\nemit(%s_to_json(new %s{%s}))\n" % (nm, "\n".join("%s%d: int" % (fn, j) for j in range(n)), nm, nm, nm, ", ".join(str(j) for j in range(n)))
        c = Case(o.id("len")).state().compile(src).compile("emit(77)\n")
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "len")
    # arrays of every type: the types of their functions
    for t in ["int", "bool", "str", "float", "any", "S", "S?", "dict", "ai"]:
        c = Case(o.id("arr"))
        for use in ["a_push(a, {v})", "a_push(a, {w})", "x := a_get(a, 0)\nemit(x == {v})", "a[0] = {v}", "a[0] = {w}", "a_insert(a, {v}, {v})", "a_insert(a, 0, {v})", "a_sort(a)", "a_resize_fill(a, 3, {v})", "a_resize_fill(a, 3, {w})", "a_len(a, 1)", "emit(a_pop(a), a_shift(a), a_len(a))", "a_nope(a)", "y: int = a_len(a)", "y: str = a_pop(a)", "y: any = a_pop(a)"]:
            hd = "struct S { q: int }\nuse array(\"int\") as ai\nuse array(\"%s\") as a\nwv := new S{1}\nfunc main_(a: a, v: %s, w: S) { " % (t, t)
            c.state(0).compile(hd + use.replace("{v}", "v").replace("{w}", "w") + " }\n").add("delstate 0")
        o.put(c.add("mem"), "arr")


# ------------------------------------------------------------------------------------------- C22
def c22(o, r, k):
    small.natives(o, r, 30 * k)
    if k == 1:
        small.arg_counts(o, r)
        small.many_functions(o, r)
    TY = ["int", "bool", "str", "float", "any", "Opq"]
    for i in range(130 * k):
        c = Case(o.id("sig"))
        c.add("state 0", " ".join(l for l in "array dict io i64 std host".split() if r.random() < 0.6))
        c.add("type 0 Opq")
        fns = []
        binds = []
        for j in range(r.randint(2, 7)):
            x = r.random()
            n = "h%d" % j if r.random() < 0.8 else r.choice(["longer_name_%d", "X%d", "u_%d"]) % j
            ps = [r.choice(TY) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
            sp = lambda: r.choice(["", " ", "", "  "])
            if x < 0.15:
                sig, kind, ret, va = n, r.choice(["count", "emit", "echo"]), "any", True
                ps = []
            else:
                va = r.random() < 0.35
                same = [q for q in range(len(ps))]
                kind = r.choice(["emit", "echo", "count", "c7", "cf", "cs", "ct", "pick"])
                ret = {"emit": "void", "count": "int", "c7": "int", "cf": "float", "cs": "str", "ct": "bool", "pick": "any"}.get(kind)
                if kind == "echo":
                    if not ps:
                        kind, ret = "c7", "int"
                    else:
                        ret = ps[0] if r.random() < 0.6 else "any"
                if kind == "pick":
                    ps = ["int"] + ps
                sig = "%s%s(%s)%s" % (n, "", ("," + sp()).join(ps + (["..."] if va else [])), "" if ret == "any" and r.random() < 0.6 else ":" + sp() + ret)
            c.add("bind 0", kind, hexs(sig))
            fns.append((n, ps, va, ret, kind))
        nhc = r.randint(0, 3)
        for j in range(nhc):
            c.add("const 0 HC%d" % j, r.choice(["i0", "i5", "i-7", "i2147483647", "i300", "b1", "b0", "f2.5", "f-0.25", "s", "s616263", "s0a22", "i128"]))
        vals = {"int": ["1", "0", "-5", "300", "2147483647"], "bool": ["true", "false"], "str": ['"a"', '""', '"xyz"'], "float": ["1.5", "-0.5"], "any": ["1", '"q"', "null", "2.5"], "Opq": ["opq", "opq"]}
        b = ["opq0: any = %s\nopq := cast(opq0, Opq)" % r.choice(["1", '"handle"', "null"])] if r.random() < 0.95 else []
        b.append("func ef(x: any) { emit_(x) }" if 0 else "gx := 4")
        ok = r.random() < 0.75
        for j in range(r.randint(3, 9)):
            n, ps, va, ret, kind = r.choice(fns)
            args = [r.choice(vals[t]) if t != "Opq" or b[0].startswith("opq") else "nopq" for t in ps]
            if va:
                args += [r.choice(vals[r.choice(TY[:5])]) for _ in range(r.choice([0, 1, 2, 5, 20]))]
            if not ok and r.random() < 0.3:
                y = r.random()
                if args and y < 0.4:
                    del args[r.randrange(len(args))]
                elif y < 0.7:
                    args.insert(r.randint(0, len(args)), r.choice(["1", '"a"', "true"]))
                elif args:
                    args[r.randrange(len(args))] = r.choice(["1", '"a"', "1.5", "true", "null"])
            call = "%s(%s)" % (n, ", ".join(args))
            if args and r.random() < 0.15 and re.match(r'[a-z"]', args[0]) and args[0] not in ("true", "false", "null"):
                call = "%s->%s(%s)" % (args[0], n, ", ".join(args[1:]))
            y = r.random()
            if ret == "void" or y < 0.4:
                b.append(call)
            elif y < 0.7:
                b.append("r%d := %s" % (j, call))
            elif y < 0.85:
                b.append("for i%d := 0; i%d < 2; i%d += 1 { %s }" % (j, j, j, call))
            else:
                b.append("func w%d(a: int): any { l := a\nreturn %s }\nw%d(3)" % (j, call, j))
        for j in range(nhc if r.random() < 0.95 else 3):
            if r.random() < 0.5:
                n, ps, va, ret, kind = fns[0]
                b.append("k%d := HC%d\n%s" % (j, j, "" if ps or va is False else "%s(HC%d, k%d)" % (n, j, j)))
        c.compile(lines(*b)).add("thread 0 0").add("start 0").add(drive(r)).add("destroy 0").add("delstate 0").add("mem")
        o.put(c, "sig")
    # a function for each number of arguments, of each kind
    for i in range(20 * k):
        n = r.choice([0, 1, 2, 5, 9, 15, 30, 60, 90])
        c = Case(o.id("count")).state()
        c.add("bind 0 count", hexs("va(...): int")).add("bind 0 emit", hexs("fx(%s): void" % ", ".join("int" for _ in range(n))))
        args = ", ".join(str(j) for j in range(n))
        c.compile("emit(va(%s))\nfx(%s)\nfunc f(p: int): int { l := va(%s)\nfx(%s)\nreturn l + p }\nemit(f(1))\n" % (args, args, args, args))
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "count")
    # what the interface says about the values it is given
    for i in range(25 * k):
        vs = ["1", "0", "-5", "2147483647", "true", "false", "1.5", "-0.5", "0.0", "null", '"a"', '""', "bytes(0, 1)", "strcat(\"x\", \"y\")", "hstr(\"q\")", "mk()", "mk(1)", "light(0)", "light(9)", "new P{1, null}", "p", "ar", "dict()", "cast(null, P?)", "int_to_i64(4)", "gx", "cf()", "float(3)",
              "dict_keys(dict(1, 2))", "cast(3, any)", "int(2.5)"]
        b = ["struct P { a: int b: any }", "p := new P{2, \"z\"}", "use array(\"int\") as ai", "ar := ai(1)", "gx := 65"]
        for j in range(6):
            b.append("emit(conv(%s))" % ", ".join(r.choice(vs) for _ in range(r.randint(0, 7))))
        o.prog("conv", lines(*b), drive(r))
    # constants of the host
    for i in range(25 * k):
        c = Case(o.id("const")).state()
        ks = []
        for j in range(r.randint(1, 8)):
            v = r.choice(["i%d" % r.choice([0, 1, 2, 127, 128, 255, 256, -1, -128, 65536, 2147483647, -2147483647]), "b%d" % r.randint(0, 1), "f%s" % r.choice(["0", "1", "2.5", "-0.125", "1000000"]), "s" + hexs(r.choice(["", "a", "hello", "a\nb", "\"q\"", "%i"]))])
            c.add("const 0 K%d" % j, v)
            ks.append((j, {"i": "int", "b": "bool", "f": "float", "s": "str"}[v[0]]))
        b = []
        for j, t in ks:
            b.append("emit(K%d)\nx%d: %s = K%d\nemit(x%d, K%d == x%d)" % (j, j, t, j, j, j, j))
            if t == "int":
                b.append("emit(K%d + 1, -K%d, K%d * 2)\nfunc f%d(a: int): int { return a + K%d }\nemit(f%d(K%d))" % (j, j, j, j, j, j, j))
            if t == "bool":
                b.append("if K%d { emit(1) } else { emit(2) }\nemit(!K%d)" % (j, j))
            if t == "str":
                b.append("emit(strcat(K%d, \"!\"), strlen(K%d))" % (j, j))
        c.compile(lines(*b))
        if r.random() < 0.5:
            c.compile(r.choice(["K0 = 3", "K0 := 4", "K0 :: 5", "y: %s = K0" % r.choice(["int", "str", "bool"]), "func q(K0: int): int { return K0 }\nemit(q(9))", "K9 := 1"]) + "\n")
        o.put(c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem"), "const")
    for i in range(30 * k):
        c = basic(o.id("rand"), prog(r, anys=2, order=1.5, depth=3, objs=1), drive(r))
        o.put(c, "rand")
    for sig in ["", "(", "f", "f(", "f()", "f(int", "f(int)", "f(int):", "f(int): nope", "f(nope): int", "f(int,): int", "f(...)", "f(..., int): int", "f(int...): int", " f(int): int", "f (int): int", "f(int) : int", "f( int , str ): int", "f(int,str):int", "f(int)int", "1f(int): int", "f(void): int", "f(int?): int", "f(Opq?): any", "f(int): Opq?", "f(,): int"]:
        pass      # malformed signatures are the host's mistake: not specified


# ------------------------------------------------------------------------------------------- C23
def c23(o, r, k):
    # names which differ at the end only
    for L in (2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255, 256, 257, 400):
        ns = ["n" * (L - 1) + x for x in "ab"] + ["n" * L]
        ns = [n for n in r.sample(ns, 3)] + [ns[0] + "q"]
        c = Case(o.id("name")).state(0).compile(lines(*(["%s := %d" % (n, j) for j, n in enumerate(ns)] + ["func f%s(): int { return %d }" % (n, 10 + j) for j, n in enumerate(ns)] + ["emit(%s)" % ", ".join(ns + ["f%s()" % n for n in ns])])))
        ws = ns + [ns[0][:-1], ns[2] + "r", ns[0][:-1] + "c"]
        for n in ws:
            c.add("gidx 0", n).add("fidx 0 f" + n).add("fidx 0", n)
        c.add("thread 0 0").add("start 0").add("step 0 2")
        for j, n in enumerate(ns):
            c.add("getg 0", n).add("setg 0", n, "i%d" % (50 + j))
        for n in ns:
            c.add("getg 0", n)
        for n in ns:
            c.add("call 0 f" + n)
        c.add("run 0")
        for n in ns:
            c.add("getg 0", n)
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "name")
    vals = {"int": ["i0", "i7", "i-3", "i2147483647", "i65536"], "bool": ["b0", "b1"], "str": ["s", "s6162", "s00", "s" + "61" * 40], "float": ["f0", "f2.5", "f-0.5"], "any": ["n", "i1", "s71", "N", "f1.5", "b1", "L5"]}
    for i in range(120 * k):
        ng = r.choice([1, 3, 6, 12])
        gs = {"g%d" % j: r.choice(list(vals)) for j in range(ng)}
        L = gen.Gen(r)
        b = []
        lit = lambda t: L.lit(t) if t != "any" else r.choice(["null", "1", '"a"', "mk()"])
        late = []
        for n, t in gs.items():
            b.append("%s: %s = %s" % (n, t, lit(t)))
            if r.random() < 0.3:
                late.append("%s = %s" % (n, lit(t)))
        fs = ["func rd%d(): any { return %s }" % (j, n) for j, n in enumerate(gs)]
        fs += ["func inc(x: int): int { l := x\n%s\nreturn l }" % "\n".join("%s += x" % n for n, t in gs.items() if t == "int")]
        shadow = "func sh(g0: str): str { l := g0\nreturn l }"
        em = ["emit(%s)" % ", ".join(gs)]
        src = lines(*(b + fs + [shadow] + em + late + em + ["inc(1)", "for i := 0; i < 2; i += 1 { emit(%s)\ninc(i) }" % ", ".join(gs)] + em))
        c = Case(o.id("glob")).state().compile(src)
        names = list(gs) + ["nope", "rd0", "l", "x", "emit", "i", "G0", "g", "g00", "inc"]
        for _ in range(4):
            c.add(r.choice(["gidx 0", "fidx 0"]), r.choice(names))
        c.add("thread 0 0").add("start 0")
        G = lambda: r.choice(list(gs))
        nchg = 0
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < 0.5:
                c.add("step 0", r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40]))
            for _ in range(r.randint(1, 3)):
                c.add("getg 0", G())
            if nchg < 2 and r.random() < 0.6:
                n = G()
                c.add("setg 0", n, r.choice(vals[gs[n]])).add("getg 0", n).add("getg 0", G())
                nchg += 1
        c.add(r.choice(["run 0", "finish 0 1", "finish 0 5"]))
        for n in gs:
            c.add("getg 0", n)
        for _ in range(r.randint(0, 4)):
            n = G()
            c.add("setg 0", n, r.choice(vals[gs[n]])).add("getg 0", n).add("getg 0", G())
            c.add("call 0 rd%d" % list(gs).index(n))
            if r.random() < 0.4:
                c.add("call 0 inc i%d" % r.randint(1, 9)).add("getg 0", G())
        if r.random() < 0.3:
            c.add("thread 1 0").add("start 1").add("run 1").add("getg 1", G()).add("getg 0", G()).add("setg 1", "g0", r.choice(vals[gs["g0"]])).add("getg 0 g0").add("destroy 1")
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "glob")
    o.rand("inside", r, 70 * k, gets=3, funcs=2, stmts=9, depth=2, shadow=0.5, loops=1)
    for n in [1, 2, 127, 128, 255, 256, 257, 300]:
        src = lines(*["g%d := %d" % (i, i * 3) for i in range(n)]) + "emit(g%d)\ng%d = -1\nemit(hgetg(\"g%d\"), hgetg(\"g0\"))\nhsetg(\"g%d\", 77)\nemit(g%d)\n" % (n - 1, n // 2, n - 1, n // 2, n // 2)
        c = Case(o.id("many")).state().compile(src).add("thread 0 0").add("start 0").add("run 0")
        for q in sorted(set([0, n // 2, n - 1, min(n - 1, 128), min(n - 1, 256)])):
            c.add("getg 0 g%d" % q).add("setg 0 g%d i%d" % (q, q + 5)).add("getg 0 g%d" % q)
        c.add("gidx 0 g%d" % n).add("gidx 0 g%d" % (n - 1))
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "many")
    for i in range(25 * k):     # indices over several sources; block variables; failed sources
        c = Case(o.id("idx")).state()
        names = []
        for j in range(r.randint(1, 4)):
            ns = ["n%d_%d" % (j, q) for q in range(r.randint(0, 3))]
            names += ns
            src = lines(*["%s := %d" % (n, r.randint(0, 99)) for n in ns]) + r.choice(["", "{ blk%d := 1 }\n" % j, "func fn%d(arg%d: int) { loc%d := 1 }\n" % (j, j, j), "K%d :: 3\n" % j, "for it%d := 0; it%d < 1; it%d += 1 { }\n" % (j, j, j), "nope%d := nope\n" % j, "struct St%d { fld: int }\n" % j])
            c.compile(src, 0, "p%d.tiny" % j)
            for q in r.sample(names + ["blk%d" % j, "fn%d" % j, "loc%d" % j, "arg%d" % j, "K%d" % j, "it%d" % j, "nope%d" % j, "St%d" % j, "n0", "strlen"], min(4, len(names) + 10)):
                c.add(r.choice(["gidx 0", "fidx 0"]), q)
        c.add("thread 0 0").add("start 0").add("run 0")
        for n in names:
            c.add("getg 0", n)
        o.put(c.add("destroy 0").add("delstate 0").add("mem"), "idx")


# ------------------------------------------------------------------------------------------- C20
def listed(c):
    """The script with a request for the listing after the last compilation, None if it is not suitable"""
    last, first, names = -1, len(c.lines), []
    for i, l in enumerate(c.lines):
        w = l.split(" ")
        if w[0] in ("compile", "compilef") and w[1] == "0":
            last = i
            src = bytes.fromhex(w[3] if len(w) > 3 else "").decode("latin-1")
            if re.search(r"hgetg|hsetg", src):
                return None
            ids = set(re.findall(r"[A-Za-z_]\w*", src))
            names += sorted(ids) + sorted(n + "_to_json" for n in ids if n + "_to_json" in src or "json" in src and n[0].isupper())
        elif w[0] in ("thread", "dthread"):
            first = min(first, i)
        elif w[0] in ("getg", "setg", "xcompile") or (w[0] in ("state", "hstate", "dstate") and w[1] != "0"):
            return None
    if last < 0 or last > first:
        return None
    names = list(dict.fromkeys(n for n in names if len(n) < 40))[:120]
    d = Case(c.id)
    d.lines = c.lines[:last + 1] + [" ".join(["disasm 0"] + names)] + c.lines[last + 1:]
    return d


def c20(o, r, k):
    def go(src, fam, how=None, extra=()):
        c = basic(o.id(fam), src, how or drive(r))
        d = listed(c)
        j = next(i for i, l in enumerate(d.lines) if l.startswith("disasm")) + 1
        d.lines[j:j] = list(extra)
        return o.put(d, fam)
    for i in range(70 * k):
        go(prog(r, stmts=r.choice([3, 5]), funcs=r.randint(0, 3), structs=r.choice([0, 0.7]), arrays=r.choice([0, 0.6]), delegates=r.choice([0, 0.5]), consts=0.5), "run")
    # every literal
    for i in range(30 * k):
        b = []
        for j in range(r.randint(5, 25)):
            x = r.random()
            if x < 0.3:
                ch = r.choice([chr(r.randint(35, 126)), "\\n", "\\t", "\\'", "\\\\", "\\0", "\"", " ", "\\r", "\\v"])
                b.append("emit('%s')" % (ch if ch != "'" and ch != "\\" else "\\" + ch))
            elif x < 0.55:
                b.append("emit(%s)" % r.choice(["0", "1", "2", "-1", "-0", "127", "128", "255", "256", "257", "32767", "32768", "65535", "65536", "1000000007", "2147483647", "-2147483647", "0xff", "0x100", "0x7fffffff"]))
            elif x < 0.75:
                b.append("emit(%s)" % r.choice(["0.0", "0.5", "1.0", "100.0", "99999.0", "0.25", "-0.5", "123.25", "1000.125", "3.14", "0.1", "1234567.0", "16777216.0", "0.00390625", "12345.5"]))
            else:
                b.append('emit("%s")' % "".join(r.choice(["a", "b", "\\\"", "(", ")", "\\t", "\\n", "\\\\", "%", "%d", "%s", " ", ":", "'", ",", "\t", "z"]) for _ in range(r.randint(0, 12))))
        src = lines(*b)
        if r.random() < 0.3:
            src = "func g(): str {\n%sreturn \"end\" }\nemit(g())\n" % src
        go(src, "lit")
    # more strings, globals, locals, parameters, fields and functions than fit in a byte
    for i in range(8 * k):
        n = r.choice([250, 254, 255, 256, 257, 258, 300])
        b = ['emit("s%d")' % j for j in range(n)]
        for j in r.sample(range(n), 5):
            b.append('emit("s%d")' % j)
        b.append('x := "s%d"\nemit(x == "s%d", x == "s%d")' % (n - 1, n - 1, n - 2))
        go(lines(*b), "strings", "run 0")
    for i in range(8 * k):
        n = r.choice([100, 255, 256, 257, 300])
        b = ["g%d := %d" % (j, j) for j in range(n)]
        q = [r.randrange(n) for _ in range(12)] + [n - 1, 0]
        b += ["g%d = g%d + g%d\nemit(g%d)" % (a, c, d, a) for a, c, d in zip(q, q[3:], q[5:])]
        go(lines(*b), "globals", "run 0")
    for i in range(8 * k):
        n, m = r.randint(1, 40), r.randint(0, 20)
        b = ["func f(%s): int {" % ", ".join("p%d: int" % j for j in range(m))]
        b += ["v%d := %d" % (j, j * 7) for j in range(n)]
        vs = ["v%d" % j for j in range(n)] + ["p%d" % j for j in range(m)]
        for j in range(12):
            b.append("%s = %s + %s\nemit(%s)" % (r.choice(vs), r.choice(vs), r.choice(vs + ["1"]), r.choice(vs)))
        b += ["return %s }" % r.choice(vs), "emit(f(%s))" % ", ".join(str(j) for j in range(m))]
        go(lines(*b), "locals")
    for i in range(8 * k):
        n = r.choice([1, 2, 30, 60])
        b = ["struct S {\n%s\n}" % "\n".join("f%d: int" % j for j in range(n)), "s := new S{%s}" % ", ".join(str(j) for j in range(n))]
        for j in range(8):
            b.append("s.f%d = s.f%d + %d\nemit(s.f%d)" % (r.randrange(n), r.randrange(n), r.choice([0, 1, 5]), r.randrange(n)))
        b += ["emit(s)", "func h(x: S): S { x.f0 += 1\nreturn x }", "emit(h(s).f0, h(h(s)).f0)"]
        go(lines(*b), "fields")
    for i in range(6 * k):
        n = r.choice([20, 255, 256, 260])
        b = ["func f%d(x: int): int { return x + %d }" % (j, j) for j in range(n)]
        b += ["emit(f%d(f%d(1)))" % (r.randrange(n), r.randrange(n)) for _ in range(10)] + ["emit(f%d(0), f0(0))" % (n - 1)]
        go(lines(*b), "funcs", "run 0")
    # many arguments
    for i in range(6 * k):
        n = r.choice([0, 1, 30, 60, 80])
        go("emit(%s)\nemit(count(%s))\nx := strcat(%s)\nemit(x)\n" % (", ".join(str(j) for j in range(n)), ", ".join("true" for j in range(n)), ", ".join('"%d"' % j for j in range(max(n, 2)))), "args")
    # long jumps
    for i in range(6 * k):
        body = "\n".join("t += %d\nif t == %d { continue }" % (j + 1, 3 * j) for j in range(r.choice([5, 40, 80])))
        go("t := 0\nfor i := 0; i < 3; i += 1 {\n%s\nemit(t)\nif i == 1 && t > 2 || t < 0 { break }\n}\nwhile t > 5 { t -= 100000\n%s }\nemit(t)\n" % (body, body), "jumps")
    # calls by the host and from functions of the host, all functions called somewhere in the program
    for i in range(30 * k):
        F = ["func a(x: int): int {\nemit(x)\nif x > 0 { return a(x - 1) + 1 }\nreturn b(\"z\") }", "func b(s: str): int {\nl := strlen(s)\nemit(s, l)\nreturn l }",
             "func c(x: int, y: float) { z := y\nemit(x, z)\nif x == 0 { return }\nemit(call(\"b\", \"cb\")) }", "func d(f: any): any { return call_function(f, 2) }"]
        tail = ["emit(a(2), b(\"q\"))", "c(0, 0.5)", "c(1, 1.5)", "emit(d(get_function_index(\"a\")))", "emit(call(\"a\", 1))", "emit(call(\"d\", get_function_index(\"a\")))", "emit(get_executing_line())"]
        calls = ["emit(a(0), b(\"\"), d(get_function_index(\"a\")))", "c(0, 0.0)"]
        c = basic(o.id("calls"), lines(*(F + calls + r.sample(tail, r.randint(2, 7)))), drive(r))
        j = c.lines.index("start 0")
        for _ in range(r.randint(0, 2)):
            c.lines.insert(j + r.choice([0, 1]), "call 0 " + r.choice(["a i3", "b s6162", "c i1 f2.5", "c i0 f0.5", "nope i1"]))
        o.put(listed(c), "calls")
    # several sources
    for i in range(20 * k):
        c = Case(o.id("pieces")).state()
        g = gen.Gen(r, stmts=3, funcs=1, depth=2, structs=0.5, consts=1.0)
        for j in range(r.randint(2, 4)):
            c.compile(g.source(), 0, "p%d.tiny" % j)
            if r.random() < 0.4:
                c.compile(g_fail(r), 0, "bad.tiny")
        c.add("thread 0 0").add("start 0").add(drive(r))
        if r.random() < 0.4:
            c.add("start 0").add("run 0")
        if r.random() < 0.4:
            c.add("thread 1 0").add("start 1").add("run 1").add("destroy 1")
        o.put(listed(c.add("destroy 0").add("delstate 0").add("mem")), "pieces")
    # one instruction at a time into buffers of every size
    for i in range(12 * k):
        src = prog(r, stmts=2, funcs=1)
        extra = []
        for j in range(60):
            x = r.random()
            extra.append("dis1 0 %s %d" % ("k%d" % r.randint(0, 4000) if x < 0.9 else r.choice(["-1", "-2", "10000000"]), r.choice([0, 1, 2, 3, 8, 14, 15, 16, 17, 18, 19, 20, 22, 25, 30, 40, 100])))
        go(src, "cut", "run 0", extra)
    # programs of the other properties
    for p, m in (("C01", 14), ("C02", 8), ("C03", 14), ("C04", 14), ("C06", 14), ("C10", 8), ("C12", 8), ("C15", 6), ("C16", 6), ("C17", 6), ("C21", 10), ("C22", 8)):
        o2 = Out(o.p + p.lower())
        PROPS[p](o2, r, 1)
        ds = [d for d in map(listed, o2.cs) if d]
        for d in r.sample(ds, min(m * k, len(ds))):
            o.put(d, "from" + p)


def g_fail(r):
    return r.choice(FAILS) + "\n"


# ------------------------------------------------------------------------------------------- C25
FILES = ["m.tiny", "a", "dir/other_file.tiny", "x" * 200, "m(3):.tiny"]


def spread(r, src):
    """The same source with other white space and comments between its lines"""
    out = []
    for l in src.split("\n"):
        x = r.random()
        out.append(r.choice(["", "\t", "  ", "    "]) * (x < 0.5) + l + (r.choice(["  ", "\t", " // %d" % r.randint(0, 99), "\r"]) if r.random() < 0.3 else ""))
        if r.random() < 0.3:
            out += [r.choice(["", "", "\t", "// comment", "//", "   ", "// " + "c" * r.choice([3, 90, 400])]) for _ in range(r.choice([1, 1, 2, 3, 8]))]
    t = "\n".join(out)
    return t.rstrip("\n") if r.random() < 0.3 else t


def c25(o, r, k):
    bad = list(BADS) + ["x := ", "y := 1 +", "while { }", "if gb", "func", "func f9( { }", "struct Q { }", "struct Q { a }", "emit(1", "emit(1 2)", "\"abc", "'a", "gi = @", "gi = 1 $ 2", "}", ")", "]", "gr[0 = 1",
                        "return 1", "new", "gS. = 1", "gS->", "break", "continue", "else", "for i := 0; i < 3 { }", "nope()", "nope", "gi := 2", "gi = \"s\"", "C = 3", "func fi(x: int): int { return x }",
                        "struct S { z: int }", "gi + 1", "gi", "1", "\\", "#", "0x", "1.2.3", "99999999999999999999"]
    r.shuffle(bad)
    # one offending statement somewhere in a source which is right otherwise
    for i in range(0, len(bad), 6):
        c = Case(o.id("place"))
        for b in bad[i:i + 6]:
            rest = [l for l in gen.Gen(r, stmts=4, funcs=1, depth=2).source().split("\n")] if r.random() < 0.3 else ["emit(%d)" % j for j in range(r.choice([0, 1, 3, 9]))]
            src = HEAD05 + "\n".join(["// line"] * r.choice([0, 0, 2, 5])) + "\n"
            if "use" in b or r.random() < 0.75:
                # no use: the errors of this source only
                src = "\n".join(l for l in src.split("\n") if "use" not in l and "gr" not in l)
            if r.random() < 0.3 and not re.match("func|struct|use", b):
                b = "func main_() {\n  emit(1)\n  %s\n  emit(2)\n}" % b
            c.state(0).compile(spread(r, src + b + "\n" + "\n".join(rest) + "\n"), 0, r.choice(FILES)).add("delstate 0")
        o.put(c.add("mem"), "place")
    # errors at the ends of the text, at its first characters, and next to line ends
    ends = ["", "\n", "\n\n\n", "\r\n", " ", "// c", "// c\n", "\t\n\t"]
    tiny = ["@", "x", "x :=", "(", "func", "\"", "'", "1", "emit", "emit(", "return", "}", "x := y", "nope()", "break", "1 := 2"]
    for i in range(12):
        c = Case(o.id("ends"))
        for j in range(12):
            c.state(0).compile(r.choice(ends) + r.choice(tiny) + r.choice(ends), 0, r.choice(FILES)).add("delstate 0")
        o.put(c.add("mem"), "ends")
    # long lines and many lines: the message is cut off, and the source is not
    for i in range(10 * k):
        c = Case(o.id("long"))
        for j in range(4):
            pad = ["// " + "p" * r.choice([0, 10, 100, 150, 160, 170, 200, 480, 500, 520, 900]) for _ in range(r.choice([1, 3, 4, 7]))]
            src = "\n".join(["emit(1)"] * r.choice([0, 1, 5, 100]) + pad) + "\n" + r.choice(["x := nope", "emit(1", "gi = @", "y: int = \"a\""]) + r.choice(["", "\n"]) + "\n".join(pad if r.random() < 0.6 else [])
            c.state(0).compile(src, 0, r.choice(FILES)).add("delstate 0")
        o.put(c.add("mem"), "long")
    # several sources on one state: the place is one of the source given
    for i in range(10 * k):
        c = Case(o.id("several")).state(0)
        for j in range(4):
            c.compile("\n" * r.randint(0, 6) + "a%d := %d\n" % (j, j) * (r.random() < 0.6) + r.choice(["emit(%d)\n" % j, "b := nope%d\n" % j, "emit(1\n", "a0 := 1\n", "\n\nemit(\"a\" + 1)\n"]), 0, r.choice(FILES))
        o.put(c.add("delstate 0").add("mem"), "several")
    for i in range(12 * k):
        c = Case(o.id("random"))
        for j in range(3):
            g = gen.Gen(r, stmts=4, funcs=1, structs=1, depth=2)
            g.inject = r.randint(0, 40)
            toks = spread(r, g.source())
            x = r.random()
            if x < 0.4:
                p = r.randrange(len(toks))
                toks = toks[:p] + r.choice(["", "@", "(", "}", " x ", "\"", "\n", "1"]) + toks[p + r.choice([0, 1, 3]):]
            elif x < 0.6:
                toks = toks[:r.randrange(len(toks))]
            c.state(0).compile(toks, 0, r.choice(FILES)).add("delstate 0")
        o.put(c.add("mem"), "random")


# ------------------------------------------------------------------------------------------- C26
def c26(o, r, k):
    """The host asks for types, functions and constants: after each source, failed or not, and from macros"""
    small.registrations(o, r, 150 * k)
    small.half_defined(o, r, 50 * k)
    PR = ["void", "bool", "int", "float", "str", "any", "int?", "file", "i64", "array", "dict", "S0", "P", "nope", "emit", "strlen", "dict_str_int", "call_function", "INT_MAX", "printf", "S", ""]
    for i in range(110 * k):
        c = Case(o.id("ask"))
        names = list(PR[:-1])
        x = r.random()
        if x < 0.7:
            c.state()
        else:
            c.bare(0, " ".join(l for l in Case.LIBS.split() if r.random() < 0.6), [("emit", "emit(...): void"), ("count", "untyped"), ("echo", r.choice(["echo(any): any", "echo(Opq, int?, ...): Later"]))])
            names += ["Opq", "Later", "untyped", "echo"]
        for j in range(r.randint(0, 3)):
            c.add("const 0 HK%d" % j, r.choice(["i5", "i-3", "i300", "b1", "b0", "f2.5", "s", "s6869"]))
            names.append("HK%d" % j)
        if r.random() < 0.4:
            c.add("type 0", "Opq")
            names.append("Opq")
        def ask(n):
            for q in r.sample(names, min(n, len(names))):
                c.add("ask 0", q)
                if r.random() < 0.3:
                    c.add(r.choice(["gidx 0", "fidx 0"]), q)
        ask(4)
        for j in range(r.randint(1, 4)):
            y = r.random()
            if y < 0.45:
                g = gen.Gen(r, stmts=3, funcs=2, structs=2, arrays=1, delegates=0.7, dicts=0.3)
                src = g.source()
                src = re.sub(r"\b(f|S|a|v|x|g|q)(\d+)\b", r"\1_%d_\2" % j, src) if j else src
            else:
                ts = ["int", "str", "bool", "float", "any", "P%d" % j, "P%d?" % j, "Q%d" % j]
                T = lambda: r.choice(ts)
                ps = []
                ps.append("struct P%d {\n%s\n}" % (j, "\n".join("f%d: %s" % (q, T()) for q in range(r.randint(0, 6)))))
                ps.append("struct Q%d { a: P%d b: int }" % (j, j))
                ps.append("func u%d(%s)%s" % (j, ", ".join("p%d: %s" % (q, T()) for q in range(r.randint(0, 5))), r.choice(["", ": any"])) + " { return null }")
                ps[-1] = ps[-1] if ": any {" in ps[-1] else ps[-1].replace("return null", "")
                ps.append("K%d :: %s" % (j, r.choice(["3", "-3", "300", "true", "false", "2.5", '"txt"', '""', "'c'"])))
                ps.append("func in%d() { L%d :: %s\nemit(L%d) }" % (j, j, r.choice(["1", '"in"', "true"]), j))
                ps.append("use array(\"%s\") as ar%d" % (r.choice(["int", "P%d" % j, "P%d?" % j, "any"]), j))
                ps.append("use delegate(\"u%d\") as md%d" % (j, j))
                ps.append("use json(\"P%d\")" % j)
                ps.append("gv%d := 4" % j)
                ps.append("use host(\"ask\", \"%s\")" % r.choice(["P%d" % j, "u%d" % j, "ar%d" % j, "int", "nope", "emit", "Q%d" % j, "strlen", "K%d" % j]))
                ps.append("use host(\"ask\", \"%s\")" % r.choice(["P%d" % j, "u%d" % j, "ar%d_push" % j, "md%d" % j, "file", "P%d_to_json" % j, "gv%d" % j]))
                ps.append("use host(\"reg\", \"HT%d\")" % j)
                ps.append("use host(\"src\", \"struct M%d { a: int } func mf%d(x: M%d): int { return x.a }\")" % (j, j, j))
                ps = [q for q in ps if r.random() < 0.7]
                r.shuffle(ps) if r.random() < 0.5 else None
                src = "\n".join(ps) + "\n"
                z = r.random()
                if z < 0.25:
                    src += r.choice(FAILS) + "\n"
                elif z < 0.4:
                    toks = gen.tokens(src)
                    src = " ".join(toks[:r.randrange(len(toks) + 1)])
                names += ["P%d" % j, "Q%d" % j, "u%d" % j, "K%d" % j, "L%d" % j, "in%d" % j, "ar%d" % j, "ar%d_push" % j, "ar%d_get" % j, "md%d" % j, "P%d_to_json" % j, "gv%d" % j, "HT%d" % j, "M%d" % j, "mf%d" % j]
            ids = sorted(set(re.findall(r"[A-Za-z_]\w*", src)))
            names += r.sample(ids, min(6, len(ids)))
            names = list(dict.fromkeys(names))
            c.compile(src, 0, "s%d.tiny" % j)
            ask(12)
        o.put(c.add("delstate 0").add("mem"), "ask")
    # a program which runs while the host asks
    for i in range(15 * k):
        src = prog(r, structs=1, funcs=2)
        ids = [w for w in sorted(set(re.findall(r"[A-Za-z_]\w*", src)))]
        c = Case(o.id("run")).state().compile(src).add("thread 0 0").add("start 0")
        for j in range(4):
            c.add("step 0", r.randint(0, 40))
            for q in r.sample(ids, min(4, len(ids))):
                c.add("ask 0", q)
        o.put(c.add("run 0").add("ask 0", r.choice(ids)).add("destroy 0").add("delstate 0").add("mem"), "run")


PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12,
         "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C25": c25, "C26": c26}


def generate(prop, seed, k=1):
    r = random.Random("%s %s" % (prop, seed))
    o = Out(prop.lower() + "s%s" % seed, {"C14": 3, "C07": 6, "C08": 6}.get(prop, 20))
    PROPS[prop](o, r, k)
    return o.cs
