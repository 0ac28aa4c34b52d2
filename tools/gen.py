"""Generates programs of the language: well typed, terminating, and mostly free of what is not specified."""
import re

INTS = [0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 999,
        1000, 4095, 32767, 32768, 65535, 65536, 99999, 1000000, 16777216, 2147483647, 2147483646, 1073741824]
FLTS = ["0.0", "1.0", "0.5", "2.5", "1.5", "0.25", "10.0", "3.0", "100.125", "0.75", "7.0", "1.", "12.5", "4096.5"]
STRS = ["", "a", "b", "ab", "abc", "hello", "x y", "0", "-1", "12", "3.5", "%i", "a\\n", "\\t", "\\\"q\\\"", "back\\\\", "// no comment", "if", "{}", "null"]

RESERVED = {"if", "func", "foreign", "return", "while", "for", "else", "struct", "new", "cast", "break", "continue", "use",
            "foreach", "null", "true", "false", "as"}

DEFAULT = dict(depth=3, stmts=6, funcs=2, fstmts=4, structs=1, arrays=1, dicts=0.3, loops=1.0, ifs=1.0, calls=1.0, strings=1.0,
               floats=1.0, anys=0.6, objs=0.3, order=0.3, shadow=0.2, recursion=0.3, delegates=0.0, consts=0.5, files=0.0, lib=0.3,
               chain=0.5, blocks=0.4, structops=1.0, bigint=0.15, arrayops=1.0, printf=0.05, loopmax=4, nested_funcs=0.1,
               callback=0.0, gets=0.0, arrow=0.1, unbraced=0.15)


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(DEFAULT, **prof)
        self.n = 0
        self.globals = {}      # name -> type
        self.consts = {}       # name -> (type, text)
        self.structs = {}      # name -> [(field, type)]
        self.arrays = {}       # array type -> element type
        self.funcs = {}        # name -> ([types], ret)
        self.delegates = {}    # maker -> (type, [types], ret)
        self.locals = None     # list of scopes: name -> (type, may be assigned)
        self.hidden = set()
        self.infunc = None     # return type
        self.loop = 0
        self.budget = 0
        self.cost = 1
        self.callable = []
        self.inject = -1       # countdown to a type error
        self.topnames = set()

    # ---- names
    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def chance(self, x):
        return self.r.random() < x

    def types(self, simple=False):
        t = ["int"] * 4 + ["bool", "str"]
        if self.p["floats"]:
            t += ["float"]
        if not simple:
            if self.p["anys"]:
                t += ["any"]
            t += list(self.structs)
            t += list(self.arrays)
        return self.r.choice(t)

    def vars(self, ty, assign=False):
        """Visible variables of the type"""
        out = []
        seen = set()
        if self.locals is not None:
            for sc in reversed(self.locals):
                for n, (t, a) in sc.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    if t == ty and (a or not assign):
                        out.append(n)
        for n, t in self.globals.items():
            if n not in seen and t == ty and (not assign or n not in self.hidden):
                out.append(n)
        if not assign:
            for n, (t, _) in self.consts.items():
                if n not in seen and t == ty and n not in self.globals:
                    out.append(n)
        return out

    # ---- expressions
    def lit(self, ty):
        r = self.r
        if ty == "int":
            if self.chance(0.1):
                return r.choice(["'a'", "'\\n'", "'0'", "' '", "0x1f", "0xFF", "0x0", "'\\''", "0x7fffffff"])
            n = r.choice(INTS) if self.chance(self.p["bigint"]) else r.choice(INTS[:20])
            return "-%d" % n if self.chance(0.15) else "%d" % n
        if ty == "float":
            return ("-" if self.chance(0.15) else "") + r.choice(FLTS)
        if ty == "bool":
            return r.choice(["true", "false"])
        if ty == "str":
            return '"%s"' % r.choice(STRS)
        if ty == "any":
            return "null"
        return None

    OTHER = {"int": "str", "float": "bool", "bool": "int", "str": "int", "any": None}

    def expr(self, ty, d=None, paren=False):
        if d is None:
            d = self.r.randint(0, self.p["depth"])
        if self.inject == 0:
            self.inject = -1
            ty2 = self.r.choice([t for t in ["int", "float", "bool", "str", "any"] + list(self.structs) + list(self.arrays) if t != ty] or ["str"])
            return self.expr(ty2, d)
        if self.inject > 0:
            self.inject -= 1
        e = self.expr0(ty, d)
        return e

    def expr0(self, ty, d):
        r = self.r
        vs = self.vars(ty)
        if d <= 0:
            if vs and self.chance(0.65):
                return r.choice(vs)
            if ty.endswith("?"):
                return "cast(null, %s)" % ty
            if ty in self.structs:
                if vs:
                    return r.choice(vs)
                return self.new(ty, 0)
            if ty in self.arrays:
                if vs:
                    return r.choice(vs)
                return "%s()" % ty
            if ty in ("dict", "dict_str_int"):
                return r.choice(vs) if vs else ty + "()"
            if ty == "any" and self.chance(0.7):
                return "cast(%s, any)" % self.lit(r.choice(["int", "bool", "str", "float"]))
            if ty.startswith("delegate_"):
                return r.choice([m for m, x in self.delegates.items() if x[0] == ty]) + "()"
            return self.lit(ty)
        opts = []

        def o(w, f):
            if w > 0:
                opts.append((w, f))

        if vs:
            o(2, lambda: r.choice(vs))
        # calls of functions of the program
        if self.p["calls"] and self.callable:
            fs = [f for f in self.callable if self.funcs[f][1] == ty]
            if fs and self.budget > 0:
                o(1.5 * self.p["calls"], lambda fs=fs: self.call(r.choice(fs), d))
        # fields
        for sn, fs in self.structs.items():
            ff = [f for f, t in fs if t == ty]
            if ff and (self.vars(sn)):
                o(0.8 * self.p["structops"], lambda sn=sn, ff=ff: "%s.%s" % (self.path(sn, d), r.choice(ff)))
        # elements
        for an, et in self.arrays.items():
            if et == ty and self.vars(an):
                o(0.5 * self.p["arrayops"], lambda an=an: self.elem(an, d))
        if not ty.endswith("?"):
            o(0.35, lambda: self.ternary(self.expr("bool", d - 1), self.expr(ty, d - 1), self.expr(ty, d - 1)))
        if ty != "any":
            o(0.25 * self.p["anys"], lambda: "cast(echo(%s), %s)" % (self.expr(ty, d - 1), ty))
            o(0.15 * self.p["anys"], lambda: "cast(pick(%d, %s), %s)" % ((lambda k, n: (k, ", ".join(self.expr(ty if i == k else self.types(True), d - 2) for i in range(n)), ty))(*(lambda n: (r.randrange(n), n))(r.randint(1, 4)))))
        if ty in ("int", "float", "bool", "str"):
            o(self.p["order"] * 2, lambda: "o%s(%s)" % (ty[0], self.expr(ty, d - 1)))
        getattr(self, "e_" + ty, lambda o, d: self.e_other(o, d, ty))(o, d)
        w = r.random() * sum(w for w, _ in opts)
        for wt, f in opts:
            w -= wt
            if w <= 0:
                return f()
        return opts[-1][1]()

    def e_int(self, o, d):
        r = self.r
        o(1.2, lambda: self.lit("int"))
        o(2, lambda: self.binint(d))
        o(self.p["chain"], lambda: self.chainint(d))
        o(0.4, lambda: "-%s" % self.atom("int", d - 1))
        o(0.3 * self.p["floats"], lambda: "int(%s)" % self.expr("float", d - 1))
        o(0.3 * self.p["strings"], lambda: "strlen(%s)" % self.expr("str", d - 1))
        o(0.2, lambda: "count(%s)" % ", ".join(self.expr(self.types(True), d - 2) for _ in range(r.randint(0, 4))))
        o(0.1, lambda: "c7()")
        o(0.15 * self.p["lib"], lambda: "strchr(%s, %s)" % (self.expr("str", d - 1), r.choice(["'a'", "'b'", "'z'", "'%'"])))
        o(0.15 * self.p["lib"], lambda: "stoi(%s, 10)" % self.expr("str", d - 1))
        for an in self.arrays:
            if self.vars(an):
                o(0.2 * self.p["arrayops"], lambda an=an: "%s_len(%s)" % (an, r.choice(self.vars(an))))

    def atom(self, ty, d):
        e = self.expr(ty, d)
        return e if re.fullmatch(r"[A-Za-z_0-9.]+|\w+\([^()]*\)|\"[^\"\\]*\"", e) else "(%s)" % e

    def ternary(self, c, a, b):
        if a[0] in "-([":
            c, a = "(%s)" % c, "(%s)" % a
        e = "if %s %s else %s" % (c, a, b)
        return e if self.chance(0.5) else "(%s)" % e

    def p2(self, e):
        """Parentheses around what would bind differently"""
        return e if self.simple(e) else "(%s)" % e

    def simple(self, e):
        return re.fullmatch(r"-?[A-Za-z_0-9.]+|\w+\([^()]*\)|\"[^\"\\]*\"|'.'", e) is not None

    def binint(self, d):
        r = self.r
        op = r.choice("+ + + - - - * / % & | << >>".split())
        a = self.p2(self.expr("int", d - 1))
        if op in "/%":
            b = r.choice(["1", "2", "3", "7", "10", "-1", "-2", "-3", "256"])
        elif op in ("<<", ">>"):
            a = "(%s & %s)" % (a, r.choice(["255", "1", "4095"]))
            b = str(r.randint(0, 12))
        elif op == "%":
            b = "5"
        else:
            b = self.p2(self.expr("int", d - 1))
            if op == "*" and self.chance(0.6):
                b = r.choice(["0", "1", "2", "3", "-1"])
        return "%s %s %s" % (a, op, b)

    def chainint(self, d):
        """a op b op c without parentheses: any grouping has the same types"""
        r = self.r
        s = self.p2(self.expr("int", d - 1))
        for _ in range(r.randint(2, 5)):
            op = r.choice("+ - * / % & | + -".split())
            b = r.choice(["1", "2", "3", "7", "-2"]) if op in "/%" else self.p2(self.expr("int", d - 2))
            s += " %s %s" % (op, b)
        return s

    def e_float(self, o, d):
        r = self.r
        o(1, lambda: self.lit("float"))
        o(2, lambda: "%s %s %s" % ((lambda m: (self.p2(self.expr("float" if m != 1 else "int", d - 1)), r.choice("+-*"),
                                               self.p2(self.expr("float" if m != 2 else "int", d - 1))))(r.randint(0, 2))))
        o(0.4, lambda: "%s / %s" % (self.p2(self.expr("float", d - 1)), r.choice(["2.0", "0.5", "4", "-2", "8.0"])))
        o(0.4, lambda: "float(%s)" % self.expr("int", d - 1))
        o(0.3, lambda: "-%s" % self.atom("float", d - 1))
        o(0.2 * self.p["lib"], lambda: "%s(%s)" % (r.choice(["floor", "ceil"]), self.expr("float", d - 1)))
        o(0.1, lambda: "cf()")

    def e_bool(self, o, d):
        r = self.r
        o(0.5, lambda: self.lit("bool"))
        t = lambda: r.choice(["int", "int", "int", "float"] if self.p["floats"] else ["int"])
        o(2, lambda: "%s %s %s" % (self.p2(self.expr(t(), d - 1)), r.choice(["<", ">", "<=", ">="]), self.p2(self.expr(t(), d - 1))))
        o(2, lambda: (lambda ty: "%s %s %s" % (self.p2(self.expr(ty, d - 1)), r.choice(["==", "!="]), self.p2(self.expr(ty, d - 1))))(self.types()))
        o(0.3 * self.p["anys"], lambda: "%s %s %s" % (self.p2(self.expr(self.types(), d - 1)), r.choice(["==", "!="]), self.p2(self.expr(self.types(), d - 1))))
        o(1.5, lambda: "%s %s %s" % (self.p2(self.expr("bool", d - 1)), r.choice(["&&", "||"]), self.p2(self.expr("bool", d - 1))))
        o(0.3 * self.p["chain"], lambda: (" " + r.choice(["&&", "||"]) + " ").join(self.p2(self.expr("bool", d - 2)) for _ in range(4)))
        o(0.3 * self.p["chain"], lambda: "%s %s %s %s %s" % (self.p2(self.expr("int", d - 2)), r.choice("+-*"), self.p2(self.expr("int", d - 2)), r.choice(["<", "==", ">="]), self.p2(self.expr("int", d - 2))))
        o(0.6, lambda: "!%s" % self.atom("bool", d - 1))
        o(0.1, lambda: "ct()")

    def e_str(self, o, d):
        r = self.r
        o(1, lambda: self.lit("str"))
        s = self.p["strings"]
        o(1 * s, lambda: "strcat(%s)" % ", ".join(self.expr("str", d - 1) for _ in range(r.randint(2, 4))))
        o(0.4 * s, lambda: "int_to_str(%s)" % self.expr("int", d - 1))
        o(0.3 * s, lambda: "substr(strcat(%s, \"abcd\"), %s)" % (self.expr("str", d - 1), r.choice(["0, 1", "0, -1", "1, 3", "2, 2", "3, 4", "1, -1"])))
        o(0.3 * s, lambda: "hstr(%s)" % self.expr("str", d - 1))
        o(0.1, lambda: "cs()")
        o(0.1 * s, lambda: "bytes(%s)" % ", ".join(str(r.choice([0, 1, 65, 97, 98, 255, 10])) for _ in range(r.randint(0, 5))))
        o(0.2 * self.p["lib"], lambda: "ntos(%s)" % self.expr(r.choice(["int", "float"]), d - 1))

    def e_any(self, o, d):
        r = self.r
        o(0.3, lambda: "null")
        o(1, lambda: "cast(%s, any)" % self.expr(self.types(), d - 1))
        o(1, lambda: "echo(%s)" % self.expr(self.types(), d - 1))
        o(self.p["objs"], lambda: "mk(%s)" % ", ".join(self.expr(self.types(), d - 2) for _ in range(r.randint(0, 3))))
        o(0.1, lambda: "light(%s)" % r.choice(["0", "1", "77"]))

    def e_other(self, o, d, ty):
        if ty.endswith("?"):
            b = ty[:-1]
            o(1, lambda: self.expr(b, d - 1))
            o(1, lambda: "cast(null, %s)" % ty)
        elif ty in self.structs:
            o(1.2, lambda: self.new(ty, d - 1))
            if not self.vars(ty):
                o(1, lambda: self.new(ty, d - 1))
        elif ty in self.arrays:
            o(1, lambda: "%s(%s)" % (ty, ", ".join(self.expr(self.arrays[ty], d - 1) for _ in range(self.r.randint(0, 4)))))
        elif ty == "dict":
            o(1, lambda: "dict(%s)" % ", ".join("%s, %s" % (self.key(), self.expr(self.types(), d - 1)) for _ in range(self.r.randint(0, 3))))
        elif ty == "dict_str_int":
            o(1, lambda: "dict_str_int(%s)" % ", ".join("%s, %s" % (self.lit("str"), self.expr("int", d - 1)) for _ in range(self.r.randint(0, 3))))
        elif ty.startswith("delegate_"):
            o(1, lambda: self.r.choice([m for m, x in self.delegates.items() if x[0] == ty]) + "()")
        else:
            raise Exception("type " + ty)

    def key(self):
        return self.r.choice([self.lit("str"), str(self.r.randint(0, 9)), "true"])

    def path(self, sn, d):
        """A value of the struct type which is not null"""
        return self.r.choice(self.vars(sn))

    def elem(self, an, d):
        v = self.r.choice(self.vars(an))
        i = self.r.choice(["0", "%s_len(%s) - 1" % (an, v)])
        e = "%s[%s]" % (v, i) if self.chance(0.7) else "%s_get(%s, %s)" % (an, v, i)
        return "(if %s_len(%s) > 0 %s else %s)" % (an, v, e, self.expr(self.arrays[an], d - 1))

    def new(self, ty, d):
        fs = self.structs[ty]
        es = [self.expr(t, d - 1) for _, t in fs]
        if self.chance(0.3):
            xs = [".%s = %s" % (f, e) for (f, _), e in zip(fs, es)]
            self.r.shuffle(xs)
            return "new %s{%s}" % (ty, ", ".join(xs))
        return "new %s{%s}" % (ty, ", ".join(es))

    def call(self, f, d):
        self.budget -= 1
        ts, _ = self.funcs[f]
        es = [self.arg(t, d) for t in ts]
        if es and self.chance(self.p["arrow"]) and self.simple(es[0]) and not es[0].startswith("-") and not re.match(r"[\d.]", es[0]):
            return "%s->%s(%s)" % (es[0], f, ", ".join(es[1:]))
        return "%s(%s)" % (f, ", ".join(es))

    def arg(self, t, d):
        if t == "#n":   # depth of a recursion
            return str(self.r.randint(0, 4))
        return self.expr(t, d - 1)

    # ---- statements: lists of lines
    def stmts(self, n):
        out = []
        for _ in range(n):
            out += self.stmt()
        return out

    def ind(self, ls):
        return ["    " + l for l in ls]

    def block(self, n, opener=True):
        """The lines of a block of n statements in its own scope"""
        save = dict(self.globals)
        if self.locals is not None:
            self.locals.append({})
        b = self.stmts(n)
        if self.locals is not None:
            self.locals.pop()
        else:      # such variables exist but may not be initialised
            self.globals = save
        return ["{"] + self.ind(b) + ["}"]

    def body(self, head, n):
        """head followed by a block, or by a single statement without braces"""
        if self.chance(self.p["unbraced"]) and self.locals is None or self.chance(self.p["unbraced"]):
            s = self.simple_stmt()
            return [head] + self.ind(s)
        b = self.block(n)
        return [head + " {"] + b[1:]

    def simple_stmt(self):
        r = self.r
        for _ in range(5):
            k = r.random()
            if k < 0.5:
                return self.s_emit()
            s = self.s_assign()
            if s:
                return s
        return ["emit()"]

    def s_emit(self):
        r = self.r
        if self.chance(0.15):
            t = r.choice(["int", "bool", "str", "float"])
            return ["e%s(%s)" % (t[0], self.expr(t))]
        n = r.choice([1, 1, 1, 2, 3])
        return ["emit(%s)" % ", ".join(self.expr(self.types()) for _ in range(n))]

    def declare(self, n, ty, assign=True):
        if self.locals is None:
            self.globals[n] = ty
            if not assign:
                self.hidden.add(n)
        else:
            self.locals[-1][n] = (ty, assign)

    def name(self):
        """A new name, or one which hides another variable"""
        if self.locals is not None and self.chance(self.p["shadow"]):
            used = set(n for sc in self.locals[1:] for n in sc)
            c = [n for n in list(self.globals) + list(self.locals[0]) if n not in used and self.locals[0].get(n, (0, 1))[1]]
            if c:
                return self.r.choice(c)
        return self.fresh("g" if self.locals is None else "v")

    def s_decl(self, ty=None):
        ty = ty or self.types()
        e = self.expr(ty)
        n = self.name()
        if self.locals is not None and any(n in sc for sc in self.locals[1:]):
            n = self.fresh()
        if re.search(r"\b%s\b" % n, e):
            n = self.fresh("g" if self.locals is None else "v")
        self.declare(n, ty)
        if self.chance(0.3) or ty == "any":
            return ["%s: %s = %s" % (n, ty, e)]
        return ["%s := %s" % (n, e)]

    def s_assign(self):
        r = self.r
        opts = []
        for t in ["int"] * 4 + ["float", "bool", "str", "any"] + list(self.structs) + list(self.arrays):
            for v in self.vars(t, True):
                opts.append((t, v))
        for sn, fs in self.structs.items():
            for v in self.vars(sn):
                for f, t in fs:
                    opts.append((t, "%s.%s" % (v, f)))
        if not opts:
            return None
        t, v = r.choice(opts)
        if t == "int" and self.chance(0.5):
            op = r.choice(["+=", "-=", "+=", "*=", "%=", "|=", "&=", "/="])
            e = r.choice(["1", "2", "3", "5", "7"]) if op in ("*=", "/=", "%=") else self.expr("int")
            return ["%s %s %s" % (v, op, e)]
        if t == "float" and self.chance(0.4):
            return ["%s %s %s" % (v, r.choice(["+=", "-="]), self.expr("float"))]
        return ["%s = %s" % (v, self.expr(t))]

    def s_if(self, d):
        c = self.expr("bool")
        out = self.body("if %s" % c, self.r.randint(0, d))
        if self.chance(0.5):
            if self.chance(0.3):
                e = self.s_if(d - 1) if d > 0 else self.body("if %s" % self.expr("bool"), 1)
                return out + ["else " + e[0]] + e[1:]
            if out[-1] == "}":
                e = self.body("else", self.r.randint(0, d))
                return out[:-1] + ["} " + e[0]] + e[1:]
            return out + self.body("else", self.r.randint(0, d))
        return out

    def jump(self):
        return ["if %s { %s }" % (self.expr("bool", 1), self.r.choice(["break", "continue"]))]

    def loopbody(self, n):
        """The lines of the body of a loop"""
        self.loop += 1
        save = self.budget
        self.budget = min(self.budget, 1 if self.loop < 2 else 0)
        saved = dict(self.globals)
        if self.locals is not None:
            self.locals.append({})
        out = []
        for _ in range(n):
            out += self.stmt()
            if self.chance(0.3):
                out += self.jump()
            if self.chance(0.06):
                out += [self.r.choice(["break", "continue"])]
        if self.locals is not None:
            self.locals.pop()
        else:
            self.globals = saved
        self.loop -= 1
        self.budget = max(0, save - 1)
        return out

    def s_while(self):
        i = self.fresh("k")
        self.declare(i, "int", False)
        k = self.r.randint(0, self.p["loopmax"])
        cond = "%s < %d" % (i, k)
        if self.chance(0.3):
            cond = "%s && %s" % (cond, self.p2(self.expr("bool", 1)))
        b = self.loopbody(self.r.randint(0, 3))
        return ["%s := 0" % i, "while %s {" % cond] + self.ind(["%s += 1" % i] + b) + ["}"]

    def s_for(self):
        i = self.fresh("i")
        k = self.r.randint(0, self.p["loopmax"])
        if self.locals is not None:
            self.locals.append({i: ("int", False)})
        else:
            self.declare(i, "int", False)
        if self.chance(0.6):
            h = "for %s := 0; %s < %d; %s += 1" % (i, i, k, i)
        else:
            h = "for %s := %d; %s > 0; %s -= 1" % (i, k, i, i)
        b = self.loopbody(self.r.randint(0, 3))
        if self.locals is not None:
            self.locals.pop()
        return [h + " {"] + self.ind(b) + ["}"]

    def s_array(self):
        r = self.r
        an = r.choice(list(self.arrays))
        vs = self.vars(an)
        if not vs:
            return self.s_decl(an)
        v = r.choice(vs)
        t = self.arrays[an]
        x = r.random()
        if x < 0.35:
            return ["%s_push(%s, %s)" % (an, v, self.expr(t))]
        if x < 0.45:
            return ["if %s_len(%s) > 0 { emit(%s_%s(%s)) }" % (an, v, an, r.choice(["pop", "shift"]), v)]
        if x < 0.55:
            return ["if %s_len(%s) > 1 { %s[%s] = %s }" % (an, v, v, r.choice(["0", "1", "%s_len(%s) - 1" % (an, v)]), self.expr(t))]
        if x < 0.65:
            return ["if %s_len(%s) > 1 { %s_insert(%s, %s, %s) }" % (an, v, an, v, r.choice("01"), self.expr(t))]
        if x < 0.72:
            return ["if %s_len(%s) > 1 { %s_remove(%s, %s) }" % (an, v, an, v, r.choice("01"))]
        if x < 0.77:
            return ["%s_resize_fill(%s, %d, %s)" % (an, v, r.randint(0, 9), self.expr(t))]
        if x < 0.80:
            return ["%s_clear(%s)" % (an, v)]
        if t == "int" and x < 0.88:
            return ["%s_sort(%s)" % (an, v)]
        if t == "int" and x < 0.94:
            return ["if %s_len(%s) > 0 { %s[0] %s %s }" % (an, v, v, r.choice(["+=", "-=", "*="]), r.choice(["1", "2", "3"]))]
        return ["look(%s)" % v]

    def s_dict(self):
        r = self.r
        vs = self.vars("dict")
        if not vs:
            return self.s_decl("dict")
        v = r.choice(vs)
        x = r.random()
        if x < 0.5:
            return ["dict_put(%s, %s, %s)" % (v, self.key(), self.expr(self.types()))]
        if x < 0.6:
            return ["dict_remove(%s, %s)" % (v, self.key())]
        if x < 0.7:
            return ["%s[\"k%d\"] = %s" % (v, r.randint(0, 3), self.expr(self.types()))]
        if x < 0.8:
            return ["emit(dict_exists(%s, %s))" % (v, self.key())]
        if x < 0.85:
            return ["look(dict_keys(%s))" % v]
        return ["emit(dict_get(%s, %s))" % (v, self.key())]

    def stmt(self, depth=None):
        r = self.r
        infn = self.locals is not None
        nest = self.loop
        opts = [(2.5, self.s_emit), (2, self.s_assign)]
        if infn or nest == 0 and True:
            opts.append((1.5, self.s_decl))
        self.deep = getattr(self, "deep", 0)
        if self.deep < 3:
            opts.append((1.2 * self.p["ifs"], lambda: self.s_if(2)))
            if nest < 2 and self.p["loops"]:
                opts.append((0.6 * self.p["loops"], self.s_while))
                opts.append((0.8 * self.p["loops"], self.s_for))
            opts.append((self.p["blocks"], lambda: self.block(r.randint(0, 3))))
        if self.arrays and self.p["arrayops"]:
            opts.append((1.0 * self.p["arrayops"], self.s_array))
        if self.p["dicts"]:
            opts.append((self.p["dicts"], self.s_dict))
        fs = [f for f in self.callable]
        if fs and self.budget > 0:
            opts.append((0.8 * self.p["calls"], lambda: [self.call(r.choice(fs), 2)]))
        if infn and self.infunc is not None and self.chance(0.5):
            opts.append((0.4, self.s_return))
        if self.p["printf"]:
            opts.append((self.p["printf"], self.s_printf))
        if self.p["callback"] and fs and self.budget > 0:
            opts.append((self.p["callback"], self.s_callback))
        if self.p["gets"] and self.globals:
            opts.append((self.p["gets"], self.s_gets))
        if self.delegates and self.p["delegates"] and self.budget > 0:
            opts.append((self.p["delegates"], self.s_delegate))
        if self.p["consts"] and not infn and nest == 0 and self.deep == 0:
            opts.append((0.3 * self.p["consts"], self.s_const))
        w = r.random() * sum(o[0] for o in opts)
        self.deep += 1
        try:
            for wt, f in opts:
                w -= wt
                if w <= 0:
                    return f() or self.s_emit()
            return self.s_emit()
        finally:
            self.deep -= 1

    def s_const(self):
        t = self.r.choice(["int", "str", "bool", "float"])
        l = self.lit(t)
        if l.startswith("-"):
            l = l[1:]
        n = self.fresh("C")
        self.consts[n] = (t, l)
        return ["%s :: %s" % (n, l)]

    def s_printf(self):
        r = self.r
        f, a = "", []
        for _ in range(r.randint(0, 4)):
            k = r.choice(["%i", "%s", "%q", "%%", "x ", "\\n", "%f", "%c"])
            f += k
            if k == "%i":
                a.append(self.expr("int", 1))
            elif k == "%s":
                a.append(self.expr("str", 1))
            elif k == "%f":
                a.append(self.expr("float", 1))
            elif k == "%c":
                a.append(str(r.randint(32, 126)))
            elif k == "%q":
                a.append(self.expr(self.types(), 1))
        return ["printf(%s)" % ", ".join(['"%s"' % f] + a)]

    def s_callback(self):
        """A call of a function by the host, from a foreign function"""
        self.budget -= 1
        f = self.r.choice(self.callable)
        ts, ret = self.funcs[f]
        c = "call(%s)" % ", ".join(['"%s"' % f] + [self.arg(t, 2) for t in ts])
        x = self.r.random()
        if ret == "void" or x < 0.2:
            return [c]
        if x < 0.6:
            return ["emit(%s, %s, %s)" % (self.expr(self.types(), 1), c, self.expr(self.types(), 1))]
        return self.s_decl() if ret == "void" else ["emit(cast(%s, %s) == %s)" % (c, ret, self.p2(self.expr(ret, 1)))]

    def s_gets(self):
        n = self.r.choice(list(self.globals))
        t = self.globals[n]
        if self.chance(0.4) and n not in self.hidden:
            return ["hsetg(\"%s\", %s)" % (n, self.expr(t))]
        return ["emit(hgetg(\"%s\"))" % n]

    def s_delegate(self):
        self.budget -= 1
        m = self.r.choice(list(self.delegates))
        ty, ts, ret = self.delegates[m]
        c = "%s_call(%s)" % (ty, ", ".join(["%s()" % m] + [self.arg(t, 2) for t in ts]))
        return [c] if ret == "void" else ["emit(%s)" % c]

    def s_return(self):
        if self.infunc == "void":
            return ["if %s { return; }" % self.expr("bool", 1)]
        return ["if %s { return %s }" % (self.expr("bool", 1), self.expr(self.infunc, 1))]

    # ---- declarations
    def struct(self):
        n = self.fresh("S")
        fs = []
        nf = self.r.randint(1, 5)
        self.structs[n] = []
        for i in range(nf):
            t = self.types()
            if t == n:
                t = n + "?"
            if t != n + "?" and self.chance(0.2):
                t = n + "?"
            fs.append(("f%d" % i if self.chance(0.5) else self.fresh("x"), t))
        self.structs[n] = fs
        return ["struct %s {" % n] + self.ind("%s: %s" % f for f in fs) + ["}"]

    def array(self, et=None):
        n = self.fresh("ar")
        et = et or self.r.choice(["int", "int", "str", "float", "bool", "any"] + list(self.structs))
        self.arrays[n] = et
        return ['use array("%s") as %s' % (et, n)]

    def func(self, name=None, params=None, ret=None):
        r = self.r
        n = name or self.fresh("f")
        rec = params is None and self.chance(self.p["recursion"])
        ps = [(self.fresh("a"), self.types()) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))] if params is None else params
        if self.chance(self.p["shadow"]) and self.globals and ps and not rec and params is None:
            ps[0] = (r.choice(list(self.globals)), ps[0][1])
        ret = ret or (self.types() if self.chance(0.75) else "void")
        if rec:
            ps = [(self.fresh("n"), "#n")] + ps
        save = (self.locals, self.infunc, self.loop, self.budget)
        self.locals = [{p: ("int" if t == "#n" else t, t != "#n") for p, t in ps}, {}]
        self.infunc, self.loop, self.budget = ret, 0, 2
        body = []
        if rec:
            body += ["if %s <= 0 { %s }" % (ps[0][0], "return;" if ret == "void" else "return %s" % self.expr(ret, 1))]
        body += self.stmts(r.randint(0, self.p["fstmts"]))
        if rec:
            c = "%s(%s)" % (n, ", ".join([ps[0][0] + " - 1"] + [self.expr(t, 1) for _, t in ps[1:]]))
            if ret == "void":
                body += [c]
            else:
                v = self.fresh()
                body += ["%s := %s" % (v, c)] if ret != "any" else ["%s: any = %s" % (v, c)]
                self.locals[-1][v] = (ret, True)
        if ret != "void":
            body += ["return %s" % self.expr(ret)]
        self.locals, self.infunc, self.loop, self.budget = save
        self.funcs[n] = ([t for _, t in ps], ret)
        self.callable.append(n)
        head = "func %s(%s)%s" % (n, ", ".join("%s: %s" % (p, "int" if t == "#n" else t) for p, t in ps), "" if ret == "void" else ": " + ret)
        return [head, "{"] + self.ind(body) + ["}"]

    def delegate(self, f):
        ts, ret = self.funcs[f]
        if any(t == "#n" or t.endswith("?") for t in ts):
            return []
        m = self.fresh("mk_d")
        ty = "delegate_%s_%s" % ("_".join(ts), ret)
        self.delegates[m] = (ty, ts, ret)
        return ['use delegate("%s") as %s' % (f, m)]

    def many(self, x):
        k = int(x)
        return k + (1 if self.chance(x - k) else 0)

    def program(self):
        """The lines of one source"""
        r = self.r
        out = []
        for _ in range(self.many(self.p["structs"])):
            out += self.struct()
        for _ in range(self.many(self.p["arrays"])):
            out += self.array()
        self.budget = 6
        nf = self.many(self.p["funcs"])
        n = self.p["stmts"]
        fpos = sorted(r.randint(0, max(0, n // 2)) for _ in range(nf))
        dl = []
        for i in range(n):
            while fpos and fpos[0] <= i:
                fpos.pop(0)
                out += self.func()
                if self.p["delegates"] and self.chance(0.5):
                    dl += self.delegate(list(self.funcs)[-1])
            if i == n // 2 and dl:
                out += dl
            self.budget = max(self.budget, 1)
            out += self.stmt()
        return out

    def source(self):
        return "\n".join(self.program()) + "\n"


# ---- layout
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\\])\'|//[^\n]*|\.\.\.|&&|\|\||:=|::|[-+*/%|&=!<>]=|->|<<|>>|\d[0-9a-zA-Z.]*|[A-Za-z_]\w*|[^\s]', re.S)


def tokens(src):
    return [t for t in TOK.findall(src) if not t.startswith("//")]


def glue(a, b):
    """Whether two tokens may stand next to each other"""
    if (a[-1].isalnum() or a[-1] in "_.") and (b[0].isalnum() or b[0] in "_."):
        return False
    return (a[-1] + b[0]) not in ("&&", "||", ":=", "::", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "==", "!=", "<=", ">=", "->", "<<", ">>", "//", "..")


def layout(rng, toks, density=0.3):
    """The tokens with any white space and comments between them"""
    out = []
    prev = None
    for t in toks:
        if prev is not None:
            x = rng.random()
            if x < 0.25 and glue(prev, t):
                s = ""
            elif x < 1 - density:
                s = " "
            else:
                s = "".join(rng.choice([" ", "\n", "\t", "  ", "\n\n", " // c\n", "//\n", "\r\n", " // \"q ' { if\n", "\n // x // y\n", "\v", "\f"]) for _ in range(rng.randint(1, 3)))
            out.append(s)
        out.append(t)
        prev = t
    return "".join(out)
