#!/usr/bin/env python3
"""mutate.py OUT [--files a.c,b.c] [--sample N] [--only FILE:LINE,...]: a survey of what the generated histories can see.

Makes small changes to the library, one at a time, in scratch copies, runs the scripts of every check and compares the
recorded histories with those of the unchanged library. A change no history shows is a survivor: it changes nothing
that can be observed, or the generators do not reach it. No check depends on this."""
import json, os, random, re, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, cases
V = vlib.VERIF
SRC = "/repo/tiny/src"
INC = "/repo/tiny/include"
FLAGS = ["-std=gnu11", "-g", "-O0", "-fno-omit-frame-pointer", "-w"]
SAN = ["-fsanitize=address"] if "--asan" in sys.argv else []
FLAGS += SAN
WRAP = "-Wl,--wrap=malloc,--wrap=realloc,--wrap=free,--wrap=calloc,--wrap=strdup"
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0")


def mutants(f):
    out = []
    src = open(os.path.join(SRC, f)).read().split("\n")
    incomment = False
    for n, l in enumerate(src):
        s = l.strip()
        if s.startswith("assert(") or s.startswith("//") or not s or s.startswith("#") or s.startswith("*") or s.startswith("/*"):
            continue
        code = l.split("//")[0]
        # where strings are
        mask = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: "\0" * len(m.group()), code)

        def add(a, b, new):
            out.append((f, n, code[:a] + new + code[b:]))
        for m in re.finditer(r"(?<![<>=!\-])(<=|>=|==|!=|<|>)(?![<>=])", mask):
            o = m.group()
            for w in {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[o]:
                if " " + o + " " in mask[m.start() - 1:m.end() + 1]:
                    add(m.start(), m.end(), w)
        for m in re.finditer(r"&&|\|\|", mask):
            add(m.start(), m.end(), "||" if m.group() == "&&" else "&&")
        for m in re.finditer(r" ([+\-*/%]) ", mask):
            add(m.start() + 1, m.start() + 2, {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[m.group(1)])
        for m in re.finditer(r"\+\+|--", mask):
            add(m.start(), m.end(), "--" if m.group() == "++" else "++")
        for m in re.finditer(r"(\+|-)= ", mask):
            add(m.start(), m.start() + 1, "-" if m.group(1) == "+" else "+")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", mask):
            v = int(m.group())
            add(m.start(), m.end(), str(v + 1))
            if v > 1:
                add(m.start(), m.end(), str(v - 1))
        for m in re.finditer(r"\b(true|false)\b", mask):
            add(m.start(), m.end(), "false" if m.group() == "true" else "true")
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) .*|\))$", mask)
        if m and mask.count("(") == mask.count(")"):
            a, b = m.start(2), m.end(2)
            # the condition ends where the parentheses balance
            d, e = 0, a
            while e < len(mask) and d >= 0:
                d += {"(": 1, ")": -1}.get(mask[e], 0)
                e += 1
            e -= 1
            add(a, e, "0 && (" + code[a:e] + ")")
            add(a, e, "1 || (" + code[a:e] + ")")
        if re.match(r"^\s*[A-Za-z_*(+\-].*;\s*$", mask) and mask.count("(") == mask.count(")") and not re.match(r"^\s*(static |const |struct |typedef |extern )", mask):
            if not re.match(r"^\s*[A-Za-z_][\w ]*[ *]+\w+( = .*)?;\s*$", mask) or re.match(r"^\s*(return|goto)\b", mask):
                out.append((f, n, re.match(r"\s*", code).group() + ";"))
    return out


def build(d, f, n, new):
    lines = open(os.path.join(SRC, f)).read().split("\n")
    lines[n] = new
    p = os.path.join(d, f)
    with open(p, "w") as h:
        h.write("\n".join(lines))
    r = subprocess.run(["gcc", *FLAGS, "-I" + INC, "-I" + SRC, "-c", p, "-o", d + "/m.o"], capture_output=True)
    if r.returncode:
        return False
    base = os.path.join(os.path.dirname(d), "base")
    objs = [os.path.join(base, o) for o in os.listdir(base) if o.endswith(".o") and o != f[:-2] + ".o"]
    r = subprocess.run(["gcc", *SAN, WRAP, "-o", d + "/h", *objs, d + "/m.o", "-lm"], capture_output=True)
    return r.returncode == 0


def run(exe, script, d, timeout="2"):
    s = os.path.join(d, "s")
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s)
    out = os.path.join(d, "out")
    if os.path.exists(out):
        os.unlink(out)
    try:
        subprocess.run([exe, script, out, s, timeout], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
    except subprocess.TimeoutExpired:
        return None
    return open(out, "rb").read() if os.path.exists(out) else b""


def one(job):
    """Verdict, first case which differs, up to 5 histories which differ"""
    k, m, work, shards = job
    d = os.path.join(work, "m%d" % k)
    os.makedirs(d)
    try:
        if not build(d, *m):
            return k, "no build", "", []
        for i, (script, base) in enumerate(shards):
            got = run(d + "/h", script, d)
            want = open(base, "rb").read()
            if got != want and b'"e":"timeout"' in (got or b"timeout"):
                got = run(d + "/h", script, d, "20") or b""
            if got != want:
                b = {x.split(b'"')[3]: x for x in want.split(b"\n") if x}
                diff = [x for x in (got or b"").split(b"\n") if x and b.get(x.split(b'"')[3]) != x]
                diff = [x.decode("latin-1") for x in diff if len(x) < 100000]
                return k, "seen", diff[0].split('"')[3] if diff else "?", diff[:5]
        return k, "SURVIVES", "", []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(part, work):
    """Which of the mutants are rejected by the specification: part: k -> histories"""
    hist = {}
    for k, ls in part.items():
        for n, l in enumerate(ls):
            i = "m%d-%d" % (k, n)
            l = re.sub(r'^\{"id":"[^"]*"', '{"id":"%s"' % i, l)
            try:
                json.loads(l)
            except ValueError:
                l = '{"id":"%s","ev":[{"e":"crash"}]}' % i
            hist[i] = l
    verdict = {k: "ACCEPTED" for k in part}
    for _ in range(12):
        res, st, raw = vlib.validate(hist, work, timeout=500)
        again = {}
        for o, ids in raw:
            fine = "Model checking completed" in o
            m = re.findall(r"/?\\?\s*cid = (\d+)", o)
            for i in ids:
                k = int(i[1:].split("-")[0])
                if fine:
                    if res.get(i, ["REJ"])[0] == "REJ":
                        verdict[k] = "rejected"
                elif m and i == ids[int(m[-1]) - 1]:
                    verdict[k] = "rejected"
                else:
                    again[i] = hist[i]
        hist = {i: l for i, l in again.items() if verdict[int(i[1:].split("-")[0])] != "rejected"}
        if not hist:
            break
    return verdict


def main():
    out = sys.argv[1]
    opt = dict(a[2:].split("=", 1) for a in sys.argv[2:] if a.startswith("--") and "=" in a)
    files = opt.get("files", "tiny.c,std.c,lexer.c,array.c,dict.c,pos.c,util.c,arena.c").split(",")
    ms = [m for f in files for m in mutants(f)]
    if "only" in opt:
        w = set(opt["only"].split(","))
        ms = [m for m in ms if "%s:%d" % (m[0], m[1] + 1) in w]
    if "lines" in opt:
        w = set(open(opt["lines"]).read().split())
        ms = [m for m in ms if "%s:%d" % (m[0], m[1] + 1) in w]
    if "sample" in opt:
        random.Random(int(opt.get("seed", 1))).shuffle(ms)
        ms = ms[:int(opt["sample"])]
    work = tempfile.mkdtemp(prefix="mut-")
    try:
        base = os.path.join(work, "base")
        os.makedirs(base)
        for f in sorted(os.listdir(SRC)):
            if f.endswith(".c"):
                subprocess.check_call(["gcc", *FLAGS, "-I" + INC, "-I" + SRC, "-c", os.path.join(SRC, f), "-o", os.path.join(base, f[:-2] + ".o")])
        subprocess.check_call(["gcc", *FLAGS, "-I" + INC, "-I" + SRC, "-c", V + "/harness/tinyh.c", "-o", base + "/tinyh.h.o"])
        os.makedirs(work + "/b0")
        exe = work + "/b0/h"
        subprocess.check_call(["gcc", *SAN, WRAP, "-o", exe, *[os.path.join(base, o) for o in os.listdir(base)], "-lm"])
        props = opt["props"].split(",") if "props" in opt else [l.strip() for l in open(V + "/tools/claimed") if l.strip()]
        cs = []
        for p in props:
            try:
                # how deep a source may nest depends on the stack and on the time
                cs += [(p, c) for c in cases.generate(p, int(opt.get("caseseed", 1))) if "nest" not in c.id]
            except KeyError:
                pass
        random.Random(5).shuffle(cs)
        shards, i, size = [], 0, 10
        while i < len(cs):
            s = os.path.join(work, "s%d" % len(shards))
            part = cs[i:i + size]
            while True:
                with open(s, "w") as h:
                    for p, c in part:
                        h.write(c.text())
                b, b2 = run(exe, s, work + "/b0"), run(exe, s, work + "/b0")
                if b == b2:
                    break
                bad = {re.match(rb'\{"id":"([^"]*)"', x).group(1).decode() for x, y in zip(b.split(b"\n"), b2.split(b"\n")) if x != y}
                print("not the same twice:", *bad, flush=True)
                part = [(p, c) for p, c in part if c.id not in bad]
            open(s + ".want", "wb").write(b)
            shards.append((s, s + ".want"))
            i += size
            size = min(size * 4, 1000)
        print(len(ms), "mutants", len(cs), "cases", len(shards), "shards", flush=True)
        t = time.time()
        n = {}
        with ProcessPoolExecutor(8) as ex, open(out, "w") as h:
            pend = {}

            def flush():
                v = judge(pend, work + "/judge") if pend else {}
                for k in v:
                    n[v[k]] = n.get(v[k], 0) + 1
                    h.write("%s\t%s:%d\t%s\t%s\n" % (v[k], ms[k][0], ms[k][1] + 1, ms[k][2].strip(), pend[k][0].split('"')[3]))
                h.flush()
                pend.clear()
            for k, v, why, diff in ex.map(one, [(k, m, work, shards) for k, m in enumerate(ms)]):
                if v == "seen" and diff and "--validate" in sys.argv:
                    pend[k] = diff
                    if len(pend) >= 120:
                        flush()
                    continue
                n[v] = n.get(v, 0) + 1
                h.write("%s\t%s:%d\t%s\t%s\n" % (v, ms[k][0], ms[k][1] + 1, ms[k][2].strip(), why))
                h.flush()
            flush()
        print(n, "%.0f s" % (time.time() - t))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
