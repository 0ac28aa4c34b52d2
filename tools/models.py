"""Checks of single properties which need more than the histories of tools/cases.py."""
import itertools, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vlib


def deep_list(ck, tier):
    """A chain of 200000 objects which are reachable only through each other (too long for the specification to follow,
    so that only the last event is compared: the chain has the length it was built with)."""
    n = 200000
    c = vlib.Case(ck.prop.lower() + "-deeplist", ["deep", "deeplist"]).state()
    c.compile("struct L { n: any v: int }\nh: any = null\nfor i := 0; i < %d; i += 1 { h = new L{h, i} }\nk := 0\n"
              "while h != null { k += 1\nh = cast(h, L).n }\nemit(k)\n" % n)
    c.add("thread 0 0").add("start 0").add("run 0").add("destroy 0").add("delstate 0").add("mem")
    h = vlib.run_harness(ck.exe, [c], ck.work, timeout=60, jobs=1)[c.id]
    ck.total += 1
    try:
        ev = json.loads(h)["ev"]
    except ValueError:
        ev = []
    if not any(e["e"] == "compile" and e["ok"] for e in ev):
        raise RuntimeError("the program of the deep list is rejected")
    if not any(e["e"] == "c" and str(n) in json.dumps(e) for e in ev) or ev[-1]["e"] != "mem":
        ck.violation(c, "a chain of %d objects is lost: %s" % (n, json.dumps(ev[-1])[:300]), None, len(ev))
    else:
        ck.count["ok"] += 1


# ---------------------------------------------------------------------------------- the C interface
def build_c(ck):
    out = os.path.join(ck.work, "hc")
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "tinyc")
    r = os.environ.get("TINY_REPO", "/repo") + "/tiny"
    cmd = "gcc -std=gnu11 -g -O1 -w -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined -I%s/include -I%s/src -o %s %s/harness/tinyc.c %s/src/*.c -lm" % (r, r, exe, vlib.VERIF, r)
    p = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("harness/tinyc.c does not build: " + p.stderr[-2000:])
    return exe


def drive_c(ck, exe, cases):
    """cases: id -> lines. Histories, by id; a case which ends the process has an event "crash" at its end."""
    hist, todo, n = {}, list(cases), 0
    d = os.path.join(ck.work, "hc")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    while todo and n < 8:
        n += 1
        with open(d + "/script", "w") as f:
            for i in todo:
                f.write("case %s\n%s\nend\n" % (i, "\n".join(cases[i])))
        try:
            r = subprocess.run([exe, d + "/script", d + "/out"], env=env, capture_output=True, timeout=200)
            how = "exit %d" % r.returncode
        except subprocess.TimeoutExpired:
            how = "timeout"
        done = set()
        for l in open(d + "/out", encoding="latin-1").read().split("\n"):
            if not l:
                continue
            i = re.match(r'\{"id":"([^"]*)"', l).group(1)
            done.add(i)
            if not l.endswith("]}") or l.count("{") != l.count("}"):
                # the process ended in the middle of an event
                k = l.rfind(',{"e"') if ',{"e"' in l else l.find('{"e"')
                l = (l[:k] + ("," if l[k] == "," else "") if k >= 0 else l) + json.dumps({"e": "crash", "how": how, "in": l[k + 1:][:200]}) + "]}"
            hist[i] = l
        todo = [i for i in todo if i not in done]
    return hist


def check_c(ck, module, cases, fam):
    exe = getattr(ck, "exe_c", None) or build_c(ck)
    ck.exe_c = exe
    fams = {i: c[0] if fam is None else fam for i, c in cases.items()}
    if fam is None:
        cases = {i: c[1] for i, c in cases.items()}
    hist = drive_c(ck, exe, cases)
    res, st, raw = vlib.validate(hist, os.path.join(ck.work, "vc"), module=module)
    ck.trans += st[0]
    ck.states += st[1]
    for i in cases:
        ck.total += 1
        ck.fams.setdefault(fams[i], [0, 0])[0] += 1
        v = res.get(i)
        c = vlib.Case(ck.prop.lower() + "-" + i)
        c.lines = ["c " + x for x in cases[i]]
        if i not in hist:
            ck.undecided += 1
        elif v and v[0] == "ok":
            ck.count["ok"] += 1
            ck.steps += v[1]
            ck.nontrivial.add(hash(re.sub(r'"id":"[^"]*"', "", hist[i])))
            if len(ck.samples) < 3:
                ck.samples.append({"case": i, "operations": cases[i][:15], "events": hist[i].count('"e":')})
        elif not v or (v[0] == "REJ" and not v[2]):
            o = [o for o, ids in raw if i in ids][0]
            if "Error:" in o and "TIMEOUT" not in o:
                k = o.find("Error:")
                if len(ck.violations) < 3:
                    ck.violation(c, "the specification cannot follow the history: " + " ".join(o[k:k + 500].split()), hist[i][:200000], None)
            else:
                ck.undecided += 1
        elif len(ck.violations) < 3:
            ev = vlib.rejected_event(hist[i], v[2])
            ck.violation(c, "event %d of the history is none which the specification allows: %s" % (v[2], json.dumps(ev)[:500]), hist[i][:200000], v[2])


def generated(ck, name, consts, depth, random=0, seed=1, timeout=600):
    """Sequences of operations, from TLC: all of a depth, or random ones"""
    d = os.path.join(ck.work, "gen-%s-%d-%d" % (name, depth, seed))
    c = dict(Kind='"%s"' % name, Depth=str(depth), Random="TRUE" if random else "FALSE", Base="{0, 1, 3}", Vals="{3}", Keys="{1}", Sizes="{1}", Aligns="{1}", Objs="{1}")
    c.update(consts)
    # sets as definitions, for intervals
    cfg = "CONSTANTS\n" + "".join(" %s = %s\n" % (k, v) for k, v in c.items() if k in ("Kind", "Depth", "Random")) + "".join(" %s <- c%s\n" % (k, k) for k in c if k not in ("Kind", "Depth", "Random")) + "INIT Init\nNEXT Next\n"
    os.makedirs(d, exist_ok=True)
    more = {"GenMC.tla": "---- MODULE GenMC ----\nEXTENDS ContainersGen\n" + "".join("c%s == %s\n" % (k, v) for k, v in c.items() if k not in ("Kind", "Depth", "Random")) + "====\n"}
    o = vlib.tlc("GenMC", cfg, d, more=more, extra=(("-simulate", "num=%d" % random, "-depth", str(depth + 1), "-seed", str(seed)) if random else ()), timeout=timeout)
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct", o)
    if m:
        ck.trans += int(m.group(1))
        ck.states += int(m.group(2))
    seqs = []
    for m in re.finditer(r'<<\s*"SEQ",\s*(<<.*?>>)\s*>>\s*\n(?=<<\s*"SEQ"|\S)', o + "\nX", re.S):
        ops = []
        for q in re.finditer(r'<<\s*"(\w+)",\s*(\d+),\s*(-?\d+),\s*(-?\d+),\s*<<([-\d,\s]*)>>\s*>>', m.group(1)):
            ops.append("%s %s %s %s %s" % (q.group(1), q.group(2), q.group(3), q.group(4), " ".join(q.group(5).replace(",", " ").split())))
        if len(ops) != depth:
            raise RuntimeError("unreadable behaviour: " + m.group(0)[:300])
        seqs.append([x.strip() for x in ops])
    if not seqs:
        raise RuntimeError("TLC generates nothing: " + o[-1500:])
    return seqs


END = {"a": "afree", "d": "dfree", "r": "rfree"}


def closed(seq):
    """A sequence of operations and the end of what it leaves"""
    live = {}
    for l in seq:
        w = l.split()
        if w[0] in ("ainit", "dinit", "rinit"):
            live[w[1]] = w[0][0]
        elif w[0] in ("afree", "dfree", "rfree"):
            live.pop(w[1], None)
    return seq + ["%s %s 0 0" % (END[k], x) for x, k in live.items()]


def containers(ck, tier):
    deep = tier == "thorough"
    t0 = time.time()
    some = "{1, 2, 1000, 1001, 1005, 1031, 1032, 1033, 1064, 1095, 531, 532, 100, 200, 101, 201, 102, 300, 301, 304, 335}"
    many = "(1000..1040) \\cup (100..139) \\cup (200..219) \\cup {1, 2, 1064, 1096, 1128, 1063, 1127, 500, 501, 533, 300, 304, 308, 331, 335, 339}".replace("500, ", "")
    jobs = []

    def all_of(name, depth, **k):
        seqs = generated(ck, name, k, depth)
        cs = {}
        n = 60
        for i in range(0, len(seqs), n):
            cs["all-%s-%d" % (name, i)] = [l for s in seqs[i:i + n] for l in closed(s)]
        ck.extra.setdefault("every_sequence_of_operations", {})["%s, depth %d" % (name, depth)] = len(seqs)
        jobs.append(("ContainersTrace", cs, "all-" + name))

    def some_of(name, num, depth, seed, **k):
        seqs = generated(ck, name, k, depth, random=num, seed=seed)
        cs = {"random-%s-%d-%d" % (name, seed, i): closed(s) for i, s in enumerate(seqs)}
        jobs.append(("ContainersTrace", cs, "random-" + name))

    big = "{0, 1, 2, 3, 5, 7, 8, 12, 16, 24, 31, 64, 100, 500, 1000, 2000, 2040, 4000, 4064, 4090, 4095, 4096, 4097, 5000, 9000}"
    work = [lambda: all_of("array", 5 if deep else 4), lambda: all_of("dict", 7 if deep else 5, Keys="{1031, 1063, 1000, 1095}" if not deep else "{1031, 1063, 1000}", Vals="{3}"),
            lambda: all_of("arena", 4, Sizes="{0, 1, 8, 2040, 4080, 4096, 4097}" if deep else "{1, 8, 4080, 4097}", Aligns="{1, 8, 16}")]
    r = ck.seed * 97
    n = 1
    while True:
        s = r + n * 10
        work += [lambda s=s: some_of("array", 40, 150, s, Vals="3..60", Base="{0, 1, 2, 7, 8, 9, 20}"),
                 lambda s=s: some_of("dict", 40, 120, s + 1, Keys="(%s)" % (some if s % 20 else many), Vals="3..60"),
                 lambda s=s: some_of("dict", 20, 200, s + 2, Keys="(%s)" % many, Vals="3..60"),
                 lambda s=s: some_of("arena", 40, 60, s + 3, Sizes=big, Aligns="{1, 2, 4, 8, 16}"),
                 lambda s=s: some_of("mix", 30, 120, s + 4, Objs="1..3", Keys="(%s)" % some, Vals="3..60", Sizes=big, Aligns="{1, 2, 4, 8, 16}")]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda f: f(), work))
        check_c(ck, "ContainersTrace", {i: (f, c) for _, cs, f in jobs for i, c in cs.items()}, None)
        work.clear()
        jobs.clear()
        n += 1
        if not deep or time.time() - t0 > ck.limit * 0.8 or ck.violations:
            break


def positions(ck, tier):
    rng = random.Random(ck.seed)
    deep = tier == "thorough"
    texts = [bytes(t) for n in range(0, 9 if deep else 8) for t in itertools.product(b"a\n\r", repeat=n)]
    ck.extra["every_text_over_3_characters_up_to_length"] = 8 if deep else 7
    for i in range(400 if deep else 60):
        n = rng.choice([8, 9, 20, 100, 254, 255, 256, 257, 300, 700])
        d = rng.choice([0.02, 0.2, 0.5, 0.9, 1])
        texts.append(bytes(10 if rng.random() < d else rng.choice([9, 13, 32, 65, 34, 92, 127, 128, 200, 255, 1]) for _ in range(n)))
    texts += [b"\n" * 300, b"x" * 300 + b"\n", b"\n" + b"x" * 300]
    cs = {}
    for i in range(0, len(texts), 40):
        cs["texts-%d" % i] = ["pos %s" % t.hex() for t in texts[i:i + 40]]
    check_c(ck, "PosTrace", cs, "texts")


MODELS = {"C07": [deep_list], "C24": [containers], "C25": [positions]}


def run(ck, tier):
    for f in MODELS.get(ck.prop, []):
        f(ck, tier)
