"""Runs scripts against the real library and checks the recorded histories with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.environ.get("TINY_SPEC") or os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NJVM = 8


def hexs(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return s.hex()


class Case:
    """A script: a list of actions of the host."""

    def __init__(self, cid, tags=()):
        self.id = cid
        self.lines = []
        self.tags = list(tags)

    def add(self, *w):
        self.lines.append(" ".join(str(x) for x in w))
        return self

    LIBS = "array dict io i64 std host"

    def state(self, s=0):
        """A state with all libraries and functions of the test host"""
        return self.add("hstate", s)

    def bare(self, s=0, libs=LIBS, binds=()):
        self.add("state", s, libs)
        for kind, sig in binds:
            self.add("bind", s, kind, hexs(sig))
        return self

    def compile(self, src, s=0, name="m.tiny"):
        return self.add("compile", s, name, hexs(src))

    def text(self):
        return "case %s\n%s\nend\n" % (self.id, "\n".join(self.lines))


def build_harness(outdir):
    r = subprocess.run(["sh", os.path.join(VERIF, "harness", "build.sh"), outdir], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout + r.stderr)
        return None
    return os.path.join(outdir, "tinyh")


def scratch(prefix="tinyv"):
    return tempfile.mkdtemp(prefix=prefix)


def run_harness(exe, cases, work, timeout=20, jobs=8):
    """Runs the cases and returns their histories as text lines, by id"""
    shards = [cases[i::jobs] for i in range(jobs)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0")

    def one(i):
        if not shards[i]:
            return []
        d = os.path.join(work, "h%d" % i)
        os.makedirs(os.path.join(d, "s"), exist_ok=True)
        with open(os.path.join(d, "script"), "w") as f:
            for c in shards[i]:
                f.write(c.text())
        subprocess.run([exe, os.path.join(d, "script"), os.path.join(d, "out"), os.path.join(d, "s"), str(timeout)],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(os.path.join(d, "out"), encoding="latin-1") as f:
            lines = [l for l in f.read().split("\n") if l]
        shutil.rmtree(d, ignore_errors=True)
        return lines

    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for ls in ex.map(one, range(jobs)):
            for l in ls:
                m = re.match(r'\{"id":"([^"]*)"', l)
                res[m.group(1)] = l
    return res


def tlc(module, cfg, work, heap="3g", timeout=800, xss="64m", workers=1, extra=(), more={}):
    """Runs TLC on a module of /verif/spec (copied to work) and returns its output"""
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), work)
    for f, text in more.items():
        with open(os.path.join(work, f), "w") as g:
            g.write(text)
    with open(os.path.join(work, module + ".cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Djava.io.tmpdir=" + work, "-Xss" + xss, "-Xmx" + heap, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", os.path.join(work, "states"), *extra, module]
    try:
        r = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout)
        return r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT"


def validate(hist, work, module="TinyTrace", jobs=NJVM, timeout=800, order=None):
    """Checks histories (id -> line). Returns id -> [verdict, steps, max, len], states and the outputs with their ids."""
    ids = list(order or hist)
    # longest first, round robin
    ids.sort(key=lambda i: -len(hist[i]))
    shards = [ids[i::jobs] for i in range(jobs)]
    res, raw, states = {}, [], [0, 0]

    def one(i):
        if not shards[i]:
            return ""
        d = os.path.join(work, "t%d" % i)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "cases.ndjson"), "w", encoding="latin-1") as f:
            for c in shards[i]:
                f.write(hist[c] + "\n")
        cfg = 'CONSTANT File = "cases.ndjson"\nINIT Init\nNEXT Next\nVIEW View\nPOSTCONDITION Post\n'
        o = tlc(module, cfg, d, timeout=timeout)
        shutil.rmtree(d, ignore_errors=True)
        return o

    with ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(one, range(jobs)))
    for i, o in enumerate(outs):
        raw.append((o, shards[i]))
        o2 = o.replace("\n", " ")
        for m in re.finditer(r'<<\s*"ACC",\s*"([^"]*)",\s*"([^"]*)",\s*(\d+)\s*>>', o2):
            r = res.setdefault(m.group(1), ["REJ", 0, 0, 0])
            if r[0] != "U":
                r[0] = m.group(2)
            r[1] = int(m.group(3))
        for m in re.finditer(r'<<\s*"MAX",\s*"([^"]*)",\s*(\d+),\s*(\d+)\s*>>', o2):
            r = res.setdefault(m.group(1), ["REJ", 0, 0, 0])
            r[2], r[3] = int(m.group(2)), int(m.group(3))
        m = re.search(r"(\d+) states generated, (\d+) distinct", o)
        if m:
            states[0] += int(m.group(1))
            states[1] += int(m.group(2))
    return res, states, raw


def rejected_event(line, mx):
    try:
        ev = json.loads(line)["ev"]
        return ev[mx - 1] if 0 < mx <= len(ev) else None
    except Exception as e:
        return {"e": "unreadable", "why": str(e)}
