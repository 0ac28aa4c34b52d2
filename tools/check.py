#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough [--seed N] [--budget SECONDS] [--replay FILE]

Runs scripts of host actions against the library of /repo (built from its working tree) and checks with TLC that
every recorded history is a behaviour of the specification (spec/TinyTrace.tla).
Exit 0: everything explored agreed. Exit 1: a VIOLATION line. Exit 2: no answer."""
import json, os, re, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, cases
from vlib import VERIF

T0 = time.time()
LEVEL = "model_checking"


def log(*a):
    print(*a, flush=True)


def known(prop):
    """Findings which are recorded and not repaired: (identification, text)"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) case=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Checker:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = vlib.scratch("tinyv-%s-" % prop)
        self.states = self.trans = 0
        self.count = {"ok": 0, "U": 0}
        self.undecided = 0
        self.total = 0
        self.fams = {}
        self.events = {}
        self.samples = []
        self.violations = []
        self.nontrivial = set()
        self.extra = {}
        self.steps = 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def build(self):
        self.exe = vlib.build_harness(os.path.join(self.work, "hb"))
        return self.exe

    def shards(self, hist, timeout):
        """Validates; a history on which TLC itself fails is put aside and the others are repeated"""
        res, bad = {}, {}
        todo = dict(hist)
        for _ in range(6):
            r, st, raw = vlib.validate(todo, os.path.join(self.work, "v"), timeout=timeout)
            self.trans += st[0]
            self.states += st[1]
            again = {}
            for o, ids in raw:
                if "Model checking completed" in o or not ids:
                    for i in ids:
                        if i in r:
                            res[i] = r[i]
                    continue
                m = re.findall(r"/?\\?\s*cid = (\d+)", o)
                if "TIMEOUT" in o[-20:] or not m:
                    for i in ids:
                        again[i] = "timeout" if "TIMEOUT" in o[-20:] else "tlc"
                    if not m and "TIMEOUT" not in o[-20:]:
                        sys.stderr.write(o[-3000:])
                    continue
                culprit = ids[int(m[-1]) - 1]
                bad[culprit] = o
                for i in ids:
                    if i != culprit:
                        again[i] = "again"
            todo = {i: hist[i] for i, w in again.items() if w == "again"}
            for i, w in again.items():
                if w != "again":
                    res[i] = ["?", 0, 0, 0]
            if not todo:
                break
        for i in todo:
            res.setdefault(i, ["?", 0, 0, 0])
        for i, o in bad.items():
            res[i] = ["ERR", 0, 0, 0, o]
        return res

    def note(self, c, line, v):
        fam = c.tags[0] if c.tags else "case"
        f = self.fams.setdefault(fam, [0, 0])
        f[0] += 1
        self.steps += v[1]
        try:
            ev = json.loads(line)["ev"]
        except Exception:
            ev = []
        for e in ev:
            self.events[e["e"]] = self.events.get(e["e"], 0) + 1
        if v[0] == "ok" and len(ev) > 3:
            self.nontrivial.add(hash(re.sub(r'"id":"[^"]*"', "", line)))
        elif v[0] == "U":
            f[1] += 1
        if v[0] == "ok" and len(self.samples) < 3 and self.total % 37 == 5:
            self.samples.append({"case": c.id, "script": c.lines[:12] if len(c.text()) < 4000 else c.lines[:1], "events": len(ev),
                                 "source": source_of(c)[:600]})

    def run(self, cs, timeout=20, vtimeout=600):
        hist = vlib.run_harness(self.exe, cs, self.work, timeout=timeout)
        for i in list(hist):
            try:
                json.loads(hist[i])
            except ValueError:
                del hist[i]
        missing = [c for c in cs if c.id not in hist]
        res = self.shards(hist, vtimeout)
        suspects = list(missing)
        for c in cs:
            self.total += 1
            v = res.get(c.id, ["?", 0, 0, 0])
            if c.id not in hist:
                continue
            if v[0] in ("ok", "U"):
                self.count[v[0]] += 1
                self.note(c, hist[c.id], v)
            elif v[0] == "?":
                self.undecided += 1
            else:
                suspects.append(c)
        for c in suspects[:12]:
            self.confirm(c)
            if len(self.violations) >= 3:
                break
        return res

    def confirm(self, c):
        """Runs a case again, alone and with more time, before it is reported"""
        h = vlib.run_harness(self.exe, [c], self.work, timeout=60, jobs=1)
        try:
            json.loads(h[c.id])
        except (KeyError, ValueError):
            return self.violation(c, "the harness left no history", None, None)
        res, st, raw = vlib.validate(h, os.path.join(self.work, "v"), jobs=1, timeout=600)
        v = res.get(c.id)
        o = raw[0][0]
        if "TIMEOUT" in o[-20:]:
            self.undecided += 1
            return
        if v and v[0] in ("ok", "U"):
            self.count[v[0]] += 1
            self.note(c, h[c.id], v)
            return
        if "Model checking completed" not in o:
            i = o.find("Error:")
            if "Java heap" in o or "OutOfMemory" in o:
                self.undecided += 1
                return
            return self.violation(c, "the specification cannot follow the history: " + " ".join(o[i:i + 600].split()), h[c.id], None)
        ev = vlib.rejected_event(h[c.id], v[2] if v else 0)
        n = v[2] if v else 0
        self.violation(c, "event %d of the history is none which the specification allows: %s" % (n, json.dumps(ev)[:500]), h[c.id], n)

    def violation(self, c, why, line, n):
        for cid, text in known(self.prop):
            if cid == c.id or cid == (c.tags[1] if len(c.tags) > 1 else None):
                log("KNOWN-FINDING: property=%s %s" % (self.prop, text))
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, c.id))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "case": c.id, "why": why, "lines": c.lines, "source": source_of(c), "history": line, "event": n,
                       "how": "python3 /verif/tools/check.py %s quick --replay %s" % (self.prop, p)}, f, indent=1)
        self.violations.append((p, why))
        log("VIOLATION property=%s replay=%s" % (self.prop, p))
        log("  %s: %s" % (c.id, why))

    def evidence(self):
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.count["ok"],
               "samples": self.samples or [{"note": "none"}], "histories_recorded": self.total,
               "histories_which_leave_what_is_specified": self.count["U"], "undecided": self.undecided,
               "distinct_nontrivial_histories": len(self.nontrivial),
               "rule": "A history counts as validated when TLC followed it to its end without meeting behaviour which the specification leaves open; "
                       "non-trivial: more than three events; distinct: different actions, observations or results.",
               "by_kind_of_case": {k: {"histories": v[0], "left_open": v[1]} for k, v in sorted(self.fams.items())},
               "events_by_kind": dict(sorted(self.events.items())), "steps_of_the_specification": self.steps}
        cov.update(self.extra)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": cov, "wall_s": round(time.time() - T0, 1),
             "violations": len(self.violations),
             "assumptions": ["The functions of the test host and the recorder in harness/tinyh.c report faithfully what the library does.",
                             "TLC evaluates the specification correctly.",
                             "Behaviour which the specification leaves open (DESIGN.md) is not checked."]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.replace(p + ".tmp", p)


def source_of(c):
    out = []
    for l in c.lines:
        w = l.split(" ")
        if w[0] in ("compile", "compilef", "xcompile") and len(w) > 3:
            try:
                out.append("-- %s\n%s" % (w[2], bytes.fromhex(w[3]).decode("latin-1")))
            except ValueError:
                pass
    return "\n".join(out)[:20000]


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = 0
    replay = None
    i = 3
    while i < len(sys.argv):
        if sys.argv[i] == "--seed":
            seed = int(sys.argv[i + 1])
        elif sys.argv[i] == "--budget":
            budget = int(sys.argv[i + 1])
        elif sys.argv[i] == "--replay":
            replay = sys.argv[i + 1]
        i += 2
    ck = Checker(prop, tier, seed)
    ck.limit = budget or 700
    try:
        import models
        if not ck.build():
            log("the library does not build")
            return 2
        if replay:
            d = json.load(open(replay))
            c = vlib.Case(d["case"])
            c.lines = d["lines"]
            if c.lines and c.lines[0].startswith("c "):
                ls = [l[2:] for l in c.lines]
                models.check_c(ck, "PosTrace" if ls[0].startswith("pos") else "ContainersTrace", {c.id: ls}, "replay")
            else:
                ck.confirm(c)
            log("agrees" if not ck.violations else "")
            return 1 if ck.violations else 0
        if prop in cases.PROPS:
            ck.run(cases.generate(prop, seed))
            # more histories while there is time
            limit = budget or (700 if tier == "thorough" else 45)
            t = 1.5 * (time.time() - T0)
            n = 1
            while time.time() - T0 + t < limit and not ck.violations:
                t = time.time()
                ck.run(cases.generate(prop, seed * 1000 + n, 2))
                n += 1
                t = time.time() - t
        models.run(ck, tier)
        ck.evidence()
        log("%s %s: %d histories, %d followed to the end, %d left open, %d undecided, %d states, %.1f s" %
            (prop, tier, ck.total, ck.count["ok"], ck.count["U"], ck.undecided, ck.states, time.time() - T0))
        if ck.violations:
            return 1
        if ck.total and ck.undecided > 0.1 * ck.total:
            log("too many undecided")
            return 2
        return 0
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ck.close()


if __name__ == "__main__":
    sys.exit(main())
