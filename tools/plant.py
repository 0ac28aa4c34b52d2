#!/usr/bin/env python3
"""plant.py ID...|all [--check]: confirms planted bugs of /verif/seeded (patch applies, builds, tests pass, the
demonstration fails with it and passes without); with --check also runs the check of the property and reports whether it is caught."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/plant.json")
    return set(json.load(open("/tmp/plant.json"))["passed"]), r


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    seed = [a[7:] for a in sys.argv[1:] if a.startswith("--seed=")]
    if ids == ["all"]:
        ids = sorted(os.listdir(S))
    assert not sh("git -C /repo status --short").stdout.strip(), "/repo is not clean"
    for i in ids:
        d = os.path.join(S, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        out = []
        try:
            r = sh("git -C /repo apply %s/patch.diff" % d)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stderr)
                continue
            b = sh("bash /opt/vp/build.sh")
            ok, _ = tests()
            demo = sh("sh %s/demo.sh" % d, cwd="/repo", timeout=300)
            out.append("build %s" % ("ok" if not b.returncode else "FAILS"))
            miss = stable() - ok
            out.append("tests %s" % ("pass" if not miss else "FAIL " + ", ".join(sorted(miss))))
            out.append("demo %s" % ("fails" if demo.returncode else "PASSES (bad)"))
            if "--check" in sys.argv:
                t = time.time()
                c = sh("python3 %s/tools/check.py %s quick" % (V, meta["property"]), env=dict(os.environ, VERIF_SEED=seed[0] if seed else "1"))
                out.append("%s %s (%.0f s)" % (meta["property"], "caught" if c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout else "MISSED rc=%d %s" % (c.returncode, c.stdout[-200:]), time.time() - t))
        finally:
            sh("git -C /repo checkout -- .")
        if "--fast" not in sys.argv:
            sh("bash /opt/vp/build.sh")
            demo = sh("sh %s/demo.sh" % d, cwd="/repo", timeout=300)
            out.append("clean demo %s" % ("passes" if not demo.returncode else "FAILS " + demo.stdout[-300:]))
        print(i, "; ".join(out), flush=True)


main()
