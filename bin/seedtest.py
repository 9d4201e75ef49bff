#!/usr/bin/env python3
"""Development tool: seedtest.py [--check] ID...   Tries planted changes in a scratch worktree of /repo
(applies, builds, stable tests pass, demo fails; demo passes without) and, with --check, runs the property's quick check."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"; R = W + "/repo"
def sh(c, cwd=None, t=1800, env=None):
    e = dict(os.environ); e.update(env or {})
    try: p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=e)
    except subprocess.TimeoutExpired as x: return 124, (x.stdout or b"").decode("utf8", "replace")
    return p.returncode, p.stdout.decode("utf8", "replace")
def prep():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        print(sh("git clone -q /repo %s" % R))
        for s in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/opt/vp/build.sh", W + "/build.sh").replace("R=/repo", "R=" + R).replace("B=/repo/_build", "B=" + R + "/_build")
            open(W + "/" + s, "w").write(t)
    sh("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD && git -C %s clean -fdq -e _build" % (R, R, R))
def tests():
    rc, o = sh("bash %s/build.sh" % W)
    if rc: return "build failed:\n" + o[-1500:]
    rc, o = sh("bash %s/test.sh %s/out.json" % (W, W))
    got = json.load(open(W + "/out.json")); want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = want - set(got["passed"])
    return "" if not miss else "tests fail: %s" % sorted(miss)[:5]
def demo(d):
    x = W + "/demo"; shutil.rmtree(x, ignore_errors=True); shutil.copytree(d, x, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    return sh("bash %s/demo.sh" % x, cwd=R, t=300)
def main():
    a = sys.argv[1:]; chk = "--check" in a; only = "--checkonly" in a; thor = "--thorough" in a; ids = [x for x in a if not x.startswith("-")]
    if not ids: ids = sorted(os.listdir(V + "/seeded"))
    prep(); res = {}
    for i in ids:
        d = V + "/seeded/" + i; m = json.load(open(d + "/meta.json")); out = []
        prep()
        if not only:
            rc, o = demo(d)
            if rc: out.append("DEMO FAILS ON CLEAN (%d): %s" % (rc, o[-600:]))
        rc, o = sh("git apply %s/patch.diff" % d, cwd=R)
        if rc: out.append("NO APPLY " + o)
        else:
            if not only:
                t = tests()
                if t: out.append("BAD: " + t)
                rc, o = demo(d)
                if rc == 0: out.append("DEMO PASSES WITH PATCH: " + o[-300:])
            if chk or only:
                rc, o = sh("python3 %s/bin/check.py %s %s" % (V, m["property"], "thorough" if thor else "quick"), env=dict(CLER_REPO=R, VERIF_SEED="1"), t=3000)
                v = "VIOLATION property=%s " % m["property"] in o
                out.append(("caught" if rc == 1 and v else "MISSED rc=%d" % rc) + " by " + m["property"] + ": " + " | ".join(o.strip().splitlines()[-3:])[:300])
        print(i, m["property"], "; ".join(out) or "ok", flush=True)
main()
