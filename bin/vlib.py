"""Driver library: build harnesses from /repo, record traces, let TLC decide them."""
import os, sys, re, json, time, hashlib, subprocess, shutil, random, itertools
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLER_REPO", "/repo")
BUILD = os.path.join(V, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

import threading
_RT = threading.Lock()
class Broken(Exception):
    """The check itself could not run (not a verdict)."""

def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace")
    return p.returncode, p.stdout.decode("utf8", "replace")

def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for root in ("include", "desktop_blocks", "desktop_logger", "embedded_examples", "tools"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".c", ".cpp")):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def file_hash(*ps):
    h = hashlib.sha256()
    for p in ps: h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

class Check:
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", "%s_%s_%d" % (pid, tier, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.c = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, samples=[])
        self.assumptions, self.violations, self.known = [], [], []
        self.notes = {}
        self.thorough = tier == "thorough"
        self._tlcn = itertools.count()

    # ------------------------------------------------------------ building
    def build(self, name, srcs, inst=False, flags=(), libs=(), cxx=None, rt=True):
        """Compile srcs (relative to /verif) against the current tree. Returns the binary path."""
        srcs = [(x, ()) if isinstance(x, str) else x for x in srcs]
        srcs = [(s if os.path.isabs(s) else os.path.join(V, s), tuple(f)) for s, f in srcs]
        deps = [s for s, _ in srcs] + sorted(os.path.join(d, f) for sub in ("harness", "rt") for d, _, fs in os.walk(os.path.join(V, sub)) for f in fs)
        key = tree_hash(file_hash(*deps) + repr((name, inst, flags, libs, cxx, srcs)))
        bdir = os.path.join(BUILD, "bin"); os.makedirs(bdir, exist_ok=True)
        out = os.path.join(bdir, "%s-%s" % (name, key))
        if os.path.exists(out): return out
        with _RT: rto = self._rt(inst) if rt else []
        cc = cxx or ("clang++" if inst else "g++")
        base = [cc, "-std=c++17", "-g1", "-w", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-I%s/include" % REPO, "-I%s" % REPO, "-I%s/harness" % V, "-I%s/rt" % V, "-isystem", "/usr/include/liquid"]
        opt = ["-O1", "-fsanitize=thread"] if inst else (["-O1"] if not any(f.startswith("-O") for f in flags) else [])
        objs, jobs = [], []
        for i, (s, sf) in enumerate(srcs):
            o = os.path.join(self.work, "%s_%d.o" % (name, i)); objs.append(o)
            c = list(base)
            if s.endswith(".c"):
                c = ["clang" if inst else "gcc", "-std=gnu99"] + base[2:]
            jobs.append(c + opt + list(flags) + list(sf) + ["-c", s, "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            for rc, txt in ex.map(lambda j: sh(j, 300), jobs):
                if rc: raise Broken("compile failed for %s:\n%s" % (name, txt[-4000:]))
        tmp = out + ".%d" % os.getpid()
        ld = [cc, "-o", tmp] + objs + rto + [f for f in flags if f.startswith("-fsanitize")] + ["-rdynamic", "-lpthread", "-ldl"] + list(libs)
        rc, txt = sh(ld, 300)
        if rc: raise Broken("link failed for %s:\n%s" % (name, txt[-4000:]))
        os.rename(tmp, out)
        for o in objs: os.unlink(o)
        return out

    def _rt(self, inst):
        res = []
        for n in (["vlog", "mrt"] if inst else ["vlog"]):
            s = os.path.join(V, "rt", n + ".cpp")
            o = os.path.join(BUILD, "rt", "%s-%s.o" % (n, file_hash(s, s.replace(".cpp", ".hpp"), os.path.join(V, "rt", "vlog.hpp"))))
            if not os.path.exists(o):
                os.makedirs(os.path.dirname(o), exist_ok=True)
                tmp = o + ".%d.o" % os.getpid()
                rc, txt = sh(["g++", "-std=c++17", "-O2", "-g1", "-w", "-c", s, "-o", tmp])
                if rc: raise Broken("runtime build failed:\n" + txt[-3000:])
                os.rename(tmp, o)
            res.append(o)
        return res

    # ------------------------------------------------------------ TLC
    def tlc(self, spec, cfg=None, env=None, workers=1, timeout=800, extra=(), heap="3g", defs=None):
        """Run TLC on spec/<spec>.tla. defs: text of a config written for this run."""
        n = next(self._tlcn); md = os.path.join(self.work, "tlc%d" % n); os.makedirs(md, exist_ok=True)
        if defs is not None:
            cfgp = os.path.join(md, "run.cfg"); open(cfgp, "w").write(defs)
        else: cfgp = os.path.join(V, "spec", cfg or spec + ".cfg")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=%d" % (1 if workers == 1 else 4),
               "-Djava.io.tmpdir=" + md, "-DTLA-Library=" + os.path.join(V, "spec"),
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md + "/m", "-noGenerateSpecTE", "-config", cfgp] + list(extra) + [os.path.join(V, "spec", spec + ".tla")]
        rc, out = sh(cmd, timeout, env, cwd=md)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        shutil.rmtree(md, ignore_errors=True)
        return rc, out, st

    def refuted(self, spec, cfg, inv, workers=NCPU):
        """A deliberately wrong variant of a specification: TLC must find the violation of inv (sanity of the spec)."""
        # only the named invariant: with several workers TLC may meet the violation of another one first
        if inv != "liveness":
            t = open(os.path.join(V, "spec", cfg)).read(); t = re.sub(r"(?ms)^(INVARIANTS?|PROPERT(Y|IES))\b.*?(?=^[A-Z_]+\b|\Z)", "", t) + "\nINVARIANT %s\n" % inv
            c2 = os.path.join(self.work, "refuted_%d_%s" % (next(self._tlcn), os.path.basename(cfg))); open(c2, "w").write(t); one = c2
        else: one = cfg
        # deadlock counts as a finding only for liveness variants; a first parallel search may stumble over an
        # evaluation error of the wrong variant, one worker searches in a fixed order
        for w in (workers, 1):
            rc, out, st = self.tlc(spec, one, workers=w, extra=() if inv == "liveness" else ("-deadlock",))
            found = re.search(r"Temporal propert.* violated", out) if inv == "liveness" else "%s is violated" % inv in out
            if found: break
        if not found: raise Broken("%s/%s: expected a violation of %s:\n%s" % (spec, cfg, inv, out[-2000:]))
        self.notes.setdefault("refuted_variants", []).append(dict(cfg=cfg, invariant=inv))

    def design(self, spec, cfg=None, must=(), workers=NCPU, timeout=800, env=None, expect_states=1):
        """Exhaustive check of a specification; must hold (failure = broken machinery)."""
        rc, out, st = self.tlc(spec, cfg, workers=workers, timeout=timeout, env=env)
        if rc or "No error has been found" not in out or st[1] < expect_states:
            raise Broken("design check %s/%s failed (rc %d):\n%s" % (spec, cfg, rc, out[-3000:]))
        self.c["states"] += st[1]; self.c["transitions"] += st[0]
        self.notes.setdefault("designs", {})["%s/%s" % (spec, cfg or spec)] = dict(distinct=st[1], generated=st[0])
        return out

    def scripts(self, spec, cfg, maxlen=50, limit=None, expect_edges=1):
        """Scripts covering every edge of the labelled state graph TLC finds. -> (list of label lists, edges)"""
        import scripts as sc
        n = next(self._tlcn); dot = os.path.join(self.work, "g%d.dot" % n)
        rc, out, st = self.tlc(spec, cfg, workers=1, extra=("-dump", "dot,actionlabels", dot))
        if rc or "No error has been found" not in out: raise Broken("state graph of %s failed:\n%s" % (cfg, out[-3000:]))
        init, edges = sc.graph(dot); os.unlink(dot)
        w, total, covered = sc.cover(init, edges, maxlen, self.seed, limit)
        if total < expect_edges: raise Broken("state graph of %s too small" % cfg)
        self.c["states"] += st[1]; self.c["transitions"] += st[0]
        self.notes.setdefault("graphs", {})[cfg] = dict(states=st[1], edges=total, edges_covered_by_scripts=covered, scripts=len(w))
        return w, total

    # ------------------------------------------------------------ recording
    def record(self, binary, mode, first, n, args=(), timeout=600, env=None, jobs=None):
        """Run harness `binary mode out first n args...` over trace indices, in parallel. Returns list of ndjson paths."""
        jobs = jobs or min(NCPU, max(1, n // 4))
        step = (n + jobs - 1) // jobs; outs, cmds = [], []
        tag = hashlib.md5(repr((binary, mode, first, n, args)).encode()).hexdigest()[:8]
        for j in range(jobs):
            a, k = first + j * step, min(step, n - j * step)
            if k <= 0: break
            o = os.path.join(self.work, "%s_%s_%d.ndjson" % (mode, tag, j)); outs.append(o)
            cmds.append([binary, mode, o, str(a), str(k), str(self.seed)] + [str(x) for x in args])
        with ThreadPoolExecutor(NCPU) as ex:
            for rc, txt in ex.map(lambda c: sh(c, timeout, env, self.work), cmds):
                if rc: raise Broken("harness failed (%d): %s\n%s" % (rc, cmds[0], txt[-3000:]))
        return outs

    @staticmethod
    def split(paths, dedupe=False):
        """-> list of traces; each a list of raw lines starting with its reset line."""
        tr = []
        for p in paths:
            cur = None
            for line in open(p, errors="backslashreplace"):
                line = line.rstrip("\n")
                if not line: continue
                if not (line.startswith('{"e":"') and line.endswith("}") and line.isprintable()): line = '{"e":"garbled"}' # the code under test overwrote the harness's memory
                if line.startswith('{"e":"reset"'):
                    cur = [line]; tr.append(cur)
                elif cur is None:
                    cur = ['{"e":"reset","orphan":true}', line]; tr.append(cur)
                else: cur.append(line)
        if dedupe:
            seen, out = set(), []
            for t in tr:
                k = hashlib.md5(("\n".join([re.sub(r'"id":\d+', '"id":0', t[0])] + t[1:])).encode()).digest()
                if k not in seen: seen.add(k); out.append(t)
            tr = out
        return tr

    def _validate_chunk(self, spec, cfg, traces, timeout, env):
        n = next(self._tlcn); f = os.path.join(self.work, "v%d.ndjson" % n)
        with open(f, "w") as h:
            for t in traces: h.write("\n".join(t) + "\n")
        e = dict(env or {}); e["TRACE"] = f
        rc, out, st = self.tlc(spec, cfg, env=e, timeout=timeout)
        m = re.search(r'<<"REACHED", (\d+), "OF", (\d+)>>', out)
        inv = "is violated" in out
        if not m and not inv and "evaluating the nested" in out and re.search(r"^(?:/\\ )?l = (\d+)", out, re.M):
            # an event outside the domain the specification is defined on: no step explains it
            reached = max(int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)) - 1
            os.unlink(f); return False, reached, st, ["(undefined)"]
        if not m and not inv:
            shutil.copy(f, os.path.join(BUILD, "broken.ndjson"))
            raise Broken("TLC failed on trace (%s):\n%s" % (f, out[-3000:]))
        if inv:
            ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
            reached = int(ls[-1]) - 2 if ls else 0
            ok = False
        else:
            reached, total = int(m.group(1)), int(m.group(2))
            ok = reached == total and rc == 0
            if rc and reached == total: raise Broken("TLC rc %d with full trace:\n%s" % (rc, out[-3000:]))
        os.unlink(f)
        return ok, reached, st, (re.findall(r"Invariant (\w+) is violated", out) if inv else [])

    def validate(self, spec, traces, cfg=None, rerun=None, env=None, chunk=15000, timeout=800, what=""):
        """TLC decides every trace. rerun(id)->fresh trace lines to confirm a rejection."""
        if not traces: raise Broken("no traces recorded for " + spec)
        chunks, cur, n = [], [], 0
        for t in traces:
            cur.append(t); n += len(t)
            if n >= chunk: chunks.append(cur); cur, n = [], 0
        if cur: chunks.append(cur)
        def go(c): return c, self._validate_chunk(spec, cfg, c, timeout, env)
        bad = []
        with ThreadPoolExecutor(NCPU) as ex:
            for c, (ok, reached, st, inv) in ex.map(go, chunks):
                self.c["states"] += st[1]; self.c["transitions"] += st[0]
                if ok:
                    self.c["traces_validated_against_impl"] += len(c); self.c["events_validated"] += sum(map(len, c)); continue
                k = 0
                for t in c:
                    if reached < k + len(t): bad.append((t, reached - k, inv)); break
                    k += len(t)
                else: bad.append((c[-1], len(c[-1]), inv))
        if len(self.c["samples"]) < 6:
            for t in traces[:: max(1, len(traces) // 2)][:2]: self.c["samples"].append(dict(spec=spec, what=what, trace=[x if len(x) < 400 else x[:400] + " ..." for x in t[:12]]))
        def confirm(x):
            t, at, inv = x
            m = re.search(r'"id":(\d+)', t[0]); tid = int(m.group(1)) if m else None
            if rerun is None or tid is None: return t, at, inv
            again = [x for x in rerun(tid) if re.search(r'"id":%d\b' % tid, x[0])]
            if not again: raise Broken("could not re-record trace %s" % tid)
            ok, at2, st, inv2 = self._validate_chunk(spec, cfg, again, timeout, env)
            if ok:
                self.notes.setdefault("unconfirmed", []).append(dict(spec=spec, id=tid, event=t[min(at, len(t) - 1)][:300])); return None
            k = 0
            for x in again:
                if at2 < k + len(x): return x, at2 - k, inv2
                k += len(x)
            return again[-1], len(again[-1]), inv2
        with ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(confirm, bad[:16]):
                if r: self.violation(spec, r[0], r[1], r[2], what)
        return not bad

    # ------------------------------------------------------------ verdicts
    def violation(self, spec, trace, at, inv, what):
        d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%d.ndjson" % (self.id, os.getpid(), len(self.violations)))
        with open(p, "w") as h: h.write("\n".join(trace) + "\n")
        nxt = trace[at] if at < len(trace) else "(end)"
        with open(p + ".txt", "w") as h:
            h.write("property %s\nspec %s (%s)\nfirst line not explained by the specification: %d (1-based), invariant %s\n%s\n" % (self.id, spec, what, at + 1, inv, nxt))
        self.violations.append(dict(spec=spec, what=what, line=at + 1, event=nxt[:600], invariant=inv, replay=p))

    def finish(self, level="model_checking", **cov):
        c = self.c; c.update(cov); c["notes"] = self.notes
        if level == "exploration" or "evaluations" in c: pass
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=c,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.id + ".json"), "w") as h: json.dump(ev, h, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.id, k))
        for v in self.violations[:8]:
            print("rejected by %s (%s), line %d: %s %s" % (v["spec"], v["what"], v["line"], v["event"][:240], v["invariant"]))
        if len(self.violations) > 8: print("... and %d more rejections" % (len(self.violations) - 8))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.id, self.violations[0]["replay"])); return 1
        print("OK %s %s: %d states, %d traces, %d events, %.1fs" % (self.id, self.tier, c["states"], c["traces_validated_against_impl"], c["events_validated"], time.time() - self.t0))
        return 0

def prune_bin():
    d = os.path.join(BUILD, "bin")
    if not os.path.isdir(d): return
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    for f in fs[:-60]:
        try: os.unlink(f)
        except OSError: pass
