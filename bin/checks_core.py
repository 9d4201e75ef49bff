"""Channel properties C01-C05."""
from vlib import *
ASAN = dict(ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=1")

PARTS = [("harness/fifo.cpp", ("-DNPART=4", "-DKPART=%d" % i)) for i in range(4)]
def fifo_bins(c):
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(c.build, "fifo_seq", PARTS, flags=("-fsanitize=address",))
        b = ex.submit(c.build, "fifo_conc", PARTS, inst=True, flags=("-DMRT",))
        return a.result(), b.result()

def run_fifo(c, binary, mode, first, n, args=(), dedupe=False, what=None):
    env = ASAN if "fifo_seq" in binary else None
    tr = c.split(c.record(binary, mode, first, n, args, env=env), dedupe)
    re1 = lambda i: c.split(c.record(binary, mode, i, 1, args, env=env), dedupe)
    return c.validate("TraceFifo", tr, rerun=re1, what=what or mode)

def fifo_scripts(c, binary, caps):
    kinds = {1: 4, 2: 4, 3: 5, 4: 3}
    for cap in caps:
        w, total = c.scripts("MCFifo", "MCFifo%d.cfg" % cap, expect_edges=100)
        f = os.path.join(c.work, "script%d.txt" % cap)
        with open(f, "w") as h:
            for x in w: h.write(" ".join(re.sub(r"^([wr])_([a-z]+)_?(\d*)$", lambda m: m.group(1) + ":" + m.group(2) + (":" + m.group(3) if m.group(3) else ""), l) for l in x) + "\n")
        n = len(w) * kinds[cap]
        run_fifo(c, binary, "script", 0, n, ("script%d" % cap, f), what="script%d" % cap)

def c01(c):
    """exactly once, in order"""
    a, b = fifo_bins(c); k = 25 if c.thorough else 1
    for r in (2, 3, 4): c.design("SpscImpl", "MCSpscImpl%d.cfg" % r)
    c.refuted("SpscImpl", "MCSpscImplStale.cfg", "NeverBad")
    fifo_scripts(c, a, (2, 3, 4) if c.thorough else (2, 3))
    run_fifo(c, a, "seq", 0, 400 * k)
    run_fifo(c, b, "conc", 10000, 400 * k)
    run_fifo(c, b, "dfs", 50000, 24 * k, (200,), True)

def c02(c):
    """truthful results"""
    a, b = fifo_bins(c); k = 25 if c.thorough else 1
    for cap in (1, 2, 3, 4): c.design("MCFifo", "MCFifo%d.cfg" % cap)
    fifo_scripts(c, a, (1, 2, 3, 4))
    run_fifo(c, a, "seq", 100000, 300 * k)
    run_fifo(c, a, "sizes", 0, 160 * k)
    run_fifo(c, b, "conc", 110000, 300 * k)
    run_fifo(c, b, "dfs", 150000, 16 * k, (200,), True)

def c03(c):
    """zero-copy windows"""
    a, b = fifo_bins(c); k = 25 if c.thorough else 1
    fifo_scripts(c, a, (1, 3))
    run_fifo(c, a, "win", 200000, 500 * k)
    run_fifo(c, b, "winconc", 210000, 300 * k)

def c04(c):
    """race freedom"""
    a, b = fifo_bins(c); k = 25 if c.thorough else 1
    for r in (2, 3, 4): c.design("SpscImpl", "MCSpscImpl%d.cfg" % r)
    run_fifo(c, b, "conc", 310000, 900 * k)
    run_fifo(c, b, "winconc", 330000, 300 * k)
    run_fifo(c, b, "dfs", 350000, 40 * k, (200,), True)

def c05(c):
    """buffer memory under faults"""
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.build, "vmem", ["harness/vmem.cpp"]); fb = ex.submit(c.build, "vmem_conc", ["harness/vmem.cpp"], True, ("-DMRT",))
        a, b = fa.result(), fb.result()
    c.design("MCVMem"); c.refuted("MCVMem", "MCVMemLeak.cfg", "NoLeak")
    NPLANS = 98
    def go(binary, mode, first, n):
        tr = c.split(c.record(binary, mode, first, n))
        c.validate("TraceVMem", tr, rerun=lambda i: c.split(c.record(binary, mode, i, 1)), what=mode)
    go(a, "chan", 0, NPLANS * (14 if c.thorough else 5))
    go(a, "obj", 100000, NPLANS * (20 if c.thorough else 4))
    go(b, "conc", 200000, 1500 if c.thorough else 100)
CHECKS = {"C05": c05, "C01": c01, "C02": c02, "C03": c03, "C04": c04}
