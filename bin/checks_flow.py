"""Flowgraph properties C06-C11."""
from vlib import *
from checks_core import CHECKS, ASAN
FLOW = [("harness/flow.cpp", ("-DNPART=4", "-DKPART=%d" % i)) for i in range(4)]
def flow_bin(c): return c.build("flow", FLOW, inst=True)
def run_flow(c, b, rule, mode, first, n, args=(), dedupe=False, what=None):
    tr = c.split(c.record(b, mode, first, n, args), dedupe)
    c.validate("TraceFlow", tr, cfg="TraceFlow_%s.cfg" % rule, what=what or mode,
               rerun=None if mode == "dfs" else lambda i: c.split(c.record(b, mode, i, 1, args)))
def impl(c, rule, ok, big, bugs):
    for x in ok: c.design("FlowImpl", "FlowImpl_%s.cfg" % x)
    if c.thorough:
        for x in big: c.design("FlowImpl", "FlowImpl_%s.cfg" % x, timeout=1800)
    for x in bugs: c.refuted("FlowImpl", "FlowImpl_%s.cfg" % x, "NeverBad")
def scripts(c, b, rule, limit=None):
    w, _ = c.scripts("MCLife", "MCLife.cfg", maxlen=12, limit=limit, expect_edges=50)
    f = os.path.join(c.work, "life.txt")
    with open(f, "w") as h:
        for x in w: h.write(" ".join(x) + "\n")
    run_flow(c, b, rule, "script", 0, len(w) * (3 if c.thorough else 1), (f,), what="script")

def c06(c):
    """one task at a time, all blocks served"""
    b = flow_bin(c); k = 12 if c.thorough else 1
    impl(c, "excl", ("burst",), ("poolbig",), ("overlap",))
    run_flow(c, b, "excl", "rand", 600000, 700 * k)
    run_flow(c, b, "excl", "burst", 610000, 300 * k)
    run_flow(c, b, "excl", "dfs", 620000, 16 * k, (60,), True)
def c07(c):
    """stop, restart, destruction"""
    b = flow_bin(c); k = 12 if c.thorough else 1
    impl(c, "life", ("two",), ("twobig", "poolbig"), ("rerun", "nojoin"))
    scripts(c, b, "life")
    run_flow(c, b, "life", "life", 700000, 700 * k)
    run_flow(c, b, "life", "fatal", 710000, 300 * k)
    run_flow(c, b, "life", "dfs", 720000, 16 * k, (60,), True)
def c08(c):
    """fatal errors"""
    b = flow_bin(c); k = 12 if c.thorough else 1
    impl(c, "fatal", ("pool",), ("twobig", "poolbig"), ("nocb", "cbfirst"))
    run_flow(c, b, "fatal", "fatal", 800000, 1200 * k)
    run_flow(c, b, "fatal", "rand", 810000, 300 * k)
    run_flow(c, b, "fatal", "dfs", 820000, 16 * k, (60,), True)
def c09(c):
    """bursts and round robin"""
    b = flow_bin(c); k = 12 if c.thorough else 1
    impl(c, "burst", ("burst",), ("poolbig",), ("batch",))
    run_flow(c, b, "burst", "burst", 900000, 900 * k)
    run_flow(c, b, "burst", "rand", 910000, 200 * k)
def c10(c):
    """adaptive sleep"""
    b = flow_bin(c); k = 12 if c.thorough else 1
    impl(c, "sleep", ("sleep",), ("sleepbig",), ("stale", "nohalf", "nomax"))
    run_flow(c, b, "sleep", "sleep", 1000000, 1500 * k)
    run_flow(c, b, "sleep", "rand", 1010000, 200 * k)
def c11(c):
    """statistics"""
    b = flow_bin(c); k = 12 if c.thorough else 1
    impl(c, "stats", ("two",), ("twobig", "sleepbig"), ("early",))
    run_flow(c, b, "stats", "stats", 1100000, 1200 * k)
    run_flow(c, b, "stats", "fatal", 1110000, 400 * k)
    scripts(c, b, "stats", 60)
def c26(c):
    """configuration, names, results and reports"""
    from checks_blocks import rec_val
    b = flow_bin(c); k = 12 if c.thorough else 1
    run_flow(c, b, "conf", "conf", 2600000, 500 * k)
    run_flow(c, b, "conf", "life", 2610000, 150 * k)
    u = c.build("util", ["harness/util.cpp"], False, ("-fsanitize=address",))
    for m, n in (("num", 30), ("str", 120), ("res", 60), ("names", 1), ("desk", 4), ("report", 100)):
        rec_val(c, u, "TraceUtil", m, 0, n if m in ("names", "desk") else n * k, env=ASAN, chunk=6000)
CHECKS.update(C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C26=c26)

def c27(c):
    """diagram tool"""
    from checks_blocks import rec_val
    k = 12 if c.thorough else 1; M = os.path.join(REPO, "tools/mermaid/src")
    c.design("DiagramImpl"); c.refuted("DiagramImpl", "DiagramImpl_twice.cfg", "Once"); c.refuted("DiagramImpl", "DiagramImpl_noindex.cfg", "All")
    S = ["harness/diagram.cpp"] + [os.path.join(M, x) for x in ("cpp_parser.cpp", "flowgraph.cpp", "mermaid_renderer.cpp")] + [(os.path.join(M, "main.cpp"), ("-Dmain=tool_main",))]
    b = c.build("diagram", S, False, ("-fsanitize=address", "-I%s/harness/ts" % V))
    rec_val(c, b, "TraceDiagram", "parse", 0, 500 * k, env=ASAN, chunk=1500)
    rec_val(c, b, "TraceDiagram", "tool", 100000, 300 * k, env=ASAN, chunk=1500)
CHECKS.update(C27=c27)

def c28(c):
    """GUI window"""
    from checks_blocks import rec_val
    k = 20 if c.thorough else 1
    c.design("GuiWinImpl"); c.refuted("GuiWinImpl", "GuiWinImpl_leak.cfg", "Returned"); c.refuted("GuiWinImpl", "GuiWinImpl_order.cfg", "Accepts")
    b = c.build("window", ["harness/window.cpp", os.path.join(REPO, "desktop_blocks/gui/gui_manager.cpp")], False, ("-fsanitize=address", "-I%s/harness/guiwin" % V))
    rec_val(c, b, "TraceGuiWin", "win", 0, 1200 * k, env=ASAN, chunk=6000)
CHECKS.update(C28=c28)
