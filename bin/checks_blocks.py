"""Block properties C12-C19."""
from vlib import *
from checks_core import CHECKS, ASAN

def rec_val(c, b, spec, mode, first, n, args=(), env=None, what=None, cfg=None, chunk=15000):
    tr = c.split(c.record(b, mode, first, n, args, env=env))
    c.validate(spec, tr, cfg=cfg, chunk=chunk, what=what or mode, rerun=lambda i: c.split(c.record(b, mode, i, 1, args, env=env)))

def c13(c):
    """sample-wise blocks"""
    k = 20 if c.thorough else 1
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.build, "blocks_seq", ["harness/blocks.cpp"], flags=("-fsanitize=address",)); fb = ex.submit(c.build, "blocks_conc", ["harness/blocks.cpp"], True, ("-DMRT",))
        a, b = fa.result(), fb.result()
    rec_val(c, a, "TracePointwise", "seq", 0, 1200 * k, env=ASAN, chunk=4000)
    rec_val(c, b, "TracePointwise", "conc", 100000, 300 * k, chunk=4000)

def c12(c):
    """Kahn determinism"""
    k = 20 if c.thorough else 1
    for x in ("1", "2", "Big"): c.design("KahnImpl", "KahnImpl%s.cfg" % x)
    c.refuted("KahnImpl", "KahnImplBug.cfg", "Prefix")
    b = c.build("kahn", ["harness/kahn.cpp"], inst=True)
    rec_val(c, b, "TraceKahn", "run", 0, 300 * k, chunk=6000)
CHECKS.update(C12=c12, C13=c13)

def c19(c):
    """throttle"""
    k = 20 if c.thorough else 1
    for x in ("1", "2"): c.design("ThrottleImpl", "ThrottleImpl%s.cfg" % x)
    for x, inv in (("Drift", "NoDrift"), ("Burst", "Rate"), ("Early", "Delay")): c.refuted("ThrottleImpl", "ThrottleImpl%s.cfg" % x, inv)
    b = c.build("throttle", ["harness/throttle.cpp"], inst=True)
    rec_val(c, b, "TraceThrottle", "timed", 0, 600 * k)
    rec_val(c, b, "TraceThrottle", "preempt", 100000, 300 * k)
CHECKS.update(C19=c19)

BLOB = [os.path.join(REPO, "desktop_blocks/blob.cpp")]
def c16(c):
    """buffer pool"""
    k = 20 if c.thorough else 1
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(c.build, n, ["harness/slab.cpp"] + BLOB, i, f) for n, i, f in (("slab_seq", False, ("-fsanitize=address",)), ("slab_rel", False, ("-fsanitize=address", "-DNDEBUG")), ("slab_conc", True, ("-DMRT",)), ("slab_crel", True, ("-DMRT", "-DNDEBUG")))]
        a, ar, b, br = [f.result() for f in fs]
    c.design("MCSlab"); c.refuted("MCSlab", "MCSlabUnlocked.cfg", "Conserved")
    L = []
    for cap in (1, 2, 3):
        w, _ = c.scripts("MCSlabSeq", "MCSlabSeq%d.cfg" % cap, expect_edges=10); L += ["%d %s" % (cap, " ".join(x)) for x in w]
    f = os.path.join(c.work, "slab.txt"); open(f, "w").write("\n".join(L) + "\n")
    for x in (a, ar):
        rec_val(c, x, "TraceSlab", "script", 0, len(L), (f,), env=ASAN)
        rec_val(c, x, "TraceSlab", "seq", 100000, 300 * k, env=ASAN)
    rec_val(c, b, "TraceSlab", "conc", 200000, 500 * k)
    rec_val(c, br, "TraceSlab", "conc", 300000, 300 * k)
CHECKS.update(C16=c16)

def c17(c):
    """datagram blocks"""
    k = 20 if c.thorough else 1
    S = ["harness/udp.cpp"] + BLOB + [os.path.join(REPO, "desktop_blocks/udp/shared.cpp")]
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.build, "udp_seq", S, False, ("-fsanitize=address",)); fb = ex.submit(c.build, "udp_graph", S, True, ("-DMRT",))
        a, b = fa.result(), fb.result()
    rec_val(c, a, "TraceDatagram", "source", 0, 2000 * k, env=ASAN)
    rec_val(c, a, "TraceDatagram", "sink", 100000, 1200 * k, env=ASAN)
    rec_val(c, b, "TraceDatagram", "graph", 200000, 400 * k)
    rec_val(c, a, "TraceDatagram", "addr", 300000, 100 * k, env=ASAN)
CHECKS.update(C17=c17)

def c15(c):
    """file blocks"""
    k = 20 if c.thorough else 1
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.build, "file_seq", ["harness/file.cpp"], flags=("-fsanitize=address",)); fb = ex.submit(c.build, "file_conc", ["harness/file.cpp"], True, ("-DMRT",))
        a, b = fa.result(), fb.result()
    c.design("FileImpl"); c.refuted("FileImpl", "FileImplNoFlush.cfg", "Lossless"); c.refuted("FileImpl", "FileImplNoSticky.cfg", "InOrder")
    rec_val(c, a, "TraceFileIO", "source", 0, 800 * k, env=ASAN)
    rec_val(c, a, "TraceFileIO", "sink", 100000, 800 * k, env=ASAN)
    rec_val(c, b, "TraceFileIO", "graph", 200000, 100 * k)
CHECKS.update(C15=c15)

def c18(c):
    """task policies"""
    k = 20 if c.thorough else 1
    P = ("desktop", "threadx", "freertos", "zephyr")
    with ThreadPoolExecutor(4) as ex: bs = list(ex.map(lambda i: c.build("policy_" + P[i], ["harness/policy.cpp"], True, ("-DPOL=%d" % i, "-I%s/harness/rtos" % V)), range(4)))
    for x in ("Tx", "Zephyr"): c.design("PolicyImpl", "PolicyImpl%s.cfg" % x)
    for x in ("ByValue", "NoJoin"): c.refuted("PolicyImpl", "PolicyImpl%s.cfg" % x, "Safe")
    for i, b in enumerate(bs):
        rec_val(c, b, "TracePolicy", "tasks", 100000 * i, 300 * k, what=P[i] + " tasks")
        rec_val(c, b, "TracePolicy", "graph", 100000 * i + 50000, 60 * k, what=P[i] + " graph")
CHECKS.update(C18=c18)

def c14(c):
    """stateful signal blocks"""
    k = 20 if c.thorough else 1
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.build, "dsp_seq", ["harness/dsp.cpp"], False, ("-fsanitize=address",), ("-lliquid",)); fb = ex.submit(c.build, "dsp_conc", ["harness/dsp.cpp"], True, ("-DMRT",), ("-lliquid",))
        a, b = fa.result(), fb.result()
    for x in ("Up", "Down", "Odd"): c.design("StreamImpl", "StreamImpl%s.cfg" % x)
    for x, inv in (("Truncate", "Exact"), ("Replay", "Exact"), ("Exact", "liveness")): c.refuted("StreamImpl", "StreamImpl%s.cfg" % x, inv)
    w, _ = c.scripts("MCStream", "MCStream.cfg", maxlen=40, expect_edges=100)
    f = os.path.join(c.work, "stream.txt"); open(f, "w").write("\n".join(" ".join(x) for x in w) + "\n")
    rec_val(c, a, "TraceStream", "script", 200000, 100 * k, (f,), env=ASAN, chunk=1500)
    rec_val(c, a, "TraceStream", "seq", 0, 300 * k, env=ASAN, chunk=1500)
    rec_val(c, b, "TraceStream", "conc", 100000, 80 * k, chunk=1500)
CHECKS.update(C14=c14)

PLOTS = [os.path.join(REPO, "desktop_blocks/plots", f) for f in ("plot_timeseries.cpp", "plot_cspectrum.cpp", "plot_cspectrogram.cpp")]
def c20(c):
    """plot blocks"""
    c.design("PlotsImpl"); c.refuted("PlotsImpl", "PlotsImplNoLock.cfg", "Aligned"); c.refuted("PlotsImpl", "PlotsImplNoTry.cfg", "Aligned")
    k = 20 if c.thorough else 1
    G = ("-I%s/harness/gui" % V, "-I" + os.path.join(REPO, "desktop_blocks/plots"))
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.build, "plots_seq", ["harness/plots.cpp"] + PLOTS, False, ("-fsanitize=address",) + G, ("-lliquid",)); fb = ex.submit(c.build, "plots_conc", ["harness/plots.cpp"] + PLOTS, True, ("-DMRT",) + G, ("-lliquid",))
        ar = c.build("plots_rel", ["harness/plots.cpp"] + PLOTS, False, ("-fsanitize=address", "-DNDEBUG") + G, ("-lliquid",))
        a, b = fa.result(), fb.result()
    rec_val(c, a, "TracePlots", "seq", 0, 400 * k, env=ASAN, chunk=4000)
    rec_val(c, ar, "TracePlots", "nomap", 100000, 80 * k, env=ASAN, chunk=4000)
    rec_val(c, b, "TracePlots", "conc", 200000, 150 * k, chunk=2000)
CHECKS.update(C20=c20)

def c21(c):
    """device blocks"""
    c.design("DeviceImpl"); c.design("DeviceImpl", "DeviceImplSrc.cfg"); c.design("DeviceImpl", "DeviceImplSnk.cfg")
    for v in ("Leak", "Late", "Chan0", "Spin"): c.refuted("DeviceImpl", "DeviceImpl%s.cfg" % v, "Allowed")
    k = 20 if c.thorough else 1
    G = ("-I%s/harness/dev" % V,); L = ("-lSoapySDR",)
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(c.build, "device_src", ["harness/device.cpp"], False, ("-fsanitize=address", "-DSRC") + G, L), ex.submit(c.build, "device_snk", ["harness/device.cpp"], False, ("-fsanitize=address", "-DSNK") + G, L), ex.submit(c.build, "device_conc", ["harness/device.cpp"], True, ("-DMRT",) + G)]
        a, b, d = [f.result() for f in fs]
    rec_val(c, a, "TraceDevice", "src", 0, 500 * k, env=ASAN, chunk=6000)
    rec_val(c, b, "TraceDevice", "snk", 100000, 500 * k, env=ASAN, chunk=6000)
    rec_val(c, d, "TraceDevice", "conc", 200000, 150 * k, chunk=4000)
CHECKS.update(C21=c21)
def c22(c):
    """audio file source"""
    k = 15 if c.thorough else 1
    b = c.build("audio", ["harness/audio.cpp"], False, ("-fsanitize=address", "-Wno-deprecated-declarations"), ("-lavformat", "-lavcodec", "-lswresample", "-lavutil", "-ldl"))
    rec_val(c, b, "TraceAudioFile", "audio", 0, 500 * k, env=ASAN, chunk=8000)
    c.design("AudioImpl"); c.design("AudioImpl", "AudioImplRepeat.cfg"); c.design("AudioImpl", "AudioImplFail.cfg"); c.refuted("AudioImpl", "AudioImplFailAsEnd.cfg", "Allowed")
    c.refuted("AudioImpl", "AudioImplNoFlush.cfg", "Whole"); c.refuted("AudioImpl", "AudioImplNoOnce.cfg", "Allowed")
CHECKS.update(C22=c22)
def c23(c):
    """ADS-B decoder and aircraft table"""
    c.design("ModeSImpl"); c.refuted("ModeSImpl", "ModeSImplNoOverlap.cfg", "Prompt"); c.refuted("ModeSImpl", "ModeSImplNoSkip.cfg", "InOrder"); c.refuted("ModeSImpl", "ModeSImplNoLimit.cfg", "Prompt")
    k = 20 if c.thorough else 1
    S = ["harness/adsb.cpp"] + [os.path.join(REPO, "desktop_blocks/adsb", f) for f in ("modes.c", "modes_2400.c", "cpr.c")]
    G = ("-I%s/harness/gui" % V, "-ftrivial-auto-var-init=pattern")
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.build, "adsb_seq", S, False, ("-fsanitize=address",) + G); fb = ex.submit(c.build, "adsb_conc", S, True, ("-DMRT",) + G)
        a, b = fa.result(), fb.result()
    rec_val(c, a, "TraceModeS", "dec", 0, 400 * k, env=ASAN, chunk=6000)
    rec_val(c, a, "TraceAircraft", "agg", 100000, 400 * k, env=ASAN, chunk=6000)
    rec_val(c, a, "TraceAircraft", "shp", 400000, 300 * k, env=ASAN, chunk=6000)
    rec_val(c, b, "TraceAircraft", "conc", 200000, 150 * k, chunk=4000)
    rec_val(c, b, "TraceModeS", "dconc", 300000, 60 * k, chunk=4000)
CHECKS.update(C23=c23)
def c24(c):
    """desktop logger"""
    c.design("LoggerImpl"); c.refuted("LoggerImpl", "LoggerImplNoLock.cfg", "Enough"); c.refuted("LoggerImpl", "LoggerImplUp.cfg", "Enough")
    k = 15 if c.thorough else 1; D = os.path.join(REPO, "desktop_logger")
    S = ["harness/logger.cpp"]; Z = (os.path.join(D, "zf_log/zf_log.c"), ("-fno-sanitize=thread",)); G = ("-I" + os.path.join(D, "zf_log"), "-I" + D)
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.build, "logger_seq", S + [Z], False, ("-fsanitize=address",) + G); fb = ex.submit(c.build, "logger_conc", S + [Z], True, ("-DMRT",) + G)
        a, b = fa.result(), fb.result()
    rec_val(c, a, "TraceLogger", "seq", 0, 400 * k, env=ASAN, chunk=4000)
    rec_val(c, b, "TraceLogger", "conc", 100000, 250 * k, chunk=4000)
CHECKS.update(C24=c24)
def c25(c):
    """GMSK burst modem"""
    k = 15 if c.thorough else 1
    S = ["harness/ezgmsk.cpp"] + [os.path.join(REPO, "desktop_blocks/ezgmsk", f) for f in ("_ezgmsk_mod.c", "_ezgmsk_demod.c")]
    b = c.build("ezgmsk", S, False, ("-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-I%s/harness/ezg" % V), ("-lliquid",))
    c.design("GmskImpl"); c.refuted("GmskImpl", "GmskImpl_short.cfg", "AllHeard"); c.refuted("GmskImpl", "GmskImpl_stale.cfg", "InOrder")
    rec_val(c, b, "TraceGmsk", "mod", 0, 400 * k, env=ASAN, chunk=6000)
    rec_val(c, b, "TraceGmsk", "demod", 100000, 400 * k, env=ASAN, chunk=6000)
CHECKS.update(C25=c25)
