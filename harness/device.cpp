// Device blocks on stand-in device libraries (C21).  usage: device MODE OUT FIRST N SEED
// Built three times: -DSRC (sources), -DSNK (sinks), -DMRT (HackRF with its transfer thread).
#include "blk.hpp"
#include <iostream>
#include <cassert>
#include <memory>
#ifdef MRT
#include "mrt.hpp"
#define HACK_TX
#define HACK_RX
#else
namespace mrt { struct Ignore { Ignore() {} }; }
#endif
#ifdef SRC
#define HACK_RX
#include "desktop_blocks/sources/source_soapysdr.hpp"
#include "desktop_blocks/sources/source_cariboulite.hpp"
#include "desktop_blocks/sources/source_uhd.hpp"
#endif
#ifdef SNK
#define HACK_TX
#include "desktop_blocks/sinks/sink_soapysdr.hpp"
#include "desktop_blocks/sinks/sink_audio.hpp"
#include "desktop_blocks/sinks/sink_uhd.hpp"
#endif
#ifdef HACK_RX
#include "desktop_blocks/sources/source_hackrf.hpp"
#endif
#ifdef HACK_TX
#include "desktop_blocks/sinks/sink_hackrf.hpp"
#endif
#if defined(SRC) || defined(SNK)
#include <SoapySDR/Registry.hpp>
#endif
static uint64_t g_seed;
typedef std::complex<float> cf;
// ------------------------------------------------------------------ samples: a 14 bit number and a channel
static const long MAXI = 16000;
template <class T> struct Smp { static T enc(long k) { return (T)(k - 32768); } static long dec(T t) { double d = (double)t + 32768; long k = (long)d; return k == d ? k : -1; } };
template <class F> struct Smp<std::complex<F>> {
    static std::complex<F> enc(long k) { long a = k & 255, b = k >> 8; return std::is_unsigned_v<F> ? std::complex<F>((F)a, (F)b) : std::complex<F>((F)(a - 128), (F)(b - 128)); }
    static long dec(const std::complex<F>& z) { long o = std::is_unsigned_v<F> ? 0 : 128; double a = (double)z.real() + o, b = (double)z.imag() + o; long x = (long)a, y = (long)b; return x == a && y == b && x >= 0 && x < 256 && y >= 0 && y < 256 ? y * 256 + x : -1; } };
template <class T> T mk(long i, size_t ch) { return Smp<T>::enc(i + ((long)ch << 14)); }
static bool g_hack = false; // HackRF samples: bytes / 128, 16 bit numbers
template <class T> long un(const T& t, size_t ch) { if constexpr (std::is_same_v<T, std::complex<float>>) if (g_hack) return Smp<T>::dec(t * 128.0f); long k = Smp<T>::dec(t); return k >= 0 && (size_t)(k >> 14) == ch ? k & 16383 : -1; }
static std::string runs(const std::vector<long>& v) { std::vector<std::pair<long, long>> r; long bad = 0; for (long x : v) { if (x < 0) x = -100 - 2 * bad++; if (!r.empty() && r.back().first + r.back().second == x) r.back().second++; else r.push_back({x, 1}); if (r.size() > 12) break; }
    std::string s = "["; for (auto& q : r) s += (s.size() > 1 ? ",[" : "[") + std::to_string(q.first) + "," + std::to_string(q.second) + "]"; return s + "]"; }
static std::string join(const std::vector<std::string>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i]; return s + "]"; }
// ------------------------------------------------------------------ the device
struct Dev { Rng r{1}; long fail_at = -1, ops = 0; long nx = 0, nch = 1, mtu = 64; bool ctor = false; int gift = 0; long zero_run = 0; bool uhdrx = false; std::string fmt; } D;
static bool failing() { mrt::Ignore ig; bool f = D.ctor && D.ops++ == D.fail_at; if (f) E("fail").done(); return f; }
static void acq(const char* r) { mrt::Ignore ig; E("acq").s("r", r).done(); }
static void rel(const char* r) { mrt::Ignore ig; E("rel").s("r", r).done(); }
static void use(const char* r) { mrt::Ignore ig; E("use").s("r", r).done(); }
static void cfg(const std::string& k, double v) { mrt::Ignore ig; E("cfg").s("k", k).i("v", (long)std::nearbyint(v)).done(); }
static void bad(const char* w) { mrt::Ignore ig; E("bad").s("why", w).done(); }
struct Want { std::vector<std::pair<std::string, long>> v; void add(const std::string& k, double x) { v.push_back({k, (long)std::nearbyint(x)}); } std::string js() const { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ",[\"" : "[\"") + v[i].first + "\"," + std::to_string(v[i].second) + "]"; return s + "]"; } };
static void head(long id, const char* blk, const char* dir, size_t nch, const Want& w, bool valid, long thr, long cap, bool lib, bool conc = false) { D.nch = nch; E("reset").i("id", id).s("blk", blk).s("dir", dir).i("nch", nch).raw("want", w.js()).t("valid", valid).i("thr", thr).i("cap", cap).t("uselib", lib).t("conc", conc).done(); E("ctor").done(); D.ctor = true; D.ops = 0; }
template <class F> static auto build(F f) { decltype(f()) b; bool ok = true; try { b = f(); } catch (const std::exception& x) { ok = false; } mrt::Ignore ig; D.ctor = false; E("up").t("ok", ok).done(); return b; }
template <class B> static void destroy(std::unique_ptr<B>& b) { { mrt::Ignore ig; E("down").done(); } b.reset(); { mrt::Ignore ig; E("gone").done(); E("end").done(); } }
static void get(const char* k, double v) { E("get").s("k", k).i("v", (long)std::nearbyint(v)).done(); }
// ------------------------------------------------------------------ HackRF
#if defined(HACK_RX) || defined(HACK_TX)
struct hackrf_device { int open; hackrf_sample_block_cb_fn cb; void* ctx; bool rx; bool stop; int fiber; } H;
static std::vector<uint8_t> g_buf; static cler::Channel<cf>* g_txin; static std::function<size_t()> g_ovf; static long g_prev;
static int hop(const char* k, double v) { use("dev"); if (failing()) return HACKRF_ERROR_LIBUSB; cfg(k, v); return HACKRF_SUCCESS; }
static void rxcb(long n) { hackrf_transfer t{}; t.device = &H; t.rx_ctx = H.ctx; t.valid_length = 2 * n; t.buffer_length = 2 * n + 64; g_buf.assign(t.buffer_length, 0x55); t.buffer = g_buf.data();
    { mrt::Ignore ig; for (long i = 0; i < n; ++i) { long k = D.nx + i; g_buf[2 * i] = (uint8_t)((k & 255) - 128); g_buf[2 * i + 1] = (uint8_t)((k >> 8) - 128); } E("push").i("n", n).done(); D.nx += n; }
    int ret = H.cb(&t); size_t o = g_ovf(); if (ret) bad("callback"); mrt::Ignore ig; E("pushed").i("ovf", o).done(); }
static bool special(long k) { return k % 50 == 49; }
static cf txs(long k, Rng& r) { if (special(k)) return cf(1.01f + r.below(4), -1.01f - 1000 * r.below(2)); long a = k % 100 + 1, b = (k / 100) % 180 - 90; auto f = [](long c) { return (c + (c < 0 ? -0.25f : 0.25f)) / 127.0f; }; return cf(f(a), f(b)); }
static void txcb(long n, const std::function<size_t()>& und, cler::Channel<cf>& in) { hackrf_transfer t{}; t.device = &H; t.tx_ctx = H.ctx; t.valid_length = t.buffer_length = 2 * n; std::vector<uint8_t> buf(2 * n, 0x5a); t.buffer = buf.data();
    { mrt::Ignore ig; E("pull").i("n", n).done(); } int ret = H.cb(&t); size_t u = und(), left = 0;
#ifndef MRT
    left = in.size();
#endif
    mrt::Ignore ig; std::vector<long> got; long z = n; while (z > 0 && !buf[2 * z - 2] && !buf[2 * z - 1]) --z; for (long i = 0; i < z; ++i) { int a = (int8_t)buf[2 * i], b = (int8_t)buf[2 * i + 1]; long k; if (a == 127 && b == -127) k = special(g_prev + 1) ? g_prev + 1 : -1; else k = a >= 1 && a <= 100 && b >= -90 && b < 90 ? (b + 90) * 100 + a - 1 : -1; if (k >= 0) g_prev = k; got.push_back(k); }
    E("pulled").raw("got", runs(got)).i("zeros", n - z).i("und", u).i("ret", ret).i("left", left).done(); }
extern "C" {
int hackrf_init(void) { if (failing()) return HACKRF_ERROR_LIBUSB; acq("lib"); return 0; } int hackrf_exit(void) { rel("lib"); return 0; }
int hackrf_open(hackrf_device** d) { use("lib"); if (failing()) return HACKRF_ERROR_NOT_FOUND; *d = &H; acq("dev"); return 0; } int hackrf_close(hackrf_device*) { rel("dev"); return 0; }
static int start(hackrf_sample_block_cb_fn cb, void* ctx, bool rx) { if (failing()) return HACKRF_ERROR_BUSY; H.cb = cb; H.ctx = ctx; H.rx = rx; acq("run");
#ifdef MRT
    H.stop = false; extern void transfers(); H.fiber = mrt::spawn([] { transfers(); });
#endif
    return 0; }
static int stop() {
#ifdef MRT
    { mrt::Ignore ig; H.stop = true; } mrt::join(H.fiber);
#endif
    rel("run"); return 0; }
int hackrf_start_rx(hackrf_device*, hackrf_sample_block_cb_fn cb, void* c) { return start(cb, c, true); } int hackrf_stop_rx(hackrf_device*) { return stop(); }
int hackrf_start_tx(hackrf_device*, hackrf_sample_block_cb_fn cb, void* c) { return start(cb, c, false); } int hackrf_stop_tx(hackrf_device*) { return stop(); }
int hackrf_is_streaming(hackrf_device*) { return HACKRF_TRUE; }
int hackrf_set_freq(hackrf_device*, const uint64_t f) { return hop("freq", f / 1e3); } int hackrf_set_sample_rate(hackrf_device*, const double f) { return hop("rate", f / 1e3); }
int hackrf_set_baseband_filter_bandwidth(hackrf_device*, const uint32_t f) { return hop("bw", f / 1e3); }
int hackrf_set_lna_gain(hackrf_device*, uint32_t v) { return hop("lna", v); } int hackrf_set_vga_gain(hackrf_device*, uint32_t v) { return hop("vga", v); } int hackrf_set_txvga_gain(hackrf_device*, uint32_t v) { return hop("txvga", v); } int hackrf_set_amp_enable(hackrf_device*, const uint8_t v) { return hop("amp", v); }
const char* hackrf_error_name(enum hackrf_error) { return "error"; }
}
struct HackP { uint64_t f; uint32_t r; int a, b; bool amp; size_t buf; Want w; bool valid; };
static HackP hackp(Rng& r, bool rx) { HackP p; p.f = 1000 * r.range(1000, 6000000); p.r = (uint32_t)(1000 * r.range(2000, 20000)); p.amp = r.chance(0.5); p.a = (int)(rx ? 8 * r.below(6) : r.below(48)); p.b = (int)(2 * r.below(32)); p.buf = r.chance(0.4) ? 0 : r.chance(0.1) ? 1 + r.below(511) : 512 + r.below(1500); p.valid = p.buf == 0 || p.buf >= 512;
    p.w.add("freq", p.f / 1e3); p.w.add("rate", p.r / 1e3); p.w.add("amp", p.amp); if (rx) { p.w.add("lna", p.a); p.w.add("vga", p.b); } else p.w.add("txvga", p.a); return p; }
#endif
template <class B, class T> static void call_src(B& b, Outs<T>& o, std::vector<Port*>& ports, const std::function<Res()>& go, long ovf) {
    std::vector<long> sp, bs; for (auto p : ports) { sp.push_back(p->space()); bs.push_back(p->size()); }
    { mrt::Ignore ig; E("cb").a("sp", sp).done(); D.zero_run = 0; } Res z = go(); std::vector<std::string> out; std::vector<std::vector<long>> rr(ports.size());
    for (size_t i = 0; i < ports.size(); ++i) { const T *x, *y; size_t n, m; o.ch[i]->peek_read(x, n, y, m); for (size_t k = bs[i]; k < n + m; ++k) rr[i].push_back(un<T>(k < n ? x[k] : y[k - n], i)); }
    mrt::Ignore ig; for (auto& v : rr) out.push_back(runs(v)); E("ce").s("res", ename(z)).raw("out", join(out)).i("ovf", ovf == -2 ? (long)-1 : ovf).done(); }
// the consumer behind the outputs takes everything but a few samples
template <class T> static void drain(Outs<T>& o, Rng& r, bool all) { for (auto& c : o.ch) { size_t n = c->size(); if (!all) n = r.chance(0.3) ? r.below(n + 1) : n; std::vector<T> t(n); c->readN(t.data(), n); } }
#ifdef HACK_RX
#ifdef MRT
static std::function<void()> g_transfers; void transfers() { g_transfers(); }
#endif
static void hack_src(long id, Rng& r, bool conc) {
    g_hack = true; HackP p = hackp(r, true); size_t cap = p.buf ? p.buf : 512; Outs<cf> o; o.make(r, true, 8); std::unique_ptr<Port> po(o.port(0)); std::vector<Port*> ports{po.get()}; g_prev = -1; D.nx = 0;
    int how = (int)r.below(3); std::unique_ptr<SourceHackRFBlock> b; auto amount = [&]() -> long { long n = how == 0 ? 1 + (long)r.below(64) : how == 1 ? 1 + (long)r.below(2 * cap) : 100 + (long)r.below(300); return std::min(n, MAXI * 3 - D.nx); };
    g_ovf = [&] { return b ? b->get_overflow_count() : 0; };
    head(id, "hackrf_src", "push", 1, p.w, p.valid, 1, cap, true, conc);
#ifdef MRT
    mrt::Opt mo; static const double ps[] = {0.01, 0.05, 0.2}; mo.seed = r.next(); mo.pswitch = ps[r.below(3)]; mo.max_points = 3000000; mrt::begin(mo); bool ready = false; int cbs = 3 + (int)r.below(8);
    g_transfers = [&] { for (;;) { bool rd, st; { mrt::Ignore ig; rd = ready; st = H.stop; } if (st) return; if (rd && cbs > 0) { long n; { mrt::Ignore ig; n = amount(); --cbs; } if (n > 0) rxcb(n); } mrt::yield(); } };
    SourceHackRFBlock* raw = nullptr; g_ovf = [&] { SourceHackRFBlock* p; { mrt::Ignore ig; p = raw; } return p->get_overflow_count(); };
#endif
    b = build([&] { return std::make_unique<SourceHackRFBlock>("s", p.f, p.r, p.a, p.b, p.amp, p.buf); }); if (!b) {
#ifdef MRT
        mrt::end();
#endif
        mrt::Ignore ig; E("end").done(); return; }
    auto call = [&] { call_src<SourceHackRFBlock, cf>(*b, o, ports, [&] { return b->procedure(o.ch[0].get()); }, -2); };
#ifdef MRT
    { mrt::Ignore ig; raw = b.get(); ready = true; }
    for (;;) { bool more; { mrt::Ignore ig; more = cbs > 0; } if (!more) break; call(); { bool q; { mrt::Ignore ig; q = r.chance(0.7); } if (q) drain(o, r, false); } mrt::yield(); }
    { mrt::Ignore ig; H.stop = true; } mrt::join(H.fiber); // last transfer over
#else
    for (int k = 0; k < 14; ++k) { int w = (int)r.below(6); if (w < 3) { long n = amount(); if (n > 0) rxcb(n); } else if (w < 5) call(); else { double x = 1000.0 * r.range(1, 6000000); bool f = r.chance(0.3); D.ctor = f; D.ops = 0; long sv = D.fail_at; D.fail_at = 0; switch (r.below(4)) { case 0: b->set_frequency((uint64_t)x); break; case 1: b->set_lna_gain(8); break; case 2: b->set_vga_gain(30); break; default: b->set_amp_enable(r.chance(0.5)); } D.ctor = false; D.fail_at = sv;
            get("freq", b->get_frequency() / 1e3); get("lna", b->get_lna_gain()); get("vga", b->get_vga_gain()); get("amp", b->get_amp_enable()); get("rate", b->get_sample_rate() / 1e3); }
        if (r.chance(0.6)) drain(o, r, r.chance(0.7)); }
#endif
    for (int k = 0; k < 40; ++k) { drain(o, r, true); call(); } { long v = (long)b->get_overflow_count(); mrt::Ignore ig; E("drained").i("ovf", v).done(); }
    destroy(b);
#ifdef MRT
    mrt::end();
#endif
}
#endif
#ifdef HACK_TX
static void hack_snk(long id, Rng& r, bool conc) {
    HackP p = hackp(r, false); g_prev = -1; long fed = 0; std::unique_ptr<SinkHackRFBlock> b; int how = (int)r.below(3); auto amount = [&]() -> long { return how == 0 ? 1 + (long)r.below(64) : how == 1 ? 1 + (long)r.below(1200) : 100 + (long)r.below(300); };
    head(id, "hackrf_snk", "pull", 1, p.w, p.valid, 1, p.buf, true, conc);
    auto feed = [&](cler::Channel<cf>& in) { long n; std::vector<cf> t; { mrt::Ignore ig; n = std::min(amount(), 17900 - fed); for (long i = 0; i < n; ++i) t.push_back(txs(fed + i, r)); } size_t s = in.space(); n = std::min(n, (long)s); if (n <= 0) return; { mrt::Ignore ig; if (conc) E("feed").i("i", 1).i("k", n).done(); } if (n == 1) in.push(t[0]); else in.writeN(t.data(), n); mrt::Ignore ig; fed += n; if (conc) E("fdone").i("k", n).done(); else E("feed").i("i", 1).i("k", n).done(); };
#ifdef MRT
    mrt::Opt mo; static const double ps[] = {0.01, 0.05, 0.2}; mo.seed = r.next(); mo.pswitch = ps[r.below(3)]; mo.max_points = 3000000; mrt::begin(mo); bool ready = false; int cbs = 4 + (int)r.below(8); SinkHackRFBlock* raw = nullptr;
    g_transfers = [&] { for (;;) { bool rd, st; { mrt::Ignore ig; rd = ready; st = H.stop; } if (st) return; if (rd && cbs > 0) { long n; { mrt::Ignore ig; n = amount(); --cbs; } SinkHackRFBlock* p; { mrt::Ignore ig; p = raw; } txcb(n, [p] { return p->get_underrun_count(); }, p->in); } mrt::yield(); } };
#endif
    b = build([&] { return std::make_unique<SinkHackRFBlock>("s", p.f, p.r, p.a, p.amp, p.buf); }); if (!b) {
#ifdef MRT
        mrt::end();
#endif
        mrt::Ignore ig; E("end").done(); return; }
    auto call = [&] { { mrt::Ignore ig; E("cb").a("sp", std::vector<long>{0}).done(); } Res z = b->procedure(); mrt::Ignore ig; E("ce").s("res", ename(z)).done(); };
#ifdef MRT
    { mrt::Ignore ig; raw = b.get(); ready = true; }
    for (;;) { bool more; { mrt::Ignore ig; more = cbs > 0; } if (!more) break; feed(b->in); call(); mrt::yield(); }
#else
    auto und = [&] { return b->get_underrun_count(); };
    for (int k = 0; k < 24; ++k) { int w = (int)r.below(6); if (w < 2) feed(b->in); else if (w < 5) txcb(amount(), und, b->in); else call(); }
#endif
    destroy(b);
#ifdef MRT
    mrt::end();
#endif
}
#endif
// ------------------------------------------------------------------ SoapySDR (the real library, a driver of our own)
#if defined(SRC) || defined(SNK)
static int g_fmtsz; static std::string g_fmtname; static std::function<void(void*, long)> g_fill; static std::function<long(const void*, long)> g_take; static std::function<std::string(const void* const*, size_t, long)> g_see; static bool g_gainmode, g_bw; static size_t g_chan; static int g_dir;
struct Chan { static std::string k(const char* n) { return n; } };
struct FakeSoapy : SoapySDR::Device {
    FakeSoapy() { acq("dev"); } ~FakeSoapy() { rel("dev"); }
    void chk(int d, size_t c) const { use("dev"); if (d != g_dir || c != g_chan) bad("channel"); }
    void op() const { if (failing()) throw std::runtime_error("device"); }
    std::string getDriverKey() const override { return "fake"; } std::string getHardwareKey() const override { return "fake"; } size_t getNumChannels(const int) const override { return 4; }
    SoapySDR::RangeList getSampleRateRange(const int d, const size_t c) const override { chk(d, c); return {SoapySDR::Range(1e5, 1e6), SoapySDR::Range(2e6, 2e7)}; }
    SoapySDR::RangeList getFrequencyRange(const int d, const size_t c) const override { chk(d, c); return {SoapySDR::Range(1e6, 1e8), SoapySDR::Range(2e8, 6e9)}; }
    SoapySDR::Range getGainRange(const int d, const size_t c) const override { chk(d, c); return SoapySDR::Range(0, 60); } using SoapySDR::Device::getGainRange;
    SoapySDR::RangeList getBandwidthRange(const int d, const size_t c) const override { chk(d, c); return g_bw ? SoapySDR::RangeList{SoapySDR::Range(1e5, 2e7)} : SoapySDR::RangeList(); }
    void setSampleRate(const int d, const size_t c, const double v) override { chk(d, c); op(); cfg("rate", v / 1e3); } double getSampleRate(const int, const size_t) const override { return 0; }
    void setFrequency(const int d, const size_t c, const double v, const SoapySDR::Kwargs&) override { chk(d, c); op(); cfg("freq", v / 1e3); } using SoapySDR::Device::setFrequency;
    bool hasGainMode(const int d, const size_t c) const override { chk(d, c); return g_gainmode; } void setGainMode(const int d, const size_t c, const bool a) override { chk(d, c); op(); cfg("agc", a); }
    void setGain(const int d, const size_t c, const double v) override { chk(d, c); op(); cfg("gain", v); } using SoapySDR::Device::setGain;
    void setBandwidth(const int d, const size_t c, const double v) override { chk(d, c); op(); cfg("bw", v / 1e3); } double getBandwidth(const int, const size_t) const override { return 0; }
    std::vector<std::string> listAntennas(const int, const size_t) const override { return {"A", "B"}; } void setAntenna(const int d, const size_t c, const std::string& n) override { chk(d, c); op(); cfg("ant", n[0]); }
    SoapySDR::Stream* setupStream(const int d, const std::string& f, const std::vector<size_t>& ch, const SoapySDR::Kwargs&) override { use("dev"); if (D.ctor && D.ops == D.fail_at && D.fail_at % 2) { failing(); return nullptr; } op(); if (d != g_dir || f != g_fmtname || ch != std::vector<size_t>{g_chan}) bad("format"); acq("stream"); return (SoapySDR::Stream*)&D; }
    void closeStream(SoapySDR::Stream*) override { rel("stream"); } size_t getStreamMTU(SoapySDR::Stream*) const override { use("stream"); return D.mtu; }
    int activateStream(SoapySDR::Stream*, const int, const long long, const size_t) override { use("stream"); if (failing()) return SOAPY_SDR_STREAM_ERROR; acq("run"); return 0; } int deactivateStream(SoapySDR::Stream*, const int, const long long) override { rel("run"); return 0; }
    int readStream(SoapySDR::Stream*, void* const* buffs, const size_t n, int&, long long&, const long) override { long got = 0; const char* st = "ok"; int ret; switch (D.gift) { case 1: st = "timeout"; ret = SOAPY_SDR_TIMEOUT; break; case 2: st = "overflow"; ret = SOAPY_SDR_OVERFLOW; break; case 3: st = "error"; ret = SOAPY_SDR_STREAM_ERROR; break; case 4: st = "zero"; ret = 0; break; default: got = D.r.chance(0.5) ? (long)n : 1 + (long)D.r.below(n); ret = (int)got; }
        if (got) g_fill(buffs[0], got); E("rd").i("max", std::min((long)n, D.mtu)).i("got", got).s("st", st).done(); return ret; }
    int writeStream(SoapySDR::Stream*, const void* const* buffs, const size_t n, int&, const long long, const long) override { long take = 0; int ret; const char* st = "ok"; int g = D.r.chance(0.75) ? 0 : D.gift; if (D.zero_run) g = 4;
        switch (g) { case 1: st = "timeout"; ret = SOAPY_SDR_TIMEOUT; break; case 2: st = "underflow"; take = n; ret = SOAPY_SDR_UNDERFLOW; break; case 3: st = "error"; ret = SOAPY_SDR_STREAM_ERROR; break; case 4: st = "zero"; ret = 0; if (++D.zero_run > 200) { bad("spinning"); vlog::die("hang"); } break; default: take = D.r.chance(0.5) ? (long)n : 1 + (long)D.r.below(n); ret = (int)take; }
        if (g == 4 && D.zero_run > 1) return ret; E("wr").i("n", n).i("ret", take).s("st", st).raw("got", g_see(buffs, 1, n)).done(); if ((long)n > D.mtu) bad("mtu"); return ret; }
};
static SoapySDR::KwargsList findF(const SoapySDR::Kwargs&) { return {SoapySDR::Kwargs()}; }
static SoapySDR::Device* makeF(const SoapySDR::Kwargs&) { if (failing()) throw std::runtime_error("no device"); return new FakeSoapy; }
static SoapySDR::Registry g_reg("fake", &findF, &makeF, SOAPY_SDR_ABI_VERSION);
struct SoapyP { double f, r, g; size_t ch; bool valid; Want w; };
static SoapyP soapyp(Rng& r) { SoapyP p; static const double F[] = {1e6, 99.5e6, 2e8, 915e6, 5.9e9, 1.5e8, 7e9}, R[] = {1e5, 250e3, 1e6, 2e6, 1.92e7, 1.5e6, 5e7}; int a = (int)r.below(r.chance(0.15) ? 7 : 5), b = (int)r.below(r.chance(0.15) ? 7 : 5); p.f = F[a]; p.r = R[b]; p.g = (double)r.range(0, r.chance(0.1) ? 80 : 60); p.ch = r.below(3); p.valid = a < 5 && b < 5 && p.g <= 60; g_gainmode = r.chance(0.5); g_bw = r.chance(0.5); g_chan = p.ch;
    p.w.add("freq", p.f / 1e3); p.w.add("rate", p.r / 1e3); p.w.add("gain", p.g); if (g_gainmode) p.w.add("agc", 0); if (g_bw) p.w.add("bw", p.r / 1e3); return p; }
template <class B> static void soapy_set(B& b, Rng& r) { static const double F[] = {1e6, 99.5e6, 2e8, 915e6}, R[] = {1e5, 250e3, 1e6}; bool f = r.chance(0.3); D.ctor = f; D.ops = 0; long sv = D.fail_at; D.fail_at = 0; try { switch (r.below(3)) { case 0: b.set_frequency(F[r.below(4)]); break; case 1: b.set_gain((double)r.below(50)); break; default: b.set_sample_rate(R[r.below(3)]); } } catch (...) {} D.ctor = false; D.fail_at = sv; get("freq", b.get_frequency() / 1e3); get("gain", b.get_gain()); get("rate", b.get_sample_rate() / 1e3); }
template <class T> const char* fmtname() { if constexpr (std::is_same_v<T, cf>) return "CF32"; else if constexpr (std::is_same_v<T, std::complex<int16_t>>) return "CS16"; else if constexpr (std::is_same_v<T, std::complex<int8_t>>) return "CS8"; else if constexpr (std::is_same_v<T, std::complex<uint8_t>>) return "CU8"; else if constexpr (std::is_same_v<T, int32_t>) return "S32"; else if constexpr (std::is_same_v<T, int16_t>) return "S16"; else return "F32"; }
template <class T> static std::string seen(const std::vector<const T*>& b, long n) { std::vector<std::string> v; for (size_t c = 0; c < b.size(); ++c) { std::vector<long> x; for (long i = 0; i < n; ++i) x.push_back(un<T>(b[c][i], c)); v.push_back(runs(x)); } return join(v); }
static int pickgift(Rng& r, double p) { return r.chance(p) ? 1 + (int)r.below(r.chance(0.3) ? 4 : 2) : 0; }
#endif
#ifdef SRC
template <class T> static void soapy_src(long id, Rng& r) {
    SoapyP p = soapyp(r); g_dir = SOAPY_SDR_RX; g_fmtname = fmtname<T>(); D.mtu = r.chance(0.3) ? 1 + (long)r.below(16) : 1 + (long)r.below(3000); D.nx = 0; Outs<T> o; o.make(r, true, 8); std::unique_ptr<Port> po(o.port(0)); std::vector<Port*> ports{po.get()};
    g_fill = [](void* d, long n) { T* t = (T*)d; for (long i = 0; i < n; ++i) t[i] = mk<T>(D.nx + i, 0); D.nx += n; };
    head(id, "soapy_src", "src", 1, p.w, p.valid, 1, 0, false); auto b = build([&] { return std::make_unique<SourceSoapySDRBlock<T>>("s", "driver=fake", p.f, p.r, p.g, p.ch); }); if (!b) { E("end").done(); return; }
    for (int k = 0; k < 20 && D.nx < MAXI - 4500; ++k) { if (r.chance(0.15)) soapy_set(*b, r); D.gift = pickgift(r, 0.35); call_src<SourceSoapySDRBlock<T>, T>(*b, o, ports, [&] { return b->procedure(o.ch[0].get()); }, -2); if (r.chance(0.6)) drain(o, r, r.chance(0.6)); }
    destroy(b); }
// ------------------------------------------------------------------ CaribouLite
static CaribouLiteRadio g_radio; static CaribouLite g_cl; static std::function<void(void*, long)> g_cfill; static bool g_running;
std::vector<CaribouLiteFreqRange> CaribouLiteRadio::GetFrequencyRange() { return {CaribouLiteFreqRange(3e7, 1e9), CaribouLiteFreqRange(2.4e9, 2.5e9)}; }
float CaribouLiteRadio::GetRxSampleRateMin() { return 4e5f; } float CaribouLiteRadio::GetRxSampleRateMax() { return 4e6f; } size_t CaribouLiteRadio::GetNativeMtuSample() { return D.mtu; }
void CaribouLiteRadio::SetFrequency(float v) { cfg("freq", v / 1e3); } void CaribouLiteRadio::SetRxSampleRate(float v) { cfg("rate", v / 1e3); } void CaribouLiteRadio::SetAgc(bool v) { cfg("agc", v); } void CaribouLiteRadio::SetRxGain(float v) { cfg("gain", v); } void CaribouLiteRadio::SetRxBandwidth(float v) { cfg("bw", v / 1e3); }
void CaribouLiteRadio::StartReceiving() { acq("run"); } void CaribouLiteRadio::StopReceiving() { rel("run"); rel("dev"); }
static int cread(void* p, size_t n) { long got = 0; int ret = 0; const char* st = "zero"; if (D.gift == 3) { st = "error"; ret = -1; } else if (!D.gift) { got = D.r.chance(0.5) ? (long)n : 1 + (long)D.r.below(n); ret = (int)got; st = "ok"; g_cfill(p, got); } E("rd").i("max", std::min((long)n, D.mtu)).i("got", got).s("st", st).done(); return ret; }
int CaribouLiteRadio::ReadSamples(std::complex<float>* p, size_t n) { return cread(p, n); } int CaribouLiteRadio::ReadSamples(std::complex<short>* p, size_t n) { return cread(p, n); }
bool CaribouLite::DetectBoard(SysVersion* v, std::string&, std::string&) { *v = CaribouLiteFull; return !failing(); } CaribouLite& CaribouLite::GetInstance(bool, bool) { return g_cl; }
static bool g_cvalid; CaribouLiteRadio* CaribouLite::GetRadioChannel(CaribouLiteRadio::RadioType) { if (failing()) return nullptr; if (g_cvalid) acq("dev"); return &g_radio; }
template <class T> static void caribou_src(long id, Rng& r) {
    static const float F[] = {3.1e7f, 9e8f, 2.45e9f, 2e7f, 2e9f}, R[] = {4e5f, 1e6f, 4e6f, 3e5f, 5e6f}; int a = (int)r.below(r.chance(0.15) ? 5 : 3), b_ = (int)r.below(r.chance(0.15) ? 5 : 3); bool agc = r.chance(0.5); float g = (float)r.below(60); Want w; w.add("freq", F[a] / 1e3); w.add("rate", R[b_] / 1e3); w.add("agc", agc); if (!agc) w.add("gain", g); g_cvalid = a < 3 && b_ < 3;
    D.mtu = 1 + (long)r.below(3000); D.nx = 0; Outs<T> o; o.make(r, true, 8); std::unique_ptr<Port> po(o.port(0)); std::vector<Port*> ports{po.get()}; g_cfill = [](void* d, long n) { T* t = (T*)d; for (long i = 0; i < n; ++i) t[i] = mk<T>(D.nx + i, 0); D.nx += n; };
    head(id, "caribou_src", "src", 1, w, g_cvalid, 1, 0, false); auto b = build([&] { return std::make_unique<SourceCaribouliteBlock<T>>("s", CaribouLiteRadio::HiF, F[a], R[b_], agc, g); }); if (!b) { E("end").done(); return; }
    for (int k = 0; k < 20 && D.nx < MAXI - 4500; ++k) { D.gift = pickgift(r, 0.3); if (D.gift == 1 || D.gift == 2) D.gift = 4; call_src<SourceCaribouliteBlock<T>, T>(*b, o, ports, [&] { return b->procedure(o.ch[0].get()); }, -2); if (r.chance(0.6)) drain(o, r, r.chance(0.6)); }
    destroy(b); }
#endif
// ------------------------------------------------------------------ UHD
#if defined(SRC) || defined(SNK)
static size_t g_uch; static std::function<void(const std::vector<void*>&, long)> g_ufill; static std::function<std::string(const std::vector<const void*>&, long)> g_usee; static std::string g_cpu, g_otw; static int g_async;
static void uop() { use("dev"); if (failing()) throw std::runtime_error("uhd"); } static std::string kc(const char* k, size_t c) { return k + std::to_string(c); }
using uhd::usrp::multi_usrp;
multi_usrp::sptr multi_usrp::make(const uhd::device_addr_t&) { if (failing()) throw std::runtime_error("no usrp"); acq("dev"); return std::make_shared<multi_usrp>(); } multi_usrp::~multi_usrp() { rel("dev"); }
size_t multi_usrp::get_rx_num_channels() { return 3; } size_t multi_usrp::get_tx_num_channels() { return 3; }
#define UH(d) static double rate_##d[4]; \
    void multi_usrp::set_##d##_rate(double v, size_t c) { uop(); rate_##d[c & 3] = v; cfg(kc("rate", c), v / 1e3); } double multi_usrp::get_##d##_rate(size_t c) { return rate_##d[c & 3]; } uhd::tune_result_t multi_usrp::set_##d##_freq(const uhd::tune_request_t& f, size_t c) { uop(); cfg(kc("freq", c), f.target_freq / 1e3); return {}; } \
    uhd::freq_range_t multi_usrp::get_##d##_freq_range(size_t) { return {1e6, 6e9}; } void multi_usrp::set_##d##_gain(double v, size_t c) { uop(); cfg(kc("gain", c), v); } uhd::gain_range_t multi_usrp::get_##d##_gain_range(size_t) { return {0, 90}; } void multi_usrp::set_##d##_bandwidth(double v, size_t c) { uop(); cfg(kc("bw", c), v / 1e3); } double multi_usrp::get_##d##_freq(size_t) { return 0; } double multi_usrp::get_##d##_gain(size_t) { return 0; }
UH(rx) UH(tx)
static void ufmt(const uhd::stream_args_t& a) { std::vector<size_t> w; for (size_t i = 0; i < g_uch; ++i) w.push_back(i); if (a.cpu_format != g_cpu || a.otw_format != g_otw || a.channels != w) bad("format"); }
uhd::rx_streamer::sptr multi_usrp::get_rx_stream(const uhd::stream_args_t& a) { uop(); ufmt(a); acq("stream"); return std::make_shared<uhd::rx_streamer>(); }
uhd::tx_streamer::sptr multi_usrp::get_tx_stream(const uhd::stream_args_t& a) { uop(); ufmt(a); acq("stream"); acq("run"); return std::make_shared<uhd::tx_streamer>(); }
uhd::rx_streamer::~rx_streamer() { rel("stream"); } uhd::tx_streamer::~tx_streamer() { rel("run"); rel("stream"); }
size_t uhd::rx_streamer::get_num_channels() const { return g_uch; } size_t uhd::tx_streamer::get_num_channels() const { return g_uch; } size_t uhd::rx_streamer::get_max_num_samps() const { return D.mtu; } size_t uhd::tx_streamer::get_max_num_samps() const { return D.mtu; }
void uhd::rx_streamer::issue_stream_cmd(const stream_cmd_t& c) { if (c.stream_mode == stream_cmd_t::STREAM_MODE_START_CONTINUOUS) { if (failing()) throw std::runtime_error("uhd"); acq("run"); } else if (c.stream_mode == stream_cmd_t::STREAM_MODE_STOP_CONTINUOUS) rel("run"); else bad("command"); }
size_t uhd::rx_streamer::recv(const buffs_type& bf, size_t n, rx_metadata_t& md, double, bool) {
    md = rx_metadata_t(); long got = 0; const char* st = "ok"; switch (D.gift) { case 1: st = "timeout"; md.error_code = rx_metadata_t::ERROR_CODE_TIMEOUT; if (D.r.chance(0.4) && n > 1) got = 1 + (long)D.r.below(n - 1); break; case 2: st = "overflow"; md.error_code = rx_metadata_t::ERROR_CODE_OVERFLOW; break; case 3: case 4: st = "error"; md.error_code = D.r.chance(0.5) ? rx_metadata_t::ERROR_CODE_BROKEN_CHAIN : rx_metadata_t::ERROR_CODE_BAD_PACKET; break; default: got = D.r.chance(0.4) ? (long)n : 1 + (long)D.r.below(n); } got = std::min(got, MAXI - D.nx);
    if (bf.size() != g_uch) { bad("buffers"); return 0; } std::vector<void*> v; for (size_t i = 0; i < g_uch; ++i) v.push_back(bf[i]); if (got) g_ufill(v, got); E("rd").i("max", n).i("got", got).s("st", st).done(); return got; }
size_t uhd::tx_streamer::send(const buffs_type& bf, size_t n, const tx_metadata_t&, double) {
    const char* st = "ok"; long take = D.gift == 1 ? 0 : D.gift == 2 ? (long)D.r.below(n + 1) : (long)n; if (take < (long)n) st = "timeout"; if (bf.size() != g_uch) { bad("buffers"); return 0; } std::vector<const void*> v; for (size_t i = 0; i < g_uch; ++i) v.push_back(bf[i]); E("wr").i("n", n).i("ret", take).s("st", st).raw("got", g_usee(v, n)).done(); return take; }
bool uhd::tx_streamer::recv_async_msg(async_metadata_t& md, double) { use("stream"); if (g_async <= 0) return false; --g_async; static const async_metadata_t::event_code_t C[] = {async_metadata_t::EVENT_CODE_UNDERFLOW, async_metadata_t::EVENT_CODE_UNDERFLOW_IN_PACKET, async_metadata_t::EVENT_CODE_BURST_ACK, async_metadata_t::EVENT_CODE_TIME_ERROR, async_metadata_t::EVENT_CODE_SEQ_ERROR}; int k = (int)D.r.below(5); md.event_code = C[k]; if (k < 2) E("late").done(); return true; }
template <class T> const char* cpuname() { if constexpr (std::is_same_v<T, cf>) return "fc32"; else if constexpr (std::is_same_v<T, std::complex<int16_t>>) return "sc16"; else return "sc8"; }
#endif
#ifdef SRC
template <class T> static void uhd_src(long id, Rng& r) {
    size_t n = 1 + r.below(3); if (r.chance(0.05)) n = 4; bool valid = n <= 3; double f = 1e3 * r.range(1000, 5999999), rate = 1e3 * r.range(200, 20000), g = (double)r.below(76); Want w; for (size_t c = 0; c < n; ++c) { w.add(kc("freq", c), f / 1e3); w.add(kc("rate", c), rate / 1e3); w.add(kc("gain", c), g); }
    g_uch = n; g_cpu = cpuname<T>(); g_otw = r.chance(0.5) ? "sc16" : "sc8"; D.mtu = 360; D.nx = 0; Outs<T> o; std::vector<std::unique_ptr<Port>> po; std::vector<Port*> ports; for (size_t c = 0; c < std::min<size_t>(n, 3); ++c) { o.make(r, true, 8); po.emplace_back(o.port(c)); ports.push_back(po.back().get()); }
    g_ufill = [](const std::vector<void*>& b, long k) { for (size_t c = 0; c < b.size(); ++c) for (long i = 0; i < k; ++i) ((T*)b[c])[i] = mk<T>(D.nx + i, c); D.nx += k; };
    head(id, "uhd_src", "src", n, w, valid, 1, 0, false); auto b = build([&] { return std::make_unique<SourceUHDBlock<T>>("s", f, rate, "addr", g, n, g_otw); }); if (!b) { E("end").done(); return; }
    for (int k = 0; k < 20 && D.nx < MAXI; ++k) { if (r.chance(0.1)) { UHDConfig c; c.center_freq_Hz = 1e3 * r.range(1000, 5999999); c.sample_rate_Hz = 1e6; c.gain = (double)r.below(70); c.bandwidth_Hz = r.chance(0.5) ? 2e6 : 0; size_t ch = r.below(n); if (b->configure(c, ch)) { get(kc("freq", ch).c_str(), c.center_freq_Hz / 1e3); get(kc("rate", ch).c_str(), 1000); get(kc("gain", ch).c_str(), c.gain); if (c.bandwidth_Hz) get(kc("bw", ch).c_str(), 2000); } else bad("configure"); }
        D.gift = pickgift(r, 0.35); auto go = [&]() -> Res { auto q = [&](size_t i) { return o.ch[i].get(); }; return n == 1 ? b->procedure(q(0)) : n == 2 ? b->procedure(q(0), q(1)) : b->procedure(q(0), q(1), q(2)); };
        long before = (long)b->get_overflow_count(); (void)before; std::vector<long> sp, bs; for (auto p : ports) { sp.push_back(p->space()); bs.push_back(p->size()); } E("cb").a("sp", sp).done(); Res z = go(); std::vector<std::string> out; for (size_t i = 0; i < n; ++i) { const T *x, *y; size_t a, m; std::vector<long> v; o.ch[i]->peek_read(x, a, y, m); for (size_t q = bs[i]; q < a + m; ++q) v.push_back(un<T>(q < a ? x[q] : y[q - a], i)); out.push_back(runs(v)); }
        E("ce").s("res", ename(z)).raw("out", join(out)).i("ovf", b->get_overflow_count()).done(); if (r.chance(0.6)) drain(o, r, r.chance(0.6)); }
    destroy(b); }
#endif
// ------------------------------------------------------------------ sinks
#ifdef SNK
template <class T, class B> static void feed(B& ch, size_t c, std::vector<long>& fed, Rng& r, int how) { size_t s = ch.space(); size_t n = how == 0 ? s : how == 1 ? 1 + r.below(8) : r.below(s + 1); n = std::min({n, s, (size_t)std::max(0L, MAXI - fed[c])}); if (!n) return; std::vector<T> t; for (size_t i = 0; i < n; ++i) t.push_back(mk<T>(fed[c] + i, c)); if (n == 1) ch.push(t[0]); else ch.writeN(t.data(), n); fed[c] += n; E("feed").i("i", c + 1).i("k", n).done(); }
static void call_snk(const std::function<Res()>& go, const std::function<size_t(size_t)>& left, size_t n, const std::function<long()>& und) { E("cb").a("sp", std::vector<long>{0}).done(); D.zero_run = 0; Res z = go(); std::vector<long> l; for (size_t i = 0; i < n; ++i) l.push_back(left(i)); E("ce").s("res", ename(z)).a("left", l).i("und", und()).done(); }
template <class T> static void soapy_snk(long id, Rng& r) {
    SoapyP p = soapyp(r); g_dir = SOAPY_SDR_TX; g_fmtname = fmtname<T>(); D.mtu = r.chance(0.3) ? 1 + (long)r.below(16) : 1 + (long)r.below(3000); size_t mn = 4096 / sizeof(T), cs = r.chance(0.4) ? 0 : r.chance(0.1) ? 1 + r.below(mn - 1) : mn + r.below(mn); p.valid = p.valid && (!cs || cs >= mn);
    g_see = [](const void* const* b, size_t, long n) { return seen<T>({(const T*)b[0]}, n); };
    head(id, "soapy_snk", "snk", 1, p.w, p.valid, 1, 0, false); auto b = build([&] { return std::make_unique<SinkSoapySDRBlock<T>>("s", "driver=fake", p.f, p.r, p.g, p.ch, cs); }); if (!b) { E("end").done(); return; }
    std::vector<long> fed{0}; int how = (int)r.below(3); for (int k = 0; k < 14; ++k) { if (r.chance(0.15)) soapy_set(*b, r); if (r.chance(0.7)) feed<T>(b->in, 0, fed, r, r.chance(0.8) ? how : 2); D.gift = pickgift(r, 0.6); call_snk([&] { return b->procedure(); }, [&](size_t) { return b->in.size(); }, 1, [] { return -1L; }); }
    destroy(b); }
template <class T> static void uhd_snk(long id, Rng& r) {
    size_t n = 1 + r.below(3), mn = 4096 / sizeof(T), cs = r.chance(0.4) ? 0 : r.chance(0.1) ? 1 + r.below(mn - 1) : mn + r.below(mn); bool valid = !cs || cs >= mn; UHDConfig c; bool given = r.chance(0.7); if (given) { c.center_freq_Hz = 1e3 * r.range(1000, 5999999); c.sample_rate_Hz = 1e3 * r.range(200, 20000); c.gain = (double)r.below(90); c.bandwidth_Hz = r.chance(0.5) ? 1e3 * r.range(200, 20000) : 0; } Want w; for (size_t i = 0; i < n; ++i) { w.add(kc("freq", i), c.center_freq_Hz / 1e3); w.add(kc("rate", i), c.sample_rate_Hz / 1e3); w.add(kc("gain", i), c.gain); if (c.bandwidth_Hz) w.add(kc("bw", i), c.bandwidth_Hz / 1e3); }
    g_uch = n; g_cpu = cpuname<T>(); g_otw = r.chance(0.5) ? "sc16" : "sc8"; D.mtu = 360; g_async = 0; g_usee = [](const std::vector<const void*>& b, long k) { std::vector<const T*> v; for (auto p : b) v.push_back((const T*)p); return seen<T>(v, k); };
    head(id, "uhd_snk", "snk", n, w, valid, (long)mn / 4, 0, false); auto b = build([&] { return std::make_unique<SinkUHDBlock<T>>("s", "addr", n, cs, g_otw, given ? &c : nullptr); }); if (!b) { E("end").done(); return; }
    std::vector<long> fed(n, 0); int how = (int)r.below(3); double skip = 0.25 * r.below(3); for (int k = 0; k < 14; ++k) { for (size_t i = 0; i < n; ++i) if (!r.chance(skip)) feed<T>(b->in[i], i, fed, r, r.chance(0.8) ? how : 2); D.gift = r.chance(0.3) ? 1 + (int)r.below(2) : 0; g_async = r.chance(0.3) ? (int)r.below(4) : 0; call_snk([&] { return b->procedure(); }, [&](size_t i) { return b->in[i].size(); }, n, [&] { return (long)b->get_underflow_count(); }); }
    destroy(b); }
// ------------------------------------------------------------------ PortAudio
static PaDeviceInfo g_pi; static int g_devs, g_devwant; static double g_rate;
extern "C" {
PaError Pa_Initialize(void) { if (failing()) return paInternalError; acq("lib"); return paNoError; } PaError Pa_Terminate(void) { rel("lib"); return paNoError; } const char* Pa_GetErrorText(PaError) { return "e"; }
PaDeviceIndex Pa_GetDeviceCount(void) { use("lib"); return g_devs; } PaDeviceIndex Pa_GetDefaultOutputDevice(void) { use("lib"); if (failing()) return paNoDevice; return 0; } const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex i) { use("lib"); return i >= 0 && i < g_devs ? &g_pi : nullptr; }
PaError Pa_OpenStream(PaStream** s, const PaStreamParameters* in, const PaStreamParameters* o, double rate, unsigned long, PaStreamFlags, PaStreamCallback* cb, void*) { use("lib"); if (failing()) return paInvalidDevice; acq("dev"); acq("stream"); cfg("rate", rate); cfg("dev", o->device); cfg("ch", o->channelCount); cfg("fmt", o->sampleFormat); if (in || cb) bad("open"); *s = (PaStream*)&D; return paNoError; }
PaError Pa_StartStream(PaStream*) { use("stream"); if (failing()) return paUnanticipatedHostError; acq("run"); return paNoError; } PaError Pa_StopStream(PaStream*) { rel("run"); return paNoError; } PaError Pa_AbortStream(PaStream*) { rel("run"); return paNoError; } PaError Pa_CloseStream(PaStream*) { rel("stream"); rel("dev"); return paNoError; }
PaError Pa_WriteStream(PaStream*, const void* p, unsigned long n) { PaError e = paNoError; const char* st = "ok"; if (D.gift == 1 || D.gift == 2) { e = paOutputUnderflowed; st = "underflow"; } else if (D.gift) { e = paUnanticipatedHostError; st = "error"; } const void* b[] = {p}; E("wr").i("n", n).i("ret", D.gift > 2 ? 0 : n).s("st", st).raw("got", g_see(b, 1, n)).done(); return e; }
}
static void audio_snk(long id, Rng& r) {
    size_t cs = r.chance(0.4) ? 0 : r.chance(0.1) ? 1 + r.below(1023) : 1024 + r.below(1500); static const double R[] = {48000, 44100, 8000, 1e6, 0, -1, 2e6}; int a = (int)r.below(r.chance(0.15) ? 7 : 4); g_devs = 3; int dv = r.chance(0.5) ? -1 : (int)r.below(3); if (r.chance(0.05)) dv = 3 + (int)r.below(2); bool valid = a < 4 && dv < 3 && (!cs || cs >= 1024); Want w; w.add("rate", R[a]); w.add("dev", dv < 0 ? 0 : dv); w.add("ch", 1); w.add("fmt", paFloat32);
    g_see = [](const void* const* b, size_t, long n) { return seen<float>({(const float*)b[0]}, n); };
    head(id, "audio_snk", "snk", 1, w, valid, 1, 0, true); auto b = build([&] { return std::make_unique<SinkAudioBlock>("s", R[a], dv, cs); }); if (!b) { E("end").done(); return; }
    std::vector<long> fed{0}; int how = (int)r.below(3); for (int k = 0; k < 14; ++k) { if (r.chance(0.7)) feed<float>(b->in, 0, fed, r, r.chance(0.8) ? how : 2); D.gift = pickgift(r, 0.4); call_snk([&] { return b->procedure(); }, [&](size_t) { return b->in.size(); }, 1, [] { return -1L; }); }
    destroy(b); }
#endif
int main(int c, char** v) {
    if (c < 6) return 2; g_seed = atoll(v[5]); std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); setenv("SOAPY_SDR_LOG_LEVEL", "0", 1); setenv("SOAPY_SDR_ROOT", "/nonexistent", 1);
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) { Rng r(g_seed * 7919 + id); D = Dev(); g_hack = false; D.r = Rng(r.next()); D.fail_at = r.chance(0.3) ? (long)r.below(13) : -1; int kind = (int)r.below(12); long sw = id % 100000; if (sw < 192) { kind = (int)(sw % 12); D.fail_at = sw / 12; } // every step of every construction fails once
        (void)kind;
#ifdef MRT
        D.fail_at = -1; if (id % 2) hack_src(id, r, true); else hack_snk(id, r, true);
#elif defined(SRC)
        switch (kind) { case 0: case 1: case 2: hack_src(id, r, false); break; case 3: soapy_src<cf>(id, r); break; case 4: r.chance(0.5) ? soapy_src<std::complex<int16_t>>(id, r) : soapy_src<std::complex<int8_t>>(id, r); break; case 5: r.chance(0.5) ? soapy_src<std::complex<uint8_t>>(id, r) : soapy_src<int16_t>(id, r); break; case 6: r.chance(0.5) ? soapy_src<int32_t>(id, r) : soapy_src<float>(id, r); break;
            case 7: caribou_src<cf>(id, r); break; case 8: caribou_src<std::complex<short>>(id, r); break; case 9: uhd_src<cf>(id, r); break; case 10: uhd_src<std::complex<int16_t>>(id, r); break; default: uhd_src<std::complex<int8_t>>(id, r); }
#else
        switch (kind) { case 0: case 1: case 2: hack_snk(id, r, false); break; case 3: soapy_snk<cf>(id, r); break; case 4: r.chance(0.5) ? soapy_snk<std::complex<int16_t>>(id, r) : soapy_snk<std::complex<int8_t>>(id, r); break; case 5: r.chance(0.5) ? soapy_snk<std::complex<uint8_t>>(id, r) : soapy_snk<int16_t>(id, r); break; case 6: r.chance(0.5) ? soapy_snk<int32_t>(id, r) : soapy_snk<float>(id, r); break;
            case 7: case 8: audio_snk(id, r); break; case 9: uhd_snk<cf>(id, r); break; case 10: uhd_snk<std::complex<int16_t>>(id, r); break; default: uhd_snk<std::complex<int8_t>>(id, r); }
#endif
    }, 40); }
