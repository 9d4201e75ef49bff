// Drives the repository's sample-wise blocks and logs what goes in and comes out (C13).
// usage: blocks MODE OUT FIRST N SEED      MODE: seq | conc (with -DMRT) 
#include "blk.hpp"
#include "desktop_blocks/math/add.hpp"
#include "desktop_blocks/math/gain.hpp"
#include "desktop_blocks/math/complex_demux.hpp"
#include "desktop_blocks/math/frequency_shift.hpp"
#include "desktop_blocks/noise/awgn.hpp"
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/utils/throttle.hpp"
#include "desktop_blocks/utils/throughput.hpp"
#include "desktop_blocks/sinks/sink_null.hpp"
#ifdef MRT
#include "mrt.hpp"
#else
namespace mrt { struct Ignore { Ignore() {} }; static void yield() {} static void point() {} static bool active() { return false; } }
#endif
typedef std::complex<float> cf; typedef std::complex<double> cd;
struct Case {
    std::string kind; bool cx = false; std::vector<long> par; double oscale = 1.0; std::vector<std::unique_ptr<Port>> in, out;
    std::function<Res()> call; std::function<long()> passed; std::shared_ptr<void> keep; std::vector<Sm> pool; // values to draw inputs from (empty: integers)
    long lo = -40, hi = 40;
};
static uint64_t g_seed; static std::string g_mode;
template <class T> static size_t minbuf() { size_t m = 4096 / sizeof(T); return m ? m : 1; }
template <class T> static size_t bufsz(Rng& r, bool need) { if (need) return r.chance(0.6) ? 0 : minbuf<T>() + r.below(minbuf<T>() + 3); return r.chance(0.35) ? 0 : 1 + r.below(12); }
template <class T> static Port* inport(cler::Channel<T>& c) { return new PortT<T>(&c, c._queue.is_doubly_mapped()); }

template <class T> static Case mk_add(Rng& r) {
    struct K { AddBlock<T> b; Outs<T> o; K(size_t n, size_t s) : b("add", n, s) {} };
    size_t n = 2 + r.below(3); auto k = std::make_shared<K>(n, bufsz<T>(r, true)); Case c; c.kind = "add"; c.cx = Cod<T>::cx; c.keep = k;
    for (size_t i = 0; i < n; ++i) c.in.emplace_back(inport<T>(k->b.in[i]));
    auto* o = k->o.make(r, true, 0); c.out.emplace_back(k->o.port(0)); c.call = [k, o] { return k->b.procedure(o); }; return c; }
template <class T> static Case mk_gain(Rng& r) {
    struct K { GainBlock<T> b; Outs<T> o; K(T g, size_t s) : b("gain", g, s) {} };
    Sm g{r.range(-5, 5)}; if (Cod<T>::cx) g.push_back(r.range(-5, 5)); auto k = std::make_shared<K>(Cod<T>::enc(g), bufsz<T>(r, false)); Case c; c.kind = "gain"; c.cx = Cod<T>::cx; c.par = g; c.keep = k;
    c.in.emplace_back(inport<T>(k->b.in)); auto* o = k->o.make(r, false, 12); c.out.emplace_back(k->o.port(0)); c.call = [k, o] { return k->b.procedure(o); }; return c; }
static Case mk_demux(Rng& r, bool mp) {
    struct K { ComplexToMagPhaseBlock b; Outs<float> o; K(bool m, size_t s) : b("demux", m ? ComplexToMagPhaseBlock::MagPhase : ComplexToMagPhaseBlock::RealImag, s) {} };
    auto k = std::make_shared<K>(mp, bufsz<cf>(r, true)); Case c; c.kind = mp ? "magph" : "reim"; c.cx = true; c.keep = k; if (mp) c.oscale = 1000;
    c.in.emplace_back(inport<cf>(k->b.in)); auto* o1 = k->o.make(r, false, 12); auto* o2 = k->o.make(r, false, 12); c.out.emplace_back(k->o.port(0)); c.out.emplace_back(k->o.port(1));
    if (mp) c.pool = {{3, 4}, {-3, 4}, {5, -12}, {0, 2}, {0, -3}, {7, 0}, {-6, 0}, {1, 1}, {-2, 2}, {8, 15}, {-8, -15}, {0, 0}};
    c.call = [k, o1, o2] { return k->b.procedure(o1, o2); }; return c; }
static Case mk_fshift(Rng& r) {
    struct K { FrequencyShiftBlock b; Outs<cf> o; K(double f, double s, size_t n) : b("fs", f, s, n) {} };
    long rot = r.below(4); double fs = r.chance(0.5) ? 1e6 : 48000; double f = rot * fs / 4; if (r.chance(0.3)) f -= fs; auto k = std::make_shared<K>(f, fs, bufsz<cf>(r, false)); Case c; c.kind = "fshift"; c.cx = true; c.par = {rot}; c.keep = k;
    c.in.emplace_back(inport<cf>(k->b.in)); auto* o = k->o.make(r, false, 12); c.out.emplace_back(k->o.port(0)); c.call = [k, o] { return k->b.procedure(o); }; return c; }
template <class T> static Case mk_awgn(Rng& r) {
    struct K { NoiseAWGNBlock<T> b; Outs<T> o; K(size_t s) : b("n", 1e-4f, s) {} };
    auto k = std::make_shared<K>(bufsz<T>(r, false)); Case c; c.kind = "same"; c.cx = Cod<T>::cx; c.keep = k;
    c.in.emplace_back(inport<T>(k->b.in)); auto* o = k->o.make(r, false, 12); c.out.emplace_back(k->o.port(0)); c.call = [k, o] { return k->b.procedure(o); }; return c; }
template <class T> static Case mk_throttle(Rng& r) {
    struct K { ThrottleBlock<T> b; Outs<T> o; K(size_t s) : b("t", 1000000000, s) {} };
    auto k = std::make_shared<K>(1 + r.below(12)); Case c; c.kind = "throttle"; c.cx = Cod<T>::cx; c.keep = k;
    c.in.emplace_back(inport<T>(k->b.in)); auto* o = k->o.make(r, false, 12); c.out.emplace_back(k->o.port(0)); c.call = [k, o] { return k->b.procedure(o); }; return c; }
template <class T> static Case mk_thr(Rng& r) {
    struct K { ThroughputBlock<T> b; Outs<T> o; K(size_t s) : b("t", s) {} };
    auto k = std::make_shared<K>(bufsz<T>(r, true)); Case c; c.kind = "thr"; c.cx = Cod<T>::cx; c.keep = k; c.passed = [k] { return (long)k->b.samples_passed(); };
    c.in.emplace_back(inport<T>(k->b.in)); auto* o = k->o.make(r, true, 0); c.out.emplace_back(k->o.port(0)); c.call = [k, o] { return k->b.procedure(o); }; return c; }
template <class T> static Case mk_fan(Rng& r) {
    struct K { FanoutBlock<T> b; Outs<T> o; K(size_t n, size_t s) : b("f", n, s) {} };
    size_t n = 1 + r.below(4); auto k = std::make_shared<K>(n, bufsz<T>(r, true)); Case c; c.kind = "fan"; c.cx = Cod<T>::cx; c.keep = k; c.in.emplace_back(inport<T>(k->b.in));
    std::vector<cler::ChannelBase<T>*> o; for (size_t i = 0; i < n; ++i) { o.push_back(k->o.make(r, true, 0)); c.out.emplace_back(k->o.port(i)); }
    c.call = [k, o, n] { switch (n) { case 1: return k->b.procedure(o[0]); case 2: return k->b.procedure(o[0], o[1]); case 3: return k->b.procedure(o[0], o[1], o[2]); default: return k->b.procedure(o[0], o[1], o[2], o[3]); } }; return c; }
template <class T> struct NullCtx { Rng r{1}; std::function<void(std::vector<Sm>, long)> log; };
template <class T> static Case mk_null(Rng& r) {
    struct K { NullCtx<T> x; SinkNullBlock<T> b; K(bool cb, size_t s) : b("z", cb ? &K::fn : nullptr, &x, s) {}
        static size_t fn(cler::Channel<T>* ch, void* p) { auto& x = *(NullCtx<T>*)p; const T *a, *b; size_t m, n; size_t t = ch->peek_read(a, m, b, n); size_t k; { mrt::Ignore ig; k = x.r.below(t + 1); if (x.r.chance(0.3)) k = t; }
            std::vector<Sm> v; for (size_t i = 0; i < k; ++i) v.push_back(Cod<T>::dec(i < m ? a[i] : b[i - m])); mrt::Ignore ig; E("cb").raw("v", jsm(v)).i("n", (long)t).done(); return k; } };
    bool cb = r.chance(0.6); auto k = std::make_shared<K>(cb, bufsz<T>(r, false)); k->x.r = Rng(r.next()); Case c; c.kind = cb ? "nullcb" : "null"; c.cx = Cod<T>::cx; c.keep = k;
    c.in.emplace_back(inport<T>(k->b.in)); c.call = [k] { return k->b.procedure(); }; return c; }
typedef Big<64> B64; typedef Big<1024> B1k; typedef Big<4096> B4k; 
static Case mk(Rng& r) {
    switch (r.below(10)) {
    case 0: switch (r.below(5)) { case 0: return mk_add<int>(r); case 1: return mk_add<float>(r); case 2: return mk_add<cf>(r); case 3: return mk_add<B1k>(r); default: return mk_add<B4k>(r); }
    case 1: switch (r.below(5)) { case 0: return mk_gain<int>(r); case 1: return mk_gain<float>(r); case 2: return mk_gain<cf>(r); case 3: return mk_gain<B64>(r); default: return mk_gain<double>(r); }
    case 2: return mk_demux(r, false); case 3: return mk_demux(r, true); case 4: return mk_fshift(r);
    case 5: switch (r.below(4)) { case 0: return mk_awgn<float>(r); case 1: return mk_awgn<double>(r); case 2: return mk_awgn<cf>(r); default: return mk_awgn<cd>(r); }
    case 6: switch (r.below(4)) { case 0: return mk_fan<int>(r); case 1: return mk_fan<cf>(r); case 2: return mk_fan<B1k>(r); default: return mk_fan<B4k>(r); }
    case 7: switch (r.below(3)) { case 0: return mk_throttle<int>(r); case 1: return mk_throttle<cf>(r); default: return mk_throttle<B64>(r); }
    case 8: switch (r.below(4)) { case 0: return mk_thr<int>(r); case 1: return mk_thr<cf>(r); case 2: return mk_thr<B1k>(r); default: return mk_thr<B4k>(r); }
    default: switch (r.below(3)) { case 0: return mk_null<int>(r); case 1: return mk_null<cf>(r); default: return mk_null<B64>(r); }
    }
}
static std::vector<Sm> gen(Case& c, Rng& r, size_t n) { std::vector<Sm> v; for (size_t i = 0; i < n; ++i) { if (!c.pool.empty()) v.push_back(c.pool[r.below(c.pool.size())]); else if (c.cx) v.push_back({r.range(c.lo, c.hi), r.range(c.lo, c.hi)}); else v.push_back({r.range(c.lo, c.hi)}); } return v; }
static void head(long id, Case& c, bool conc) { E e("reset"); e.i("id", id).s("kind", c.kind).t("cx", c.cx).a("par", c.par).i("nin", c.in.size()).i("nout", c.out.size()).t("conc", conc); e.done(); }
static long amount(Rng& r, size_t lim, int prof) { if (!lim) return 0; switch (prof == 0 ? r.below(4) : prof == 1 ? 3 : 1 + r.below(3)) { case 0: return lim; case 1: return r.below(lim + 1); case 2: return std::min<size_t>(lim, 1 + r.below(12)); default: return std::min<size_t>(lim, 1 + r.below(3)); } }

static void seq(long id) {
    Rng r(g_seed * 7919 + id); Case c = mk(r); head(id, c, false);
    bool bigcap = false; for (auto& p : c.in) bigcap |= p->space() > 60; for (auto& p : c.out) bigcap |= p->space() > 60;
    int ops = bigcap ? 14 + (int)r.below(14) : 30 + (int)r.below(60); int prof = (int)r.below(3); double pf = 0.2 + 0.01 * r.below(30), pd = 0.2 + 0.01 * r.below(30);
    size_t ni = c.in.size(), no = c.out.size(); if (!no) pd = 0.1;
    for (int q = 0; q < ops; ++q) {
        double x = r.below(1000) / 1000.0;
        if (x < pf) { size_t i = r.below(ni); long n = amount(r, c.in[i]->space(), prof); if (c.in[i]->space() > 60 && r.chance(0.3)) n = c.in[i]->space(); auto v = gen(c, r, n); size_t k = c.in[i]->put(v, 0, (int)r.below(4)); v.resize(k); if (k) E("feed").i("i", i + 1).raw("v", jsm(v)).done(); }
        else if (x < pf + pd) { if (!no) continue; size_t j = r.below(no); long n = amount(r, c.out[j]->size(), prof); auto v = c.out[j]->get(n, (int)r.below(4), c.oscale); if (!v.empty()) E("got").i("j", j + 1).raw("v", jsm(v)).done(); }
        else { std::vector<long> sp, a, b; for (auto& p : c.out) sp.push_back(p->space() > 0); Res z = c.call(); for (auto& p : c.in) a.push_back(p->size()); for (auto& p : c.out) b.push_back(p->size());
            E("call").s("res", ename(z)).a("sp", sp).a("inn", a).a("on", b).i("pass", c.passed ? c.passed() : -1).done(); }
    }
    for (size_t j = 0; j < no; ++j) { auto v = c.out[j]->get(c.out[j]->size(), 3, c.oscale); if (!v.empty()) E("got").i("j", j + 1).raw("v", jsm(v)).done(); }
    E("end").done();
}
#ifdef MRT
static void conc(long id) {
    Rng r(g_seed * 7919 + id); mrt::Opt o; static const double ps[] = {0.05, 0.2, 0.5}; o.seed = r.next(); o.pswitch = ps[r.below(3)]; o.max_points = 400000;
    Case c = mk(r); while (c.kind == "magph" || c.kind == "null" || c.kind == "nullcb") c = mk(r);
    head(id, c, true); size_t ni = c.in.size(), no = c.out.size(); size_t cap = 1 << 20; for (auto& p : c.in) cap = std::min(cap, p->space()); for (auto& p : c.out) cap = std::min(cap, p->space());
    mrt::begin(o); std::vector<int> pr, co; bool quit = false; std::vector<Rng> rr; for (size_t i = 0; i < ni + no; ++i) rr.push_back(Rng(r.next()));
    size_t base = cap > 60 ? cap + r.below(cap) : 3 + r.below(60);
    for (size_t i = 0; i < ni; ++i) pr.push_back(mrt::spawn([&, i] { Rng q; size_t left, pos; std::vector<Sm> v; { mrt::Ignore ig; q = rr[i]; left = base + q.below(std::min<size_t>(20, cap)); v = gen(c, q, left); E("feed").i("i", i + 1).raw("v", jsm(v)).done(); }
        size_t at = 0; while (at < v.size()) { size_t n = v.size() < 60 ? 1 + q.below(5) : 1 + q.below(200); if (n > v.size() - at) n = v.size() - at; std::vector<Sm> w(v.begin() + at, v.begin() + at + n); at += c.in[i]->put(w, 0, (int)q.below(4)); mrt::yield(); } }));
    for (size_t j = 0; j < no; ++j) co.push_back(mrt::spawn([&, j] { Rng q; { mrt::Ignore ig; q = rr[ni + j]; } bool last = false; for (;;) { bool z; { mrt::Ignore ig; z = quit; } size_t n = c.out[j]->size(); if (n) { size_t k = q.chance(0.3) ? n : std::min(n, (size_t)(1 + q.below(n > 60 ? 200 : 4))); auto v = c.out[j]->get(k, (int)q.below(4), c.oscale); mrt::Ignore ig; E("got").i("j", j + 1).raw("v", jsm(v)).done(); } else if (z && last) break; last = z; mrt::yield(); } }));
    int blk = mrt::spawn([&] { int idle = 0; for (;;) { bool alldone = true; for (int p : pr) alldone &= mrt::done(p);
        std::vector<size_t> a; for (auto& p : c.in) a.push_back(p->size()); Res z = c.call(); bool moved = false; for (size_t i = 0; i < ni; ++i) moved |= c.in[i]->size() < a[i]; bool full = false; for (auto& p : c.out) full |= p->space() == 0;
        if (!z.is_ok() && is_fatal(z.unwrap_err())) { mrt::Ignore ig; E("fatal").done(); break; }
        bool dry = false; for (auto& p : c.in) dry |= p->size() == 0; if (alldone && !moved && dry && !full) { if (++idle > 3) break; } else idle = 0; mrt::yield(); } });
    for (int p : pr) mrt::join(p); mrt::join(blk); { mrt::Ignore ig; quit = true; } for (int p : co) mrt::join(p);
    std::vector<long> a; for (auto& p : c.in) a.push_back(p->size()); mrt::end(); E("quiet").a("inn", a).i("pass", c.passed ? c.passed() : -1).done(); E("end").done();
}
#endif
int main(int c, char** v) {
    if (c < 6) return 2; g_mode = v[1]; g_seed = atoll(v[5]);
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) {
#ifdef MRT
        conc(id);
#else
        seq(id);
#endif
    }, 40);
}
