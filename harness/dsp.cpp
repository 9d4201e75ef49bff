// Drives the repository's stateful signal blocks under arbitrary chunking and back-pressure (C14).
// The reference stream comes from the signal-processing library itself, fed the whole input at once
// (or from the closed form for the oscillators).
// usage: dsp MODE OUT FIRST N SEED [SCRIPTS]    MODE: seq | script | conc (with -DMRT)
#include "blk.hpp"
#include "desktop_blocks/resamplers/multistage_resampler.hpp"
#include "desktop_blocks/filters/kaiser_lpf.hpp"
#include "desktop_blocks/fm/fm_demod.hpp"
#include "desktop_blocks/channelizers/polyphase_channelizer.hpp"
#include "desktop_blocks/sources/source_cw.hpp"
#include "desktop_blocks/sources/source_chirp.hpp"
#include <fstream>
#include <sstream>
#ifdef MRT
#include "mrt.hpp"
#else
namespace mrt { struct Ignore { Ignore() {} }; }
#endif
typedef std::complex<float> cf;
static const double Q = 10000;
static long qz(double v) { if (!std::isfinite(v)) return 1000000000; v = std::nearbyint(v * Q); return v > 1e9 ? 1000000000 : v < -1e9 ? -1000000000 : (long)v; }
static void qput(std::vector<long>& o, float v) { o.push_back(qz(v)); }
static void qput(std::vector<long>& o, cf v) { o.push_back(qz(v.real())); o.push_back(qz(v.imag())); }
struct In { virtual ~In() {} virtual size_t space() = 0, size() = 0, feed(size_t n, int how) = 0; size_t at = 0, total = 0; };
template <class T> struct InT : In { cler::ChannelBase<T>* c; std::shared_ptr<std::vector<T>> x; bool d;
    InT(cler::Channel<T>& ch, std::shared_ptr<std::vector<T>> v) : c(&ch), x(v), d(ch._queue.is_doubly_mapped()) { total = x->size(); }
    size_t space() override { return c->space(); } size_t size() override { return c->size(); }
    size_t feed(size_t n, int how) override { n = std::min(n, x->size() - at); const T* p = x->data() + at; size_t k = 0;
        if (how == 0) { while (k < n && c->try_push(p[k])) ++k; }
        else if (how == 1 && d) { auto [w, s] = c->write_dbf(); k = std::min(n, (size_t)s); std::copy(p, p + k, w); c->commit_write(k); }
        else k = c->writeN(p, n);
        at += k; return k; } };
struct Out { virtual ~Out() {} virtual size_t space() = 0, size() = 0; virtual void fill(size_t n) = 0; virtual std::vector<long> take(size_t n, int how) = 0; size_t skip = 0; }; // skip: filler samples still in front
template <class T> struct OutT : Out { cler::ChannelBase<T>* c; bool d; OutT(cler::ChannelBase<T>* c_, bool d_) : c(c_), d(d_) {}
    size_t space() override { return c->space(); } size_t size() override { return c->size(); }
    void fill(size_t n) override { std::vector<T> t(n, T(77)); skip += c->writeN(t.data(), n); }
    std::vector<long> take(size_t n, int how) override { auto v = take0(n, how); size_t k = std::min(skip * (Cod<T>::cx ? 2 : 1), v.size()); skip -= k / (Cod<T>::cx ? 2 : 1); v.erase(v.begin(), v.begin() + k); return v; }
    std::vector<long> take0(size_t n, int how) { std::vector<long> r; if (!n) return r;
        if (how == 0) { T t; while (n-- && c->try_pop(t)) qput(r, t); return r; }
        if (how == 1 && d) { auto [p, s] = c->read_dbf(); size_t k = std::min(n, (size_t)s); for (size_t i = 0; i < k; ++i) qput(r, p[i]); c->commit_read(k); return r; }
        std::vector<T> t(n); n = c->readN(t.data(), n); for (size_t i = 0; i < n; ++i) qput(r, t[i]); return r; } };
struct Case { std::string kind, name; long m = 1, w = 1, n = 0, need = 0, tol = 3; std::vector<long> cnt; std::vector<std::vector<long>> ref; std::unique_ptr<In> in; std::vector<std::unique_ptr<Out>> out; std::function<Res()> call; std::shared_ptr<void> keep; };
static uint64_t g_seed; static std::string g_mode; static std::vector<std::vector<std::string>> g_scripts;
template <class T> static size_t minbuf() { return 4096 / sizeof(T); }
template <class T> static size_t bufsz(Rng& r) { return r.chance(0.5) ? 0 : minbuf<T>() + r.below(minbuf<T>()); }
static float u(Rng& r) { return (float)((long)r.below(20001) - 10000) / 10000.0f; }
static void rnd_in(Rng& r, float& v) { v = u(r); }
static void rnd_in(Rng& r, cf& v) { float a = u(r), b = u(r); v = cf(a, b); }
template <class T> static auto input(Rng& r, size_t n) { auto x = std::make_shared<std::vector<T>>(n); double dens = r.chance(0.2) ? 0.02 : 1; for (auto& v : *x) { rnd_in(r, v); if (!r.chance(dens)) v = T(0); } return x; }
template <class T> static size_t len(Rng& r) { return minbuf<T>() * (1 + r.below(3)) + r.below(300); }
static liquid_float_complex* L(cf* p) { return reinterpret_cast<liquid_float_complex*>(p); }

template <class T> static Case mk_resamp(Rng& r) {
    float ratio = r.chance(0.2) ? (float)(1 + r.below(6)) : r.chance(0.2) ? 1.0f / (1 + r.below(6)) : (float)std::exp(std::log(0.02) + r.below(1000) / 1000.0 * std::log(400.0)), att = 40.0f + r.below(41);
    struct K { MultiStageResamplerBlock<T> b; Outs<T> o; K(float q, float a, size_t n) : b("rs", q, a, n) {} };
    auto k = std::make_shared<K>(ratio, att, bufsz<T>(r)); Case c; c.kind = "table"; c.name = "resampler"; c.w = Cod<T>::cx ? 2 : 1; c.keep = k; size_t n = len<T>(r); if (n * ratio > 2500) n = (size_t)(2500 / ratio) + 1;
    auto x = input<T>(r, n); std::vector<T> y(16 + (size_t)(4 * (n + 1) * ratio) + 4 * (size_t)ratio); c.cnt = {0}; size_t tot = 0; c.ref.resize(1);
    if constexpr (Cod<T>::cx) { auto q = msresamp_crcf_create(ratio, att); for (size_t i = 0; i < n; ++i) { unsigned g = 0; msresamp_crcf_execute(q, L(&(*x)[i]), 1, L(y.data() + tot), &g); tot += g; c.cnt.push_back(tot); } msresamp_crcf_destroy(q); }
    else { auto q = msresamp_rrrf_create(ratio, att); for (size_t i = 0; i < n; ++i) { unsigned g = 0; msresamp_rrrf_execute(q, &(*x)[i], 1, y.data() + tot, &g); tot += g; c.cnt.push_back(tot); } msresamp_rrrf_destroy(q); }
    for (size_t i = 0; i < tot; ++i) qput(c.ref[0], y[i]);
    c.n = n; c.need = tot; c.in.reset(new InT<T>(k->b.in, x)); auto* o = k->o.make(r, r.chance(0.6), 40); c.out.emplace_back(new OutT<T>(o, k->o.d[0])); c.call = [k, o] { return k->b.procedure(o); }; return c; }
template <class T> static Case mk_lpf(Rng& r) {
    double fs = r.chance(0.5) ? 1.0 : 2e6, fc = (0.03 + 0.01 * r.below(40)) * fs, tb = (0.02 + 0.01 * r.below(20)) * fs, att = 30 + r.below(50);
    while (std::ceil(att / (22.0f * (float)(tb / fs))) < 5) tb /= 2;
    struct K { KaiserLPFBlock<T> b; Outs<T> o; K(double s, double f, double t, double a, size_t n) : b("lpf", s, f, t, a, n) {} };
    auto k = std::make_shared<K>(fs, fc, tb, att, bufsz<T>(r)); Case c; c.kind = "each"; c.name = "lpf"; c.w = Cod<T>::cx ? 2 : 1; c.keep = k; size_t n = len<T>(r); auto x = input<T>(r, n); std::vector<T> y(n);
    unsigned ord = (unsigned)std::ceil(att / (22.0f * (float)(tb / fs))); if (ord % 2 == 0) ++ord;
    if constexpr (Cod<T>::cx) { auto q = firfilt_crcf_create_kaiser(ord, (float)(fc / fs), (float)att, 0); firfilt_crcf_execute_block(q, L(x->data()), n, L(y.data())); firfilt_crcf_destroy(q); }
    else { auto q = firfilt_rrrf_create_kaiser(ord, (float)(fc / fs), (float)att, 0); firfilt_rrrf_execute_block(q, x->data(), n, y.data()); firfilt_rrrf_destroy(q); }
    c.ref.resize(1); for (auto v : y) qput(c.ref[0], v);
    c.n = c.need = n; c.in.reset(new InT<T>(k->b.in, x)); auto* o = k->o.make(r, true, 0); c.out.emplace_back(new OutT<T>(o, k->o.d[0])); c.call = [k, o] { return k->b.procedure(o); }; return c; }
static Case mk_fm(Rng& r) {
    double fs = r.chance(0.5) ? 2e6 : 48e3, dev = fs * (0.02 + 0.01 * r.below(30));
    struct K { FMDemodBlock b; Outs<float> o; K(double s, double d, size_t n) : b("fm", s, d, n) {} };
    auto k = std::make_shared<K>(fs, dev, bufsz<cf>(r)); Case c; c.kind = "each"; c.name = "fm"; c.keep = k; size_t n = len<cf>(r); auto x = std::make_shared<std::vector<cf>>(n); std::vector<float> y(n);
    double ph = 0, am = 0.5 + 0.1 * r.below(10); for (auto& v : *x) { ph += 2.6 * u(r); v = cf((float)(am * std::cos(ph)), (float)(am * std::sin(ph))); }
    auto q = freqdem_create((float)(dev / fs)); freqdem_demodulate_block(q, L(x->data()), n, y.data()); freqdem_destroy(q); c.ref.resize(1); for (auto v : y) qput(c.ref[0], v);
    c.n = c.need = n; c.in.reset(new InT<cf>(k->b.in, x)); auto* o = k->o.make(r, true, 0); c.out.emplace_back(new OutT<float>(o, k->o.d[0])); c.call = [k, o] { return k->b.procedure(o); }; return c; }
static Case mk_pfb(Rng& r) {
    size_t M = 1 + r.below(5), ms = 2 + r.below(5); float att = 40.0f + r.below(41);
    struct K { PolyphaseChannelizerBlock b; Outs<cf> o; K(size_t m, float a, size_t s, size_t n) : b("pfb", m, a, s, n) {} };
    size_t bs = r.chance(0.5) ? 0 : M * ((minbuf<cf>() + M - 1) / M + r.below(40));
    auto k = std::make_shared<K>(M, att, ms, bs); Case c; c.kind = "frame"; c.m = M; c.name = "channelizer"; c.w = 2; c.keep = k; size_t n = minbuf<cf>() * M / 2 + r.below(700 * M); if (n > 2000) n = 2000 + r.below(7); auto x = input<cf>(r, n);
    auto q = firpfbch_crcf_create_kaiser(LIQUID_ANALYZER, M, ms, att); std::vector<cf> y(M); c.ref.resize(M); for (size_t i = 0; i + M <= n; i += M) { firpfbch_crcf_analyzer_execute(q, L(x->data() + i), L(y.data())); for (size_t j = 0; j < M; ++j) qput(c.ref[j], y[j]); } firpfbch_crcf_destroy(q);
    c.n = n; c.need = n / M; c.in.reset(new InT<cf>(k->b.in, x)); std::vector<cler::ChannelBase<cf>*> o; for (size_t j = 0; j < M; ++j) { o.push_back(k->o.make(r, true, 0)); c.out.emplace_back(new OutT<cf>(o[j], k->o.d[j])); }
    c.call = [k, o, M] { switch (M) { case 1: return k->b.procedure(o[0]); case 2: return k->b.procedure(o[0], o[1]); case 3: return k->b.procedure(o[0], o[1], o[2]); case 4: return k->b.procedure(o[0], o[1], o[2], o[3]); default: return k->b.procedure(o[0], o[1], o[2], o[3], o[4]); } }; return c; }
template <class T> static void osc(Case& c, double a, double ph) { c.ref[0].push_back(qz(a * std::cos(ph))); if (Cod<T>::cx) c.ref[0].push_back(qz(a * std::sin(ph))); }
template <class T> static Case mk_cw(Rng& r) {
    size_t sps = r.chance(0.5) ? 1000000 : 48000; float a = 0.25f * (1 + r.below(8)), f = (float)(sps * (0.05 + 0.001 * r.below(400))); if (r.chance(0.3)) f = -f;
    struct K { SourceCWBlock<T> b; Outs<T> o; K(float a_, float f_, size_t s) : b("cw", a_, f_, s) {} };
    auto k = std::make_shared<K>(a, f, sps); Case c; c.kind = "gen"; c.name = "cw"; c.w = Cod<T>::cx ? 2 : 1; c.tol = 100; c.keep = k; c.need = 500 + r.below(1500); c.n = c.need + 8400; c.ref.resize(1);
    for (long i = 0; i < c.n; ++i) osc<T>(c, a, 2 * M_PI * std::fmod((double)f * i / sps, 1.0));
    auto* o = k->o.make(r, r.chance(0.5), 40); c.out.emplace_back(new OutT<T>(o, k->o.d[0])); c.call = [k, o] { return k->b.procedure(o); }; return c; }
template <class T> static Case mk_chirp(Rng& r) {
    size_t sps = 1 << (10 + r.below(8)); float a = 0.25f * (1 + r.below(8)), f0 = (float)(sps * (0.05 + 0.001 * r.below(300))), f1 = (float)(sps * (0.05 + 0.001 * r.below(400))); size_t P = r.chance(0.2) ? 1 + r.below(5) : 20 + r.below(1000); float dur = ((float)P + 0.5f) / sps;
    struct K { SourceChirpBlock<T> b; Outs<T> o; K(float a_, float f, float g, size_t s, float d) : b("chirp", a_, f, g, s, d) {} };
    auto k = std::make_shared<K>(a, f0, f1, sps, dur); Case c; c.kind = "gen"; c.name = "chirp"; c.w = Cod<T>::cx ? 2 : 1; c.tol = 300; c.keep = k; c.need = 500 + r.below(1500); c.n = c.need + 8400; c.ref.resize(1);
    for (long i = 0; i < c.n; ++i) { double t = i % P; osc<T>(c, a, 2 * M_PI * std::fmod((double)f0 * t / sps + ((double)f1 - f0) / dur * t * (t - 1) / 2 / sps / sps, 1.0)); }
    auto* o = k->o.make(r, true, 0); c.out.emplace_back(new OutT<T>(o, k->o.d[0])); c.call = [k, o] { return k->b.procedure(o); }; return c; }
static Case mk0(Rng& r) {
    switch (r.below(12)) { case 0: case 1: return mk_resamp<float>(r); case 2: case 3: return mk_resamp<cf>(r); case 4: return mk_lpf<float>(r); case 5: return mk_lpf<cf>(r); case 6: return mk_fm(r); case 7: case 8: return mk_pfb(r);
    case 9: return r.chance(0.5) ? mk_cw<float>(r) : mk_cw<cf>(r); default: return r.chance(0.5) ? mk_chirp<float>(r) : mk_chirp<cf>(r); } }
static Case mk(Rng& r) { // outputs start nearly full in most runs, so that little room is the rule
    Case c = mk0(r); if (r.chance(0.6)) for (auto& o : c.out) if (r.chance(0.7)) { size_t sp = o->space(), leave = r.chance(0.2) ? 0 : r.chance(0.5) ? r.below(30) : r.below(300); if (leave < sp) o->fill(sp - leave); } return c; }
static void head(long id, Case& c, bool conc) { std::string f = "["; for (size_t j = 0; j < c.ref.size(); ++j) { f += j ? ",[" : "["; for (size_t i = 0; i < c.ref[j].size(); ++i) { if (i) f += ","; f += std::to_string(c.ref[j][i]); } f += "]"; } f += "]";
    E("reset").i("id", id).s("kind", c.kind).s("blk", c.name).i("m", c.m).i("w", c.w).i("n", c.n).i("need", c.need).i("tol", c.tol).t("conc", conc).a("cnt", c.cnt).raw("ref", f).done(); }
static void call(Case& c, long& made) {
    if (c.kind == "gen" && made + (long)c.out[0]->space() > c.n) return; // stay inside the reference
    size_t a = c.in ? c.in->size() : 0; std::vector<long> b, m; for (auto& o : c.out) b.push_back(o->size()); Res z = c.call(); for (size_t j = 0; j < c.out.size(); ++j) m.push_back((long)c.out[j]->size() - b[j]); made += m[0];
    E("call").s("res", ename(z)).i("used", c.in ? (long)a - (long)c.in->size() : 0).a("made", m).done(); }
static void take(Case& c, size_t j, size_t n, Rng& r) { auto v = c.out[j]->take(n, (int)r.below(3)); if (!v.empty()) E("got").i("j", j + 1).a("v", v).done(); }
static void finish(Case& c, Rng& r, long made) { // plenty of room: everything the input determines comes out
    for (int idle = 0; idle < 6;) { size_t a = c.in ? c.in->at : 0; long m = made; for (size_t j = 0; j < c.out.size(); ++j) take(c, j, c.out[j]->size(), r); if (c.in) c.in->feed(c.in->space(), 2); if (c.kind == "gen" && made >= c.need) break; size_t s = c.in ? c.in->size() : 0; call(c, made);
        if (made == m && (!c.in || (c.in->at == a && c.in->size() == s))) ++idle; else idle = 0; }
    for (size_t j = 0; j < c.out.size(); ++j) take(c, j, c.out[j]->size(), r); E("end").done(); }
static long amount(Rng& r, size_t lim, int prof) { if (!lim) return 0; switch (prof == 0 ? r.below(4) : prof == 1 ? 3 : 1 + r.below(3)) { case 0: return lim; case 1: return r.below(lim + 1); case 2: return std::min<size_t>(lim, 1 + r.below(40)); default: return std::min<size_t>(lim, 1 + r.below(3)); } }
static void seq(long id) {
    Rng r(g_seed * 7919 + id); Case c = mk(r); head(id, c, false); long made = 0; int prof = (int)r.below(3), prof2 = (int)r.below(3), ops = 30 + (int)r.below(60); double pf = c.in ? 0.2 + 0.01 * r.below(30) : 0, pd = 0.2 + 0.01 * r.below(30);
    if (r.chance(0.3) && c.in) c.in->feed(c.in->space(), 2);
    for (int q = 0; q < ops; ++q) { double x = r.below(1000) / 1000.0;
        if (x < pf) { size_t n = amount(r, c.in->space(), prof); c.in->feed(r.chance(0.2) ? c.in->space() : n, (int)r.below(3)); }
        else if (x < pf + pd) { size_t j = r.below(c.out.size()); take(c, j, amount(r, c.out[j]->size(), prof2), r); }
        else call(c, made); }
    finish(c, r, made); }
// script tokens: f1..f4 / d1..d4 feed / drain that many quarters of the channel (jittered), c call
static void script(long id) {
    Rng r(g_seed * 7919 + id); Case c = mk(r); head(id, c, false); long made = 0; size_t ic = c.in ? c.in->space() : 0; std::vector<size_t> oc; for (auto& o : c.out) oc.push_back(o->space());
    for (auto& t : g_scripts[id % g_scripts.size()]) { int k = t.size() > 1 ? t[1] - '0' : 0; auto q = [&](size_t cap) { size_t v = cap * k / 4; if (r.chance(0.4)) v += (size_t)r.below(5) - 2; return v > cap + 4 ? 0 : v; };
        if (t[0] == 'f') { if (c.in) c.in->feed(std::min(q(ic), c.in->space()), (int)r.below(3)); }
        else if (t[0] == 'd') { for (size_t j = 0; j < c.out.size(); ++j) take(c, j, std::min(q(oc[j]), c.out[j]->size()), r); }
        else call(c, made); }
    finish(c, r, made); }
#ifdef MRT
static void conc(long id) {
    Rng r(g_seed * 7919 + id); mrt::Opt o; static const double ps[] = {0.02, 0.1, 0.4}; o.seed = r.next(); o.pswitch = ps[r.below(3)]; o.max_points = 2000000; Case c = mk(r); head(id, c, true);
    Rng rp(r.next()), rc(r.next()); bool quit = false; long lim = c.n; mrt::begin(o); int pr = -1;
    if (c.in) pr = mrt::spawn([&] { for (;;) { size_t left, n; int how; { mrt::Ignore ig; left = c.in->total - c.in->at; n = rp.chance(0.2) ? left : 1 + rp.below(200); how = (int)rp.below(3); } if (!left) break; c.in->feed(n, how); mrt::yield(); } });
    std::vector<int> co; std::vector<long> have(c.out.size(), 0);
    for (size_t j = 0; j < c.out.size(); ++j) co.push_back(mrt::spawn([&, j] { bool last = false; for (;;) { bool z; { mrt::Ignore ig; z = quit; } size_t n = c.out[j]->size(), k; int how; { mrt::Ignore ig; k = rc.chance(0.3) ? n : std::min<size_t>(n, 1 + rc.below(200)); how = (int)rc.below(3); }
        if (n) { auto v = c.out[j]->take(k, how); mrt::Ignore ig; have[j] += v.size() / c.w; E("got").i("j", j + 1).a("v", v).done(); } else if (z && last) break; last = z; mrt::yield(); } }));
    int blk = mrt::spawn([&] { int idle = 0; long mine = 0; for (;;) { bool fed = pr < 0 || mrt::done(pr); size_t a = c.in ? c.in->size() : 0; bool stop = false; size_t sp = c.out[0]->space();
        { mrt::Ignore ig; if (c.kind == "gen") { bool enough = true; for (long h : have) enough &= h >= c.need; stop = enough || have[0] + 8200 > lim; mine = 0; } } (void)mine;
        if (c.kind == "gen" && stop) break;
        bool room = true; for (auto& q : c.out) room &= q->space() > 0; Res z = c.call(); if (!z.is_ok() && is_fatal(z.unwrap_err())) { mrt::Ignore ig; E("fatal").done(); break; }
        bool moved = (c.in && c.in->size() != a) || c.out[0]->space() < sp; if (c.kind != "gen" && fed && !moved && room) { if (++idle > 6) break; } else idle = 0; mrt::yield(); } });
    if (pr >= 0) mrt::join(pr); mrt::join(blk); { mrt::Ignore ig; quit = true; } for (int p : co) mrt::join(p); mrt::end(); E("end").done(); }
#endif
int main(int c, char** v) {
    if (c < 6) return 2; g_mode = v[1]; g_seed = atoll(v[5]);
    if (c > 6) { std::ifstream f(v[6]); for (std::string l; std::getline(f, l);) { std::istringstream s(l); std::vector<std::string> t; for (std::string x; s >> x;) t.push_back(x); g_scripts.push_back(t); } if (g_scripts.empty()) return 2; }
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) {
#ifdef MRT
        conc(id);
#else
        if (g_mode == "script") script(id); else seq(id);
#endif
    }, 40);
}
