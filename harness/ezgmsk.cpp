// EZGMSK blocks: what the modulator puts on the air, and what the demodulator makes of frames on the air.
#include "cler.hpp"
#include <cmath>
#include <cstring>
#include <memory>
#include <vector>
#include "liquid.h"
#include "vlog.hpp"
#include "desktop_blocks/blob.cpp"
#include "desktop_blocks/ezgmsk/ezgmsk_mod.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"
using vlog::E; using vlog::Rng;
typedef std::complex<float> C; typedef std::vector<unsigned char> By;
static uint64_t g_seed; static std::string g_mode;
extern "C" int rand() { static uint64_t s = 88172645463325252ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (int)(s & 0x7fffffff); }
struct Par { unsigned k, m, P; float bt; };
static Par par(Rng& r) { Par p; p.k = 2 + (unsigned)r.below(7); p.m = 3 + (unsigned)r.below(2); p.P = 32 + 8 * (unsigned)r.below(7); p.bt = 0.5f; return p; }
static By bytes(Rng& r, size_t n) { By b(n); for (auto& x : b) x = (unsigned char)r.below(256); return b; }
// ---------------------------------------------------------------- modulator
static void mod(long id) {
    Rng r(g_seed * 7919 + id); Par p = par(r); size_t slots = 1 + r.below(6), maxlen = 1 + r.below(r.chance(0.08) ? 600 : 40), cap = 512 << r.below(maxlen > 40 ? 7 : 4); Slab slab(slots, maxlen);
    auto b = std::make_unique<EZGmskModBlock>("mod", p.k, p.m, p.bt, p.P, 1 + r.below(6)); cler::Channel<C> o(cap); int room = (int)o.space();
    E("reset").i("id", id).i("k", p.k).i("m", p.m).i("P", p.P).i("room", room).i("slots", (long)slots).done();
    std::vector<size_t> lens; size_t done = 0; std::vector<C> air; int ops = 10 + (int)r.below(30);
    auto drain = [&](size_t n) { std::vector<C> v(n); size_t got = o.readN(v.data(), n); air.insert(air.end(), v.begin(), v.begin() + got); E("drain").i("n", (long)got).done();
        for (;;) { // whole frames heard by an ordinary GMSK receiver
            if (done == lens.size()) break; size_t sy = p.P + 8 * lens[done] + 2 * p.m, n = sy * p.k; if (air.size() < n) break;
            gmskdem d = gmskdem_create(p.k, p.m, p.bt); std::vector<int> bits; float lo = 9, hi = 0; unsigned s;
            for (size_t i = 0; i < sy; ++i) { gmskdem_demodulate(d, (liquid_float_complex*)&air[i * p.k], &s); if (i >= 2 * p.m) bits.push_back((int)s); }
            for (size_t i = 0; i < n; ++i) { float a = std::abs(air[i]); hi = std::max(hi, a); if (i >= p.m * p.k && i < n - p.m * p.k) lo = std::min(lo, a); }
            gmskdem_destroy(d); air.erase(air.begin(), air.begin() + n); ++done;
            E("air").a("bits", bits).i("n", (long)n).i("lo", std::lround(lo * 1000)).i("hi", std::lround(hi * 1000)).done(); } };
    for (int i = 0; i < ops; ++i) {
        int w = (int)r.below(10);
        if (w < 4) { if (!b->in.space()) continue; auto t = slab.take_slot(); if (t.is_err()) { E("none").i("free", (long)slab.available_slots()).done(); continue; } Blob x = t.unwrap(); x.len = r.chance(0.1) ? 0 : 1 + r.below(maxlen); By d = bytes(r, x.len); memcpy(x.data, d.data(), x.len); b->in.push(x); lens.push_back(x.len); E("in").a("d", d).done(); }
        else if (w < 8) { size_t q = b->in.size(), n = o.size(); auto v = b->procedure(&o); (void)v; E("step").i("took", (long)(q - b->in.size())).i("made", (long)(o.size() - n)).i("free", (long)slab.available_slots()).done(); }
        else drain(r.chance(0.5) ? o.size() : r.below(o.size() + 1));
    }
    for (int i = 0; i < 12; ++i) { drain(o.size()); size_t q = b->in.size(), n = o.size(); b->procedure(&o); E("step").i("took", (long)(q - b->in.size())).i("made", (long)(o.size() - n)).i("free", (long)slab.available_slots()).done(); }
    drain(o.size()); E("end").i("left", (long)air.size()).done();
}
// ---------------------------------------------------------------- demodulator
struct Rx { int who; unsigned maxpay; };
static int heard(unsigned sc, ezgmsk::ezgmsk_demod_state_en st, unsigned char* h, unsigned char* pl, unsigned n, float rssi, float snr, void* u) {
    Rx* x = (Rx*)u; int len = st == ezgmsk::EZGMSK_DEMOD_STATE_RXHEADER && h ? (h[0] == 255 ? -1 : h[0]) : 0; (void)rssi; (void)snr;
    std::vector<int> hb, pb; if (h) hb.push_back(h[0]); if (pl) pb.assign(pl, pl + n);
    E("cb").i("who", x->who).i("st", (int)st).i("at", sc).a("h", hb).a("p", pb).done(); return len; }
// the same signal heard mu samples later: the receiver's clock is not the transmitter's
static std::vector<C> shifted(const std::vector<C>& x, double mu) {
    std::vector<C> y(x.size()); for (long n = 0; n < (long)x.size(); ++n) { std::complex<double> a = 0; for (long j = -12; j <= 12; ++j) { if (n + j < 0 || n + j >= (long)x.size()) continue; double u = -j - mu, h = std::abs(u) < 1e-9 ? 1 : std::sin(M_PI * u) / (M_PI * u); h *= 0.5 * (1 + std::cos(M_PI * u / 13)); a += h * std::complex<double>(x[n + j]); } y[n] = C(a); } return y; }
static void demod(long id) {
    Rng r(g_seed * 7919 + id), f2(g_seed * 104729 + id); Par p = par(r); if (p.k < 3) p.k = 4; unsigned hl = 1 + (unsigned)r.below(3), maxpay = 4 + (unsigned)r.below(30); By sync(8 * (2 + r.below(4))); for (size_t i = 0; i < sync.size(); ++i) sync[i] = i < 4 ? 0 : i + 4 >= sync.size() ? 1 : (unsigned char)r.below(2); // not to be mistaken for the preamble
    Rx xa{0, maxpay}, xb{1, maxpay}; float dphi = 0.1f; size_t cap = 512 << r.below(3); float th = 0.9f;
    auto a = std::make_unique<EZGmskDemodBlock>("a", p.k, p.m, p.bt, p.P, sync.data(), sync.size(), hl, maxpay, heard, &xa, th, dphi, r.chance(0.3) ? 0 : cap);
    auto b = std::make_unique<EZGmskDemodBlock>("b", p.k, p.m, p.bt, p.P, sync.data(), sync.size(), hl, maxpay, heard, &xb, th, dphi, cap);
    E("reset").i("id", id).i("k", p.k).i("m", p.m).i("P", p.P).i("sync", (long)sync.size()).i("hl", hl).i("max", maxpay).done();
    std::vector<C> air; int nf = 1 + (int)r.below(5); auto gap = [&](size_t n) { air.insert(air.end(), n, C(0, 0)); };
    gap(64 + r.below(300));
    for (int f = 0; f < nf; ++f) {
        unsigned len = r.chance(0.12) ? 0 : r.chance(0.1) ? maxpay + 1 + (unsigned)r.below(5) : r.chance(0.1) ? 255 : r.chance(0.1) ? maxpay : 1 + (unsigned)r.below(maxpay); bool ok = r.chance(0.85);
        By h = bytes(r, hl); h[0] = (unsigned char)len; bool good = len >= 1 && len <= maxpay; By pl = bytes(r, len == 255 ? 5 : len);
        std::vector<unsigned> sy; for (unsigned i = 0; i < p.P; ++i) sy.push_back(i % 2); for (size_t i = 0; i < sync.size(); ++i) sy.push_back(ok || i != sync.size() / 2 ? sync[i] : !sync[i]);
        for (auto* v : {&h, &pl}) for (auto x : *v) for (int k = 7; k >= 0; --k) sy.push_back(x >> k & 1);
        for (unsigned i = 0; i < 2 * p.m; ++i) sy.push_back((unsigned)r.below(2));
        gmskmod g = gmskmod_create(p.k, p.m, p.bt); float ph = r.below(628) / 100.f, df = f2.chance(0.5) ? 0 : ((int)f2.below(41) - 20) / 1000.f, amp = 0.2f + r.below(100) / 50.f, mu = f2.chance(0.5) ? 0 : ((int)f2.below(99) - 49) / 100.f; size_t at = air.size(); std::vector<C> t(p.k), fr;
        for (unsigned i = 0; i < sy.size(); ++i) { gmskmod_modulate(g, sy[i], (liquid_float_complex*)t.data()); for (unsigned j = 0; j < p.k; ++j) { float w = 1; if (i < p.m) w = liquid_hamming(i * p.k + j, 2 * p.m * p.k); else if (i >= sy.size() - p.m) w = liquid_hamming(p.m * p.k + (i - (sy.size() - p.m)) * p.k + j, 2 * p.m * p.k); fr.push_back(t[j] * w * amp * std::polar(1.f, ph)); ph += df; } }
        if (mu != 0) fr = shifted(fr, mu);
        air.insert(air.end(), fr.begin(), fr.end());
        gmskmod_destroy(g); E("frame").t("sync", ok).t("good", good).i("at", (long)at).i("end", (long)air.size()).a("h", std::vector<int>{h[0]}).a("p", good ? pl : By{}).done();
        gap((ok ? 20 : 60 + 2 * sync.size() + p.P) * p.k + r.below(400));
    }
    for (int who = 0; who < 2; ++who) { auto& d = who ? *b : *a; size_t pos = 0; while (pos < air.size()) { size_t n = std::min(who ? 1 + r.below(3000) : 1 + r.below(60), air.size() - pos); pos += d.in.writeN(&air[pos], n); if (who || r.chance(0.6) || !d.in.space()) d.procedure(); } d.procedure(); E("fed").i("who", who).i("n", (long)pos).i("left", (long)d.in.size()).done(); }
    E("end").done();
}
int main(int c, char** v) {
    if (c < 6) return 2; g_mode = v[1]; g_seed = atoll(v[5]);
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) { if (g_mode == "mod") mod(id); else demod(id); }, 40); }
