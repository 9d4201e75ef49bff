// The buffer pool (C16). usage: slab MODE OUT FIRST N SEED [args]   MODE: seq | script FILE | conc (with -DMRT)
#include "vlog.hpp"
#include "desktop_blocks/blob.hpp"
#include <memory>
#include <fstream>
#include <sstream>
#ifdef MRT
#include "mrt.hpp"
#endif
using vlog::E; using vlog::Rng;
static uint64_t g_seed;
struct Held { int id, sl; Blob b; uint8_t pat; };
struct World {
    std::vector<std::unique_ptr<Slab>> s; std::vector<uint8_t*> base; std::vector<Held> h; int ids = 0;
    void make(long id, std::vector<std::pair<size_t, size_t>> cfg) { std::vector<long> cap, sz; for (auto& c : cfg) { cap.push_back(c.first); sz.push_back(c.second); }
        { E e("reset"); e.i("id", id).a("cap", cap).a("sz", sz); e.done(); }
        for (auto& c : cfg) { s.push_back(std::make_unique<Slab>(c.first, c.second)); base.push_back(nullptr); } info(); }
    void info() { for (size_t i = 0; i < s.size(); ++i) E("avail").i("sl", i + 1).i("n", s[i]->available_slots()).i("cap", s[i]->capacity()).i("sz", s[i]->max_blob_size()).done(); }
    static void fill(Blob& b, uint8_t p) { for (size_t i = 0; i < b.len; ++i) b.data[i] = (uint8_t)(p + i); }
    static bool same(Blob& b, uint8_t p, size_t n) { for (size_t i = 0; i < n; ++i) if (b.data[i] != (uint8_t)(p + i)) return false; return true; }
    bool take(int k) { E("takec").i("sl", k + 1).done(); auto r = s[k]->take_slot(); if (r.is_err()) { E("take").i("sl", k + 1).t("ok", false).i("id", 0).i("slot", 0).i("off", 0).i("len", 0).done(); return false; }
        Held x; x.id = ++ids; x.sl = k; x.b = r.unwrap(); x.pat = (uint8_t)(x.id * 37); if (!base[k]) base[k] = x.b.data; 
        E("take").i("sl", k + 1).t("ok", true).i("id", x.id).i("slot", x.b.slot_idx).i("off", (long)(x.b.data - base[k])).i("len", x.b.len).done(); fill(x.b, x.pat); h.push_back(x); return true; }
    void rel(size_t i, bool shrink) { Held x = h[i]; h.erase(h.begin() + i); bool good = same(x.b, x.pat, x.b.len); if (shrink) x.b.len /= 2; E("relc").i("id", x.id).t("good", good).done(); x.b.release(); E("rel").i("id", x.id).done();
#ifdef NDEBUG
        if (x.id % 3 == 0) x.b.release(); // a handle that was already given back: no effect
#endif
    }
};
static void seq(long id) {
    Rng r(g_seed * 7919 + id); World w; std::vector<std::pair<size_t, size_t>> cfg; int n = 1 + (int)r.below(2); static const size_t sz[] = {1, 2, 3, 7, 16, 64, 100, 256, 1500};
    for (int i = 0; i < n; ++i) cfg.push_back({1 + r.below(r.chance(0.2) ? 600 : 9), sz[r.below(9)]}); w.make(id, cfg); double pt = 0.3 + 0.1 * r.below(5); int ops = 20 + (int)r.below(80); if (cfg[0].first > 20) ops = 600 + (int)r.below(1200);
    for (int k = 0; k < ops; ++k) { if (r.chance(pt)) w.take((int)r.below(n)); else if (!w.h.empty()) w.rel(r.below(4) == 0 ? w.h.size() - 1 : r.below(w.h.size()), r.chance(0.4)); if (r.chance(0.3)) w.info(); }
    while (!w.h.empty()) w.rel(r.below(w.h.size()), false);
    w.info(); for (int i = 0; i < n; ++i) while (w.take(i)) ; w.info(); E("end").done();
}
static std::vector<std::string> lines;
static void script(long id) { World w; std::istringstream is(lines[id]); std::string op; size_t cap; is >> cap; w.make(id, {{cap, 5}});
    while (is >> op) { if (op == "t") w.take(0); else { int k = atoi(op.c_str() + 1); size_t i = k; for (size_t j = 0; j < w.h.size(); ++j) if ((int)w.h[j].id == k) i = j; if (i < w.h.size()) w.rel(i, false); } w.info(); } E("end").done(); }
#ifdef MRT
static void conc(long id) {
    Rng r(g_seed * 7919 + id); mrt::Opt o; static const double ps[] = {0.05, 0.2, 0.5}; o.seed = r.next(); o.pswitch = ps[r.below(3)]; o.max_points = 400000;
    size_t cap = 1 + r.below(5), sz = 1 + r.below(24); { std::vector<long> a{(long)cap}, b{(long)sz}; E e("reset"); e.i("id", id).a("cap", a).a("sz", b); e.done(); }
    mrt::begin(o); Slab s(cap, sz); int nr = 1 + (int)r.below(3); bool self = r.chance(0.6); int total = 6 + (int)r.below(30); uint8_t* base = nullptr; bool quit = false; int ids = 0;
    struct X { Blob b; int id; uint8_t pat; }; std::vector<std::unique_ptr<cler::Channel<X>>> ch; std::vector<Rng> rr; for (int i = 0; i < nr; ++i) { ch.push_back(std::make_unique<cler::Channel<X>>(4)); rr.push_back(Rng(r.next())); }
    auto give = [](X& x) { bool good = World::same(x.b, x.pat, x.b.len); World::fill(x.b, (uint8_t)(x.pat + 99)); { mrt::Ignore ig; E("relc").i("id", x.id).t("good", good).done(); } x.b.release(); { mrt::Ignore ig; E("rel").i("id", x.id).done(); } };
    std::vector<int> t; for (int i = 0; i < nr; ++i) t.push_back(mrt::spawn([&, i] { Rng q; { mrt::Ignore ig; q = rr[i]; } std::vector<X> mine; bool last = false;
        for (;;) { bool z; { mrt::Ignore ig; z = quit; } X x; if (ch[i]->try_pop(x)) mine.push_back(x); else if (z && last) break; last = z; if (!mine.empty() && (q.chance(0.5) || z)) { size_t k = q.below(mine.size()); X y = mine[k]; mine.erase(mine.begin() + k); give(y); } mrt::yield(); }
        for (auto& x : mine) give(x); }));
    int n = 0; for (int g = 0; n < total && g < 4000; ++g) { { mrt::Ignore ig; E("takec").i("sl", 1).done(); } auto z = s.take_slot();
        if (z.is_err()) { { mrt::Ignore ig; E("take").i("sl", 1).t("ok", false).i("id", 0).i("slot", 0).i("off", 0).i("len", 0).done(); } mrt::yield(); mrt::yield(); continue; }
        X x; x.b = z.unwrap(); x.id = ++ids; x.pat = (uint8_t)(x.id * 37); if (!base) base = x.b.data; ++n; { mrt::Ignore ig; E("take").i("sl", 1).t("ok", true).i("id", x.id).i("slot", x.b.slot_idx).i("off", (long)(x.b.data - base)).i("len", x.b.len).done(); }
        World::fill(x.b, x.pat); if (self && r.chance(0.3)) give(x); else { int k = (int)r.below(nr); while (!ch[k]->try_push(x)) mrt::yield(); } }
    { mrt::Ignore ig; quit = true; } for (int x : t) mrt::join(x); size_t av = s.available_slots(); mrt::end();
    E("avail").i("sl", 1).i("n", av).i("cap", s.capacity()).i("sz", s.max_blob_size()).done(); E("end").done();
}
#endif
int main(int c, char** v) {
    if (c < 6) return 2; g_seed = atoll(v[5]); std::string m = v[1]; if (m == "script") { std::ifstream f(v[6]); std::string l; while (std::getline(f, l)) lines.push_back(l); }
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) {
#ifdef MRT
        conc(id);
#else
        if (m == "script") script(id); else seq(id);
#endif
    }, 40);
}
