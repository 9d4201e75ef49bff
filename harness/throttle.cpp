// The throttle block in virtual time (C19). usage: throttle MODE OUT FIRST N SEED   MODE: timed | preempt
#include "blk.hpp"
#include "mrt.hpp"
#include "desktop_blocks/utils/throttle.hpp"
static uint64_t g_seed; static bool g_pre;
static long sat(long long x) { return x > 600000000LL ? 600000000 : (long)x; } // far is far
static std::vector<long long> rel; // release times within the current call
template <class T> struct Timed : cler::ChannelBase<T> { // records when samples become visible downstream
    cler::Channel<T> c; size_t pw = 0; Timed(size_t n) : c(n) {}
    void st(size_t n) { mrt::Ignore ig; for (size_t i = 0; i < n; ++i) rel.push_back(mrt::now_ns()); }
    size_t size() const override { return c.size(); } size_t space() const override { return c.space(); }
    void push(const T& v) override { c.push(v); st(1); } void pop(T& v) override { c.pop(v); }
    bool try_push(const T& v) override { bool b = c.try_push(v); st(b); return b; } bool try_pop(T& v) override { return c.try_pop(v); }
    size_t writeN(const T* d, size_t n) override { size_t k = c.writeN(d, n); st(k); return k; } size_t readN(T* d, size_t n) override { return c.readN(d, n); }
    size_t peek_write(T*& a, size_t& x, T*& b, size_t& y) override { return c.peek_write(a, x, b, y); } size_t peek_read(const T*& a, size_t& x, const T*& b, size_t& y) override { return c.peek_read(a, x, b, y); }
    void commit_read(size_t n) override { c.commit_read(n); } void commit_write(size_t n) override { c.commit_write(n); st(n); }
    std::pair<const T*, size_t> read_dbf() override { return c.read_dbf(); } std::pair<T*, size_t> write_dbf() override { return c.write_dbf(); }
};
template <class T> static void go(long id, Rng& r) {
    static const size_t rates[] = {4, 5, 7, 50, 1000, 44100, 48000, 300000, 1000000, 2000000, 6, 30000, 96000, 999, 10000, 123457};
    size_t sps = rates[r.below(16)]; if (r.chance(0.25)) sps = 4 + r.below(1000000);
    if (!g_pre && id % 40 == 7) sps = 4 + r.below(30); // long steady runs, where small errors add up
    long long I = 1000000000LL / (long long)sps, Ih = (1000000000LL + sps - 1) / sps;
    mrt::Opt o; o.seed = r.next(); o.pswitch = 0.3; o.max_points = 4000000; o.oversleep_p = 0.1 * r.below(11);
    switch (r.below(4)) { case 0: o.oversleep_max = 0; break; case 1: o.oversleep_max = I / 4; break; case 2: o.oversleep_max = 60000; break; default: o.oversleep_max = 2 * I; } if (o.oversleep_max > 150000000) o.oversleep_max = 150000000;
    { E e("reset"); e.i("id", id).i("lo", I).i("hi", Ih).t("pre", g_pre); e.done(); }
    mrt::begin(o); bool quit = false; int pt = -1; uint64_t ps = r.next();
    if (g_pre) pt = mrt::spawn([&quit, ps, I] { Rng q; { mrt::Ignore ig; q = Rng(ps); } for (;;) { { mrt::Ignore ig; if (quit) return; } mrt::sleep_ns(q.below(I < 200000000 ? I * 3 / 2 + 200 : I)); } });
    { size_t cap = 1 + r.below(6); Timed<T> out(cap); long long t0 = mrt::now_ns(); auto b = std::make_unique<ThrottleBlock<T>>("t", sps, 1 + r.below(6)); long long t = mrt::now_ns(); E("new").i("dt", t - t0).done();
      int ops = 20 + (int)r.below(60); int prof = (int)r.below(4); if (!g_pre && id % 40 == 7) { ops = 1200; prof = 0; } long seq = 0, exp = 0; double keepf = prof == 0 ? 1.0 : 0.5;
      for (int k = 0; k < ops; ++k) {
        if (r.chance(keepf)) { size_t n = prof == 0 ? b->in.space() : r.below(b->in.space() + 1); for (size_t i = 0; i < n; ++i) b->in.push(Cod<T>::enc({++seq % 1000})); }
        if (r.chance(prof == 0 ? 1.0 : 0.5)) { size_t n = prof == 0 ? out.size() : r.below(out.size() + 1); for (size_t i = 0; i < n; ++i) { T x; out.pop(x); if (Cod<T>::dec(x)[0] != ++exp % 1000) E("wrong").done(); } }
        long long gap = 0; if (prof >= 2) switch (r.below(6)) { case 0: gap = r.below(I + 1); break; case 1: gap = r.below(5 * I + 1); break; case 2: gap = I; break; case 3: if (prof == 3) gap = r.below(550000000); break; default: ; }
        if (gap > 550000000) gap = 550000000; if (gap) { long long a = mrt::now_ns(); while (mrt::now_ns() - a < gap) mrt::sleep_ns(gap - (mrt::now_ns() - a)); }
        size_t n = b->in.size(), sp = out.space(); rel.clear(); long long o0 = mrt::overslept(); long s0 = mrt::sleeps(); long long at = mrt::now_ns();
        Res z = b->procedure(&out); long long ret = mrt::now_ns();
        std::vector<long> rl; for (auto x : rel) rl.push_back(sat(x - at));
        E("call").i("dt", sat(at - t)).a("rel", rl).i("ret", sat(ret - at)).i("o", mrt::overslept() - o0).i("sl", mrt::sleeps() - s0).i("n", n).i("sp", sp).s("res", ename(z)).done(); t = ret;
      } }
    { mrt::Ignore ig; quit = true; } if (pt >= 0) mrt::join(pt); mrt::end();
    bool th = false; try { ThrottleBlock<T> z("z", 0); } catch (const std::invalid_argument&) { th = true; } E("zero").t("throws", th).done();
}
int main(int c, char** v) {
    if (c < 6) return 2; g_seed = atoll(v[5]); g_pre = std::string(v[1]) == "preempt";
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) { Rng r(g_seed * 7919 + id); if (r.chance(0.5)) go<int>(id, r); else go<float>(id, r); }, 40);
}
