// Task policies on strict stand-in kernels (C18).  -DPOL=0 desktop, 1 ThreadX, 2 FreeRTOS, 3 Zephyr
// usage: policy MODE OUT FIRST N SEED   MODE: tasks | graph
#include "vlog.hpp"
#include "rtos/kern.hpp"
#include "cler.hpp"
#if POL == 0
#include "task_policies/cler_desktop_tpolicy.hpp"
typedef cler::DesktopTaskPolicy Pol; static const char* PN = "desktop";
#elif POL == 1
#include "rtos/tx_api.h"
#include "task_policies/cler_threadx_tpolicy.hpp"
typedef cler::ThreadXTaskPolicy Pol; static const char* PN = "threadx";
#elif POL == 2
#include "rtos/semphr.h"
#include "task_policies/cler_freertos_tpolicy.hpp"
typedef cler::FreeRTOSTaskPolicy Pol; static const char* PN = "freertos";
#else
#include "rtos/zephyr/kernel.h"
#include "task_policies/cler_zephyr_tpolicy.hpp"
typedef cler::ZephyrTaskPolicy Pol; static const char* PN = "zephyr";
#endif
#include <memory>
#include <new>
using vlog::E; using vlog::Rng;
static uint64_t g_seed;
static int g_live[64]; static long g_data[64]; // live copies of a task's function; its data
static bool g_wild;
template <class F> struct Fn { int t; F f; uint32_t magic = 0x600DF00D; Fn(int t_, F&& f_) : t(t_), f(std::move(f_)) { add(1); } Fn(const Fn& o) : t(o.t), f(o.f) { add(1); } Fn(Fn&& o) : t(o.t), f(std::move(o.f)) { add(1); } ~Fn() { magic = 0xDEADDEAD; add(-1); }
    void add(int d) { mrt::Ignore ig; if (t >= 0 && t < 64) g_live[t] += d; else g_wild = true; }
    void operator()() { bool was; { mrt::Ignore ig; was = kern::pol[mrt::self()]; kern::pol[mrt::self()] = false; auto* o = kern::mine[mrt::self()]; E("fb").i("t", magic == 0x600DF00D ? t : -1).i("th", o ? o->id : POL ? 0 : mrt::self()).i("fib", mrt::self()).done(); } int me = t; f(); { mrt::Ignore ig; E("fe").i("t", magic == 0x600DF00D && t == me ? t : -1).done(); kern::pol[mrt::self()] = was; } } };
static int g_next;
struct Spy : Pol { // the policy under test, observed
    using task_type = Pol::task_type;
    template <class F> static Fn<std::decay_t<F>> fn(int t, F&& f) { return Fn<std::decay_t<F>>(t, std::decay_t<F>(std::forward<F>(f))); }
    template <class F> static task_type create(int t, F&& f) { auto w = fn(t, std::forward<F>(f)); int me = mrt::self(); { mrt::Ignore ig; kern::tag[me] = t; E("create").i("t", t).done(); kern::pol[me] = POL != 0; } task_type h = Pol::create_task(std::move(w)); { mrt::Ignore ig; kern::pol[me] = false; E("made").i("t", t).done(); kern::tag[me] = -1; } return h; }
    static void join(int t, task_type& h) { int me = mrt::self(); { mrt::Ignore ig; kern::tag[me] = t; E("jb").i("t", t).done(); kern::pol[me] = POL != 0; } Pol::join_task(h); { mrt::Ignore ig; kern::pol[me] = false; kern::tag[me] = -1; E("je").i("t", t).i("live", g_live[t]).i("heap", kern::held(t)).done(); } }
};
struct Hd { int t = -1; Pol::task_type h; }; // a handle that remembers its task
struct GSpy : Pol { using task_type = Hd; template <class F> static Hd create_task(F&& f) { int t = g_next++; return Hd{t, Spy::create(t, std::forward<F>(f))}; } static void join_task(Hd& h) { Spy::join(h.t, h.h); } };
template <class H> static void scribble(H& h) { if constexpr (std::is_trivially_copyable_v<H> && std::is_trivially_destructible_v<H>) memset((void*)&h, 0xEE, sizeof h); }
static void work(int t, int k, int kind) { for (int i = 0; i < k; ++i) { g_data[t] += 1; switch (kind) { case 0: mrt::yield(); break; case 1: Pol::yield(); break; case 2: Pol::sleep_us(1 + i * 300); break; case 3: Pol::relax(); break; case 5: if (i == 0) Pol::sleep_us(40000000); break; default: mrt::point(); } } }
static void common(long id, Rng& r, const char* mode) { mrt::Ignore ig; kern::reset(); kern::heap_mode = POL == 2; memset(g_live, 0, sizeof g_live); g_next = 0; for (auto& x : g_data) x = 0; for (auto& x : kern::tag) x = -1; if (POL && r.chance(0.2)) kern::fail_at = (int)r.below(8); E("reset").i("id", id).s("pol", PN).s("mode", mode).done(); }
static void tasks(long id) {
    Rng r(g_seed * 7919 + id); mrt::Opt o; static const double ps[] = {0.03, 0.1, 0.4, 0.7}; o.seed = r.next(); o.pswitch = ps[r.below(4)]; o.max_points = 60000; mrt::begin(o); common(id, r, "tasks");
    int n = 1 + (int)r.below(5), style = (int)r.below(5);
    { std::vector<Hd> v; Hd arr[6]; std::vector<std::unique_ptr<Hd>> pv; std::vector<int> jo; bool growing = style == 1; if (!growing) v.reserve(8);
      for (int t = 0; t < n; ++t) { int k = (int)r.below(4), kind = (int)r.below(6); g_data[t] = 100; auto body = [t, k, kind] { work(t, k, kind); g_data[t] += 1000; };
        switch (style) {
        case 0: case 1: v.push_back(Hd{t, Spy::create(t, body)}); break;                     // stored in a (growing) vector
        case 2: arr[t] = Hd{t, Spy::create(t, body)}; break;                               // assigned into an array
        case 3: { pv.push_back(std::make_unique<Hd>(Hd{t, Spy::create(t, body)})); auto q = std::make_unique<Hd>(std::move(*pv.back())); scribble(pv.back()->h); pv.back() = std::move(q); break; } // moved on the heap
        default: { Hd h{t, Spy::create(t, body)}; if (r.chance(0.5)) { Hd g = std::move(h); scribble(h.h); if (r.chance(0.5)) mrt::yield(); Spy::join(t, g.h); if (g_data[t] != 1100 + k && kern::fail_at < 0) E("lost").done(); } else { Spy::join(t, h.h); if (r.chance(0.3)) Spy::join(t, h.h); } } }
        if (r.chance(0.3)) for (int i = 0; i < 5; ++i) mrt::yield(); }
      if (style < 4) { for (int t = 0; t < n; ++t) jo.push_back(t); for (int t = n - 1; t > 0; --t) std::swap(jo[t], jo[r.below(t + 1)]);
        if (style == 1) { std::vector<Hd> w; for (auto& h : v) { w.push_back(std::move(h)); scribble(h.h); } v = std::move(w); }
        bool twice = r.chance(0.3); auto all = [&] { for (int t : jo) { Hd& h = style <= 1 ? v[t] : style == 2 ? arr[t] : *pv[t]; Spy::join(t, h.h); if (twice) Spy::join(t, h.h); if (g_data[t] < 1100 && kern::fail_at < 0) { mrt::Ignore ig; E("lost").done(); } } };
        if (r.chance(0.3)) { int f = mrt::spawn(all); mrt::join(f); } else all(); } }
    for (int i = 0; i < 20; ++i) mrt::yield();
    mrt::end(); E("end").i("heap", kern::held(-1)).t("wild", g_wild).done(); kern::drop();
}
struct Src : cler::BlockBase { long n = 0; Src() : BlockBase("s") {} cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<int>* out) { if (!out->space()) return cler::Error::NotEnoughSpace; out->push((int)n++); return cler::Empty{}; } };
struct Snk : cler::BlockBase { cler::Channel<int, 4> in; long n = 0; bool bad = false; Snk() : BlockBase("k") {} cler::Result<cler::Empty, cler::Error> procedure() { int x; if (!in.try_pop(x)) return cler::Error::NotEnoughSamples; if (x != n) bad = true; ++n; return cler::Empty{}; } };
static void graph(long id) {
    Rng r(g_seed * 7919 + id); mrt::Opt o; static const double ps[] = {0.03, 0.1, 0.4}; o.seed = r.next(); o.pswitch = ps[r.below(3)]; o.max_points = 400000; mrt::begin(o); common(id, r, "graph");
    { Src s; Snk k; { auto mk = [&] { return cler::FlowGraph<GSpy, cler::BlockRunner<Src, cler::ChannelBase<int>>, cler::BlockRunner<Snk>>(cler::BlockRunner<Src, cler::ChannelBase<int>>(&s, &k.in), cler::BlockRunner<Snk>(&k)); };
        auto g = mk(); int runs = 1 + (int)r.below(3); for (int i = 0; i < runs; ++i) { cler::FlowGraphConfig cfg; cfg.adaptive_sleep = r.chance(0.3); if (r.chance(0.4)) { g.run_for(std::chrono::microseconds(1 + r.below(3000)), cfg); } else { g.run(cfg); int y = (int)r.below(60); for (int j = 0; j < y; ++j) mrt::yield(); if (r.chance(0.7)) g.stop(); if (r.chance(0.2)) g.stop(); else if (i + 1 < runs) g.stop(); } } } if (k.bad) { mrt::Ignore ig; E("lost").done(); } }
    for (int i = 0; i < 20; ++i) mrt::yield();
    mrt::end(); E("end").i("heap", kern::held(-1)).t("wild", g_wild).done(); kern::drop();
}
int main(int c, char** v) { if (c < 6) return 2; g_seed = atoll(v[5]); mrt::hook_new = kern::on_new; mrt::hook_del = kern::on_del; std::string m = v[1]; return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) { if (m == "tasks") tasks(id); else graph(id); }); }
