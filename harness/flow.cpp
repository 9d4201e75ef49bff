// Runs real FlowGraphs under the controlled scheduler and logs what their user can observe (C06-C11).
// usage: flow MODE OUT FIRST N SEED [SCRIPTFILE]   MODE: rand | fatal | burst | sleep | stats | life | script | dfs
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include "mrt.hpp"
#include <memory>
using vlog::E; using vlog::Rng;
#ifndef KPART
#define KPART 0
#define NPART 1
#endif
typedef cler::Result<cler::Empty, cler::Error> Res;
static const char* ENAME[] = {"OK", "Unknown", "NotEnoughSamples", "NotEnoughSpace", "NotEnoughSpaceOrSamples", "ProcedureError", "BadData",
    "TERMINATE_FLOWGRAPH", "TERM_InvalidChannelIndex", "TERM_ProcedureError", "TERM_IOError", "TERM_EOFReached"};
static const cler::Error ECODE[] = {cler::Error::OK, cler::Error::Unknown, cler::Error::NotEnoughSamples, cler::Error::NotEnoughSpace, cler::Error::NotEnoughSpaceOrSamples,
    cler::Error::ProcedureError, cler::Error::BadData, cler::Error::TERMINATE_FLOWGRAPH, cler::Error::TERM_InvalidChannelIndex, cler::Error::TERM_ProcedureError,
    cler::Error::TERM_IOError, cler::Error::TERM_EOFReached};

struct Graph { // type-erased FlowGraph
    virtual ~Graph() {}
    virtual void run(const cler::FlowGraphConfig&) = 0; virtual void run_for_us(long, const cler::FlowGraphConfig&) = 0; virtual void stop() = 0; virtual bool is_stopped() = 0;
    virtual const cler::BlockExecutionStats& st(int i) = 0; virtual void set_cb(void (*)(void*), void*) = 0; virtual int n() = 0; virtual const char* nm(int i) = 0;
    virtual void run_default() = 0; virtual const cler::FlowGraphConfig& conf() = 0; virtual void close() = 0;
};
struct BPlan { double ok = 0.6, starve = 0.3; long fatal_at = -1; int fatal_code = 8; int runlen = 0, cur = -1; bool slow = false; };
struct World {
    Graph* g = nullptr; int ntasks = 0; int tid[64]; long calls[32]; int base = 0; bool noise = false; std::vector<BPlan> plan; Rng r; long long t0 = 0; bool fatal_seen = false; long relax_max = 2000; void* ctx = nullptr; bool nodur = false;
    World() : r(1) {}
};
extern World* W;
#if KPART == 0
World* W;
#endif
static long at() { return (long)(mrt::now_ns() - W->t0); }
static int me() { mrt::Ignore ig; int s = mrt::self(); return s < 64 ? W->tid[s] : 0; }

// ------------------------------------------------------------------ task policy that logs; Real: on top of DesktopTaskPolicy
template <bool Real> struct Pol : cler::TaskPolicyBase<Pol<Real>> {
    struct Handle {
        int id = 0, fib = 0; std::thread th; bool joined = false;
        Handle() {} Handle(const Handle&) = delete;
        Handle(Handle&& o) noexcept : id(o.id), fib(o.fib), th(std::move(o.th)), joined(o.joined) { o.id = 0; }
        Handle& operator=(Handle&& o) noexcept { lose(); id = o.id; fib = o.fib; joined = o.joined; if (!th.joinable()) th = std::move(o.th); o.id = 0; return *this; }
        ~Handle() { lose(); }
        void lose() { if (id > 0 && !joined) E("lost").i("t", id).done(); if (id && !joined && th.joinable()) th.detach(); id = 0; }
    };
    using task_type = Handle;
    template <class F> static Handle create_task(F f) {
        Handle h; int id = h.id = W->noise ? -1 : ++W->ntasks; if (id > 0) E("create").i("t", id).done();
        auto body = [id, f]() mutable { { mrt::Ignore ig; int s = mrt::self(); if (s < 64) W->tid[s] = id; } mrt::point(); if (id > 0) E("tstart").i("t", id).done(); f(); if (id > 0) E("tend").i("t", id).i("at", at()).done(); };
        if constexpr (Real) h.th = cler::DesktopTaskPolicy::create_task(std::move(body)); else h.fib = mrt::spawn(std::move(body));
        return h;
    }
    static void join_task(Handle& h) {
        if (!h.id || h.joined) return;
        if constexpr (Real) { cler::DesktopTaskPolicy::join_task(h.th); } else mrt::join(h.fib);
        h.joined = true; if (h.id > 0) E("join").i("t", h.id).done();
    }
    static void yield() { if constexpr (Real) cler::DesktopTaskPolicy::yield(); else mrt::yield(); }
    static void sleep_us(size_t us) {
        int t = me(); long ns = 0;
        if (t > 0) { mrt::Ignore ig; double c = -1; int b = lastb(t); if (b >= 0) c = W->g->st(b).current_adaptive_sleep_us.load(); ns = (long)(c * 1000.0); }
        if (t >= 0) E("sleep").i("t", t).i("us", us > 2000000 ? 2000000 : (long)us).i("cur", ns > 2000000000 ? 2000000000 : ns).done();
        if constexpr (Real) cler::DesktopTaskPolicy::sleep_us(us); else mrt::sleep_ns((long long)us * 1000);
    }
    static void relax() { if (me() >= 0) E("relax").i("t", me()).done(); if constexpr (Real) cler::DesktopTaskPolicy::relax(); else { long d; { mrt::Ignore ig; d = 1 + (long)W->r.below(W->relax_max); } mrt::sleep_ns(d); } }
    static void pin_to_core(size_t w) { mrt::point(); int t = me(); if (t > 0) E("pin").i("t", t).i("w", (long)w).done(); }
    static int lastb(int t) { mrt::Ignore ig; return t >= 0 && t < 64 ? last[t] : -1; }
    static int last[64];
};
template <bool R> int Pol<R>::last[64];
template <bool R> static void set_last(int t, int b) { mrt::Ignore ig; if (t < 64) Pol<R>::last[t] = b; }

template <bool Real, int NOUT> struct TB : cler::BlockBase {
    int idx; void* want[2] = {nullptr, nullptr};
    TB(int i) : cler::BlockBase(("block-" + std::to_string(i)).c_str()), idx(i) {}
    template <class... C> Res procedure(C*... outs) {
        mrt::point();
        int t = me(); if (t < 0) { int k; { mrt::Ignore ig; k = (int)W->r.below(6); } if (k > 3) mrt::sleep_ns(100); if (k < 3) return cler::Empty{}; return k < 5 ? cler::Error::NotEnoughSamples : cler::Error::BadData; }
        void* got[] = {(void*)outs..., nullptr, nullptr}; bool ch = sizeof...(outs) == NOUT; for (int i = 0; i < NOUT; ++i) ch &= got[i] == want[i];
        long ns; bool z; { mrt::Ignore ig; double c = W->g->st(idx).current_adaptive_sleep_us.load(); ns = (long)(c * 1000.0); z = c == 0.0; }
        set_last<Real>(t, idx);
        E("enter").i("t", t).i("b", idx + 1).t("ch", ch).i("cur", ns).t("z", z).i("at", at()).done();
        { bool p1, p2; long d; { mrt::Ignore ig; p1 = W->r.chance(0.6); p2 = W->r.chance(0.3); d = W->r.chance(0.2) ? 1 + (long)W->r.below(W->plan[idx].slow ? 20000 : 500) : 0; } if (p1) mrt::point(); if (d) mrt::sleep_ns(d); if (p2) mrt::point(); }
        int code;
        { mrt::Ignore ig; BPlan& p = W->plan[idx]; bool cur = t > W->base; long k = W->calls[idx];
        if (cur && p.fatal_at >= 0 && k >= p.fatal_at) { code = p.fatal_code; }
        else { if (p.runlen-- <= 0 || p.cur < 0) { double x = (double)W->r.below(1000) / 1000; p.cur = x < p.ok ? 0 : x < p.ok + p.starve ? 2 + (int)W->r.below(3) : (W->r.chance(0.4) ? 1 : 5 + (int)W->r.below(2)); p.runlen = W->r.chance(0.5) ? 0 : (int)W->r.below(6); }
            code = p.cur; } }
        E("exit").i("t", t).i("b", idx + 1).s("res", ENAME[code]).i("at", at()).done();
        { mrt::Ignore ig; if (t > W->base) { W->calls[idx]++; if (code >= 7) W->fatal_seen = true; } }
        if (code == 0) return cler::Empty{};
        return ECODE[code];
    }
};
template <bool Real, int I> struct Slot { TB<Real, I % 3> b{I}; cler::Channel<int, 2> c0, c1; Slot() { b.want[0] = static_cast<cler::ChannelBase<int>*>(&c0); b.want[1] = static_cast<cler::ChannelBase<int>*>(&c1); }
    auto runner() { if constexpr (I % 3 == 0) return cler::BlockRunner(&b); else if constexpr (I % 3 == 1) return cler::BlockRunner(&b, &c0); else return cler::BlockRunner(&b, &c0, &c1); } };
template <bool Real, class Seq> struct GImpl;
template <bool Real, size_t... I> struct GImpl<Real, std::index_sequence<I...>> : Graph {
    std::tuple<Slot<Real, (int)I>...> slots;
    typedef cler::FlowGraph<Pol<Real>, decltype(std::declval<Slot<Real, (int)I>&>().runner())...> FG;
    FG* fg;   // stays valid while the destructor joins the tasks
    GImpl() { fg = new FG(std::get<I>(slots).runner()...); }
    void run(const cler::FlowGraphConfig& c) override { fg->run(c); } void run_default() override { fg->run(); } const cler::FlowGraphConfig& conf() override { return fg->config(); }
    void run_for_us(long us, const cler::FlowGraphConfig& c) override { fg->run_for(std::chrono::microseconds(us), c); }
    void stop() override { fg->stop(); } bool is_stopped() override { return fg->is_stopped(); }
    const cler::BlockExecutionStats& st(int i) override { return fg->stats()[i]; }
    void set_cb(void (*f)(void*), void* c) override { fg->set_on_err_terminate_cb(f, c); }
    int n() override { return sizeof...(I); }
    const char* nm(int i) override { const char* r = ""; (void)std::initializer_list<int>{((int)I == i ? (r = std::get<I>(slots).b.name(), 0) : 0)...}; return r; }
    void close() override { delete fg; }
};
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
Graph* CAT(make_part, KPART)(int n, bool real) {
    if (real) switch (n) { 
#define R(N, P) case N: if constexpr (P % NPART == KPART) return new GImpl<true, std::make_index_sequence<N>>; return nullptr;
        R(1, 0) R(3, 1) R(6, 2) default: return nullptr; }
    switch (n) {
#define M(N, P) case N: if constexpr (P % NPART == KPART) return new GImpl<false, std::make_index_sequence<N>>; return nullptr;
        M(1, 0) M(2, 1) M(3, 2) M(4, 2) M(5, 3) M(7, 0) M(11, 1) M(13, 3) M(26, 0) default: return nullptr; }
}
#if KPART == 0
#define DECL(K) Graph* make_part##K(int, bool);
#if NPART > 1
DECL(1) DECL(2) DECL(3)
#endif
static Graph* make(int n, bool real) {
    Graph* g = make_part0(n, real);
#if NPART > 1
    if (!g) g = make_part1(n, real); if (!g) g = make_part2(n, real); if (!g) g = make_part3(n, real);
#endif
    return g;
}
static uint64_t g_seed; static std::string g_mode; static std::vector<std::vector<std::string>> g_scripts;
static void on_err(void* c) { 
    E("cb").i("t", me()).t("ctx", c == W->ctx).t("isst", W->g->is_stopped()).done(); mrt::point(); }

static cler::FlowGraphConfig config(Rng& r, int n, bool cheap) {
    cler::FlowGraphConfig c; bool pool = n > 2 && r.chance(g_mode == "burst" ? 0.9 : g_mode == "conf" ? 0.75 : 0.55);
    c.scheduler = pool ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock;
    if (!pool && n <= 2 && r.chance(0.15)) c.scheduler = cler::SchedulerType::FixedThreadPool;
    c.num_workers = r.chance(0.6) ? r.range(2, n < 3 ? 3 : n) : r.range(2, n + 3);
    c.max_calls_per_tick = r.chance(0.3) ? 1 : r.range(1, 6);
    c.adaptive_sleep = r.chance(g_mode == "sleep" ? 0.9 : 0.25);
    static const double mul[] = {1.0, 1.5, 2.0, 3.0, 1.1}; c.adaptive_sleep_multiplier = mul[r.below(5)];
    static const double mx[] = {0.5, 1.0, 3.0, 40.0, 400.0, 5000.0, 0.0}; c.adaptive_sleep_max_us = mx[r.below(7)];
    c.adaptive_sleep_fail_threshold = r.chance(0.2) ? 10 : r.below(4);
    c.collect_detailed_stats = r.chance(g_mode == "stats" ? 0.8 : 0.3); c.pin_workers = r.chance(g_mode == "conf" ? 0.5 : 0.1);
    (void)cheap; return c;
}
static E& E_conf(E&& e, const cler::FlowGraphConfig& c) {
    return e.s("sched", c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "tpb").i("w", c.num_workers).i("mc", c.max_calls_per_tick).t("asl", c.adaptive_sleep)
        .i("mult", (long)(c.adaptive_sleep_multiplier * 100 + 0.5)).i("max", (long)(c.adaptive_sleep_max_us * 1000)).i("thr", c.adaptive_sleep_fail_threshold)
        .t("st", c.collect_detailed_stats).t("pin", c.pin_workers);
}
static int E_runcall(const cler::FlowGraphConfig& c, bool cb, long dur, bool def = false) { return E_conf(E("runcall"), c).t("cb", cb).i("dur", dur < 0 ? -1 : dur * 1000).t("def", def).i("at", at()).done(); }
static void log_config() { E_conf(E("config"), W->g->conf()).done(); }
static void log_stats(int n) {
    for (int i = 0; i < n; ++i) { auto& s = W->g->st(i);
        auto cl = [](double x) { double ns = x * 1e9; return ns > 2e9 ? 2000000000L : ns < -2e9 ? -2000000000L : (long)(ns + (ns < 0 ? -0.5 : 0.5)); };
        E("stats").i("b", i + 1).i("ok", (long)s.successful_procedures).i("er", (long)s.failed_procedures).t("name", !strcmp(s.name.c_str(), W->g->nm(i)))
            .i("dead", cl(s.total_dead_time_s)).i("rt", cl(s.total_runtime_s)).done(); }
}
static void isst() { bool v = W->g->is_stopped(); E("isst").t("r", v).i("at", at()).done(); }
static void newplan(Rng& r, int n, bool want_fatal) {
    mrt::Ignore ig; W->plan.assign(n, BPlan{}); W->base = W->ntasks; W->fatal_seen = false; double mode = r.below(4);
    for (int i = 0; i < n; ++i) { auto& p = W->plan[i]; W->calls[i] = 0;
        if (mode == 0) { p.ok = 0.9; p.starve = 0.06; } else if (mode == 1) { p.ok = 0.3; p.starve = 0.6; } else if (mode == 2) { p.ok = 0.2; p.starve = 0.3; } else { p.ok = 0.55; p.starve = 0.35; }
        if (g_mode == "sleep") { p.starve = 0.75; p.ok = 0.15; if (r.chance(0.3)) { p.ok = 0.5; p.starve = 0.5; } }
        if (r.chance(0.1)) { p.ok = 0; p.starve = r.chance(0.5) ? 1 : 0; } p.slow = r.chance(0.2);
        if (want_fatal && r.chance(1.2 / n)) { p.fatal_at = r.below(6); p.fatal_code = 7 + (int)r.below(5); } }
    if (want_fatal) { auto& p = W->plan[r.below(n)]; if (p.fatal_at < 0) { p.fatal_at = r.below(8); p.fatal_code = 7 + (int)r.below(5); } }
}
static bool seen() { mrt::Ignore ig; return W->fatal_seen; }
static bool all_called(int n, long k) { mrt::Ignore ig; for (int i = 0; i < n; ++i) if (W->calls[i] < k) return false; return true; }
static void wait_calls(int n, long k) { // until every block was called k times, or the graph stopped itself
    while (!all_called(n, k) && !seen()) mrt::sleep_ns(3000);
    if (!seen()) E("served").i("k", k).done();
    else if (W->r.chance(0.5)) { while (!W->g->is_stopped()) mrt::sleep_ns(2000); isst(); }
}
static void trace(long id, std::vector<int>* dec, std::vector<int>* wid) {
    Rng r(g_seed * 1000003 + id); World w; W = &w; memset(w.tid, 0, sizeof w.tid); memset(w.calls, 0, sizeof w.calls); w.r = Rng(r.next());
    static const int ns[] = {1, 2, 3, 4, 5, 7, 11, 13, 3, 4, 5, 7}; static const int rs[] = {1, 3, 6};
    bool real = g_mode != "script" && !dec && r.chance(0.25); int n = real ? rs[r.below(3)] : ns[r.below(12)];
    if (g_mode == "sleep") { real = false; n = r.chance(0.06) ? 26 : ns[r.below(4)]; } if (g_mode == "burst" && r.chance(0.04)) { real = false; n = 26; } if (g_mode == "burst" && n < 3) n = 5, real = false; if (g_mode == "conf") { real = real && r.chance(0.2); if (!real) { static const int cs[] = {2, 3, 4, 5, 5, 7, 7, 11, 11, 13, 13, 26}; n = cs[r.below(12)]; } }
    if (dec) n = 2 + (int)(id % 2); static const long rm[] = {30, 500, 5000}; w.relax_max = rm[r.below(3)];
    if (g_mode == "script") n = id % 3 == 0 ? 2 : 3;
    mrt::Opt o; o.seed = r.next(); static const double ps[] = {0.03, 0.15, 0.4, 0.7}; o.pswitch = ps[r.below(4)]; o.max_points = 60000; o.dfs = dec; o.dfs_width = wid; o.preempt_bound = 2; o.clock_point = r.chance(0.3);
    E("reset").i("id", id).i("n", n).t("real", real).done();
    Graph* g = make(n, real); w.g = g;
    mrt::begin(o); w.t0 = mrt::now_ns();
    bool cb = r.chance(0.7); int token = 0; w.ctx = &token; if (cb) g->set_cb(on_err, &token);
    // another graph of the same type may live next to the one observed
    Graph* g2 = n <= 5 && !dec && g_mode != "script" && r.chance(0.15) ? make(n, real) : nullptr; bool up2 = false; int left2 = 3;
    auto other = [&] { if (!g2 || left2 <= 0 || !r.chance(0.6)) return; --left2; w.noise = true; if (up2) g2->stop(); else { auto c = config(r, n, false); g2->run(c); } up2 = !up2; w.noise = false; };
    int mon = -1; bool monlive = true; std::atomic<bool> quit{false};
    auto stop = [&] { E("stopcall").done(); g->stop(); E("stopret").i("at", at()).done(); };
    auto run = [&](bool def) { cler::FlowGraphConfig c = def ? cler::FlowGraphConfig{} : config(r, n, false); if (dec) { c.max_calls_per_tick = 2; c.adaptive_sleep = false; c.scheduler = n == 3 ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock; c.num_workers = 2; }
        E_runcall(c, cb, -1, def); if (def) g->run_default(); else g->run(c); E("runret").done(); if (g_mode == "conf") log_config(); };
    auto runfor = [&](bool longrun) { auto c = config(r, n, false); long us = longrun ? r.range(100000, 101500) : r.range(0, 60);
        if (longrun) { c.adaptive_sleep = true; c.adaptive_sleep_multiplier = 3; c.adaptive_sleep_max_us = 5000; c.adaptive_sleep_fail_threshold = 0; w.relax_max = 1500000; for (auto& p : w.plan) { p.ok = 0; p.starve = 0.9; p.fatal_at = -1; } }
        E_runcall(c, cb, us); g->run_for_us(us, c); E("runforret").i("at", at()).done(); };
    if (g_mode == "script") {
        auto& sc = g_scripts[id % g_scripts.size()];
        for (auto& op : sc) {
            if (op == "run_tpb" || op == "run_pool") { newplan(r, n, false); auto c = config(r, n, false); c.scheduler = op == "run_pool" ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock; c.num_workers = n > 2 ? 2 : 2; E_runcall(c, cb, -1); g->run(c); E("runret").done(); }
            else if (op == "run_for") { newplan(r, n, false); runfor(false); }
            else if (op == "run_for_fatal") { newplan(r, n, true); runfor(false); }
            else if (op == "stop") stop();
            else if (op == "fail") { { mrt::Ignore ig; int b = (int)r.below(n); w.plan[b].fatal_code = 7 + (int)r.below(5); w.plan[b].fatal_at = w.calls[b] + r.below(2); } while (!seen()) mrt::sleep_ns(2000); while (!g->is_stopped()) mrt::sleep_ns(2000); isst(); }
            else if (op == "wait") wait_calls(n, 1);
            else if (op == "ask") isst();
            else if (op == "stats") log_stats(n);
        }
    } else if (dec) { newplan(r, n, id % 4 >= 2); for (auto& p : w.plan) p.slow = false; run(false); if (r.chance(0.5)) wait_calls(n, 1); stop(); log_stats(n); }
    else {
        if (r.chance(0.15)) { if (r.chance(0.5)) isst(); stop(); }
        int runs = n > 20 ? 1 : n > 7 ? (int)r.range(1, 2) : (int)r.range(1, g_mode == "life" ? 4 : 3); bool pf = g_mode == "fatal" ? true : r.chance(0.3);
        for (int k = 0; k < runs; ++k) {
            newplan(r, n, pf && r.chance(g_mode == "fatal" ? 0.85 : 0.6));
            if (r.chance(g_mode == "life" ? 0.35 : 0.12)) { runfor(r.chance(0.08) && !real); if (r.chance(0.3)) stop(); }
            else {
                other(); run(r.chance(g_mode == "conf" ? 0.2 : 0.05)); other();
                if (mon < 0 && r.chance(0.3)) { int q = (int)r.range(2, 12); mon = mrt::spawn([&, q] { for (int i = 0; i < q && !quit; ++i) { isst(); mrt::sleep_ns(5000); } }); }
                if (r.chance(0.2)) isst();
                if (r.chance(0.9)) wait_calls(n, g_mode == "burst" || g_mode == "sleep" ? r.range(3, 14) : r.range(0, 5));
                if (seen() && r.chance(0.35) && !real) { if (r.chance(0.7)) { while (!g->is_stopped()) mrt::sleep_ns(1000); } if (k + 1 < runs) continue; }   // run again without stop()
                other(); stop(); if (r.chance(0.2)) stop();
            }
            if (r.chance(0.4)) isst();
            log_stats(n);
        }
    }
    if (g2) { w.noise = true; g2->close(); delete g2; w.noise = false; }
    quit = true; if (mon >= 0) mrt::join(mon);
    E("delcall").done(); g->close(); E("delret").done(); w.g = nullptr; delete g;
    mrt::end(); (void)monlive;
}
int main(int c, char** v) {
    if (c < 6) return 2;
    g_mode = v[1]; g_seed = atoll(v[5]);
    if (c > 6 && g_mode == "script") { FILE* f = fopen(v[6], "r"); char b[65536]; while (fgets(b, sizeof b, f)) { std::vector<std::string> s; for (char* t = strtok(b, " \n"); t; t = strtok(nullptr, " \n")) s.push_back(t); g_scripts.push_back(s); } fclose(f); }
    long budget = c > 6 && g_mode == "dfs" ? atol(v[6]) : 100;
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) {
        if (g_mode == "dfs") { std::vector<int> dec, wid; long b = budget; do { trace(id, &dec, &wid); vlog::flush_trace(); } while (--b > 0 && mrt::step_dfs(dec, wid)); return; }
        trace(id, nullptr, nullptr); }, 60);
}
#endif
