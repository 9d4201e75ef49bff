// The small vocabulary: powers of two, bounded strings, results, error names, ready-made configurations, execution report.
#include "cler.hpp"
#include "cler_utils.hpp"
#include "cler_desktop_utils.hpp"
#include <cstring>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include "vlog.hpp"
namespace stub {
#include "virtual_memory/cler_vmem_none.hpp"
}
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
using vlog::E; using vlog::Rng;
// what the platform layer asks the operating system for
static std::vector<int> g_cores; static long g_asked; static bool g_self, g_refuse;
extern "C" int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t* c) noexcept { ++g_asked; g_self = pthread_equal(t, pthread_self()); g_cores.clear(); for (int i = 0; i < (int)(8 * n); ++i) if (CPU_ISSET_S(i, n, c)) g_cores.push_back(i); return g_refuse ? EINVAL : 0; }
static uint64_t g_seed; static std::string g_mode;
static std::vector<int> bits(size_t x) { std::vector<int> v; for (int i = 0; i < 64; ++i) if (x >> i & 1) v.push_back(i); return v; }
static void num(long id) {
    Rng r(g_seed * 7919 + id); E("reset").i("id", id).s("k", "num").done();
    for (int i = 0; i < 60; ++i) { int sh = (int)r.below(65); size_t x = sh == 64 ? 0 : (size_t)1 << sh; switch (r.below(5)) { case 0: break; case 1: x -= 1; break; case 2: x += 1; break; case 3: x |= r.next() & (x - 1); break; default: x = (size_t)r.next() >> (sh & 63); }
        if (id == 0) x = (size_t)i; E("num").a("x", bits(x)).a("f", bits(cler::floor2p2(x))).a("c", bits(cler::ceil2p2(x))).t("p", cler::is_power_of_2(x)).done(); } }
// ---------------------------------------------------------------- bounded strings
static std::string text(Rng& r, size_t max) { std::string s; size_t n = r.chance(0.2) ? max - 1 : r.chance(0.2) ? max : r.chance(0.1) ? 0 : r.below(2 * max + 2); for (size_t i = 0; i < n; ++i) s += (char)(1 + r.below(255)); return s; }
static std::vector<int> codes(const char* s) { std::vector<int> v; for (; *s; ++s) v.push_back((unsigned char)*s); return v; }
static std::string lists(const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + v[i]; return o + "]"; }
static std::string js(const std::vector<int>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]); return o + "]"; }
template <size_t M> static void str(long id) {
    typedef cler::EmbeddableString<M> S; Rng r(g_seed * 7919 + id); const int n = 3; E("reset").i("id", id).s("k", "str").i("max", M).i("n", n).done();
    std::vector<std::unique_ptr<S>> v; for (int i = 0; i < n; ++i) v.push_back(std::make_unique<S>());
    auto say = [&](const char* op, int a, int b, int c, const std::string& x) { const S& s = *v[a]; const char* p = s; E("str").s("op", op).i("a", a + 1).i("b", b + 1).i("c", c + 1).a("x", codes(x.c_str())).i("len", (long)s.length()).t("empty", s.empty()).a("v", codes(r.chance(0.5) ? p : s.c_str())).done(); };
    for (int i = 0; i < 40; ++i) { int a = (int)r.below(n), b = (int)r.below(n), c = (int)r.below(n); std::string x = text(r, M);
        switch (r.below(7)) {
            case 0: v[a] = std::make_unique<S>(x.c_str()); say("new", a, 0, 0, x); break;
            case 1: if (r.chance(0.3)) x = x + std::string(1, '\0') + "tail"; v[a] = std::make_unique<S>(x); say("new", a, 0, 0, x); break;
            case 2: v[a] = r.chance(0.5) ? std::make_unique<S>() : std::make_unique<S>((const char*)nullptr); say("new", a, 0, 0, ""); break;
            case 3: { auto t = std::make_unique<S>(*v[b]); v[a] = std::move(t); say("copy", a, b, 0, ""); break; }
            case 4: *v[a] = *v[b]; say("assign", a, b, 0, ""); break;
            case 5: { std::unique_ptr<S> t(new S(*v[b] + x.c_str())); if (r.chance(0.1)) { x = ""; t.reset(new S(*v[b] + (const char*)nullptr)); } v[a] = std::move(t); say("plus", a, b, 0, x); break; }
            default: { if (r.chance(0.5)) { std::unique_ptr<S> t(new S(*v[b] + *v[c])); v[a] = std::move(t); } else *v[a] = *v[b] + *v[c]; say("plus2", a, b, c, ""); } }
        std::vector<std::string> all; for (auto& s : v) all.push_back(js(codes(s->c_str()))); E("all").raw("v", lists(all)).done(); } }
// ---------------------------------------------------------------- results
struct Big { std::vector<int> v; std::string s; };
template <class T, class X> struct Mk;
template <class X> struct Mk<int, X> { static int mk(int x) { return x; } static int get(int x) { return x; } };
template <class X> struct Mk<cler::Error, X> { static cler::Error mk(int x) { return (cler::Error)(x % 12); } static int get(cler::Error x) { return (int)x; } };
template <class X> struct Mk<std::string, X> { static std::string mk(int x) { return std::string(40, 'q') + std::to_string(x); } static int get(const std::string& s) { return s.size() > 40 ? atoi(s.c_str() + 40) : -1; } };
template <class X> struct Mk<Big, X> { static Big mk(int x) { return {std::vector<int>(9, x), std::string(50, 'z')}; } static int get(const Big& b) { return b.v.size() == 9 && b.s.size() == 50 ? b.v[8] : -1; } };
template <class T, class Er> static void res(long id) {
    typedef cler::Result<T, Er> R; typedef Mk<T, void> MT; typedef Mk<Er, void> ME; Rng r(g_seed * 7919 + id); const int n = 3; E("reset").i("id", id).s("k", "res").i("n", n).done();
    auto val = [&] { return (int)r.below(12); }; std::vector<std::unique_ptr<R>> v; auto op = [&](const char* o, int a, int b, int x) { E("res").s("op", o).i("a", a + 1).i("b", b + 1).i("x", x).done(); };
    for (int i = 0; i < n; ++i) { int x = val(); v.push_back(std::make_unique<R>(MT::mk(x))); op("val", i, 0, x); }
    for (int i = 0; i < 30; ++i) { int a = (int)r.below(n), b = (int)r.below(n), x = val();
        switch (r.below(6)) {
            case 0: v[a] = std::make_unique<R>(MT::mk(x)); op("val", a, 0, x); break;
            case 1: v[a] = std::make_unique<R>(ME::mk(x)); op("err", a, 0, x); break;
            case 2: { auto t = std::make_unique<R>(*v[b]); v[a] = std::move(t); op("copy", a, b, 0); break; }
            case 3: *v[a] = *v[b]; op("assign", a, b, 0); break;
            case 4: { R t = *v[b]; *v[a] = std::move(t); op("assign", a, b, 0); break; }
            default: if (v[a]->is_ok()) v[a]->unwrap() = MT::mk(x); else v[a]->unwrap_err() = ME::mk(x); op("set", a, 0, x); }
        for (int k = 0; k < n; ++k) { bool vt = false, et = false; int x1 = -2, x2 = -2; try { x1 = MT::get(v[k]->unwrap()); } catch (const std::exception&) { vt = true; } try { x2 = ME::get(v[k]->unwrap_err()); } catch (const std::exception&) { et = true; }
            E("look").i("a", k + 1).t("ok", v[k]->is_ok()).t("err", v[k]->is_err()).t("vthrow", vt).t("ethrow", et).i("v", x1).i("ev", x2).done(); } } }
// ---------------------------------------------------------------- names, presets
static void names(long id) {
    E("reset").i("id", id).s("k", "names").done(); using cler::Error;
    struct { Error e; int cls; bool named; } T[] = {{Error::OK, 0, false}, {Error::Unknown, 1, true}, {Error::NotEnoughSamples, 1, true}, {Error::NotEnoughSpace, 1, true}, {Error::NotEnoughSpaceOrSamples, 1, true}, {Error::ProcedureError, 1, true}, {Error::BadData, 1, true},
        {Error::TERMINATE_FLOWGRAPH, 2, false}, {Error::TERM_InvalidChannelIndex, 2, true}, {Error::TERM_ProcedureError, 2, true}, {Error::TERM_IOError, 2, true}, {Error::TERM_EOFReached, 2, true}};
    for (auto& t : T) { std::ostringstream o; o << t.e; std::string s = cler::to_str(t.e); E("name").i("cls", t.cls).t("named", t.named).t("fatal", cler::is_fatal(t.e)).i("len", (long)s.size()).s("name", s).t("same", o.str() == s && s == cler::error_to_cstring(t.e)).done(); }
    struct { const char* n; cler::FlowGraphConfig c; } P[] = {{"embedded", cler::flowgraph_config::embedded_optimized()}, {"desktop", cler::flowgraph_config::desktop_performance()}, {"sleepy", cler::flowgraph_config::thread_per_block_adaptive_sleep()}};
    for (auto& p : P) E("preset").s("name", p.n).s("sched", p.c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "tpb").i("w", (long)p.c.num_workers).t("asl", p.c.adaptive_sleep).i("mult", (long)(p.c.adaptive_sleep_multiplier * 100)).i("max", (long)p.c.adaptive_sleep_max_us).done();
    stub::cler::vmem::DoublyMappedAllocation a, b(std::move(a)); a = std::move(b); auto throws = [&](auto f) { try { f(); return false; } catch (const std::runtime_error&) { return true; } };
    E("stub").t("threw", throws([&] { a.create(4096); }) && throws([&] { (void)a.data(); }) && throws([&] { (void)a.second_mapping(); }) && throws([&] { (void)a.size(); })).done(); }
// ---------------------------------------------------------------- the desktop's own task policy
static void desk(long id) {
    Rng r(g_seed * 7919 + id); E("reset").i("id", id).s("k", "desk").done(); int n = (int)std::min(8u, std::max(1u, std::thread::hardware_concurrency()));
    for (int w = 0; w < n; ++w) for (int how = 0; how < 3; ++how) { g_asked = 0; g_self = false; g_cores.clear(); g_refuse = how == 2; bool res = how != 2; if (how == 0) { auto t = cler::DesktopTaskPolicy::create_task([w] { cler::DesktopTaskPolicy::pin_to_core(w); }); cler::DesktopTaskPolicy::join_task(t); } else res = cler::platform::set_thread_affinity(w); E("pin").i("w", w).i("asked", g_asked).t("self", g_self).a("cores", g_cores).t("res", res).t("refused", g_refuse).done(); }
    for (int i = 0; i < 12; ++i) { long us = i < 2 ? i : 1 + (long)r.below(3000); auto a = std::chrono::steady_clock::now(); cler::DesktopTaskPolicy::sleep_us((size_t)us); long took = (long)std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - a).count(); E("nap").i("us", us).i("took", std::min(took, 1000000000L)).done(); } }
// ---------------------------------------------------------------- execution report
struct B : cler::BlockBase { int ok, er; std::atomic<bool>* quit; Rng r; B(const std::string& n, int o, int e, std::atomic<bool>* q, uint64_t s) : cler::BlockBase(n.c_str()), ok(o), er(e), quit(q), r(s) {}
    cler::Result<cler::Empty, cler::Error> procedure() {
        if (ok > 0 && (er <= 0 || r.chance(0.5))) { --ok; return cler::Empty{}; } if (er > 0) { --er; return r.chance(0.5) ? cler::Error::BadData : cler::Error::NotEnoughSamples; }
        if (*quit) { usleep(300); return cler::Error::NotEnoughSpace; } return cler::Error::TERM_EOFReached; } };
static std::string capture(std::function<void()> f) { fflush(stdout); char p[] = "/tmp/utilXXXXXX"; int t = mkstemp(p), o = dup(1); unlink(p); dup2(t, 1); f(); fflush(stdout); dup2(o, 1); close(o); std::string s(lseek(t, 0, SEEK_END), 0); pread(t, &s[0], s.size(), 0); close(t); return s; }
static std::string trim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); size_t i = s.find_first_not_of(' '); return i == std::string::npos ? "" : s.substr(i); }
static void report(long id) {
    Rng r(g_seed * 7919 + id); E("reset").i("id", id).s("k", "report").done(); std::atomic<bool> q{false}; auto nm = [&](int i) { std::string s = "b" + std::to_string(i); size_t n = r.below(28); for (size_t k = 0; k < n; ++k) s += (char)('a' + r.below(26)); return s; };
    auto cnt = [&] { return r.chance(0.2) ? 0 : (int)r.below(60); }; B a(nm(0), cnt(), cnt(), &q, r.next()), b(nm(1), cnt(), cnt(), &q, r.next()), c(nm(2), cnt(), cnt(), &q, r.next());
    cler::DesktopFlowGraph<cler::BlockRunner<B>, cler::BlockRunner<B>, cler::BlockRunner<B>> fg{cler::BlockRunner<B>(&a), cler::BlockRunner<B>(&b), cler::BlockRunner<B>(&c)};
    cler::FlowGraphConfig f; if (r.chance(0.4)) { f.scheduler = cler::SchedulerType::FixedThreadPool; f.num_workers = 2 + r.below(4); } f.collect_detailed_stats = r.chance(0.75); f.adaptive_sleep = r.chance(0.4); f.adaptive_sleep_multiplier = (100 + (int)r.below(200)) / 100.0; f.adaptive_sleep_max_us = 1 + (int)r.below(200); f.adaptive_sleep_fail_threshold = r.below(20);
    E("graph").s("sched", f.scheduler == cler::SchedulerType::FixedThreadPool ? "FixedThreadPool" : "ThreadPerBlock").i("w", (long)f.num_workers).t("asl", f.adaptive_sleep).t("st", f.collect_detailed_stats).i("mult", (long)(f.adaptive_sleep_multiplier * 100 + .5)).i("max", (long)(f.adaptive_sleep_max_us * 10 + .5)).i("thr", (long)f.adaptive_sleep_fail_threshold).done();
    auto one = [&](bool running) { std::string s = capture([&] { cler::print_flowgraph_execution_report(fg); }); std::istringstream in(s); std::string l; std::string sched; long w = -1, mult = -1, max = -1, thr = -1; bool asl = false, st = false, refused = s.find("still running") != std::string::npos; std::vector<std::string> names, rows; bool table = false;
        auto after = [&](const char* k) { size_t p = l.find(k); return p == std::string::npos ? std::string() : trim(l.substr(p + strlen(k))); };
        while (std::getline(in, l)) { std::string x; if (!(x = after("Scheduler:")).empty()) sched = x; if (!(x = after("Workers:")).empty()) w = atol(x.c_str()); if (!(x = after("Adaptive Sleep:")).empty()) asl = x == "ENABLED"; if (!(x = after("Detailed Stats:")).empty()) st = x == "ENABLED";
            if (!(x = after("Multiplier:")).empty()) mult = std::lround(atof(x.c_str()) * 100); if (!(x = after("Max Sleep (us):")).empty()) max = std::lround(atof(x.c_str()) * 10); if (!(x = after("Fail Threshold:")).empty()) thr = atol(x.c_str());
            if (!l.compare(0, 5, "-----")) { table = true; continue; } if (!table) continue; size_t p = l.find('|'); if (p == std::string::npos) { table = false; continue; }
            names.push_back(trim(l.substr(0, p))); std::vector<int> v; while (p != std::string::npos) { v.push_back((int)std::lround(std::min(1e8, std::max(-1e8, atof(l.c_str() + p + 1) * 10)))); p = l.find('|', p + 1); } rows.push_back(js(v)); }
        E("report").t("running", running).t("refused", refused).s("sched", sched).i("w", w).t("asl", asl).t("st", st).i("mult", mult).i("max", max).i("thr", thr).sa("names", names).raw("rows", lists(rows)).done(); };
    bool hold = r.chance(0.04); q = hold; fg.run(f); if (hold) { one(true); q = false; } while (!fg.is_stopped()) std::this_thread::yield(); fg.stop();
    const char* N[] = {a.name(), b.name(), c.name()}; int i = 0; for (auto& s : fg.stats()) E("blk").s("name", N[i++]).i("ok", (long)s.successful_procedures).i("er", (long)s.failed_procedures).i("rt", std::lround(s.total_runtime_s * 1e6)).i("dead", std::lround(s.total_dead_time_s * 1e6)).done();
    one(false); }
int main(int c, char** v) {
    if (c < 6) return 2; g_mode = v[1]; g_seed = atoll(v[5]);
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) {
        if (g_mode == "num") num(id); else if (g_mode == "names") names(id); else if (g_mode == "desk") desk(id); else if (g_mode == "report") report(id);
        else if (g_mode == "str") switch (id % 6) { case 0: str<1>(id); break; case 1: str<2>(id); break; case 2: str<8>(id); break; case 3: str<16>(id); break; case 4: str<64>(id); break; default: str<200>(id); }
        else switch (id % 5) { case 0: res<int, cler::Error>(id); break; case 1: res<std::string, cler::Error>(id); break; case 2: res<Big, std::string>(id); break; case 3: res<std::string, Big>(id); break; default: res<cler::Error, int>(id); } }, 60); }
