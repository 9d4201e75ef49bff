// File source and sink on real files in a scratch directory, with failing reads (interposed) and failing writes (file size limit).
// usage: file MODE OUT FIRST N SEED   MODE: source | sink | graph (with -DMRT)
#include "blk.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include "desktop_blocks/sources/source_file.hpp"
#include "desktop_blocks/sinks/sink_file.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#ifdef MRT
#include "mrt.hpp"
#else
namespace mrt { struct Ignore { Ignore() {} }; }
#endif
static uint64_t g_seed; static std::string g_dir;
static bool g_arm = false; static int g_hard = 0; static std::deque<int> g_faults; static size_t g_cap = 0; // per read: 0 none, errno, or -1 short
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static int rfault() { if (!g_arm || g_faults.empty()) return 0; int e = g_faults.front(); g_faults.pop_front(); if (e > 0) { if (e != EINTR) ++g_hard; errno = e; return e; } return e; }
extern "C" ssize_t read(int fd, void* b, size_t n) { static auto f = real<ssize_t (*)(int, void*, size_t)>("read"); int e = rfault(); if (e > 0) return -1; if (e < 0 && n > 1) n = 1 + n / 3; return f(fd, b, n); }
extern "C" ssize_t pread(int fd, void* b, size_t n, off_t o) { static auto f = real<ssize_t (*)(int, void*, size_t, off_t)>("pread"); int e = rfault(); if (e > 0) return -1; if (e < 0 && n > 1) n = 1 + n / 3; return f(fd, b, n, o); }

template <size_t S> struct Raw { unsigned char b[S]; };
template <size_t S> constexpr long modulus() { return S == 1 ? 251 : S < 4 ? 65521 : 1000003; }
template <class T> static void put(T* t, long q) { constexpr size_t S = sizeof(T); unsigned char* b = (unsigned char*)t; uint32_t v = (uint32_t)(q % modulus<S>()); for (size_t i = 0; i < S; ++i) b[i] = i < 4 ? (unsigned char)(v >> (8 * i)) : (unsigned char)(v * 31 + i * 7); if constexpr (S == 2 || S == 3) for (size_t i = 2; i < S; ++i) b[i] = (unsigned char)(v * 31 + i * 7); }
template <class T> static long val(const T* t) { constexpr size_t S = sizeof(T); const unsigned char* b = (const unsigned char*)t; constexpr size_t K = S == 1 ? 1 : S < 4 ? 2 : 4; uint32_t v = 0; for (size_t i = 0; i < K; ++i) v |= (uint32_t)b[i] << (8 * i); T w; put(&w, (long)v); if ((long)v >= modulus<S>() || memcmp(&w, t, S)) return -1; return (long)v; }
struct Runs { std::vector<std::pair<long, long>> v; void add(long x) { if (x > 0 && !v.empty() && v.back().first >= 0 && v.back().first + v.back().second == x) ++v.back().second; else if (v.size() < 20000) v.push_back({x, 1}); }
    std::string js() const { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ",[" : "[") + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]"; return s + "]"; } };
static int g_cb; static std::string g_cbname; static void eof_cb(const char* f) { mrt::Ignore ig; ++g_cb; g_cbname = f ? f : ""; }
template <class T> static void mkfile(const std::string& p, long n, size_t tail) { std::vector<T> v(n); for (long i = 0; i < n; ++i) put(&v[i], i); FILE* f = fopen(p.c_str(), "wb"); if (n) fwrite(v.data(), sizeof(T), n, f); T x; put(&x, n); fwrite(&x, 1, tail, f); fclose(f); }
template <class T> static void rdfile(const std::string& p, Runs& r, size_t& tail) { FILE* f = fopen(p.c_str(), "rb"); tail = 0; if (!f) return; T x; size_t k; for (;;) { k = fread(&x, 1, sizeof(T), f); if (k < sizeof(T)) break; r.add(val(&x)); } tail = k; fclose(f); }
template <class T> static void reset(long id, const char* kind, long n, bool rep, bool call, bool full) { E e("reset"); e.i("id", id).s("kind", kind).i("m", modulus<sizeof(T)>()).i("n", n).t("rep", rep).t("call", call).i("sz", sizeof(T)).t("full", full).done(); }
template <class T> static long pick_n(Rng& r, size_t cap) { switch (r.below(7)) { case 0: return r.below(3); case 1: return cap; case 2: return cap * (1 + r.below(3)) + r.range(-1, 1); case 3: return r.below(4 * cap); case 4: return 1 + r.below(cap); case 5: return r.below(20); default: return 8191 / sizeof(T) + r.below(3); } }

template <class T> static void source(long id, Rng& r) {
    size_t mn = std::max<size_t>(1, 4096 / sizeof(T)); cler::Channel<T> out(mn + (r.chance(0.3) ? r.below(2 * mn) : 0)); long n = pick_n<T>(r, out.space()); size_t tail = r.chance(0.4) ? r.below(sizeof(T)) : 0;
    bool rep = r.chance(0.5), call = r.chance(0.8), dir = r.chance(0.02); int prof = (int)r.below(3); std::string p = g_dir + "/s" + std::to_string(id); if (dir) { mkdir(p.c_str(), 0700); n = 1; } else mkfile<T>(p, n, tail); g_cb = 0;
    reset<T>(id, "source", n, rep, call, false);
    { SourceFileBlock<T> b("s", p.c_str(), rep, call ? &eof_cb : nullptr); long made = 0;
      auto pull = [&](size_t k, Runs* q) { for (; k && out.size(); --k) { T t; out.pop(t); if (q) q->add(val(&t)); } };
      int ops = 10 + (int)r.below(40);
      for (int i = 0; i < ops; ++i) {
        g_faults.clear(); if (prof && r.chance(0.4)) { int k = 1 + (int)r.below(4); for (int j = 0; j < k; ++j) g_faults.push_back(j == k - 1 || r.chance(0.5) ? (prof == 2 && r.chance(0.25) ? (r.chance(0.5) ? EIO : ENOMEM) : r.chance(0.3) ? EINTR : -1) : 0); }
        size_t sp = out.space(), was = out.size(); g_hard = dir ? 1 : 0; int cb0 = g_cb; g_arm = true; Res z = b.procedure(&out); g_arm = false; g_faults.clear();
        Runs q; size_t got = out.size() - was; { // look at what was added without taking it
          const T *x, *y; size_t a, c; size_t tot = out.peek_read(x, a, y, c); for (size_t j = was; j < tot; ++j) q.add(val(j < a ? x + j : y + (j - a))); }
        made += got; E("call").i("space", sp).raw("runs", q.js()).s("res", ename(z)).i("cb", g_cb - cb0 + (g_cb > cb0 && g_cbname != p ? 1000 : 0)).t("fault", g_hard > 0).done();
        if (r.chance(0.8)) pull(r.chance(0.5) ? out.size() : r.below(out.size() + 1), nullptr);
      } }
    if (dir) rmdir(p.c_str()); else unlink(p.c_str());
}
static void limit(long n) { static rlimit old; static bool have = false; if (!have) { getrlimit(RLIMIT_FSIZE, &old); have = true; } rlimit l = old; if (n >= 0) l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }
template <class T> static void sink(long id, Rng& r) {
    size_t mn = std::max<size_t>(1, 4096 / sizeof(T)); size_t want = r.chance(0.5) ? 0 : (4096 + sizeof(T) - 1) / sizeof(T) + r.below(3 * mn); bool full = r.chance(0.06); int prof = (int)r.below(3); std::string p = full ? "/dev/full" : g_dir + "/k" + std::to_string(id);
    if (!full && r.chance(0.3)) mkfile<T>(p, r.below(3 * mn), 0); // an older file is replaced
    reset<T>(id, "sink", 0, false, false, full); signal(SIGXFSZ, SIG_IGN); long used = 0, fed = 0;
    { auto b = std::make_unique<SinkFileBlock<T>>("k", p.c_str(), want); int ops = 8 + (int)r.below(30);
      for (int i = 0; i < ops; ++i) {
        if (r.chance(0.6)) { long k = 0; size_t w = r.chance(0.4) ? b->in.space() : r.chance(0.5) ? r.below(b->in.space() + 1) : r.below(4); T t; while (k < (long)w) { put(&t, fed); if (!b->in.try_push(t)) break; ++fed; ++k; } E("feed").i("k", k).done(); }
        if (r.chance(0.7)) { long lim = -1; if (full) lim = 0; else if (prof == 2 && r.chance(0.15)) { switch (r.below(4)) { case 0: lim = fed * sizeof(T); break; case 1: lim = fed * sizeof(T) - (fed > used ? 1 : 0); break; case 2: lim = used * sizeof(T) + r.below((fed - used) * sizeof(T) + 1); break; default: lim = used * sizeof(T); } }
          size_t was = b->in.size(); if (!full) limit(lim); Res z = b->procedure(); limit(-1); size_t u = was - b->in.size(); used += u; E("call").i("lim", lim).i("used", u).s("res", ename(z)).done(); }
      }
      long lim = !full && prof && r.chance(0.5) ? (r.chance(0.3) ? used * sizeof(T) : r.chance(0.5) ? 0 : r.below(used * sizeof(T) + 1)) : -1; limit(lim); b.reset(); limit(-1); }
    Runs q; size_t tail = 0; if (!full) { rdfile<T>(p, q, tail); unlink(p.c_str()); } E("end").raw("runs", q.js()).i("tail", tail).done();
}
#ifdef MRT
template <class T> static void graph(long id, Rng& r) {
    mrt::Opt o; static const double ps[] = {0.03, 0.1, 0.4}; o.seed = r.next(); o.pswitch = ps[r.below(3)]; o.max_points = 1500000; size_t mn = std::max<size_t>(1, 4096 / sizeof(T)); long n = pick_n<T>(r, mn); bool rep = r.chance(0.4); std::string a = g_dir + "/g" + std::to_string(id), k = a + "k"; mkfile<T>(a, n, r.chance(0.3) ? r.below(sizeof(T)) : 0); g_cb = 0;
    reset<T>(id, "graph", n, rep, true, false); Runs q, lq; size_t tail; bool ran = true; mrt::begin(o);
    { SourceFileBlock<T> s("s", a.c_str(), rep, &eof_cb); SinkFileBlock<T> d("k", k.c_str()); long moved = 0;
      { auto g = cler::make_desktop_flowgraph(cler::BlockRunner(&s, &d.in), cler::BlockRunner(&d)); cler::FlowGraphConfig cfg; if (r.chance(0.4)) { cfg.scheduler = cler::SchedulerType::FixedThreadPool; cfg.num_workers = 2; } if (r.chance(0.3)) cfg.max_calls_per_tick = 1 + r.below(4); g.run(cfg);
        for (int i = 0; i < 20000 && !g.is_stopped(); ++i) { mrt::yield(); if (rep && i % 8 == 0) { mrt::Ignore ig; struct stat st{}; if (::stat(k.c_str(), &st) == 0) moved = st.st_size / sizeof(T); if (moved > 3 * n && n) break; } }
        { mrt::Ignore ig; ran = rep ? moved > 3 * n : g_cb == 1;} g.stop(); }
      T t; while (d.in.try_pop(t)) { mrt::Ignore ig; lq.add(val(&t)); } }
    mrt::end(); rdfile<T>(k, q, tail); unlink(a.c_str()); unlink(k.c_str()); E("end").raw("runs", q.js()).i("tail", tail).raw("left", lq.js()).i("cb", g_cb).t("ran", ran).done();
}
#endif
template <class T> static void one(const std::string& m, long id, Rng& r) {
#ifdef MRT
    graph<T>(id, r);
#else
    if (m == "source") source<T>(id, r); else sink<T>(id, r);
#endif
}
int main(int c, char** v) {
    if (c < 6) return 2; g_seed = atoll(v[5]); std::string m = v[1]; char d[] = "/tmp/cler_file_XXXXXX"; if (!mkdtemp(d)) return 2; g_dir = d;
    int rc = vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) { Rng r(g_seed * 7919 + id); switch (r.below(8)) {
        case 0: one<uint8_t>(m, id, r); break; case 1: one<int16_t>(m, id, r); break; case 2: one<Raw<3>>(m, id, r); break; case 3: one<float>(m, id, r); break; case 4: one<std::complex<float>>(m, id, r); break;
        case 5: one<Raw<12>>(m, id, r); break; case 6: one<Raw<1000>>(m, id, r); break; default: one<double>(m, id, r); } });
    std::error_code ec; std::filesystem::remove_all(g_dir, ec); return rc; }
