// The plot blocks with a stand-in GUI (C20).  usage: plots MODE OUT FIRST N SEED   MODE: seq | nomap | conc (with -DMRT)
#include "blk.hpp"
#include "desktop_blocks/plots/plot_timeseries.hpp"
#include "desktop_blocks/plots/plot_cspectrum.hpp"
#include "desktop_blocks/plots/plot_cspectrogram.hpp"
#include <algorithm>
#include <cstdarg>
#include <errno.h>
#include <set>
#ifdef MRT
#include "mrt.hpp"
#else
#include <dlfcn.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace mrt { struct Ignore { Ignore() {} }; inline void yield() {} }
static bool g_nomap = false; // the operating system refuses shared memory objects
extern "C" long syscall(long n, ...) { va_list a; va_start(a, n); long x[6]; for (auto& v : x) v = va_arg(a, long); va_end(a);
    if (g_nomap && n == SYS_memfd_create) { errno = ENOSYS; return -1; }
    static auto f = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall"); return f(n, x[0], x[1], x[2], x[3], x[4], x[5]); }
extern "C" int shm_open(const char* p, int fl, mode_t m) { if (g_nomap) { errno = EACCES; return -1; } static auto f = (int (*)(const char*, int, mode_t))dlsym(RTLD_NEXT, "shm_open"); return f(p, fl, m); }
#endif
GuiRec g_gui;
typedef std::complex<float> cf;
static uint64_t g_seed; static std::string g_mode;
struct Run { long s, n; };
static std::string runs(const std::vector<long>& v) { // consecutive integers as [start, length]
    std::vector<Run> r; for (long x : v) { if (!r.empty() && r.back().s + r.back().n == x) r.back().n++; else r.push_back({x, 1}); if (r.size() > 4) break; }
    std::string s = "["; for (auto& q : r) s += (s.size() > 1 ? ",[" : "[") + std::to_string(q.s) + "," + std::to_string(q.n) + "]"; return s + "]"; }
static const long SKIP = -99999;
static std::string arr(const std::vector<long>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static long cdb(double x) { return !std::isfinite(x) ? 1000000 : x > 9000 ? 900000 : x < -9000 ? -900000 : (long)std::nearbyint(x * 100); }
// ------------------------------------------------------------------ independent spectrum
static double bi0(double x) { double s = 1, t = 1; for (int k = 1; k < 60; ++k) { t *= (x / 2) * (x / 2) / ((double)k * k); s += t; } return s; }
static double win(SpectralWindow w, double x) { double p = 2 * M_PI * x; switch (w) {
    case SpectralWindow::BlackmanHarris: return 0.35875 - 0.48829 * cos(p) + 0.14128 * cos(2 * p) - 0.01168 * cos(3 * p);
    case SpectralWindow::Hamming: return 0.54 - 0.46 * cos(p); case SpectralWindow::Hann: return 0.5 - 0.5 * cos(p); case SpectralWindow::Rectangular: return 1;
    case SpectralWindow::Kaiser: { double t = 2 * x - 1, q = 1 - t * t; return bi0(8.6 * sqrt(q > 0 ? q : 0)) / bi0(8.6); }
    default: return 1 - 1.93 * cos(p) + 1.29 * cos(2 * p) - 0.388 * cos(3 * p) + 0.0322 * cos(4 * p); } }
struct Spec { size_t n; std::vector<double> w; std::vector<std::complex<double>> tw; double g = 0;
    Spec(size_t n_, SpectralWindow t) : n(n_) { for (size_t i = 0; i < n; ++i) { w.push_back(win(t, (double)i / (n - 1))); g += w[i]; tw.push_back(std::polar(1.0, -2 * M_PI * i / n)); } }
    std::vector<long> row(const cf* x) { std::vector<double> d(n); double mx = -1e9;
        for (size_t k = 0; k < n; ++k) { std::complex<double> s = 0; size_t f = (k + n / 2) % n; for (size_t i = 0; i < n; ++i) s += w[i] * std::complex<double>(x[i]) * tw[f * i % n]; d[k] = 10 * std::log10(std::norm(s) / (g * g) + 1e-20); mx = std::max(mx, d[k]); }
        std::vector<long> r; for (double v : d) r.push_back(v < mx - 60 ? SKIP : cdb(v)); return r; } };
// ------------------------------------------------------------------ one run
struct Case { std::string kind; size_t n, nfft = 0, tall = 0, sps, win; std::vector<std::string> lab; std::vector<size_t> fed; std::vector<std::vector<cf>> x; std::set<long> refs; std::unique_ptr<Spec> sp; int wt = -1; bool shown, press = false; std::string pay; Rng g{1};
    std::unique_ptr<PlotTimeSeriesBlock> ts; std::unique_ptr<PlotCSpectrumBlock> fs; std::unique_ptr<PlotCSpectrogramBlock> gs;
    cler::Channel<float>& fi(size_t i) { return ts->in[i]; } cler::Channel<cf>& ci(size_t i) { return fs ? fs->in[i] : gs->in[i]; }
    size_t size(size_t i) { return ts ? fi(i).size() : ci(i).size(); } size_t space(size_t i) { return ts ? fi(i).space() : ci(i).space(); }
    size_t avail() { size_t m = size(0); for (size_t i = 1; i < n; ++i) m = std::min(m, size(i)); return m; } };
static void mk(Case& c, Rng& r, bool conc) {
    c.n = 1 + r.below(4); c.sps = 1 << r.below(14); for (size_t i = 0; i < c.n; ++i) c.lab.push_back("s" + std::to_string(i)); c.fed.assign(c.n, 0); c.x.resize(c.n); c.g = Rng(r.next());
    static const char* K[] = {"ts", "fft", "gram"}; c.kind = K[r.below(3)];
    if (c.kind == "ts") { size_t w = r.chance(0.3) ? 1 + r.below(900) : conc ? 1000 + r.below(200) : r.chance(0.2) ? 1024 * (1 + r.below(3)) : 1000 + r.below(3000); c.win = w; float d = ((float)w + 0.5f) / c.sps; c.ts = std::make_unique<PlotTimeSeriesBlock>("p", c.lab, c.sps, d); }
    else { static const size_t N[] = {4, 8, 16, 6, 10, 32, 64, 8, 16, 12}; c.nfft = N[r.below(10)]; if (!conc && r.chance(0.05)) c.nfft = r.chance(0.5) ? 512 : 600; c.win = c.nfft; auto wt = (SpectralWindow)r.below(6); c.wt = (int)wt; c.sp = std::make_unique<Spec>(c.nfft, wt);
        if (c.kind == "fft") c.fs = std::make_unique<PlotCSpectrumBlock>("p", c.lab, c.sps, c.nfft, wt); else { c.tall = 1 + r.below(6); c.gs = std::make_unique<PlotCSpectrogramBlock>("p", c.lab, c.sps, c.nfft, c.tall, wt); } }
}
static void ref(Case& c, long e) { if (!c.sp || e < (long)c.nfft || !c.refs.insert(e).second) return; std::string s; for (size_t i = 0; i < c.n; ++i) { if ((long)c.x[i].size() < e) return; s += (i ? "," : "") + arr(c.sp->row(c.x[i].data() + e - c.nfft)); } E("ref").i("at", e).raw("rows", "[" + s + "]").done(); }
static size_t feed(Case& c, size_t i, size_t n, int how) { // writes up to n samples to input i
    n = std::min(n, c.space(i)); std::vector<float> f; std::vector<cf> z;
    { mrt::Ignore ig; for (size_t k = 0; k < n; ++k) { if (c.ts) f.push_back((float)((c.fed[i] + k) * 4 + i)); else { float a = (float)((double)c.g.below(2001) / 1000 - 1), b = (float)((double)c.g.below(2001) / 1000 - 1); z.push_back(cf(a, b)); } } }
    if (!n) return 0;
    if (c.ts) { auto& h = c.fi(i); if (how == 0) for (float v : f) h.push(v); else if (how == 1 && h._queue.is_doubly_mapped()) { auto [p, s] = h.write_dbf(); std::copy(f.begin(), f.end(), p); h.commit_write(n); } else h.writeN(f.data(), n); }
    else { auto& h = c.ci(i); if (how == 0) for (cf v : z) h.push(v); else if (how == 1 && h._queue.is_doubly_mapped()) { auto [p, s] = h.write_dbf(); std::copy(z.begin(), z.end(), p); h.commit_write(n); } else h.writeN(z.data(), n); }
    mrt::Ignore ig; c.fed[i] += n; c.x[i].insert(c.x[i].end(), z.begin(), z.end()); E("feed").i("i", i + 1).i("k", n).done(); return n; }
static void call(Case& c) {
    size_t m = c.avail(); std::vector<long> b; for (size_t i = 0; i < c.n; ++i) b.push_back(c.size(i));
    { mrt::Ignore ig; long u = (long)c.fed[0] - b[0]; if (c.fs) ref(c, u + m); if (c.gs && m >= c.nfft) ref(c, u + c.nfft); E("cb").done(); }
    Res z = c.ts ? c.ts->procedure() : c.fs ? c.fs->procedure() : c.gs->procedure();
    std::vector<long> t; for (size_t i = 0; i < c.n; ++i) t.push_back(b[i] - (long)c.size(i));
    mrt::Ignore ig; long u = (long)c.fed[0] - b[0] + t[0]; if (c.fs) ref(c, u); if (c.gs && u % c.nfft == 0) ref(c, u); E("ce").s("res", ename(z)).a("took", t).done(); }
static void hooks(Case& c, Rng& r, double pp) {
    g_gui.button = [&c, &r, pp] { mrt::Ignore ig; bool p = r.chance(pp) || c.press; c.press = false; if (p) E("press").done(); return p; };
    g_gui.slider = [&c, &r](float* v) { mrt::Ignore ig; if (r.chance(0.2)) *v = r.below(5) * 0.25f; E("alpha").i("v", (long)std::nearbyint(*v * 100)).done(); };
    g_gui.visible = [&r] { mrt::Ignore ig; return r.chance(0.93); };
    g_gui.text = [] {};
    g_gui.line = [&c](const char* l, const float* x, const float* y, int k) { // reads what is drawn: inside the simulation
        std::vector<float> X(x, x + k), Y(y, y + k); mrt::Ignore ig; c.shown = true; long i = atol(l + 1); std::string s = (c.pay.empty() ? "" : ",") + std::string("{\"i\":") + std::to_string(i + 1);
        if (c.ts) { std::vector<long> a, b; for (float v : X) a.push_back((long)std::nearbyint((double)v * c.sps)); for (float v : Y) { long q = std::isfinite(v) && std::fabs(v) < 4e6 ? (long)v : -5; b.push_back(q == v && q % 4 == i ? q / 4 : -1000000 - 2 * (long)b.size()); } s += ",\"x\":" + runs(a) + ",\"y\":" + runs(b) + "}"; }
        else { std::vector<long> a, b; for (float v : X) a.push_back((long)std::nearbyint((double)v * c.nfft)); for (float v : Y) b.push_back(cdb(v)); s += ",\"x\":" + arr(a) + ",\"y\":" + arr(b) + "}"; }
        c.pay += s; };
    g_gui.heat = [&c](const char* l, const float* v, int rows, int cols) { std::vector<float> Y(v, v + rows * cols); mrt::Ignore ig; c.shown = true; long i = atol(l + 3); std::string s = (c.pay.empty() ? "" : ",") + std::string("{\"i\":") + std::to_string(i + 1) + ",\"y\":[";
        for (int q = 0; q < rows; ++q) { std::vector<long> b; for (int k = 0; k < cols; ++k) b.push_back(cdb(Y[q * cols + k])); s += (q ? "," : "") + arr(b); } c.pay += s + "]}"; };
}
static void render(Case& c) {
    { mrt::Ignore ig; c.shown = false; c.pay.clear(); g_gui.depth = g_gui.plots = 0; E("rb").done(); }
    bool vis; { mrt::Ignore ig; vis = g_gui.visible(); g_gui.visible = [vis] { return vis; }; }
    if (c.ts) c.ts->render(); else if (c.fs) c.fs->render(); else c.gs->render();
    mrt::Ignore ig; E("re").t("shown", c.shown).t("vis", vis).t("bal", g_gui.depth == 0 && g_gui.plots == 0).raw("lines", "[" + c.pay + "]").done(); }
static void head(long id, Case& c, bool conc) { E("reset").i("id", id).s("kind", c.kind).i("n", c.n).i("win", c.win).i("nfft", c.nfft).i("tall", c.tall).i("sps", c.sps).i("wt", c.wt).t("conc", conc).done(); }
static size_t amount(Case& c, Rng& r, size_t i, int prof) { size_t s = c.space(i); switch (prof) { case 0: return s; case 1: return 1 + r.below(2 * c.win + 4); case 2: return 1 + r.below(8); default: return r.chance(0.3) ? s : r.below(s + 1); } }
static void seq(long id) {
#ifndef MRT
    g_nomap = g_mode == "nomap";
#endif
    Rng r(g_seed * 7919 + id); auto cp = std::make_unique<Case>(); Case& c = *cp; mk(c, r, false); head(id, c, false); Rng gr(r.next()); hooks(c, gr, 0.1); auto vis0 = g_gui.visible; int prof = (int)r.below(4), ops = 12 + (int)r.below(30); double skew = 0.2 * r.below(4); if (c.sp && c.nfft > 100) ops = 12;
    for (int k = 0; k < ops; ++k) { int w = (int)r.below(5); 
        if (w < 2) for (size_t i = 0; i < c.n; ++i) { if (!r.chance(skew)) feed(c, i, amount(c, r, i, r.chance(0.8) ? prof : 3), (int)r.below(3)); }
        else if (w < 4 || r.chance(0.3)) { int n = c.gs ? 1 + (int)r.below(4) : 1; while (n--) call(c); }
        else { g_gui.visible = vis0; render(c); } }
    g_gui.visible = vis0; render(c); c.press = false; cp.reset(); E("end").done(); }
#ifdef MRT
static void conc(long id) {
    Rng r(g_seed * 7919 + id); mrt::Opt o; static const double ps[] = {0.005, 0.03, 0.15}; o.seed = r.next(); o.pswitch = ps[r.below(3)]; o.max_points = 3000000; auto cp = std::make_unique<Case>(); Case& c = *cp; mk(c, r, true); head(id, c, true); Rng gr(r.next()), fr(r.next()); hooks(c, gr, 0.08); auto vis0 = g_gui.visible;
    int prof = 1 + (int)r.below(2), calls = 6 + (int)r.below(12), frames = 4 + (int)r.below(8); bool quit = false; mrt::begin(o);
    int g = mrt::spawn([&] { for (int k = 0; k < calls; ++k) { for (size_t i = 0; i < c.n; ++i) { size_t n; int how; { mrt::Ignore ig; n = amount(c, fr, i, fr.chance(0.8) ? prof : 1); if (fr.chance(0.1)) n = c.space(i); how = 1 + (int)fr.below(2); } feed(c, i, n, how); } call(c); mrt::yield(); } { mrt::Ignore ig; quit = true; } });
    for (int k = 0; k < frames; ++k) { { mrt::Ignore ig; g_gui.visible = vis0; } render(c); mrt::yield(); }
    mrt::join(g); render(c); mrt::end(); cp.reset(); E("end").done(); }
#endif
int main(int c, char** v) {
    if (c < 6) return 2; g_mode = v[1]; g_seed = atoll(v[5]);
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) {
#ifdef MRT
        conc(id);
#else
        seq(id);
#endif
    }, 40); }
