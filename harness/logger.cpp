// Drives the real desktop logger over real files in a scratch directory and records what was called and what the files hold.
#include <atomic>
#include <mutex>
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#ifdef MRT
#include "../rt/mrt.hpp"
#else
#include "../rt/vlog.hpp"
#endif
#define thread_local            // one OS thread carries all the fibres
#define ZF_LOG_LEVEL ZF_LOG_VERBOSE
#include "desktop_logger/desktop_logger.cpp"
#undef thread_local
using vlog::E; using vlog::Rng;
static time_t g_now = 1700000000;
extern "C" time_t time(time_t* t) { if (t) *t = g_now; return g_now; }
static int g_badsync = 0, g_badfd = 0;
#ifndef MRT
#include <stdarg.h>
#include <sys/syscall.h>
#include <cerrno>
// an operating system that fails when it is told to

extern "C" int fsync(int fd) { if (g_badsync) { g_badsync = 0; errno = EIO; return -1; } return (int)syscall(SYS_fsync, fd); }
extern "C" int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); if (g_badfd && cmd == F_GETFL) { g_badfd = 0; errno = EBADF; return -1; } return (int)syscall(SYS_fcntl, fd, cmd, x); }
#endif
static std::string root; static std::map<int, std::string> want, wantout; static bool isgone[10];
static std::string dir(int p) { return root + (isgone[p] ? "/g" : "/d") + std::to_string(p); }
static std::string path(int p) { return p == 9 ? root + "/none/log.txt" : root + "/d" + std::to_string(p) + "/log.txt"; }
static std::string rname(int r) { char b[300]; cler::logger_enum_to_cstr((cler::logger_retval_enum)r, b); return b; }
static std::vector<std::string> lines(const std::string& f) {
    std::vector<std::string> v; FILE* h = fopen(f.c_str(), "r"); if (!h) return v;
    std::string s; int c; while ((c = fgetc(h)) != EOF) { if (c == '\n') { v.push_back(s); s.clear(); } else s += (char)c; }
    if (!s.empty()) v.push_back(s + "<no newline>");
    fclose(h); return v;
}
static int idof(const std::string& l, std::map<int, std::string>& w) {
    size_t k = l.find("#"); if (k == std::string::npos) return -1; int id = atoi(l.c_str() + k + 1);
    auto it = w.find(id); return it != w.end() && it->second == l ? id : -1;
}
static void files(const char* ev) {
    fflush(stdout); std::string j = "["; bool any = false;
    for (int p = 1; p <= 3; ++p) {
        DIR* d = opendir(dir(p).c_str()); if (!d) continue;
        while (dirent* e = readdir(d)) {
            std::string nm = e->d_name; if (nm[0] == '.') continue;
            int n = nm == "log.txt" ? 0 : nm.compare(0, 8, "log.txt.") == 0 ? atoi(nm.c_str() + 8) : 99;
            j += std::string(any ? "," : "") + "{\"p\":" + std::to_string(p) + ",\"n\":" + std::to_string(n) + ",\"l\":["; any = true; bool f = true;
            struct stat st; if (stat((dir(p) + "/" + nm).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) j += "[0,-1]";
            else for (auto& l : lines(dir(p) + "/" + nm)) { j += std::string(f ? "" : ",") + "[" + std::to_string(idof(l, want)) + "," + std::to_string(l.size() + 1) + "]"; f = false; }
            j += "]}";
        }
        closedir(d);
    }
    j += "]"; std::vector<long long> o; for (auto& l : lines(root + "/out")) o.push_back(idof(l, wantout));
    int fds = 0; DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) { char b[600]; ssize_t k = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, 599); if (k > 0) { b[k] = 0; if (strstr(b, (root + "/").c_str()) && strstr(b, "log.txt")) ++fds; } }
    closedir(d); E(ev).raw("fs", j).ints("out", o).i("fds", fds).done();
}
static void wipe(const std::string& d) {
    DIR* h = opendir(d.c_str()); if (!h) return;
    while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n;
        struct stat st; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(f); else unlink(f.c_str()); }
    closedir(h); rmdir(d.c_str());
}
static std::string stamp() { char b[64]; struct tm t; localtime_r(&g_now, &t); strftime(b, 64, "%Y-%m-%d %H:%M:%S", &t); return b; }
static std::string prep(Rng& r, int id, int lvl, int* bytes) {
    static const char* L = "?vdIWEF"; static const char* C[] = {"", "\x1b[32m", "\x1b[34m", "\x1b[37m", "\x1b[33m", "\x1b[31m", "\x1b[31;1m"};
    std::string m = "#" + std::to_string(id) + ";"; int n = r.chance(0.3) ? r.range(0, 10) : r.range(50, 300);
    for (int i = 0; i < n; ++i) m += (char)('a' + r.below(26));
    if (r.chance(0.1)) m += "%s%d";
    std::string l = "[" + stamp() + "] [" + L[lvl] + "] " + m;
    want[id] = l; wantout[id] = C[lvl] + l + "\x1b[0m"; *bytes = (int)l.size() + 1; return m;
}
static void say(int lvl, const char* m) {
    switch (lvl) { case 1: ZF_LOGV("%s", m); break; case 2: ZF_LOGD("%s", m); break; case 3: ZF_LOGI("%s", m); break;
                   case 4: ZF_LOGW("%s", m); break; case 5: ZF_LOGE("%s", m); break; default: ZF_LOGF("%s", m); }
}
static int blocked = 0;
static void rot(Rng& r, bool conc) {
    if (!conc && r.chance(0.08)) { cler::enable_log_rotation(); E("rot").i("size", 10485760).i("n", 5).done(); return; }
    static const int S[] = {0, 100, 1023, 1024, 1100, 1300, 1700, 2500}, N[] = {-3, 0, 1, 1, 2, 2, 3, 4, 6};
    int s = S[r.below(8)], n = N[r.below(9)]; if (blocked && r.chance(0.7)) n = blocked; cler::enable_log_rotation((size_t)s, n); E("rot").i("size", s).i("n", n).done();
}
static void begin(bool conc, long id) {
    char t[] = "/tmp/cler-log-XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(3); }
    root = t; for (int p = 1; p <= 3; ++p) mkdir(dir(p).c_str(), 0700);
    int fd = open((root + "/out").c_str(), O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0600); fflush(stdout); dup2(fd, 1); close(fd);
    E("reset").i("id", id).t("conc", conc).done();
}
static void seq(long id, uint64_t seed) {
    Rng r(seed * 1000003 + id), rv(seed * 7717 + id); begin(false, id); int next = 1, pre = 9000;
    if (r.chance(0.35)) for (int k = r.range(1, 4); k-- > 0;) {               // files left by an earlier run
        int p = r.range(1, 2), n = r.range(0, 3); std::string f = dir(p) + "/log.txt" + (n ? "." + std::to_string(n) : ""); struct stat st; if (stat(f.c_str(), &st) == 0) continue;
        FILE* h = fopen(f.c_str(), "w"); std::string j = "["; for (int q = r.range(0, 6), i = 0; i < q; ++i) { int b, m = pre++; prep(r, m, 3, &b); fprintf(h, "%s\n", want[m].c_str()); j += std::string(i ? "," : "") + "[" + std::to_string(m) + "," + std::to_string(b) + "]"; }
        fclose(h); E("pre").i("p", p).i("n", n).raw("l", j + "]").done();
    }
    if (r.chance(0.25)) { int p = r.chance(0.8) ? 1 : 2, n = r.range(1, 3); std::string f = dir(p) + "/log.txt." + std::to_string(n); struct stat st;
        if (stat(f.c_str(), &st) != 0) { mkdir(f.c_str(), 0700); mkdir((f + "/x").c_str(), 0700); blocked = n; E("blk").i("p", p).i("n", n).done(); } }
    static const int P[] = {0, 1, 1, 1, 2, 9}; bool begun = false; int nops = r.range(15, 90);
    for (int i = 0; i < nops; ++i) {
        double x = (double)r.below(1000) / 1000.0; g_now += r.below(3) ? 0 : r.below(5000);
        if (!begun && (x < 0.5 || i > 6)) { int p = P[r.below(6)]; auto v = cler::start_logging(p ? path(p).c_str() : nullptr); E("start").i("p", p).s("r", rname(v)).done(); begun = true; if (r.chance(0.7)) rot(r, false); }
        else if (x < 0.02) { int p = P[r.below(6)]; auto v = cler::start_logging(p ? path(p).c_str() : nullptr); E("start").i("p", p).s("r", rname(v)).done(); begun = true; }
        else if (x < 0.07) { int p = P[r.below(6)]; auto v = cler::reset_logfile(p ? path(p).c_str() : nullptr); E("resetf").i("p", p).s("r", rname(v)).done(); }
        else if (x < 0.09) { int bad = rv.chance(0.7) ? 0 : 1 + (int)rv.below(2); g_badsync = bad == 1; g_badfd = bad == 2; auto v = cler::verify_logfile(); g_badsync = g_badfd = 0; E("verify").s("r", rname(v)).s("bad", bad == 1 ? "sync" : bad == 2 ? "fd" : "").done(); }
        else if (x < 0.10) { cler::close_log_file(); E("close").done(); }
        else if (x < 0.13) rot(r, false);
        else if (x < 0.14) { cler::disable_log_rotation(); E("norot").done(); }
        else if (x < 0.16) { int l = r.range(1, 6); cler::set_log_level(l); E("level").i("l", l).done(); }
        else if (x < 0.165) { int p = r.range(1, 2); if (!isgone[p]) { rename(dir(p).c_str(), (root + "/g" + std::to_string(p)).c_str()); isgone[p] = true; E("gone").i("p", p).done(); } }
        else if (x < 0.22) files("files");
        else { int m = next++, l = r.range(1, 6), b; std::string t = prep(r, m, l, &b); say(l, t.c_str()); E("lb").i("m", m).i("lvl", l).i("bytes", b).done(); }
    }
    if (r.chance(0.6)) { auto v = cler::reset_logfile(path(3).c_str()); E("resetf").i("p", 3).s("r", rname(v)).done(); }
    if (r.chance(0.5)) { cler::close_log_file(); E("close").done(); }
    files("files"); wipe(root);
}
#ifdef MRT
static void conc(long id, uint64_t seed) {
    using namespace mrt; Rng r(seed * 1000003 + id); begin(true, id);
    Opt o; o.seed = seed * 77 + id; o.pswitch = 0.05 + 0.5 * (double)r.below(100) / 100.0; o.max_points = 2000000;
    mrt::begin(o);
    std::string p1, p2, p3; { Ignore ig; p1 = path(1); p2 = path(2); p3 = path(3); }
    const char *c1 = p1.c_str(), *c2 = p2.c_str(), *c3 = p3.c_str();
    auto st = [&](int p, const char* c) { return spawn([=] { auto v = cler::start_logging(c); Ignore ig; E("start").i("p", p).s("r", rname(v)).done(); }); };
    bool early = r.chance(0.5);
    int a = st(1, c1), b = st(2, c2), e = -1;
    if (early) e = spawn([=] { auto v = cler::reset_logfile(c3); Ignore ig; E("early").i("p", 3).s("r", rname(v)).done(); });
    join(a); join(b); if (e >= 0) join(e);
    { auto v = cler::reset_logfile(c1); Ignore ig; E("resetf").i("p", 1).s("r", rname(v)).done(); E("started").done(); }
    if (r.chance(0.8)) rot(r, true);
    int nt = r.range(2, 4), kind = r.range(0, 3); std::vector<int> ts; int next = 1;
    struct M { int id, lvl, bytes; std::string t; };
    for (int k = 0; k < nt; ++k) {
        auto* v = new std::vector<M>; for (int i = r.range(2, 9); i-- > 0;) { M m; m.id = next++; m.lvl = r.range(1, 6); m.t = prep(r, m.id, m.lvl, &m.bytes); v->push_back(m); }
        ts.push_back(spawn([v] { for (auto& m : *v) { { Ignore ig; E("lb").i("m", m.id).i("lvl", m.lvl).i("bytes", m.bytes).done(); } say(m.lvl, m.t.c_str()); { Ignore ig; E("le").i("m", m.id).done(); } } }));
    }
    if (kind == 1) ts.push_back(spawn([=] { for (int i = 0; i < 3; ++i) mrt::yield(); auto v = cler::reset_logfile(c2); Ignore ig; E("resetf").i("p", 2).s("r", rname(v)).done(); }));
    if (kind == 2) ts.push_back(spawn([=] { for (int i = 0; i < 6; ++i) mrt::yield(); { Ignore ig; E("cb").done(); } cler::close_log_file(); Ignore ig; E("ce").done(); }));
    if (kind == 3) ts.push_back(spawn([=] { for (int i = 0; i < 3; ++i) { auto v = cler::verify_logfile(); Ignore ig; E("verify").s("r", rname(v)).s("bad", "").done(); } }));
    for (int t : ts) join(t);
    if (kind != 2) { { Ignore ig; E("cb").done(); } cler::close_log_file(); { Ignore ig; E("ce").done(); } }
    mrt::end(); files("files"); wipe(root);
}
#endif
int main(int argc, char** argv) {
    if (argc < 5) return 3;
    std::string mode = argv[1]; long first = atol(argv[3]), n = atol(argv[4]); uint64_t seed = argc > 5 ? strtoull(argv[5], nullptr, 10) : 1;
    return vlog::run_isolated(argv[2], first, n, [&](long id) {
#ifdef MRT
        conc(id, seed);
#else
        seq(id, seed);
#endif
    }, 40, 1);
}
