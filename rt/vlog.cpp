#include "vlog.hpp"
#include <cstdlib>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
namespace vlog {
struct Rec { std::string b, d; };
static std::vector<Rec>& L() { static auto* v = new std::vector<Rec>; return *v; }
static int g_fd = -1;
static volatile long* g_prog = nullptr;   // shared: index currently running (+1 when finished)
int add(const std::string& b) { L().push_back({b, ""}); return (int)L().size() - 1; }
int add_pending(const std::string& b, const std::string& d) { L().push_back({b, d}); return (int)L().size() - 1; }
void patch(int idx, const std::string& x) { L()[idx].b += x; L()[idx].d.clear(); }
size_t count() { return L().size(); }
static void wr(const char* p, size_t n) { while (n) { ssize_t k = ::write(g_fd, p, n); if (k <= 0) return; p += k; n -= k; } }
void flush_trace() {
    if (g_fd < 0) { for (auto& s : L()) printf("{%s%s}\n", s.b.c_str(), s.d.c_str()); fflush(stdout); L().clear(); return; }
    std::string o; for (auto& s : L()) { o += "{"; o += s.b; o += s.d; o += "}\n"; }
    wr(o.data(), o.size()); L().clear();
}
void die(const char* ev) { add(std::string("\"e\":\"") + ev + "\""); flush_trace(); _exit(99); }
static void onsig(int s) {
    char buf[96]; int n = snprintf(buf, sizeof buf, "{\"e\":\"%s\",\"sig\":%d}\n", s == SIGALRM ? "hang" : "crash", s);
    for (auto& x : L()) { wr("{", 1); wr(x.b.data(), x.b.size()); wr(x.d.data(), x.d.size()); wr("}\n", 2); }
    wr(buf, n); _exit(99);
}
static void install() {
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) {
        struct sigaction sa{}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
}
int run_isolated(const char* out, long first, long n, const std::function<void(long)>& fn, int tmo, long per_child) {
    g_fd = ::open(out, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (g_fd < 0) { perror(out); return 2; }
    g_prog = (volatile long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long i = first; int crashes = 0; bool quiet = !getenv("VLOG_STDERR");
    while (i < first + n) {
        *g_prog = i;
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) {
            if (quiet) { int nul = ::open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1); }
            install();
            for (long k = 0; i < first + n && k < per_child; ++i, ++k) { *g_prog = i; alarm(tmo); fn(i); alarm(0); flush_trace(); *g_prog = i + 1; }
            _exit(0);
        }
        int st; while (waitpid(p, &st, 0) < 0) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { i = *g_prog; continue; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 99)) { // died without a log
            char b[64]; int k = snprintf(b, sizeof b, "{\"e\":\"crash\",\"sig\":%d}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)); wr(b, k); }
        ++crashes; i = *g_prog + 1;
        if (crashes > 20) break;
    }
    return 0;
}
E::E(const char* name) { b = "\"e\":\""; b += name; b += "\""; }
E::~E() {}
E& E::key(const char* k) { b += ",\""; b += k; b += "\":"; return *this; }
E& E::i(const char* k, long long v) { key(k); b += std::to_string(v); return *this; }
E& E::t(const char* k, bool v) { key(k); b += v ? "true" : "false"; return *this; }
E& E::s(const char* k, const std::string& v) { key(k); b += "\"" + v + "\""; return *this; }
E& E::raw(const char* k, const std::string& v) { key(k); b += v; return *this; }
E& E::ints(const char* k, const std::vector<long long>& v) { key(k); b += "["; for (size_t i = 0; i < v.size(); ++i) { if (i) b += ","; b += std::to_string(v[i]); } b += "]"; return *this; }
E& E::strs(const char* k, const std::vector<std::string>& v) { key(k); b += "["; for (size_t i = 0; i < v.size(); ++i) { if (i) b += ","; b += "\"" + v[i] + "\""; } b += "]"; return *this; }
int E::done() { return add(b); }
}
