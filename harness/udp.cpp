// Datagram blocks on real sockets, with the socket calls of the blocks interposed (C17).
// usage: udp MODE OUT FIRST N SEED    MODE: source | sink | addr | graph (with -DMRT)
#include "blk.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include "desktop_blocks/udp/source_udp.hpp"
#include "desktop_blocks/udp/sink_udp.hpp"
#include <dlfcn.h>
#include <poll.h>
#include <fcntl.h>
#include <dirent.h>
#ifdef MRT
#include "mrt.hpp"
#else
namespace mrt { struct Ignore { Ignore() {} }; }
#endif
static uint64_t g_seed;
static int g_bound = -1;                 // last descriptor bound by the code under test
static bool g_arm = false;               // calls below come from the code under test
static std::deque<int> g_faults;         // per socket call: 0 none, else errno to fail with
static std::function<void()> g_after;     // empty the peer after every send, so that none waits
template <class F> static F real(const char* n) { static F f = (F)dlsym(RTLD_NEXT, n); return f; }
static int fault(const char* what) { if (!g_arm || g_faults.empty()) return 0; int e = g_faults.front(); g_faults.pop_front(); if (!e) return 0;
    { mrt::Ignore ig; E("fault").s("what", what).t("hard", e != EINTR && e != EAGAIN).done(); } errno = e; return -1; }
static int nowait(int fd, int flags) { // would this receive wait for ever?
    if (!g_arm || (flags & MSG_DONTWAIT)) return 0; int fl = fcntl(fd, F_GETFL); if (fl >= 0 && (fl & O_NONBLOCK)) return 0;
    pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, 0) > 0) return 0; timeval tv{}; socklen_t l = sizeof tv; getsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, &l);
    if (!tv.tv_sec && !tv.tv_usec) { mrt::Ignore ig; E("blocked").done(); } errno = EAGAIN; return -1; }
extern "C" ssize_t recvmsg(int fd, msghdr* m, int fl) { if (fault("recv") || nowait(fd, fl)) return -1; return real<ssize_t (*)(int, msghdr*, int)>("recvmsg")(fd, m, fl); }
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl) { if (fault("recv") || nowait(fd, fl)) return -1; return real<ssize_t (*)(int, void*, size_t, int)>("recv")(fd, b, n, fl); }
extern "C" ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) { if (fault("recv") || nowait(fd, fl)) return -1; return real<ssize_t (*)(int, void*, size_t, int, sockaddr*, socklen_t*)>("recvfrom")(fd, b, n, fl, a, l); }
extern "C" ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l) { if (fault("send")) return -1; auto k = real<ssize_t (*)(int, const void*, size_t, int, const sockaddr*, socklen_t)>("sendto")(fd, b, n, fl, a, l); if (g_arm && g_after) g_after(); return k; }
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) { if (fault("send")) return -1; auto k = real<ssize_t (*)(int, const void*, size_t, int)>("send")(fd, b, n, fl); if (g_arm && g_after) g_after(); return k; }
extern "C" ssize_t sendmsg(int fd, const msghdr* m, int fl) { if (fault("send")) return -1; auto k = real<ssize_t (*)(int, const msghdr*, int)>("sendmsg")(fd, m, fl); if (g_arm && g_after) g_after(); return k; }
static const char* g_sys = "none"; static bool g_fired = false; // a system call that fails while a block is built
extern "C" int socket(int d, int t, int p) { if (!strcmp(g_sys, "socket")) { g_fired = true; errno = EMFILE; return -1; } return real<int (*)(int, int, int)>("socket")(d, t, p); }
extern "C" int bind(int fd, const sockaddr* a, socklen_t l) { if (!strcmp(g_sys, "bind")) { g_fired = true; errno = EADDRINUSE; return -1; } int r = real<int (*)(int, const sockaddr*, socklen_t)>("bind")(fd, a, l); if (r == 0) g_bound = fd; return r; }

static void pat(int id, uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(i == 0 ? id : id * 7 + i * 13); }
static int len_of[256]; static bool bad_of[256];
static int idof(const uint8_t* p, size_t n) { std::vector<uint8_t> w(p, p + n); p = w.data(); mrt::Ignore ig; if (!n) return -1; int id = p[0]; if ((int)n != len_of[id]) return -2; for (size_t i = 1; i < n; ++i) if (p[i] != (uint8_t)(id * 7 + i * 13)) return -3; return id; }
template <size_t S> struct Raw { uint8_t b[S]; };
template <class T> struct Acc { static const uint8_t* p(const T& t) { return (const uint8_t*)&t; } static size_t n(const T&) { return sizeof(T); } static constexpr bool blob = false; };
template <> struct Acc<Blob> { static const uint8_t* p(const Blob& t) { return t.data; } static size_t n(const Blob& t) { return t.len; } static constexpr bool blob = true; };
template <class T> static int ident(const T& t) { return idof(Acc<T>::p(t), Acc<T>::n(t)); }
template <class T> static bool validate(const T& t, void*) { int d = ident(t); { mrt::Ignore ig; if (d < 0) E("val").i("d", d).done(); } mrt::Ignore ig; return d >= 0 ? !bad_of[d] : true; }
template <class T> static void cb(const T& t, void*) { mrt::Ignore ig; E("cb").i("d", ident(t)).done(); }
using UDPBlock::SocketType;
static SocketType fam(Rng& r, std::string& f) { static int has6 = -1; if (has6 < 0) { int s = socket(AF_INET6, SOCK_DGRAM, 0); sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; has6 = s >= 0 && ::bind(s, (sockaddr*)&a, sizeof a) == 0; if (s >= 0) close(s); }
    switch (r.below(4)) { case 0: f = "inet"; return SocketType::INET_UDP; case 1: if (has6) { f = "inet6"; return SocketType::INET6_UDP; } default: f = "unix"; return SocketType::UNIX_DGRAM; } }
struct Peer { // the harness's own end
    int fd = -1; SocketType ty; sockaddr_storage a{}; socklen_t al = 0; std::string path;
    ~Peer() { if (fd >= 0) close(fd); if (!path.empty()) unlink(path.c_str()); }
    void to(SocketType t, int bound) { ty = t; al = sizeof a; getsockname(bound, (sockaddr*)&a, &al); if (t == SocketType::INET_UDP) ((sockaddr_in*)&a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (t == SocketType::INET6_UDP) ((sockaddr_in6*)&a)->sin6_addr = in6addr_loopback; fd = socket(a.ss_family, SOCK_DGRAM, 0); }
    bool full() { uint32_t m[16] = {}; socklen_t l = sizeof m; if (ty == SocketType::UNIX_DGRAM || getsockopt(g_bound, SOL_SOCKET, SO_MEMINFO, m, &l) < 0) return false; return m[0] > m[1] / 2; } // the system would soon drop datagrams
    bool put(const uint8_t* p, size_t n) { if (full()) return false; return real<ssize_t (*)(int, const void*, size_t, int, const sockaddr*, socklen_t)>("sendto")(fd, p, n, MSG_DONTWAIT, (sockaddr*)&a, al) == (ssize_t)n; }
    std::string listen(SocketType t, const std::string& p) { ty = t; if (t == SocketType::UNIX_DGRAM) { fd = socket(AF_UNIX, SOCK_DGRAM, 0); sockaddr_un u{}; u.sun_family = AF_UNIX; strncpy(u.sun_path, p.c_str(), 100); unlink(p.c_str()); path = p; ::bind(fd, (sockaddr*)&u, sizeof u); return p; }
        if (t == SocketType::INET_UDP) { fd = socket(AF_INET, SOCK_DGRAM, 0); sockaddr_in u{}; u.sin_family = AF_INET; u.sin_addr.s_addr = htonl(INADDR_LOOPBACK); ::bind(fd, (sockaddr*)&u, sizeof u); socklen_t l = sizeof u; getsockname(fd, (sockaddr*)&u, &l); return "127.0.0.1:" + std::to_string(ntohs(u.sin_port)); }
        fd = socket(AF_INET6, SOCK_DGRAM, 0); sockaddr_in6 u{}; u.sin6_family = AF_INET6; u.sin6_addr = in6addr_loopback; ::bind(fd, (sockaddr*)&u, sizeof u); socklen_t l = sizeof u; getsockname(fd, (sockaddr*)&u, &l); return "::1:" + std::to_string(ntohs(u.sin6_port)); }
    std::vector<long> drain() { std::vector<long> v; uint8_t b[70000]; for (;;) { ssize_t n = real<ssize_t (*)(int, void*, size_t, int)>("recv")(fd, b, sizeof b, MSG_DONTWAIT); if (n < 0) break; v.push_back(n == 0 ? 0 : idof(b, n)); } return v; }
};
static std::string upath(long id, char k) { return std::string("u") + k + std::to_string(getpid()) + "_" + std::to_string(id); }
static std::string recv_addr(SocketType t, const std::string& p) { return t == SocketType::UNIX_DGRAM ? p : t == SocketType::INET_UDP ? "127.0.0.1:0" : "::1:0"; }
static void plan(Rng& r, int prof) { g_faults.clear(); if (prof < 2) return; int n = 1 + (int)r.below(6); for (int i = 0; i < n; ++i) { int e = 0; if (i == n - 1) { if (prof == 2) e = r.chance(0.5) ? EINTR : EAGAIN; else { static const int es[] = {ENOMEM, ENOBUFS, EIO, ECONNREFUSED, EBADF, EINTR, EAGAIN}; e = es[r.below(7)]; } } g_faults.push_back(e); } }
// one datagram of a random class; returns class
static const char* make(Rng& r, int id, bool blob, size_t size, std::vector<uint8_t>& d, bool val) { mrt::Ignore ig;
    int k = (int)r.below(12); const char* c = "good"; size_t n = blob ? 1 + r.below(size) : size; if (blob && r.chance(0.2)) n = size; bad_of[id] = false;
    if (k == 0) { c = "empty"; n = 0; } else if (k == 1) { c = "big"; n = size + 1 + r.below(size + 9); } else if (k == 2 && !blob && size > 1) { c = "short"; n = 1 + r.below(size - 1); } else if (k <= 4 && val) { c = "bad"; bad_of[id] = true; }
    d.resize(n); pat(id, d.data(), n); len_of[id] = (int)n; return c; }

template <class T> static void source(long id, Rng& r, size_t size) {
    std::string f; SocketType ty = fam(r, f); constexpr bool B = Acc<T>::blob; bool val = r.chance(0.7), call = r.chance(0.7); size_t slots = 1 + r.below(12); int prof = (int)r.below(4); size_t oc = 1 + r.below(10); cler::Channel<T> out(oc);
    { E e("reset"); e.i("id", id).s("kind", "source").t("blob", B).i("size", size).i("slots", slots).i("ocap", out.space()).t("val", val).t("call", call).s("fam", f); e.done(); }
    auto b = std::make_unique<SourceUDPSocketBlock<T>>("s", ty, recv_addr(ty, upath(id, 's')), val ? &validate<T> : nullptr, call ? &cb<T> : nullptr, nullptr, size, slots);
    Peer p; p.to(ty, g_bound); Slab* slab = nullptr; std::deque<T> held; int next = 1; std::vector<uint8_t> d;
    auto proc = [&] { g_arm = true; Res z = b->procedure(&out); g_arm = false; g_faults.clear(); E("ret").s("res", ename(z)).i("on", out.size()).done(); };
    auto pull = [&](size_t k) { std::vector<long> v; for (size_t i = 0; i < k; ++i) { T t; out.pop(t); v.push_back(ident(t)); if constexpr (B) { slab = t.owner_slab; held.push_back(t); } } if (!v.empty()) E("got").a("v", v).done(); };
    auto rel = [&](size_t k) { if constexpr (B) { for (size_t i = 0; i < k; ++i) { size_t j = r.below(held.size()); T t = held[j]; held.erase(held.begin() + j); int x = ident(t); t.release(); E("rel").i("d", x).done(); } if (slab) E("avail").i("n", slab->available_slots()).done(); } };
    int ops = 15 + (int)r.below(50);
    for (int q = 0; q < ops && next < 240; ++q) {
        switch (r.below(6)) {
        case 0: case 1: { int n = 1 + (int)r.below(r.chance(0.3) ? 9 : 3); for (int i = 0; i < n && next < 240; ++i) { const char* c = make(r, next, B, size, d, val); if (p.put(d.data(), d.size())) { E("arrive").i("d", next).s("c", c).done(); ++next; } } break; }
        case 2: case 3: plan(r, prof); proc(); break;
        case 4: pull(r.below(out.size() + 1)); break;
        default: rel(held.empty() ? 0 : r.below(held.size() + 1)); }
    }
    for (int i = 0; i < 600; ++i) { size_t o = out.size(); pull(o); rel(held.size()); size_t c0 = vlog::count(); proc(); (void)c0; if (out.size() == 0 && i > next + 4) break; }
    pull(out.size()); rel(held.size()); b.reset(); if (ty == SocketType::UNIX_DGRAM) E("path").t("gone", access(upath(id, 's').c_str(), F_OK) != 0).done(); E("end").done();
}
template <class T> static void sink(long id, Rng& r, size_t size) {
    std::string f; SocketType ty = fam(r, f); constexpr bool B = Acc<T>::blob; bool call = r.chance(0.7); size_t slots = 1 + r.below(20), ic = 1 + r.below(12); int prof = (int)r.below(4);
    { E e("reset"); e.i("id", id).s("kind", "sink").t("blob", B).i("size", size).i("slots", slots).i("ocap", ic).t("val", false).t("call", call).s("fam", f); e.done(); }
    Peer p; std::string ad = p.listen(ty, upath(id, 'k')); auto b = std::make_unique<SinkUDPSocketBlock<T>>("s", ty, ad, call ? &cb<T> : nullptr, nullptr, ic); Slab slab(slots, size); int next = 1;
    int ops = 15 + (int)r.below(50); std::vector<long> rcv; g_after = [&] { for (long x : p.drain()) rcv.push_back(x); };
    auto proc = [&] { size_t n = b->in.size(); g_arm = true; Res z = b->procedure(); g_arm = false; g_faults.clear(); g_after(); auto v = rcv; rcv.clear(); E("sent").a("v", v).s("res", ename(z)).i("inn", b->in.size()).i("avail", B ? (long)slab.available_slots() : -1).done(); (void)n; };
    for (int q = 0; q < ops && next < 240; ++q) {
        if (r.chance(0.5)) { size_t k = r.below(b->in.space() + 1); std::vector<long> v; for (size_t i = 0; i < k && next < 240; ++i) { T t; if constexpr (B) { auto z = slab.take_slot(); if (z.is_err()) break; t = z.unwrap(); t.len = r.chance(0.2) ? size : 1 + r.below(size); len_of[next] = (int)t.len; pat(next, t.data, t.len); } else { len_of[next] = sizeof(T); pat(next, (uint8_t*)&t, sizeof(T)); } b->in.push(t); v.push_back(next++); } if (!v.empty()) E("feed").a("v", v).done(); }
        else { plan(r, prof); proc(); }
    }
    for (int i = 0; i < 300 && (b->in.size() || i < 2); ++i) proc();
    g_after = nullptr; E("end").done();
}
// addresses: those that name no endpoint are refused, and nothing stays open
static long fds() { long n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
static void addr(long id, Rng& r) {
    E("reset").i("id", id).s("kind", "addr").t("blob", false).i("size", 0).i("slots", 0).i("ocap", 0).t("val", false).t("call", false).s("fam", "").done();
    for (int q = 0; q < 12; ++q) {
        std::string f; SocketType ty = fam(r, f); bool snk = r.chance(0.5), host = true, colon = true; long port = 0, len = 0; std::string a, path;
        if (ty == SocketType::UNIX_DGRAM) { static const long L[] = {12, 40, 106, 107, 108, 109, 110, 200}; path = upath(id, 'a'); len = L[r.below(8)]; while ((long)path.size() < len) path += 'x'; len = (long)path.size(); a = path; }
        else { bool six = ty == SocketType::INET6_UDP; static const char* B4[] = {"localhost", "127.0.0", "256.1.1.1", "1.2.3.4.5", "::1"}; static const char* B6[] = {"localhost", "127.0.0.1", "1::2::3", "12345::1"};
            host = r.chance(0.7); a = host ? (six ? "::1" : r.chance(0.5) ? "127.0.0.1" : "10.1.2.255") : six ? B6[r.below(4)] : B4[r.below(5)]; if (!snk) { host = true; a = six ? "::1" : "127.0.0.1"; }
            static const long P[] = {0, 1, 80, 65535, 65536, 65537, 70000, 131072, -1, -65535, 99999}; port = snk ? P[r.below(11)] : r.chance(0.5) ? 0 : P[4 + r.below(7)]; int k = (int)r.below(10);
            if (k == 0) { colon = false; a = "127001"; } else if (k == 1) { port = 1000000; a += ":99999999999999"; } else if (k == 2) { port = -2; a += r.chance(0.3) ? ":" : r.chance(0.5) ? ":x1" : ":50x0"; } else a += ":" + std::to_string(port); }
        bool ok = true; long n0 = fds(); g_fired = false; g_sys = r.chance(0.15) ? (r.chance(0.5) ? "socket" : "bind") : "none";
        auto t = [&](auto make) { try { auto b = make(); } catch (const std::exception&) { ok = false; } };
        if (snk) t([&] { return std::make_unique<SinkUDPSocketBlock<Raw<12>>>("s", ty, a, nullptr, nullptr, 4); }); else t([&] { return std::make_unique<SourceUDPSocketBlock<Raw<12>>>("s", ty, a, nullptr, nullptr, nullptr, 12, 4); });
        g_sys = "none"; E("addr").s("fam", f).t("snk", snk).t("host", host).t("colon", colon).i("port", port).i("len", len).t("sys", g_fired).t("ok", ok).i("fds", fds() - n0).t("gone", path.empty() || access(path.c_str(), F_OK) != 0).done(); }
    E("end").done();
}
#ifdef MRT
// source -> sink in a running flowgraph, one shared pool
struct Probe : cler::BlockBase { cler::Channel<Blob> in; cler::ChannelBase<Blob>* spy = nullptr; Probe() : BlockBase("p"), in(8) {} 
    Res procedure(cler::ChannelBase<Blob>* out) { Blob b; if (!in.size()) return cler::Error::NotEnoughSamples; if (!out->space()) return cler::Error::NotEnoughSpace; in.pop(b); { mrt::Ignore ig; E("got").i("d", ident(b)).done(); } out->push(b); return cler::Empty{}; } };
static void graph(long id) {
    Rng r(g_seed * 7919 + id); mrt::Opt o; static const double ps[] = {0.03, 0.1, 0.4}; o.seed = r.next(); o.pswitch = ps[r.below(3)]; o.max_points = 1500000; size_t size = 8 + r.below(60), slots = 1 + r.below(8);
    std::string f; SocketType ty = fam(r, f); std::string f2; SocketType ty2 = fam(r, f2); bool val = r.chance(0.7); { E e("reset"); e.i("id", id).s("kind", "graph").t("blob", true).i("size", size).i("slots", slots).i("ocap", 8).t("val", val).t("call", true).s("fam", f); e.done(); }
    Peer sp; std::string ad = sp.listen(ty2, upath(id, 'k')); mrt::begin(o); { SourceUDPSocketBlock<Blob> src("src", ty, recv_addr(ty, upath(id, 's')), val ? &validate<Blob> : nullptr, &cb<Blob>, nullptr, size, slots); Peer p; p.to(ty, g_bound); Probe pr; SinkUDPSocketBlock<Blob> snk("snk", ty2, ad, nullptr, nullptr, 1 + r.below(6));
        auto g = cler::make_desktop_flowgraph(cler::BlockRunner(&src, &pr.in), cler::BlockRunner(&pr, &snk.in), cler::BlockRunner(&snk)); cler::FlowGraphConfig cfg; if (r.chance(0.4)) { cfg.scheduler = cler::SchedulerType::FixedThreadPool; cfg.num_workers = 2 + r.below(2); }
        std::vector<long> rcv; g_after = [&] { mrt::Ignore ig; for (long x : sp.drain()) rcv.push_back(x); }; g_arm = true; g.run(cfg); int next = 1; std::vector<uint8_t> d; int n = 4 + (int)r.below(30); std::vector<long> got; auto take = [&] { g_after(); mrt::Ignore ig; auto v = rcv; rcv.clear(); if (!v.empty()) E("out").a("v", v).done(); return v.size(); };
        size_t good = 0, rec = 0; for (int i = 0; i < n; ++i) { const char* c = make(r, next, true, size, d, val); bool okk = p.put(d.data(), d.size()); if (okk) { mrt::Ignore ig; E("arrive").i("d", next).s("c", c).done(); good += !strcmp(c, "good"); ++next; } if (r.chance(0.5)) { mrt::yield(); rec += take(); } }
        for (int i = 0; i < 30000 && rec < good; ++i) { mrt::yield(); rec += take(); }
        for (int i = 0; i < 50; ++i) mrt::yield(); rec += take(); g.stop(); g_arm = false; rec += take(); g_after = nullptr; }
    mrt::end(); E("end").done();
}
#endif
int main(int c, char** v) {
    if (c < 6) return 2; g_seed = atoll(v[5]); std::string m = v[1];
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) {
#ifdef MRT
        graph(id);
#else
        Rng r(g_seed * 7919 + id); memset(bad_of, 0, sizeof bad_of); int k = (int)r.below(6);
        if (m == "addr") addr(id, r); else if (m == "source") { if (k < 3) { static const size_t sz[] = {1, 4, 9, 64, 256, 1472}; source<Blob>(id, r, sz[r.below(6)]); } else if (k == 3) source<Raw<1>>(id, r, 1); else if (k == 4) source<Raw<12>>(id, r, 12); else source<Raw<700>>(id, r, 700); }
        else { if (k < 3) { static const size_t sz[] = {1, 4, 9, 64, 256, 1472}; sink<Blob>(id, r, sz[r.below(6)]); } else if (k == 3) sink<Raw<1>>(id, r, 1); else if (k == 4) sink<Raw<12>>(id, r, 12); else sink<Raw<700>>(id, r, 700); }
#endif
    }, 20);
}
