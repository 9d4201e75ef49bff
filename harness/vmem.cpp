// Buffer memory under injected OS faults (C05).  usage: vmem MODE OUT FIRST N SEED
//  MODE chan: channels of many element types;  obj: DoublyMappedAllocation used directly
//  built with -DMRT: conc (two tasks construct channels at the same time in a fresh process)
#include "fifo_ops.hpp"
#include <set>
#include <map>
#include <memory>
#include <dirent.h>
#include <cstdarg>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#ifdef MRT
#include "mrt.hpp"
#endif
static uint64_t g_seed; static std::string g_mode;

// ------------------------------------------------------------------ lifetime-counting elements
struct Life { std::set<const void*> live; long bad = 0; };
static Life g_life;
struct Counted { // non-trivial everywhere
    long v; long pad = 0x5151;
    Counted() noexcept : v(-5) { if (!g_life.live.insert(this).second) g_life.bad++; }
    Counted(long x) noexcept : v(x) { if (!g_life.live.insert(this).second) g_life.bad++; }
    Counted(const Counted& o) noexcept : v(o.v) { o.chk(); if (!g_life.live.insert(this).second) g_life.bad++; }
    Counted& operator=(const Counted& o) noexcept { chk(); o.chk(); v = o.v; return *this; }
    ~Counted() { if (!g_life.live.erase(this)) g_life.bad++; }
    void chk() const { if (!g_life.live.count(this)) g_life.bad++; }
};
struct Magic { // trivially copyable, but must be constructed
    unsigned a = 0xC0FFEE01u; unsigned b = 7;
};
template <> struct Codec<Counted> {
    static constexpr long vm = 1000003; static constexpr bool batch = false;
    static Counted enc(long i) { return Counted(i % vm); }
    static long dec(const Counted& c) { c.chk(); return c.v; }
    static Counted junk(long) { return Counted(-9); }
};
template <> struct Codec<Magic> {
    static constexpr long vm = 1000003; static constexpr bool batch = true;
    static Magic enc(long i) { Magic m; m.a = (unsigned)(i % vm); m.b = m.a * 3 + 1; return m; }
    static long dec(const Magic& m) { return m.b == m.a * 3 + 1 ? (long)m.a : -1; }
    static Magic junk(long) { return Magic(); }
};
template <class T> static bool fresh(const T&) { return true; }
template <> bool fresh<Counted>(const Counted& c) { return g_life.live.count(&c) && c.v == -5; }
template <> bool fresh<Magic>(const Magic& m) { return m.a == 0xC0FFEE01u && m.b == 7; }
template <> bool fresh<std::string>(const std::string& s) { return s.empty(); }

#ifndef MRT
// ------------------------------------------------------------------ system call log and faults
struct Region { int id; char* base; size_t len; };
static bool g_track = false; static int g_nreg = 0; static std::vector<Region>* g_reg;
static long g_call = 0; static std::set<long> g_fail; static long g_from = -1; static std::set<std::string> g_kinds; static bool g_hugeok = false;
struct Pause { bool s; Pause() : s(g_track) { g_track = false; } ~Pause() { g_track = s; } };
static bool faulty(const char* kind) { long n = g_call++; return g_fail.count(n) || (g_from >= 0 && n >= g_from) || g_kinds.count(kind); }
static long pg(size_t n) { return (long)((n + 4095) / 4096); }
static void sys(const char* c, bool ok, int fd, int r, long off, long n, long fo) {
    E("sys").s("c", c).i("ok", ok).i("fd", fd).i("r", r).i("off", off).i("n", n).i("fo", fo).done(); }
// the newest first: a region given back in pieces stays in the list, and its addresses may have been handed out again
static Region* find(void* p) { for (size_t i = g_reg->size(); i-- > 0;) { Region& r = (*g_reg)[i]; if ((char*)p >= r.base && (char*)p < r.base + r.len) return &r; } return nullptr; }
extern "C" void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!g_track) return (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
    Pause z; bool fixed = flags & MAP_FIXED, huge = flags & MAP_HUGETLB;
    const char* c = fixed ? "map" : "reserve";
    Region* R = fixed ? find(addr) : nullptr; int rid = R ? R->id : -1; long o = R ? (long)((char*)addr - R->base) / 4096 : 0;
    if (!fixed && fd >= 0) rid = -2;
    if (faulty(fixed ? "fixed" : huge ? "hugetlb" : "reserve")) { errno = ENOMEM; sys(c, false, fd, rid, o, pg(len), 0); return MAP_FAILED; }
    void* p = (void*)syscall(SYS_mmap, addr, len, prot, huge && g_hugeok ? (flags & ~(MAP_HUGETLB | (0x3f << 26))) : flags, fd, off);
    if (p == MAP_FAILED) { int e = errno; sys(c, false, fd, rid, o, pg(len), 0); errno = e; return p; }
    if (!fixed) { rid = ++g_nreg; g_reg->push_back({rid, (char*)p, (size_t)pg(len) * 4096});
        if (fd >= 0) { sys("reserve", true, -1, rid, 0, pg(len), 0); sys("map", true, fd, rid, 0, pg(len), off / 4096); return p; } }
    sys(c, true, fd, rid, o, pg(len), off / 4096); return p;
}
extern "C" int munmap(void* p, size_t len) {
    if (!g_track) return (int)syscall(SYS_munmap, p, len);
    Pause z; Region* R = find(p);
    int rc = (int)syscall(SYS_munmap, p, len); int e = errno;
    sys("unmap", rc == 0, -1, R ? R->id : -1, R ? (long)((char*)p - R->base) / 4096 : 0, pg(len), 0);
    if (rc == 0 && R && p == R->base && pg(len) * 4096 == (long)R->len) g_reg->erase(g_reg->begin() + (R - g_reg->data()));
    errno = e; return rc;
}
extern "C" int ftruncate(int fd, off_t n) noexcept {
    if (!g_track) return (int)syscall(SYS_ftruncate, fd, n);
    Pause z; if (faulty("trunc")) { errno = ENOSPC; sys("trunc", false, fd, 0, 0, pg(n), 0); return -1; }
    int rc = (int)syscall(SYS_ftruncate, fd, n); sys("trunc", rc == 0, fd, 0, 0, pg(n), 0); return rc;
}
extern "C" int close(int fd) {
    if (!g_track) return (int)syscall(SYS_close, fd);
    Pause z; int rc = (int)syscall(SYS_close, fd); int e = errno; sys("close", rc == 0, fd, 0, 0, 0, 0); errno = e; return rc;
}
static int opened(const char* kind, const std::function<int()>& f) {
    Pause z; if (faulty(kind)) { errno = kind[0] == 'm' ? ENOSYS : EMFILE; sys("open", false, -1, 0, 0, 0, 0); return -1; }
    int fd = f(); sys("open", fd >= 0, fd, 0, 0, 0, 0); return fd;
}
extern "C" int shm_open(const char* n, int fl, mode_t m) {
    static auto real = (int (*)(const char*, int, mode_t))dlsym(RTLD_NEXT, "shm_open");
    if (!g_track) return real(n, fl, m);
    return opened("shm", [&] { return real(n, fl, m); });
}
extern "C" int shm_unlink(const char* n) {
    static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "shm_unlink");
    Pause z; int rc = real(n); if (z.s) sys("unlink", rc == 0, -1, 0, 0, 0, 0); return rc;
}
extern "C" int memfd_create(const char* n, unsigned fl) noexcept {
    auto f = [&] { return (int)syscall(SYS_memfd_create, n, fl); };
    return g_track ? opened("memfd", f) : f();
}
extern "C" long syscall(long nr, ...) noexcept {
    va_list ap; va_start(ap, nr); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
    auto raw = [&]() -> long {
        register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5]; long ret;
        asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; } return ret; };
    if (g_track && nr == SYS_memfd_create) return opened("memfd", [&] { return (int)raw(); });
    return raw();
}
static long nfds() { Pause z; long n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static long base_fds, base_shm;
static long nshm() { long n = 0; DIR* d = opendir("/dev/shm"); if (!d) return 0; while (auto* e = readdir(d)) if (!strncmp(e->d_name, ("cler_" + std::to_string(getpid()) + "_").c_str(), 5 + std::to_string(getpid()).size() + 1) || (!strncmp(e->d_name, "cler_dbuf_", 10) && !strncmp(e->d_name + 10, std::to_string(getpid()).c_str(), std::to_string(getpid()).size()))) ++n; closedir(d); return n; }

// ------------------------------------------------------------------ fault plans
static std::string plan(long k) {
    const long N = 12; g_fail.clear(); g_from = -1; g_kinds.clear(); g_hugeok = false; g_call = 0;
    if (k == 0) return "none";
    --k; if (k < 7) { static const char* ks[] = {"memfd", "shm", "trunc", "reserve", "hugetlb", "fixed", "hugeok"};
        if (k == 6) g_hugeok = true; else { g_kinds.insert(ks[k]); if (k == 1) g_kinds.insert("memfd"); } return ks[k]; }
    k -= 7; if (k < N) { g_fail = {k}; return "one" + std::to_string(k); }
    k -= N; if (k < N) { g_from = k; return "from" + std::to_string(k); }
    k -= N; for (long a = 0; a < N; ++a) for (long b = a + 1; b < N; ++b) if (k-- == 0) { g_fail = {a, b}; return "two" + std::to_string(a) + "-" + std::to_string(b); }
    return "";
}
static const long NPLANS = 1 + 7 + 12 + 12 + 66;

static int g_objs = 0;
static void life() { E("life").i("live", (long)g_life.live.size()).i("objs", g_objs).i("bad", g_life.bad).i("fds", nfds() - base_fds).i("shm", nshm() - base_shm).done(); }
template <class Q, class T> static void exercise(Q& q, long cap, Rng& r) {
    Side<Q, T> w(q, false, "w"), rd(q, false, "r"); bool d = q.is_doubly_mapped(); const long INF = 1L << 60;
    for (int round = 0; round < 3; ++round) {
        for (int g = 0; g < 60 && w.wr - rd.rd < cap; ++g) { long left = cap - (w.wr - rd.rd), c = left < 4 || r.chance(0.4) ? left : r.range(1, left);
            int o = (int)r.below(4); if (o == 0 && !Codec<T>::batch) o = 2; if (o == 3 && !d) o = 2;
            if (o == 0) w.wop(W_WRITEN, c, r, INF); else if (o == 1) w.wop(W_TRYPUSH, 1, r, INF); else w.wop(o == 2 ? W_PEEK : W_DBF, 0, r, INF); }
        w.wop(W_SPACE, 0, r, INF);
        for (int g = 0; g < 60 && rd.rd < w.wr; ++g) { long left = w.wr - rd.rd, c = left < 4 || r.chance(0.4) ? left : r.range(1, left); if (round < 2 && left < cap / 3) break;
            int o = (int)r.below(4); if (o == 0 && !Codec<T>::batch) o = 2; if (o == 3 && !d) o = 2;
            if (o == 0) rd.rop(R_READN, c, r, 0); else if (o == 1) rd.rop(R_TRYPOP, 1, r, 0); else rd.rop(o == 2 ? R_PEEK : R_DBF, 0, r, 0); }
    }
}
template <class Q, class T> static std::unique_ptr<Q> make(int id, long req, bool heap) {
    std::unique_ptr<Q> q; g_track = true;
    if (heap) q.reset(new Q(req)); else q.reset(new Q());
    g_track = false; ++g_objs;
    bool dm = q->is_doubly_mapped(); long cap = (long)q->space(); int rid = 0; long pages = 0, rem = 0; bool second = true, init = true;
    T *p1, *p2; size_t s1, s2; q->peek_write(p1, s1, p2, s2);
    for (size_t i = 0; i < s1; ++i) init &= fresh(p1[i]); for (size_t i = 0; i < s2; ++i) init &= fresh(p2[i]);
    if (dm) { size_t bytes = (cap + 1) * sizeof(T); char* b = (char*)p1; Region* R = find(b); rid = R ? R->id : -1; pages = bytes / 4096; rem = bytes % 4096;
        if (R && rem == 0) for (size_t o = 0; o < bytes; o += 4096) { char sv = b[o]; b[o] = (char)(sv ^ 0x5A); second &= b[bytes + o] == (char)(sv ^ 0x5A); b[o] = sv; } }
    E("made").i("id", id).i("r", rid).t("dm", dm).i("pages", pages).i("rem", rem).t("second", second).t("init", init).i("req", req).i("cap", cap).i("vm", Codec<T>::vm).done();
    return q;
}
template <class Q> static void gone(std::unique_ptr<Q>& q, int id) { g_track = true; q.reset(); g_track = false; --g_objs; E("gone").i("id", id).done(); }
template <class T, size_t N = 0> static void chan(long req, Rng& r) {
    typedef dro::SPSCQueue<T, N> Q; bool heap = N == 0; if (!heap) req = N;
    if (r.chance(0.4)) { auto a = make<Q, T>(1, req, heap); life(); exercise<Q, T>(*a, (long)a->space(), r); gone(a, 1); life(); }
    else { auto a = make<Q, T>(1, req, heap); auto b = make<Q, T>(2, heap ? req + (long)r.below(5) : req, heap); exercise<Q, T>(*b, (long)b->space(), r); life(); gone(a, 1); gone(b, 2); life(); }
    g_from = -1; g_fail.clear(); g_kinds.clear();                 // the fault has passed
    auto c = make<Q, T>(3, req, heap); exercise<Q, T>(*c, (long)c->space(), r); gone(c, 3); life();
}
static const int NCFG = 14;
static const char* config(int k, Rng& r) {
    switch (k) {
    case 0: chan<Pod<1>>(r.range(4095, 9000), r); return "u8"; case 1: chan<float>(1023 + r.below(4), r); return "f32";
    case 2: chan<Pod<12>>(r.range(340, 1500), r); return "pod12"; case 3: chan<Counted>(r.range(1, 400), r); return "counted";
    case 4: chan<Magic>(r.range(511, 1500), r); return "magic"; case 5: chan<std::string>(r.range(1, 300), r); return "string";
    case 6: chan<Pod<24>>(r.range(1, 3), r); return "small"; case 7: chan<float>(524287, r); return "huge1";
    case 8: chan<float>(524287 + r.range(1, 600), r); return "huge2"; case 9: chan<Counted, 5>(0, r); return "stack";
    case 10: chan<std::string, 3>(0, r); return "stackstr"; case 11: chan<Pod<4096>>(r.range(1, 4), r); return "page";
    case 12: chan<Pod<5000>>(r.range(1, 3), r); return "pod5000"; case 13: chan<std::complex<double>>(131071, r); return "huge3"; }
    return "";
}
static void obj(Rng& r) {
    typedef cler::vmem::DoublyMappedAllocation A; std::unique_ptr<A> o[4]; 
    auto reg = [](A& a) { Region* R = a.valid() ? find(a.data()) : nullptr; return a.valid() ? (R ? R->id : -1) : 0; };
    for (int step = 0; step < 14; ++step) {
        int i = (int)r.below(3), j = (int)r.below(3);
        if (!o[i]) { o[i].reset(new A); E("obj").s("c", "new").i("id", i + 1).done(); continue; }
        int w = (int)r.below(6);
        if (w < 3) { long want = r.chance(0.2) ? 2097152 : r.chance(0.5) ? 4096 * r.range(1, 5) : r.range(1, 30000);
            g_track = true; bool ok = o[i]->create(want); g_track = false; bool second = true;
            if (ok) { char *a = (char*)o[i]->data(), *b = (char*)o[i]->second_mapping(); size_t n = o[i]->size(); second = b == a + n && o[i]->valid();
                for (size_t k = 0; k < n; k += 4096) { a[k] = 77; second &= b[k] == 77; b[k] = 0; second &= a[k] == 0; } }
            else second = !o[i]->data() && !o[i]->second_mapping() && o[i]->size() == 0 && !o[i]->valid();
            E("obj").s("c", "create").i("id", i + 1).i("r", reg(*o[i])).i("pages", pg(o[i]->size())).t("res", ok).t("second", second).i("want", want).done(); }
        else if (w == 3) { bool same = i == j; if (!o[j]) continue;
            g_track = true; A& from = *o[j]; *o[i] = std::move(from); g_track = false;
            if (same) E("obj").s("c", "self").i("id", i + 1).i("r", reg(*o[i])).done();
            else E("obj").s("c", "move").i("id", i + 1).i("from", j + 1).i("r", reg(*o[i])).t("fromvalid", o[j]->valid() || o[j]->data() || o[j]->size()).done(); }
        else if (w == 4 && !o[3]) { E("obj").s("c", "new").i("id", 4).done(); g_track = true; o[3].reset(new A(std::move(*o[i]))); g_track = false;
            E("obj").s("c", "move").i("id", 4).i("from", i + 1).i("r", reg(*o[3])).t("fromvalid", o[i]->valid() || o[i]->data() || o[i]->size()).done(); }
        else { int k = r.chance(0.5) && o[3] ? 3 : i; g_track = true; o[k].reset(); g_track = false; E("obj").s("c", "del").i("id", k + 1).done(); }
    }
    for (int k = 0; k < 4; ++k) if (o[k]) { g_track = true; o[k].reset(); g_track = false; E("obj").s("c", "del").i("id", k + 1).done(); }
    life();
}
static void trace(long id) {
    Rng r(g_seed * 7919 + id); g_reg = new std::vector<Region>; base_fds = nfds(); base_shm = nshm();
    if (g_mode == "chan") { long k = id % NPLANS; int c = (int)((id / NPLANS + id * 5) % NCFG); std::string p = plan(k);
        E("reset").i("id", id).s("plan", p).i("config", c).done(); config(c, r); }
    else { E("reset").i("id", id).s("plan", plan(id % NPLANS)).done(); obj(r); }
}
#else
// ------------------------------------------------------------------ construction by two tasks at once
template <class T> static void use(T& q, Rng& r, int id) {
    long cap = (long)q.space(); E("cmade").i("cap", cap).i("req", 1200).i("vm", Codec<float>::vm).done();
    Side<T, float> w(q, false, "w"), rd(q, false, "r");
    for (int k = 0; k < 3; ++k) { w.wop(W_WRITEN, cap, r, 1L << 60); w.wop(W_SPACE, 0, r, 0); rd.rop(R_READN, cap / 2 + r.below(cap), r, 0); }
}
static void trace(long id) {
    Rng r(g_seed * 7919 + id); E("reset").i("id", id).s("plan", "conc").done();
    mrt::Opt o; o.seed = r.next(); o.pswitch = r.chance(0.5) ? 0.3 : 0.05; mrt::begin(o);
    std::unique_ptr<dro::SPSCQueue<float>> q[2]; int t[2]; bool dm[2] = {false, false};
    for (int i = 0; i < 2; ++i) t[i] = mrt::spawn([&, i] { q[i].reset(new dro::SPSCQueue<float>(1200)); dm[i] = q[i]->is_doubly_mapped(); });
    mrt::join(t[0]); mrt::join(t[1]);
    mrt::end();
    for (int i = 0; i < 2; ++i) use(*q[i], r, i);
}
#endif
int main(int c, char** v) {
    if (c < 6) return 2;
    g_mode = v[1]; g_seed = atoll(v[5]);
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), trace, 30, 1);
}
