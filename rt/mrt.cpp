// See mrt.hpp. Built WITHOUT instrumentation.
#include "mrt.hpp"
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <deque>
#include <dlfcn.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
using std::size_t;
typedef unsigned char u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

// ---------------------------------------------------------------- context switch
extern "C" void mrt_switch(void** from, void* to);
asm(R"(
.text
.globl mrt_switch
.type mrt_switch,@function
mrt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mrt_switch,.-mrt_switch
)");

namespace mrt {
static const int MAXT = 62;
static const size_t STK = 256 * 1024;
struct VC { u32 c[MAXT]; };
static inline void vmax(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
enum St { RUN, SLEEP, BLOCK, DONE };
struct Task {
    void* sp = nullptr; char* stk = nullptr; St st = RUN; long long wake = 0; int consec = 0; int ignore = 0;
    VC vc{}, fence_rel{}, acq_pend{}; bool has_fr = false;
    std::function<void()> fn; std::function<bool()> unblocked;
    void* eh[2] = {nullptr, nullptr};
};
static Task* T[MAXT]; static int nT = 0, cur = 0; static bool on = false; static Opt O; static vlog::Rng R;
// the runtime's own containers bypass the instrumented allocation functions
template <class T> struct MA { typedef T value_type; MA() {} template <class U> MA(const MA<U>&) {}
    T* allocate(size_t n) { void* p = malloc(n * sizeof(T)); if (!p) abort(); return (T*)p; } void deallocate(T* p, size_t) { free(p); } };
template <class T, class U> bool operator==(const MA<T>&, const MA<U>&) { return true; } template <class T, class U> bool operator!=(const MA<T>&, const MA<U>&) { return false; }
template <class K, class V> using UMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MA<std::pair<const K, V>>>;
template <class K, class V> using OMap = std::map<K, V, std::less<K>, MA<std::pair<const K, V>>>;
template <class T> using Vec = std::vector<T, MA<T>>;
static long long now_ = 0; static long pts = 0; static int preempts = 0; static size_t dpos = 0; static bool raced = false;
static long long over_ = 0; static long slp_ = 0;
static std::deque<char*, MA<char*>> stkpool;

// exception globals are per thread in libstdc++: save/restore on switch
extern "C" void* __cxa_get_globals();
static void sw(int to) {
    int from = cur; if (to == from) return;
    void** g = (void**)__cxa_get_globals();
    T[from]->eh[0] = g[0]; T[from]->eh[1] = g[1]; g[0] = T[to]->eh[0]; g[1] = T[to]->eh[1];
    cur = to; mrt_switch(&T[from]->sp, T[to]->sp);
}
static void boot();
static bool runnable(int i) {
    Task* t = T[i];
    if (t->st == BLOCK && t->unblocked && t->unblocked()) { t->st = RUN; t->unblocked = nullptr; }
    return t->st == RUN || t->st == SLEEP;
}
static int dfs_choose(int n) { // n options
    if (dpos < O.dfs->size()) { int c = (*O.dfs)[dpos]; if (dpos < O.dfs_width->size()) (*O.dfs_width)[dpos] = n; ++dpos; return c < n ? c : 0; }
    O.dfs->push_back(0); O.dfs_width->push_back(n); ++dpos; return 0;
}
// voluntary: current task does not need to continue (it may, if nobody else can)
static void resched(bool voluntary) {
    if (++pts > O.max_points) vlog::die("stuck");
    now_ += 20 + (O.dfs ? 0 : R.below(60));
    int c[MAXT], n = 0; bool me = runnable(cur) && T[cur]->st == RUN;
    for (int k = 1; k <= nT; ++k) { int i = (cur + k) % nT; if (i != cur && runnable(i)) c[n++] = i; }
    if (n == 0) {
        if (T[cur]->st == SLEEP) { if (T[cur]->wake > now_) now_ = T[cur]->wake; T[cur]->st = RUN; return; }
        if (me) { T[cur]->consec = 0; return; }
        vlog::die("deadlock");
    }
    int to = cur;
    bool must = voluntary || !me;
    if (me && !must && ++T[cur]->consec > 400) must = true;   // fairness against spin loops
    if (O.dfs) {
        if (must) to = c[dfs_choose(n)];
        else if (preempts < O.preempt_bound) { int k = dfs_choose(n + 1); if (k) { to = c[k - 1]; ++preempts; } }
    } else if (must) {
        if (voluntary && me && R.chance(0.15)) to = cur; else {
            to = c[R.below(n)];
            if (T[to]->st == SLEEP && R.chance(0.7)) to = c[R.below(n)]; }   // sleepers rarer
    } else if (R.chance(O.pswitch)) { to = c[R.below(n)]; if (T[to]->st == SLEEP && R.chance(0.8)) to = cur; }
    if (to == cur) { if (T[cur]->st == SLEEP) { if (T[cur]->wake > now_) now_ = T[cur]->wake; T[cur]->st = RUN; } return; }
    T[cur]->consec = 0;
    if (T[to]->st == SLEEP) { if (T[to]->wake > now_) now_ = T[to]->wake; T[to]->st = RUN; }
    sw(to);
    // resumed
}
static void block_until(std::function<bool()> f) {
    while (!f()) { T[cur]->st = BLOCK; T[cur]->unblocked = f; resched(true); }
}
static void boot() {
    int me = cur; T[me]->fn(); T[me]->fn = nullptr;
    T[me]->vc.c[me]++; T[me]->st = DONE;
    resched(true); vlog::die("deadlock");
}
static void reset_shadow();
void begin(const Opt& o) {
    O = o; R = vlog::Rng(o.seed); now_ = 1000000000LL; pts = 0; preempts = 0; dpos = 0; raced = false; over_ = 0; slp_ = 0;
    reset_shadow(); nT = 1; cur = 0; if (!T[0]) T[0] = new Task; *T[0] = Task{}; T[0]->vc.c[0] = 1; on = true;
}
void end() { on = false; for (int i = 1; i < nT; ++i) { if (T[i]->stk) stkpool.push_back(T[i]->stk); delete T[i]; T[i] = nullptr; } nT = 0; }
bool active() { return on; }
int self() { return cur; }
long points() { return pts; }
long long overslept() { return over_; } long sleeps() { return slp_; }
long long now_ns() { return now_; }
int spawn(std::function<void()> f) {
    if (nT >= MAXT) vlog::die("toomany");
    int id = nT; Task* t = new Task; t->fn = std::move(f);
    if (stkpool.empty()) { char* p = (char*)::syscall(SYS_mmap, nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
        mprotect(p, 4096, PROT_NONE); t->stk = p; } else { t->stk = stkpool.back(); stkpool.pop_back(); }
    void** s = (void**)(t->stk + STK - 64); s = (void**)((uintptr_t)s & ~(uintptr_t)15);
    *--s = nullptr; *--s = (void*)boot; for (int i = 0; i < 6; ++i) *--s = nullptr;
    t->sp = s; t->vc = T[cur]->vc; t->vc.c[id] = 1; T[cur]->vc.c[cur]++;
    T[id] = t; ++nT; forget(t->stk, STK);
    resched(false); return id;
}
void join(int t) { block_until([t] { return T[t]->st == DONE; }); vmax(T[cur]->vc, T[t]->vc); resched(false); }
bool done(int t) { return T[t]->st == DONE; }
void point() { if (on) resched(false); }
void yield() { if (on) resched(true); }
void sleep_ns(long long ns) { if (!on) return; T[cur]->st = SLEEP; if (ns < 0) ns = 0; ++slp_; if (O.oversleep_max > 0 && R.chance(O.oversleep_p)) { long long o = R.below(O.oversleep_max + 1); over_ += o; ns += o; } T[cur]->wake = now_ + ns; resched(true);
    if (T[cur]->st == SLEEP) { if (T[cur]->wake > now_) now_ = T[cur]->wake; T[cur]->st = RUN; } }
Ignore::Ignore() { if (on) T[cur]->ignore++; }
Ignore::~Ignore() { if (on) T[cur]->ignore--; }
bool step_dfs(std::vector<int>& d, std::vector<int>& w) {
    d.resize(dpos < d.size() ? dpos : d.size()); w.resize(d.size());
    while (!d.empty()) { if (d.back() + 1 < w.back()) { d.back()++; return true; } d.pop_back(); w.pop_back(); }
    return false;
}
// ---------------------------------------------------------------- shadow memory (FastTrack, byte granular)
struct Cell { u32 w, r; };
static const u32 RVC = 63u << 26;
static inline u32 ep(int t, u32 c) { return ((u32)t << 26) | (c & 0x3ffffff); }
static inline int et(u32 e) { return e >> 26; } static inline u32 ec(u32 e) { return e & 0x3ffffff; }
struct Page { u64 gen; Cell c[4096]; };
static UMap<u64, Page*>* pages; static u64 gen = 1; static Vec<VC>* rvcs;
struct Sync { VC rel; bool has; };
static UMap<u64, Sync>* syncs;
struct Alias { u64 lo, hi; u64 base; }; static Vec<Alias>* aliases;
static u64 lastpn = ~0ull; static Page* lastp = nullptr;
static void reset_shadow() {
    if (!pages) { pages = new UMap<u64, Page*>; rvcs = new Vec<VC>; syncs = new UMap<u64, Sync>; }
    ++gen; rvcs->clear(); syncs->clear();
    if (pages->size() > 4096) { for (auto& p : *pages) ::free(p.second); pages->clear(); lastpn = ~0ull; }
}
static inline Page* page(u64 pn) {
    if (pn == lastpn && lastp->gen == gen) return lastp;
    auto& p = (*pages)[pn];
    if (!p) { p = (Page*)calloc(1, sizeof(Page)); p->gen = gen; }
    if (p->gen != gen) { memset(p->c, 0, sizeof p->c); p->gen = gen; }
    lastpn = pn; lastp = p; return p;
}
static inline u64 canon(u64 a) { if (aliases) for (auto& x : *aliases) if (a >= x.lo && a < x.hi) return x.base + (a - x.lo); return a; }
static void report(const char* k, int other, u64 a) {
    (void)a; if (raced) return; raced = true;
    vlog::add(std::string("\"e\":\"race\",\"kind\":\"") + k + "\",\"t\":" + std::to_string(cur) + ",\"u\":" + std::to_string(other));
}
static void acc1(u64 a, bool wr) {
    Cell& c = page(a >> 12)->c[a & 4095]; VC& v = T[cur]->vc; u32 me = ep(cur, v.c[cur]);
    if (wr) {
        if (c.w == me) { if (c.r == 0 || c.r == me) { c.r = 0; return; } }
        else if (c.w && ec(c.w) > v.c[et(c.w)]) report("ww", et(c.w), a);
        if (c.r) { if (c.r >= RVC) { VC& q = (*rvcs)[ec(c.r)]; for (int i = 0; i < MAXT; ++i) if (q.c[i] > v.c[i]) { report("rw", i, a); break; } }
                   else if (ec(c.r) > v.c[et(c.r)]) report("rw", et(c.r), a); }
        c.w = me; c.r = 0;
    } else {
        if (c.r == me) return;
        if (c.w && et(c.w) != cur && ec(c.w) > v.c[et(c.w)]) report("wr", et(c.w), a);
        if (c.r == 0 || (c.r < RVC && (et(c.r) == cur || ec(c.r) <= v.c[et(c.r)]))) c.r = me;
        else if (c.r >= RVC) (*rvcs)[ec(c.r)].c[cur] = v.c[cur];
        else { VC q{}; q.c[et(c.r)] = ec(c.r); q.c[cur] = v.c[cur]; rvcs->push_back(q); c.r = RVC | (u32)(rvcs->size() - 1); }
    }
}
static inline void access(const void* p, size_t n, bool wr) {
    if (!on || !O.detect_races || raced || T[cur]->ignore) return;
    u64 a = (u64)p; char* s = T[cur]->stk;
    if (s && (char*)p >= s && (char*)p < s + STK && false) return;
    for (size_t i = 0; i < n; ++i) acc1(canon(a + i), wr);
}
void forget(const void* p, size_t n) {
    if (!pages || !n) return; u64 a = (u64)p, e = a + n;
    while (a < e) { u64 pn = a >> 12, stop = (pn + 1) << 12; if (stop > e) stop = e;
        auto it = pages->find(pn); if (it != pages->end() && it->second->gen == gen) memset(&it->second->c[a & 4095], 0, (stop - a) * sizeof(Cell));
        a = stop; }
    if (syncs && !syncs->empty()) { if (n <= 4096) { for (u64 x = (u64)p; x < (u64)p + n; ++x) syncs->erase(x); }
        else for (auto it = syncs->begin(); it != syncs->end();) if (it->first >= (u64)p && it->first < (u64)p + n) it = syncs->erase(it); else ++it; }
}
// ---------------------------------------------------------------- atomics
enum { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
static inline bool isacq(int m) { return m == mo_acquire || m == mo_consume || m == mo_acq_rel || m == mo_seq_cst; }
static inline bool isrel(int m) { return m == mo_release || m == mo_acq_rel || m == mo_seq_cst; }
static inline bool sim() { return on && !T[cur]->ignore; }
static void sync_acq(const volatile void* p, int m) {
    auto it = syncs->find((u64)p); if (it == syncs->end() || !it->second.has) return;
    if (isacq(m)) vmax(T[cur]->vc, it->second.rel); else vmax(T[cur]->acq_pend, it->second.rel);
}
static void sync_rel(const volatile void* p, int m, bool rmw) {
    Sync& s = (*syncs)[(u64)p]; Task* t = T[cur];
    if (!rmw) { s.has = false; s.rel = VC{}; }
    if (isrel(m)) { vmax(s.rel, t->vc); s.has = true; t->vc.c[cur]++; }
    else if (t->has_fr) { vmax(s.rel, t->fence_rel); s.has = true; }
}
void atomic_fence(int m) { if (!sim()) return; Task* t = T[cur];
    if (isacq(m)) vmax(t->vc, t->acq_pend);
    if (isrel(m)) { t->fence_rel = t->vc; t->has_fr = true; t->vc.c[cur]++; }
    resched(false); }
// an atomic access conflicts with unordered plain accesses only: check against plain cells
static void atomic_vs_plain(const volatile void* p, size_t n, bool wr) {
    if (!O.detect_races || raced) return; VC& v = T[cur]->vc;
    for (size_t i = 0; i < n; ++i) { u64 a = canon((u64)p + i); Cell& c = page(a >> 12)->c[a & 4095];
        if (c.w && et(c.w) != cur && ec(c.w) > v.c[et(c.w)]) { report("aw", et(c.w), a); return; }
        if (wr && c.r && c.r < RVC && et(c.r) != cur && ec(c.r) > v.c[et(c.r)]) { report("ar", et(c.r), a); return; } }
}
}
using namespace mrt;
#define ATOMIC(B, TY) \
extern "C" TY __tsan_atomic##B##_load(const volatile TY* a, int m) { if (!sim()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    resched(false); atomic_vs_plain(a, sizeof(TY), false); TY v = *a; sync_acq(a, m); return v; } \
extern "C" void __tsan_atomic##B##_store(volatile TY* a, TY v, int m) { if (!sim()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } \
    resched(false); atomic_vs_plain(a, sizeof(TY), true); sync_rel(a, m, false); *a = v; } \
extern "C" TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int m) { if (!sim()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    resched(false); atomic_vs_plain(a, sizeof(TY), true); TY o = *a; sync_acq(a, m); sync_rel(a, m, true); *a = v; return o; } \
extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int m, int fm) { \
    if (!sim()) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    resched(false); TY o = *a; if (o == *c) { atomic_vs_plain(a, sizeof(TY), true); sync_acq(a, m); sync_rel(a, m, true); *a = v; return 1; } \
    sync_acq(a, fm); *c = o; return 0; } \
extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int m, int fm) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, fm); } \
extern "C" TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY c, TY v, int m, int fm) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, m, fm); return c; }
#define RMW(B, TY, N, EXPR) \
extern "C" TY __tsan_atomic##B##_fetch_##N(volatile TY* a, TY v, int m) { bool s = sim(); if (s) { resched(false); atomic_vs_plain(a, sizeof(TY), true); } \
    TY o = *a; if (s) { sync_acq(a, m); sync_rel(a, m, true); } *a = (TY)(EXPR); return o; }
#define ALL(B, TY) ATOMIC(B, TY) RMW(B, TY, add, o + v) RMW(B, TY, sub, o - v) RMW(B, TY, and, o & v) RMW(B, TY, or, o | v) RMW(B, TY, xor, o ^ v) RMW(B, TY, nand, ~(o & v))
ALL(8, u8) ALL(16, u16) ALL(32, u32) ALL(64, u64)
extern "C" {
void __tsan_atomic_thread_fence(int m) { atomic_fence(m); }
void __tsan_atomic_signal_fence(int) {}
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_read1(void* p) { access(p, 1, false); } void __tsan_write1(void* p) { access(p, 1, true); }
void __tsan_read2(void* p) { access(p, 2, false); } void __tsan_write2(void* p) { access(p, 2, true); }
void __tsan_read4(void* p) { access(p, 4, false); } void __tsan_write4(void* p) { access(p, 4, true); }
void __tsan_read8(void* p) { access(p, 8, false); } void __tsan_write8(void* p) { access(p, 8, true); }
void __tsan_read16(void* p) { access(p, 16, false); } void __tsan_write16(void* p) { access(p, 16, true); }
#define UN(N) void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
  void __tsan_read_write##N(void* p) { access(p, N, false); access(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { access(p, N, false); access(p, N, true); }
UN(1) UN(2) UN(4) UN(8) UN(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); } void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); } void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
}
// ---------------------------------------------------------------- memory
namespace mrt { void (*hook_new)(void*, size_t); bool (*hook_del)(void*); }
static void* mrt_alloc(size_t n, size_t al) {
    if (!n) n = 1; void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n);
    if (!p) throw std::bad_alloc(); if (on) forget(p, malloc_usable_size(p)); if (mrt::hook_new) mrt::hook_new(p, n); return p; }
static void mrt_free(void* p) { if (p) { if (mrt::hook_del && mrt::hook_del(p)) return; if (on) forget(p, malloc_usable_size(p)); free(p); } }
void* operator new(size_t n) { return mrt_alloc(n, 0); } void* operator new[](size_t n) { return mrt_alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return mrt_alloc(n, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return mrt_alloc(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mrt_alloc(n, 0); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mrt_alloc(n, 0); }
void operator delete(void* p) noexcept { mrt_free(p); } void operator delete[](void* p) noexcept { mrt_free(p); }
void operator delete(void* p, size_t) noexcept { mrt_free(p); } void operator delete[](void* p, size_t) noexcept { mrt_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { mrt_free(p); } void operator delete[](void* p, std::align_val_t) noexcept { mrt_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mrt_free(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { mrt_free(p); }
// double mappings: give the second mapping of the same pages the first one's identity
struct FdMap { int fd; u64 addr, len; }; static Vec<FdMap>* fdmaps;
extern "C" void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    void* r = (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
    if (r == MAP_FAILED) return r;
    u64 a = (u64)r;
    if (aliases) for (size_t i = 0; i < aliases->size();) if ((*aliases)[i].lo < a + len && a < (*aliases)[i].hi) aliases->erase(aliases->begin() + i); else ++i;
    if (fdmaps) for (size_t i = 0; i < fdmaps->size();) if ((*fdmaps)[i].addr < a + len && a < (*fdmaps)[i].addr + (*fdmaps)[i].len) fdmaps->erase(fdmaps->begin() + i); else ++i;
    if (fd >= 0 && (flags & MAP_SHARED)) {
        if (!fdmaps) { fdmaps = new Vec<FdMap>; aliases = new Vec<Alias>; }
        bool al = false;
        for (auto& m : *fdmaps) if (m.fd == fd && m.addr + m.len == a && off == 0) { aliases->push_back({a, a + len, m.addr}); al = true; }
        if (!al) fdmaps->push_back({fd, a, len});
    }
    if (on) forget(r, len);
    return r;
}
extern "C" int munmap(void* p, size_t len) {
    u64 a = (u64)p;
    if (aliases) for (size_t i = 0; i < aliases->size();) if ((*aliases)[i].lo < a + len && a < (*aliases)[i].hi) aliases->erase(aliases->begin() + i); else ++i;
    if (fdmaps) for (size_t i = 0; i < fdmaps->size();) if ((*fdmaps)[i].addr < a + len && a < (*fdmaps)[i].addr + (*fdmaps)[i].len) fdmaps->erase(fdmaps->begin() + i); else ++i;
    if (on) forget(p, len);
    return (int)syscall(SYS_munmap, p, len);
}
// ---------------------------------------------------------------- static initialisation guards
extern "C" int __cxa_guard_acquire(u64* g) {
    u8* b = (u8*)g;
    if (on) { int me = cur; (void)me; block_until([b] { return b[1] == 0; }); if (b[0]) { sync_acq(g, mo_acquire); return 0; } b[1] = 1; return 1; }
    if (b[0]) return 0; b[1] = 1; return 1; }
extern "C" void __cxa_guard_release(u64* g) { u8* b = (u8*)g; b[0] = 1; b[1] = 0; if (on) sync_rel(g, mo_release, false); }
extern "C" void __cxa_guard_abort(u64* g) { ((u8*)g)[1] = 0; }
// ---------------------------------------------------------------- virtual time
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    if (on) { if (O.clock_point && !T[cur]->ignore) resched(false); return time_point(duration(1700000000000000000LL + now_)); }
    timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(t.tv_sec * 1000000000LL + t.tv_nsec)); }
steady_clock::time_point steady_clock::now() noexcept {
    if (on) { if (O.clock_point && !T[cur]->ignore) resched(false); return time_point(duration(now_)); }
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(t.tv_sec * 1000000000LL + t.tv_nsec)); }
}}}
extern "C" int nanosleep(const timespec* r, timespec* rem) {
    if (on) { mrt::sleep_ns(r->tv_sec * 1000000000LL + r->tv_nsec); return 0; } return (int)syscall(SYS_nanosleep, r, rem); }
extern "C" int clock_nanosleep(clockid_t c, int fl, const timespec* r, timespec* rem) {
    if (on) { long long t = r->tv_sec * 1000000000LL + r->tv_nsec; if (fl & TIMER_ABSTIME) t -= (c == CLOCK_REALTIME ? 1700000000000000000LL : 0) + now_; mrt::sleep_ns(t); return 0; }
    return (int)-syscall(SYS_clock_nanosleep, c, fl, r, rem); }
extern "C" int usleep(useconds_t us) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
extern "C" int sched_yield() { if (on) { mrt::yield(); return 0; } return (int)syscall(SYS_sched_yield); }
// ---------------------------------------------------------------- pthreads (std::thread, std::mutex, condition_variable)
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static const u64 PT_BASE = 0x7e57000000000000ull;
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    if (!on) return real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(t, a, f, x);
    int id = mrt::spawn([f, x] { f(x); }); *t = PT_BASE + id; return 0; }
extern "C" int pthread_join(pthread_t t, void** r) {
    if ((t & 0xffff000000000000ull) != PT_BASE) return real<int (*)(pthread_t, void**)>("pthread_join")(t, r);
    int id = (int)(t - PT_BASE); if (id == cur) return EDEADLK; mrt::join(id); if (r) *r = nullptr; return 0; }
extern "C" int pthread_detach(pthread_t t) {
    if ((t & 0xffff000000000000ull) != PT_BASE) return real<int (*)(pthread_t)>("pthread_detach")(t); return 0; }
extern "C" pthread_t pthread_self() { static auto f = real<pthread_t (*)()>("pthread_self"); if (on) return PT_BASE + cur; return f(); }
struct SimMutex { int owner = -1, depth = 0; }; static OMap<void*, SimMutex>* mtx;
static SimMutex& M(void* m) { if (!mtx) mtx = new OMap<void*, SimMutex>; return (*mtx)[m]; }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock")(m);
    resched(false); block_until([m] { return M(m).owner < 0; }); M(m).owner = cur; if (!T[cur]->ignore) sync_acq(m, mo_acquire); return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!on) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m);
    resched(false); if (M(m).owner >= 0) return EBUSY; M(m).owner = cur; sync_acq(m, mo_acquire); return 0; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock")(m);
    M(m).owner = -1; sync_rel(m, mo_release, true); resched(false); return 0; }
extern "C" int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t* s) { if (on) return 0; return real<int (*)(pthread_t, size_t, const cpu_set_t*)>("pthread_setaffinity_np")(t, n, s); }
