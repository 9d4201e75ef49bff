// A strict stand-in for the kernels: logs the life of every kernel object; threads are runtime fibers.
#pragma once
#include "mrt.hpp"
#include <atomic>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <deque>
#include <malloc.h>
namespace kern {
using vlog::E;
struct Killed {};
struct Obj { int id = 0; const void* addr = nullptr; size_t size = 0; const char* kind = ""; bool live = true; std::atomic<long> count{0}; long limit = 1 << 30; int fib = -1; bool exited = false, killed = false; std::atomic<int> gone{0}; const void* stk = nullptr; size_t stksz = 0; };
inline std::deque<Obj> objs; inline int nextid, fail_at, calls; inline bool heap_mode; // heap_mode: objects are the kernel's own
inline Obj* mine[64]; inline bool pol[64]; inline int tag[64]; // per fiber: its thread; running policy code; for which task
struct Out { bool was; int f; Out() : f(mrt::self()) { was = pol[f]; pol[f] = false; } ~Out() { pol[f] = was; } }; // inside the kernel
inline void reset() { objs.clear(); nextid = 0; calls = 0; fail_at = -1; memset(mine, 0, sizeof mine); memset(pol, 0, sizeof pol); memset(tag, 0, sizeof tag); }
inline bool fails(const char* what) { mrt::Ignore ig; if (calls++ != fail_at) return false; E("kfail").s("op", what).i("t", tag[mrt::self()]).done(); return true; }
inline Obj* make(const char* kind, const void* addr, size_t size, const void* stk = nullptr, size_t stksz = 0) { mrt::Ignore ig; int other = 0; for (auto& o : objs) if (o.live && addr && o.addr == addr) { other = o.id; o.live = false; }
    objs.emplace_back(); Obj& o = objs.back(); o.id = ++nextid; o.addr = addr; o.size = size; o.kind = kind; o.stk = stk; o.stksz = stksz; E("knew").i("o", o.id).s("k", kind).i("t", tag[mrt::self()]).i("over", other).done(); return &o; }
inline Obj* use(const void* addr, const char* kind, const char* op) { mrt::Ignore ig; if (mine[mrt::self()] && mine[mrt::self()]->killed) throw Killed(); for (auto& o : objs) if (o.live && o.addr == addr && !strcmp(o.kind, kind)) { E("kuse").i("o", o.id).s("op", op).done(); return &o; } E("kuse").i("o", 0).s("op", op).done(); return nullptr; }
inline void del(Obj* o) { mrt::Ignore ig; o->live = false; E("kdel").i("o", o->id).done(); }
inline void self_kill() { mrt::Ignore ig; Obj* o = mine[mrt::self()]; if (o && o->killed) throw Killed(); }
template <class F> inline void start(Obj* o, F f, bool may_return) { // the new thread may run before the creator goes on
    int tg = tag[mrt::self()];
    int id = mrt::spawn([o, f, may_return, tg] { { mrt::Ignore ig; mine[mrt::self()] = o; pol[mrt::self()] = true; tag[mrt::self()] = tg; } bool ret = false; try { if (!o->killed) { f(); ret = true; } } catch (Killed&) {}
        { mrt::Ignore ig; pol[mrt::self()] = false; o->exited = true; if (ret && !may_return) E("kret").i("o", o->id).done(); if (!o->killed) E("kexit").i("o", o->id).done(); } o->gone.store(1, std::memory_order_release); });
    { mrt::Ignore ig; o->fib = id; } mrt::point(); self_kill(); }
inline void give(Obj* o) { mrt::point(); if (o->count.load(std::memory_order_relaxed) < o->limit) o->count.fetch_add(1, std::memory_order_release); mrt::point(); self_kill(); }
// ns < 0: no limit; the wait may end without the object
inline bool take(Obj* o, long long ns) { long long end = ns < 0 ? -1 : mrt::now_ns() + ns; for (;;) { long c = o->count.load(std::memory_order_acquire); if (c > 0) { o->count.fetch_sub(1, std::memory_order_acquire); return true; } if (end >= 0 && mrt::now_ns() >= end) return false; if (end >= 0) mrt::sleep_ns(1000000); else mrt::yield(); self_kill(); } }
inline bool wait_exit(Obj* o, long long ns = -1) { long long end = ns < 0 ? -1 : mrt::now_ns() + ns; while (!o->gone.load(std::memory_order_acquire)) { if (end >= 0 && mrt::now_ns() >= end) return false; if (end >= 0) mrt::sleep_ns(1000000); else mrt::yield(); } return true; }
inline void kill(Obj* o) { mrt::Ignore ig; if (!o->exited) { o->killed = true; } E("kterm").i("o", o->id).done(); }
// memory of policy code: tracked, filled and kept on release
struct Mem { void* p; size_t n; int t; bool live; }; inline Mem mem[8192]; inline int nmem; inline bool busy;
inline void on_new(void* p, size_t n) { mrt::Ignore ig; if (busy || !mrt::active()) return; int f = mrt::self(); if (!pol[f] || nmem == 8192) return; mem[nmem++] = {p, n, tag[f], true}; }
inline bool on_del(void* p) { bool keep = false; size_t n = 0; { mrt::Ignore ig; if (busy || !mrt::active() || !p) return false; busy = true;
    for (int i = nmem - 1; i >= 0; --i) if (mem[i].p == p && mem[i].live) { mem[i].live = false; keep = true; n = mem[i].n; break; }
    if (keep) { const char *b = (const char*)p, *e = b + n; for (auto& o : objs) { const char *a = (const char*)o.addr, *s = (const char*)o.stk; if (a && !heap_mode && o.live && a >= b && a < e) { E("kfree").i("o", o.id).s("w", "obj").done(); } if (s && s >= b && s < e && !o.exited && !o.killed) { E("kfree").i("o", o.id).s("w", "stack").done(); } } }
    busy = false; }
    if (keep) { volatile char* q = (volatile char*)p; for (size_t i = 0; i < n && i < 256; ++i) q[i] = (char)0xDD; } return keep; }
inline long held(int t) { long k = 0; for (int i = 0; i < nmem; ++i) k += mem[i].live && (t < 0 || mem[i].t == t); return k; }
inline void drop() { for (int i = 0; i < nmem; ++i) if (!mem[i].live) free(mem[i].p); nmem = 0; }
}
