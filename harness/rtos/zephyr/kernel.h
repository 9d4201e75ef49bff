#pragma once
#include "kern.hpp"
typedef struct k_thread { void* w[24]; } k_thread_t; typedef struct k_sem { void* w[4]; } k_sem_t; typedef char k_thread_stack_t; typedef k_thread* k_tid_t; typedef void (*k_thread_entry_t)(void*, void*, void*);
#define K_NO_WAIT 0
#define K_FOREVER (-1)
static inline int k_sem_init(struct k_sem* s, unsigned n, unsigned lim) { kern::Out out; mrt::point(); auto* o = kern::make("sem", s, sizeof *s); o->count.store(n); o->limit = lim; return 0; }
static inline void k_sem_give(struct k_sem* s) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "put"); if (o) kern::give(o); }
static inline int k_sem_take(struct k_sem* s, int w) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "get"); if (!o) return -1; return kern::take(o, w < 0 ? -1 : (long long)w * 1000000) ? 0 : -1; }
static inline void k_sem_reset(struct k_sem* s) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "reset"); if (o) o->count.store(0); }
static inline void k_sem_deinit(struct k_sem* s) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "delete"); if (o) kern::del(o); }
static inline k_tid_t k_thread_create(struct k_thread* t, k_thread_stack_t* stk, size_t sz, k_thread_entry_t f, void* a, void* b, void* c, int, uint32_t, int) { kern::Out out; mrt::point(); auto* o = kern::make("thread", t, sizeof *t, stk, sz); kern::start(o, [f, a, b, c] { f(a, b, c); }, true); return t; }
static inline int k_thread_join(struct k_thread* t, int w) { kern::Out out; mrt::point(); auto* o = kern::use(t, "thread", "join"); if (!o) return -22; bool killed; { mrt::Ignore ig; killed = o->killed; } if (!killed && !kern::wait_exit(o, w < 0 ? -1 : (long long)w * 1000000)) return -11; return 0; }
static inline void k_thread_join_and_destroy(struct k_thread* t) { k_thread_join(t, K_FOREVER); kern::Out out; auto* o = kern::use(t, "thread", "destroy"); if (o) kern::del(o); }
static inline void k_thread_abort(struct k_thread* t) { kern::Out out; mrt::point(); auto* o = kern::use(t, "thread", "abort"); if (o) kern::kill(o); }
static inline void k_yield(void) { kern::Out out; mrt::yield(); }
static inline int32_t k_usleep(int32_t us) { kern::Out out; mrt::sleep_ns((long long)us * 1000); return 0; }
static inline int64_t k_uptime_get(void) { return mrt::now_ns() / 1000000; }
