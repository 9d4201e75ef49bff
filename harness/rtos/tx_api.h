#pragma once
#include "kern.hpp"
typedef unsigned long ULONG; typedef unsigned char UCHAR; typedef unsigned int UINT; typedef char CHAR; typedef void VOID;
#define TX_SUCCESS 0x00
#define TX_DELETED 0x01
#define TX_PTR_ERROR 0x03
#define TX_SEMAPHORE_ERROR 0x0C
#define TX_NO_INSTANCE 0x0D
#define TX_THREAD_ERROR 0x0E
#define TX_DELETE_ERROR 0x11
#define TX_NO_WAIT 0UL
#define TX_WAIT_FOREVER 0xFFFFFFFFUL
#define TX_AUTO_START 1
#define TX_DONT_START 0
#define TX_NO_TIME_SLICE 0
typedef struct TX_THREAD { void* w[24]; } TX_THREAD;
typedef struct TX_SEMAPHORE { void* w[8]; } TX_SEMAPHORE;
static inline UINT tx_semaphore_create(TX_SEMAPHORE* s, char*, ULONG n) { kern::Out out; mrt::point(); if (!s) return TX_PTR_ERROR; if (kern::fails("sem")) return TX_SEMAPHORE_ERROR; kern::make("sem", s, sizeof *s)->count.store((long)n); return TX_SUCCESS; }
static inline UINT tx_semaphore_get(TX_SEMAPHORE* s, ULONG w) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "get"); if (!o) return TX_SEMAPHORE_ERROR; return kern::take(o, w == TX_WAIT_FOREVER ? -1 : (long long)w * 1000000) ? TX_SUCCESS : TX_NO_INSTANCE; }
static inline UINT tx_semaphore_put(TX_SEMAPHORE* s) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "put"); if (!o) return TX_SEMAPHORE_ERROR; kern::give(o); return TX_SUCCESS; }
static inline UINT tx_semaphore_delete(TX_SEMAPHORE* s) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "delete"); if (!o) return TX_SEMAPHORE_ERROR; kern::del(o); return TX_SUCCESS; }
static inline UINT tx_thread_create(TX_THREAD* t, char*, void (*f)(ULONG), ULONG a, void* stk, ULONG sz, UINT, UINT, ULONG, UINT start) { kern::Out out; mrt::point(); if (!t || !f || !stk) return TX_PTR_ERROR; if (kern::fails("thread")) return TX_THREAD_ERROR; auto* o = kern::make("thread", t, sizeof *t, stk, sz); if (start == TX_AUTO_START) kern::start(o, [f, a] { f(a); }, true); return TX_SUCCESS; }
static inline UINT tx_thread_terminate(TX_THREAD* t) { kern::Out out; mrt::point(); auto* o = kern::use(t, "thread", "terminate"); if (!o) return TX_THREAD_ERROR; kern::kill(o); return TX_SUCCESS; }
static inline UINT tx_thread_delete(TX_THREAD* t) { kern::Out out; mrt::point(); auto* o = kern::use(t, "thread", "delete"); if (!o) return TX_THREAD_ERROR; bool over; { mrt::Ignore ig; over = o->exited || o->killed; } if (!over) return TX_DELETE_ERROR; kern::del(o); return TX_SUCCESS; }
static inline void tx_thread_relinquish(void) { kern::Out out; mrt::yield(); }
static inline UINT tx_thread_sleep(ULONG t) { kern::Out out; mrt::sleep_ns((long long)t * 1000000); return TX_SUCCESS; }
static inline ULONG tx_time_get(void) { return (ULONG)(mrt::now_ns() / 1000000); }
