#pragma once
#include "kern.hpp"
typedef void* TaskHandle_t; typedef void* SemaphoreHandle_t; typedef uint32_t TickType_t; typedef long BaseType_t; typedef unsigned long UBaseType_t; typedef uint32_t StackType_t; typedef void (*TaskFunction_t)(void*);
#define pdPASS 1
#define pdFAIL 0
#define pdTRUE 1
#define pdFALSE 0
#define portMAX_DELAY 0xFFFFFFFFUL
#define tskIDLE_PRIORITY 0
#define configTICK_RATE_HZ 1000
#define pdMS_TO_TICKS(ms) ((TickType_t)(ms))
static inline BaseType_t xTaskCreate(TaskFunction_t f, const char*, const uint32_t, void* p, UBaseType_t, TaskHandle_t* h) { kern::Out out; mrt::point(); if (kern::fails("thread")) return pdFAIL; kern::Obj* o; { mrt::Ignore ig; o = kern::make("task", (void*)(size_t)(0x1000 + 16 * (kern::nextid + 1)), 1); } if (h) *h = (TaskHandle_t)o->addr; kern::start(o, [f, p] { f(p); }, false); return pdPASS; }
static inline void vTaskDelete(TaskHandle_t h) { kern::Out out; mrt::point(); if (h) { auto* o = kern::use(h, "task", "delete"); if (o) { kern::kill(o); kern::del(o); } return; } kern::Obj* o; { mrt::Ignore ig; o = kern::mine[mrt::self()]; } if (o) { kern::use(o->addr, "task", "delete"); kern::del(o); throw kern::Killed(); } }
static inline void vTaskDelay(const TickType_t t) { kern::Out out; mrt::sleep_ns((long long)t * 1000000); }
static inline void taskYIELD(void) { kern::Out out; mrt::yield(); }
static inline TickType_t xTaskGetTickCount(void) { return (TickType_t)(mrt::now_ns() / 1000000); }
