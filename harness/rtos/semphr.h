#pragma once
#include "FreeRTOS.h"
static inline SemaphoreHandle_t xSemaphoreCreateBinary(void) { kern::Out out; mrt::point(); if (kern::fails("sem")) return nullptr; kern::Obj* o; { mrt::Ignore ig; o = kern::make("sem", (void*)(size_t)(0x1000 + 16 * (kern::nextid + 1)), 1); o->limit = 1; } return (SemaphoreHandle_t)o->addr; }
static inline void vSemaphoreDelete(SemaphoreHandle_t s) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "delete"); if (o) kern::del(o); }
static inline BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t w) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "get"); if (!o) return pdFAIL; return kern::take(o, w == portMAX_DELAY ? -1 : (long long)w * 1000000) ? pdPASS : pdFAIL; }
static inline BaseType_t xSemaphoreGive(SemaphoreHandle_t s) { kern::Out out; mrt::point(); auto* o = kern::use(s, "sem", "put"); if (!o) return pdFAIL; kern::give(o); return pdPASS; }
