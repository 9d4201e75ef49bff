#pragma once
struct ImPlotContext;
namespace ImPlot { ImPlotContext* CreateContext(); void DestroyContext(ImPlotContext* = nullptr); ImPlotContext* GetCurrentContext(); }
