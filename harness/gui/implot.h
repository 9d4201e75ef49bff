// Stand-in for ImPlot (see imgui.h).
#pragma once
#include "imgui.h"
struct ImPlotPoint { double x, y; ImPlotPoint(double a = 0, double b = 0) : x(a), y(b) {} };
typedef int ImPlotAxisFlags; typedef int ImAxis; typedef int ImPlotFlags; typedef int ImPlotCond; typedef int ImPlotColormap;
enum { ImPlotAxisFlags_None = 0, ImPlotAxisFlags_Lock = 192, ImPlotAxisFlags_AutoFit = 2048, ImPlotAxisFlags_NoDecorations = 15 };
enum { ImAxis_X1 = 0, ImAxis_X2, ImAxis_X3, ImAxis_Y1, ImAxis_Y2, ImAxis_Y3 };
enum { ImPlotCond_None = 0, ImPlotCond_Always = 1, ImPlotCond_Once = 2 };
enum { ImPlotColormap_Deep = 0, ImPlotColormap_Viridis = 4, ImPlotColormap_Plasma = 5, ImPlotColormap_Hot = 6, ImPlotColormap_Jet = 9 };
namespace ImPlot {
inline bool BeginPlot(const char*, const ImVec2& = ImVec2(), ImPlotFlags = 0) { bool v = g_gui.visible(); g_gui.plots += v; return v; }
inline void EndPlot() { g_gui.plots--; }
inline void SetupAxes(const char*, const char*, ImPlotAxisFlags = 0, ImPlotAxisFlags = 0) {}
inline void SetupAxis(ImAxis, const char* = nullptr, ImPlotAxisFlags = 0) {}
inline void SetupAxisLimits(ImAxis, double, double, ImPlotCond = 2) {}
inline void SetupAxesLimits(double, double, double, double, ImPlotCond = 2) {}
inline void PushColormap(ImPlotColormap) {} inline void PushColormap(const char*) {} inline void PopColormap(int = 1) {}
inline void PlotLine(const char* l, const float* x, const float* y, int n, int = 0, int = 0, int = 4) { g_gui.line(l, x, y, n); }
inline void PlotHeatmap(const char* l, const float* v, int rows, int cols, double = 0, double = 0, const char* = "%.1f", const ImPlotPoint& = ImPlotPoint(0, 0), const ImPlotPoint& = ImPlotPoint(1, 1), int = 0) { g_gui.heat(l, v, rows, cols); }
}
