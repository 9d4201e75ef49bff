// Stand-in for Dear ImGui: records what a frame draws, answers from the harness.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
struct ImVec2 { float x = 0, y = 0; ImVec2() {} ImVec2(float a, float b) : x(a), y(b) {} };
struct ImVec4 { float x = 0, y = 0, z = 0, w = 0; ImVec4() {} ImVec4(float a, float b, float c, float d) : x(a), y(b), z(c), w(d) {} };
typedef int ImGuiCond; typedef int ImGuiWindowFlags; typedef int ImGuiSliderFlags;
enum { ImGuiCond_None = 0, ImGuiCond_Always = 1, ImGuiCond_Once = 2, ImGuiCond_FirstUseEver = 4, ImGuiCond_Appearing = 8 };
struct GuiRec { // the harness's side
    std::function<bool()> button; std::function<void(float*)> slider; std::function<bool()> visible;
    std::function<void(const char*, const float*, const float*, int)> line; std::function<void(const char*, const float*, int, int)> heat;
    std::function<void()> text; int depth = 0, plots = 0;
    std::function<void(ImVec2, ImVec2, ImVec2)> tri; std::function<void(ImVec2, const char*)> label;
};
extern GuiRec g_gui;
typedef unsigned int ImU32; typedef int ImGuiMouseButton; typedef int ImDrawFlags;
enum { ImGuiWindowFlags_None = 0, ImGuiWindowFlags_NoTitleBar = 1, ImGuiWindowFlags_NoResize = 2, ImGuiWindowFlags_NoMove = 4, ImGuiWindowFlags_NoScrollbar = 8, ImGuiWindowFlags_NoCollapse = 32 };
enum { ImGuiMouseButton_Left = 0, ImGuiMouseButton_Right = 1, ImGuiMouseButton_Middle = 2 };
#define IM_COL32(R, G, B, A) (((ImU32)(A) << 24) | ((ImU32)(B) << 16) | ((ImU32)(G) << 8) | (ImU32)(R))
struct ImGuiIO { ImVec2 MousePos = ImVec2(-1000, -1000); float MouseWheel = 0; ImVec2 DisplaySize; };
struct ImDrawList {
    void AddRectFilled(const ImVec2&, const ImVec2&, ImU32, float = 0, ImDrawFlags = 0) {}
    void AddRect(const ImVec2&, const ImVec2&, ImU32, float = 0, ImDrawFlags = 0, float = 1) {}
    void AddLine(const ImVec2&, const ImVec2&, ImU32, float = 1) {}
    void AddTriangle(const ImVec2&, const ImVec2&, const ImVec2&, ImU32, float = 1) {}
    void AddTriangleFilled(const ImVec2& a, const ImVec2& b, const ImVec2& c, ImU32) { g_gui.tri(a, b, c); }
    void AddText(const ImVec2& p, ImU32, const char* b, const char* = nullptr) { g_gui.label(p, b); }
};
namespace ImGui {
inline ImVec2 GetCursorScreenPos() { return ImVec2(0, 0); } inline void SetCursorScreenPos(const ImVec2&) {}
inline ImDrawList* GetWindowDrawList() { static ImDrawList d; return &d; }
inline ImU32 GetColorU32(const ImVec4&) { return 0; } inline ImU32 GetColorU32(ImU32 c) { return c; }
inline ImGuiIO& GetIO() { static ImGuiIO io; return io; }
inline bool IsMouseDragging(ImGuiMouseButton, float = -1) { return false; } inline ImVec2 GetMouseDragDelta(ImGuiMouseButton = 0, float = -1) { return ImVec2(); } inline void ResetMouseDragDelta(ImGuiMouseButton = 0) {}
inline void SetNextWindowSize(const ImVec2&, ImGuiCond = 0) {}
inline void SetNextWindowPos(const ImVec2&, ImGuiCond = 0, const ImVec2& = ImVec2()) {}
inline bool Begin(const char*, bool* = nullptr, ImGuiWindowFlags = 0) { g_gui.depth++; return true; }
inline void End() { g_gui.depth--; }
inline bool Button(const char*, const ImVec2& = ImVec2()) { return g_gui.button(); }
inline void SameLine(float = 0, float = -1) {}
inline void SetNextItemWidth(float) {}
inline bool SliderFloat(const char*, float* v, float, float, const char* = "", ImGuiSliderFlags = 0) { float o = *v; g_gui.slider(v); return *v != o; }
inline bool IsItemHovered(int = 0) { return false; }
inline void SetTooltip(const char*, ...) {}
inline void Text(const char*, ...) { g_gui.text(); }
inline void TextUnformatted(const char*, const char* = nullptr) { g_gui.text(); }
inline void PushID(const char*) {} inline void PushID(int) {} inline void PushID(const void*) {} inline void PopID() {}
inline void Separator() {}
inline ImVec2 GetContentRegionAvail() { return ImVec2(600, 300); }
}
