// Stand-in for the parts of Dear ImGui a window manager touches.
#pragma once
struct ImGuiContext; struct ImDrawData { int frame; }; struct ImGuiStyle { bool AntiAliasedLines = false, AntiAliasedLinesUseTex = false, AntiAliasedFill = false; };
struct ImFontAtlas;
#define IMGUI_CHECKVERSION() ((void)0)
namespace ImGui {
ImGuiContext* CreateContext(ImFontAtlas* = nullptr); void DestroyContext(ImGuiContext* = nullptr); ImGuiContext* GetCurrentContext();
void StyleColorsDark(ImGuiStyle* = nullptr); ImGuiStyle& GetStyle(); void NewFrame(); void EndFrame(); void Render(); ImDrawData* GetDrawData();
}
