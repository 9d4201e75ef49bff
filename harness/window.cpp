// The GUI window: what GuiManager does to the windowing, drawing and plotting libraries, step by step, with a step failing now and then.
#include "desktop_blocks/gui/gui_manager.hpp"
#include "imgui_impl_glfw.h"
#include "imgui_impl_opengl3.h"
#include <cstring>
#include <memory>
#include <string>
#include "vlog.hpp"
using vlog::E; using vlog::Rng;
static uint64_t g_seed; static int g_ids, g_frames, g_fbw, g_fbh; static bool g_close; static std::string g_fail; static bool g_in; static std::string g_close_plan;
struct GLFWwindow { int id; }; static GLFWwindow g_win[64]; static GLFWwindow* g_cur;
static int id(GLFWwindow* w) { return w ? w->id : 0; }
static void ev(const char* n) { E(n).done(); }
extern "C" {
int glfwInit(void) { bool ok = g_fail != "init"; E("init").t("ok", ok).done(); return ok; }
void glfwTerminate(void) { g_cur = nullptr; ev("terminate"); }
GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) { return nullptr; } int glfwGetError(const char** d) { if (d) *d = nullptr; return 0; }
void glfwDefaultWindowHints(void) { E("hint").i("k", 0).i("v", 0).done(); } void glfwWindowHint(int k, int v) { E("hint").i("k", k).i("v", v).done(); }
GLFWwindow* glfwCreateWindow(int w, int h, const char* t, GLFWmonitor*, GLFWwindow*) { bool ok = g_fail != "create"; GLFWwindow* r = ok ? &g_win[++g_ids] : nullptr; if (r) r->id = g_ids; E("create").i("w", w).i("h", h).s("title", t).t("ok", ok).i("id", id(r)).done(); return r; }
void glfwDestroyWindow(GLFWwindow* w) { if (g_cur == w) g_cur = nullptr; E("destroy").i("id", id(w)).done(); }
void glfwMakeContextCurrent(GLFWwindow* w) { g_cur = w; E("current").i("id", id(w)).done(); } GLFWwindow* glfwGetCurrentContext(void) { return g_cur; }
void glfwSwapInterval(int n) { E("interval").i("n", n).done(); }
void glfwPollEvents(void) { if (g_close_plan == "poll") { g_close = true; g_close_plan = ""; E("flag").t("v", true).done(); } ev("poll"); }
void glfwSwapBuffers(GLFWwindow* w) { E("swap").i("id", id(w)).done(); }
void glfwGetFramebufferSize(GLFWwindow* w, int* x, int* y) { *x = g_fbw; *y = g_fbh; E("fb").i("id", id(w)).i("w", g_fbw).i("h", g_fbh).done(); }
int glfwWindowShouldClose(GLFWwindow* w) { E("query").i("id", id(w)).done(); return g_close ? 1 : 0; } void glfwSetWindowTitle(GLFWwindow* w, const char* t) { E("settitle").i("id", id(w)).s("title", t).done(); }
void glEnable(GLenum) { ev("gl"); } void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat) { ev("gl"); } void glClear(GLbitfield b) { ev(b & GL_COLOR_BUFFER_BIT ? "clear" : "gl"); }
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { E("viewport").i("x", x).i("y", y).i("w", w).i("h", h).done(); }
}
static bool g_im, g_ip; static ImDrawData g_dd; static ImGuiStyle g_style;
namespace ImGui {
ImGuiContext* CreateContext(ImFontAtlas*) { g_im = true; ev("imctx"); return (ImGuiContext*)&g_im; } void DestroyContext(ImGuiContext*) { g_im = false; ev("imfree"); } ImGuiContext* GetCurrentContext() { return g_im ? (ImGuiContext*)&g_im : nullptr; }
void StyleColorsDark(ImGuiStyle*) { ev("style"); } ImGuiStyle& GetStyle() { ev("style"); return g_style; }
void NewFrame() { ++g_frames; ev("newframe"); } void EndFrame() { ev("endframe"); } void Render() { g_dd.frame = g_frames; ev("render"); } ImDrawData* GetDrawData() { return &g_dd; }
}
namespace ImPlot { ImPlotContext* CreateContext() { g_ip = true; ev("ipctx"); return (ImPlotContext*)&g_ip; } void DestroyContext(ImPlotContext*) { g_ip = false; ev("ipfree"); } ImPlotContext* GetCurrentContext() { return g_ip ? (ImPlotContext*)&g_ip : nullptr; } }
bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow* w, bool) { E("plat").i("id", id(w)).done(); return true; } void ImGui_ImplGlfw_Shutdown() { ev("platoff"); } void ImGui_ImplGlfw_NewFrame() { ev("platnew"); }
bool ImGui_ImplOpenGL3_Init(const char*) { bool ok = g_fail != "render"; E("rend").t("ok", ok).done(); return ok; } void ImGui_ImplOpenGL3_Shutdown() { ev("rendoff"); } void ImGui_ImplOpenGL3_NewFrame() { ev("rendnew"); }
void ImGui_ImplOpenGL3_RenderDrawData(ImDrawData* d) { E("draw").t("mine", d == &g_dd).done(); }

static void one(long no) {
    Rng r(g_seed * 1000003u + no); E("reset").done(); g_ids = g_frames = 0; g_cur = nullptr;
    static const char* T[] = {"DSP Blocks", "", "x", "a rather long window title, longer than any small buffer a string might keep inside itself", "\xC3\xA9t\xC3\xA9"};
    for (int n = (int)r.range(1, 5); n-- > 0;) {
        g_close = false; g_close_plan = ""; g_fail = ""; if (r.chance(0.4)) { static const char* F[] = {"init", "create", "render"}; g_fail = F[r.below(3)]; }
        std::string base = std::string(T[r.below(5)]); std::string whole = base + (r.chance(0.5) ? " (and more text behind it)" : "");
        // a view need not be followed by a terminator: put it inside a longer text
        std::unique_ptr<char[]> mem(new char[whole.size() + (r.chance(0.5) ? 1 : 0) + 1]()); memcpy(mem.get(), whole.data(), whole.size()); if (whole.size() == base.size() && r.chance(0.5)) mem[whole.size()] = '!';
        std::string_view view(mem.get(), base.size()); long w = r.range(1, 2000), h = r.range(1, 1500); bool def = r.chance(0.15);
        if (def) E("make").i("w", 800).i("h", 400).s("title", "DSP Blocks").done(); else E("make").i("w", w).i("h", h).s("title", base).done();
        std::unique_ptr<cler::GuiManager> g;
        try { g.reset(def ? new cler::GuiManager() : new cler::GuiManager((int)w, (int)h, view)); } catch (const std::exception&) {}
        E("made").t("ok", g != nullptr).done(); g_fail = "";
        if (!g) continue;
        for (int f = (int)r.range(0, 6); f-- > 0;) {
            g_fbw = (int)r.range(0, 3000); g_fbh = (int)r.range(0, 2000); if (r.chance(0.2)) g_close_plan = "poll";
            if (r.chance(0.7)) { ev("ask"); bool v = g->should_close(); E("asked").t("v", v).done(); }
            ev("begin"); g->begin_frame(); ev("begun"); if (r.chance(0.3)) { ev("ask"); bool v = g->should_close(); E("asked").t("v", v).done(); }
            ev("end"); g->end_frame(); ev("ended");
            if (g_close && r.chance(0.3)) { g_close = false; E("flag").t("v", false).done(); }
        }
        ev("drop"); g.reset(); ev("gone");
    }
    E("fin").done();
}
int main(int c, char** v) { if (c < 6) return 3; g_seed = strtoull(v[5], 0, 10); return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), one, 40); }
