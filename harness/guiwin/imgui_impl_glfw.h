#pragma once
#include "imgui.h"
struct GLFWwindow;
bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow*, bool); void ImGui_ImplGlfw_Shutdown(); void ImGui_ImplGlfw_NewFrame();
