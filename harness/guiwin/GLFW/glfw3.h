// Stand-in for GLFW and OpenGL: every call is recorded, failures come from the harness's plan.
#pragma once
struct GLFWwindow; struct GLFWmonitor; typedef void (*GLFWerrorfun)(int, const char*);
#define GLFW_TRUE 1
#define GLFW_FALSE 0
#define GLFW_VISIBLE 0x00020004
#define GLFW_RESIZABLE 0x00020003
#define GLFW_SAMPLES 0x0002100D
#define GLFW_CONTEXT_VERSION_MAJOR 0x00022002
#define GLFW_CONTEXT_VERSION_MINOR 0x00022003
#define GLFW_OPENGL_FORWARD_COMPAT 0x00022006
#define GLFW_OPENGL_PROFILE 0x00022008
#define GLFW_OPENGL_CORE_PROFILE 0x00032001
#define GL_MULTISAMPLE 0x809D
#define GL_COLOR_BUFFER_BIT 0x00004000
#define GL_DEPTH_BUFFER_BIT 0x00000100
typedef unsigned int GLenum; typedef unsigned int GLbitfield; typedef float GLfloat; typedef int GLint; typedef int GLsizei;
extern "C" {
int glfwInit(void); void glfwTerminate(void); GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun); int glfwGetError(const char**);
void glfwWindowHint(int, int); void glfwDefaultWindowHints(void);
GLFWwindow* glfwCreateWindow(int, int, const char*, GLFWmonitor*, GLFWwindow*); void glfwDestroyWindow(GLFWwindow*);
void glfwMakeContextCurrent(GLFWwindow*); GLFWwindow* glfwGetCurrentContext(void); void glfwSwapInterval(int);
void glfwPollEvents(void); void glfwSwapBuffers(GLFWwindow*); void glfwGetFramebufferSize(GLFWwindow*, int*, int*);
int glfwWindowShouldClose(GLFWwindow*); void glfwSetWindowTitle(GLFWwindow*, const char*);
void glEnable(GLenum); void glViewport(GLint, GLint, GLsizei, GLsizei); void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat); void glClear(GLbitfield);
}
