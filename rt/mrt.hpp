// Controlled scheduler + C++11 happens-before checker, driven by -fsanitize=thread callbacks.
#pragma once
#include "vlog.hpp"
namespace mrt {
struct Opt {
    uint64_t seed = 1;
    double pswitch = 0.3;          // random mode: probability of switching at a scheduling point
    std::vector<int>* dfs = nullptr; // DFS mode: decisions to replay, extended in place
    std::vector<int>* dfs_width = nullptr; // width of each decision
    int preempt_bound = 2;
    long max_points = 200000;      // more: event "stuck", trace ends
    bool detect_races = true;
    bool clock_point = false;
    long long oversleep_max = 0; double oversleep_p = 0.5; // sleeps take up to this much longer
};
void begin(const Opt&);            // caller becomes task 0
void end();                        // requires every other task finished or not joined: they are dropped
bool active();
int  spawn(std::function<void()> f);
void join(int t);
bool done(int t);
void point();                      // scheduling point
void yield();                      // voluntary: other tasks go first
void sleep_ns(long long ns);
long long now_ns();
int  self();
long points();
long long overslept(); long sleeps(); // totals since begin
bool step_dfs(std::vector<int>& dec, std::vector<int>& width); // next DFS vector; false when exhausted
void forget(const void* p, size_t n); // drop shadow of a range
extern void (*hook_new)(void*, size_t); extern bool (*hook_del)(void*); // see allocations; true: the harness keeps the memory
struct Ignore { Ignore(); ~Ignore(); };
}
#define MRT_NOSAN __attribute__((no_sanitize("thread")))
