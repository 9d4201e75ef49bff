// Event log, crash capture and process isolation shared by all harnesses.
// Compiled without instrumentation (vlog.cpp); the header only declares and builds strings.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>
#include <complex>
#include <cstring>

namespace vlog {
int  add(const std::string& body);              // body: "\"e\":\"x\",..." without braces
int  add_pending(const std::string& body, const std::string& deftail); // deftail is used if never patched
void patch(int idx, const std::string& extra);  // append ",..." to an earlier event
size_t count();
void flush_trace();                              // write + clear
// Runs fn(i) for i in [first, first+n) in forked children, one JSON log file.
// A crash/hang inside fn(i) appends an event {"e":"crash"|"hang"} to that trace and moves on.
int  run_isolated(const char* outfile, long first, long n, const std::function<void(long)>& fn,
                  int per_trace_timeout_s = 20, long traces_per_child = 1L << 40);
[[noreturn]] void die(const char* ev);           // log ev, flush, _exit: ends this trace

struct E {
    std::string b;
    explicit E(const char* name);
    ~E(); E(const E&) = delete;
    E& key(const char* k);
    E& i(const char* k, long long v);
    E& t(const char* k, bool v);
    E& s(const char* k, const std::string& v);
    E& raw(const char* k, const std::string& v);
    template <class V> E& a(const char* k, const V& v) { std::vector<long long> t; for (auto x : v) t.push_back((long long)x); return ints(k, t); }
    template <class V> E& sa(const char* k, const V& v) { std::vector<std::string> t; for (auto& x : v) t.push_back(std::string(x)); return strs(k, t); }
    E& ints(const char* k, const std::vector<long long>& v);
    E& strs(const char* k, const std::vector<std::string>& v);
    int done();
};

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { s = next() ^ 0x1234567; next(); }   // neighbouring seeds give unrelated streams
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
};
inline std::string hexf(float f) { uint32_t u; std::memcpy(&u, &f, 4); char c[12]; snprintf(c, 12, "%08x", u); return c; }
inline std::string hexc(std::complex<float> z) { return hexf(z.real()) + hexf(z.imag()); }
}
