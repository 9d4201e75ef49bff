// Sample encoding and a uniform view of the repository's blocks for the block harnesses.
#pragma once
#include "cler.hpp"
#include "vlog.hpp"
#include <cmath>
#include <deque>
#include <memory>
#include <thread>
using vlog::E; using vlog::Rng;
typedef cler::Result<cler::Empty, cler::Error> Res;
typedef std::vector<long> Sm;            // one sample: [v] or [re, im]
static const long BADV = -999999;
static inline const char* ename(const Res& r0) { Res r = r0; if (r.is_ok()) return "OK"; switch (r.unwrap_err()) {
    case cler::Error::NotEnoughSamples: return "NES"; case cler::Error::NotEnoughSpace: return "NESP"; case cler::Error::NotEnoughSpaceOrSamples: return "NESOS";
    case cler::Error::TERM_IOError: return "TERM_IO"; case cler::Error::ProcedureError: return "PROC"; case cler::Error::TERM_EOFReached: return "TERM_EOF"; case cler::Error::BadData: return "BAD"; default: return cler::is_fatal(r.unwrap_err()) ? "TERM" : "ERR"; } }

template <size_t S> struct Big { // S bytes whose padding is a function of the value
    int v; unsigned char p[S - 4];
    Big(int x = 0) { set(x); }
    void set(int x) { v = x; for (size_t i = 0; i < S - 4; i += (S > 64 ? 61 : 1)) p[i] = (unsigned char)(x * 31 + i); }
    bool ok() const { for (size_t i = 0; i < S - 4; i += (S > 64 ? 61 : 1)) if (p[i] != (unsigned char)(v * 31 + i)) return false; return true; }
    Big& operator+=(const Big& o) { if (ok() && o.ok()) set(v + o.v); else v = BADV; return *this; }
    friend Big operator*(const Big& a, const Big& b) { return a.ok() && b.ok() ? Big(a.v * b.v) : Big(BADV); }
    friend Big operator+(const Big& a, const Big& b) { Big c = a; c += b; return c; }
};
static inline long rnd(double v, double tol = 0.05) { double r = std::nearbyint(v); return std::isfinite(v) && std::fabs(v - r) <= tol && std::fabs(r) < 1e9 ? (long)r : BADV; }
template <class T> struct Cod { static constexpr bool cx = false; static T enc(const Sm& s) { return (T)s[0]; } static Sm dec(const T& t) { return {rnd((double)t)}; } };
template <class F> struct Cod<std::complex<F>> { static constexpr bool cx = true; static std::complex<F> enc(const Sm& s) { return {(F)s[0], (F)s[1]}; } static Sm dec(const std::complex<F>& t) { return {rnd(t.real()), rnd(t.imag())}; } };
template <size_t S> struct Cod<Big<S>> { static constexpr bool cx = false; static Big<S> enc(const Sm& s) { return Big<S>((int)s[0]); } static Sm dec(const Big<S>& b) { return {b.ok() ? b.v : BADV}; } };

static inline std::string jsm(const std::vector<Sm>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; if (v[i].size() == 1) s += std::to_string(v[i][0]); else { s += "["; for (size_t k = 0; k < v[i].size(); ++k) s += (k ? "," : "") + std::to_string(v[i][k]); s += "]"; } } return s + "]"; }

struct Port { // one channel, type-erased; how: which API to use
    virtual ~Port() {}
    virtual size_t size() = 0; virtual size_t space() = 0; virtual bool dbf() = 0;
    virtual size_t put(const std::vector<Sm>& v, size_t from, int how) = 0;   // returns number written
    virtual std::vector<Sm> get(size_t n, int how, double scale) = 0;
    virtual void* raw() = 0;
};
template <class T> struct PortT : Port {
    cler::ChannelBase<T>* c; bool d;
    PortT(cler::ChannelBase<T>* c_, bool d_) : c(c_), d(d_) {}
    size_t size() override { return c->size(); } size_t space() override { return c->space(); } bool dbf() override { return d; } void* raw() override { return c; }
    size_t put(const std::vector<Sm>& v, size_t from, int how) override {
        size_t n = v.size() - from; if (!n) return 0;
        if (how == 0) { size_t k = 0; while (k < n && c->try_push(Cod<T>::enc(v[from + k]))) ++k; return k; }
        if (how == 1 && d) { auto [p, s] = c->write_dbf(); size_t k = std::min(n, (size_t)s); for (size_t i = 0; i < k; ++i) p[i] = Cod<T>::enc(v[from + i]); c->commit_write(k); return k; }
        if (how == 2) { T *a, *b; size_t x, y; size_t k = std::min(n, c->peek_write(a, x, b, y)); for (size_t i = 0; i < k; ++i) (i < x ? a[i] : b[i - x]) = Cod<T>::enc(v[from + i]); c->commit_write(k); return k; }
        std::vector<T> t; for (size_t i = from; i < v.size(); ++i) t.push_back(Cod<T>::enc(v[i])); return c->writeN(t.data(), n);
    }
    static Sm dec(const T& t, double scale) { if constexpr (std::is_floating_point_v<T>) { if (scale != 1.0) return {rnd((double)t * scale, 0.6)}; } return Cod<T>::dec(t); }
    std::vector<Sm> get(size_t n, int how, double scale) override {
        std::vector<Sm> r; if (!n) return r;
        if (how == 0) { T t; while (r.size() < n && c->try_pop(t)) r.push_back(dec(t, scale)); return r; }
        if (how == 1 && d) { auto [p, s] = c->read_dbf(); size_t k = std::min(n, (size_t)s); for (size_t i = 0; i < k; ++i) r.push_back(dec(p[i], scale)); c->commit_read(k); return r; }
        if (how == 2) { const T *a, *b; size_t x, y; size_t k = std::min(n, c->peek_read(a, x, b, y)); for (size_t i = 0; i < k; ++i) r.push_back(dec(i < x ? a[i] : b[i - x], scale)); c->commit_read(k); return r; }
        std::vector<T> t(n); n = c->readN(t.data(), n); for (size_t i = 0; i < n; ++i) r.push_back(dec(t[i], scale)); return r;
    }
};
template <class T> struct Outs { // output channels of one type
    std::vector<std::unique_ptr<cler::ChannelBase<T>>> ch; std::vector<bool> d;
    cler::ChannelBase<T>* make(Rng& r, bool need_dbf, size_t small) {
        size_t mn = 4096 / sizeof(T) > 0 ? 4096 / sizeof(T) : 1; int k = (int)r.below(4);
        if (need_dbf || k == 0) { size_t n = mn + (r.chance(0.2) ? r.below(2 * mn + 2) : 0); auto c = std::make_unique<cler::Channel<T>>(n); d.push_back(c->_queue.is_doubly_mapped()); ch.push_back(std::move(c)); }
        else if (k == 1) { ch.push_back(std::make_unique<cler::Channel<T, 3>>()); d.push_back(false); }
        else if (k == 2) { ch.push_back(std::make_unique<cler::Channel<T, 8>>()); d.push_back(false); }
        else { ch.push_back(std::make_unique<cler::Channel<T>>(1 + r.below(small ? small : 1))); d.push_back(static_cast<cler::Channel<T>*>(ch.back().get())->_queue.is_doubly_mapped()); }
        return ch.back().get();
    }
    Port* port(size_t i) { return new PortT<T>(ch[i].get(), d[i]); }
};
