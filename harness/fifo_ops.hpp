// Drives one side of a channel and logs every call. Works on cler::Channel and dro::SPSCQueue.
#pragma once
#include "cler.hpp"
#include "vlog.hpp"
#include <string>
using vlog::E; using vlog::Rng;

template <size_t S> struct Pod { unsigned char b[S]; };
template <class T> struct Codec { // trivially copyable: value in the first bytes, rest a function of it
    static constexpr long vm = sizeof(T) == 1 ? 251 : sizeof(T) < 4 ? 65521 : 1000003;
    static T enc(long i) {
        T t; unsigned char* p = (unsigned char*)&t; unsigned v = (unsigned)(i % vm);
        for (size_t k = 0; k < sizeof(T); ++k) p[k] = k < 4 ? (unsigned char)(v >> (8 * k)) : (unsigned char)(v * 31 + k * 7 + 1);
        return t;
    }
    static long dec(const T& t) {
        const unsigned char* p = (const unsigned char*)&t; unsigned v = 0;
        for (size_t k = 0; k < sizeof(T) && k < 4; ++k) v |= (unsigned)p[k] << (8 * k);
        for (size_t k = 4; k < sizeof(T); ++k) if (p[k] != (unsigned char)(v * 31 + k * 7 + 1)) return -1;
        return (long)v < vm ? (long)v : -1;
    }
    static T junk(long i) { T t; memset((void*)&t, 0xA0 + (int)(i & 15), sizeof t); return t; }
    static constexpr bool batch = true;
};
template <> struct Codec<float> {
    static constexpr long vm = 1000003;
    static float enc(long i) { return (float)(i % vm); }
    static long dec(float f) { long v = (long)f; return (float)v == f && v >= 0 && v < vm ? v : -1; }
    static float junk(long) { return -7.5f; }
    static constexpr bool batch = true;
};
template <> struct Codec<std::string> {
    static constexpr long vm = 1000003;
    static std::string enc(long i) { return "value-with-heap-storage-" + std::to_string(i % vm); }
    static long dec(const std::string& s) { if (s.compare(0, 24, "value-with-heap-storage-")) return -1; return atol(s.c_str() + 24); }
    static std::string junk(long) { return "junk-junk-junk-junk-junk-junk"; }
    static constexpr bool batch = false;
};

struct Runs { // maximal runs of consecutive values (mod vm); -1 = undecodable
    std::string s; long st = 0, len = 0, vm; bool any = false;
    explicit Runs(long m) : vm(m) {}
    void emit() { if (len) { if (any) s += ","; any = true; s += "[" + std::to_string(st) + "," + std::to_string(len) + "]"; } len = 0; }
    void add(long v) { if (len && v >= 0 && st >= 0 && v == (st + len) % vm) { ++len; return; } emit(); st = v; len = 1; }
    std::string str() { emit(); return "[" + s + "]"; }
};

enum WOp { W_PUSH, W_TRYPUSH, W_WRITEN, W_PEEK, W_DBF, W_SIZE, W_SPACE, W_EMPTY, W_PUSHMOVE, W_NOPS };
enum ROp { R_POP, R_TRYPOP, R_READN, R_PEEK, R_DBF, R_SIZE, R_SPACE, R_EMPTY, R_SIZECOMMIT, R_NOPS };

// conc: log call/return pairs; otherwise one "op" event per call
template <class Q, class T> struct Side {
    Q& q; bool conc; const char* s; long wr = 0, rd = 0; // wr: values this writer published
    bool has_empty_api = false;
    Side(Q& q_, bool c, const char* s_) : q(q_), conc(c), s(s_) {}
    int begin(const char* op, long n) {
        if (!conc) return vlog::add_pending(E("op").s("s", s).s("op", op).i("n", n).b, ",\"k\":-1,\"v\":[],\"unfinished\":1");
        return vlog::add_pending(E("call").s("s", s).s("op", op).i("n", n).b, ",\"k\":-1,\"v\":[]");
    }
    void fin(int h, long k, const std::string& v = "[]") {
        vlog::patch(h, ",\"k\":" + std::to_string(k) + ",\"v\":" + v);
        if (conc) E("ret").s("s", s).done();
    }
    void note(const char* op, long k, const std::string& v = "[]") { // no shared index involved: one event
        if (conc) { int h = begin(op, k); fin(h, k, v); } else E("op").s("s", s).s("op", op).i("n", k).i("k", k).raw("v", v).done();
    }
    // ---------------- writer
    void w_window(bool dbf, Rng& r, long limit) {
        int h = begin("window", 0);
        T *p1 = nullptr, *p2 = nullptr; size_t s1 = 0, s2 = 0; size_t tot;
        if (dbf) { auto pr = q.write_dbf(); p1 = pr.first; s1 = pr.second; tot = s1; }
        else tot = q.peek_write(p1, s1, p2, s2);
        fin(h, (long)tot == (long)(s1 + s2) && (tot == 0 || p1) && (s2 == 0 || p2) ? (long)tot : -2);
        long use = (long)tot; if (use > limit) use = limit;
        // scribble over the whole window first: free slots must not alias unread data
        long scr = r.chance(0.5) ? (long)tot : 0;
        for (long i = 0; i < scr; ++i) (i < (long)s1 ? p1[i] : p2[i - s1]) = Codec<T>::junk(i);
        if (scr) note("scribble", scr);
        long parts = r.chance(0.2) ? 2 : 1, off = 0;
        while (parts-- > 0) {
            long c = r.chance(0.5) ? use - off : (long)r.below(use - off + 1);
            for (long i = off; i < off + c; ++i) (i < (long)s1 ? p1[i] : p2[i - s1]) = Codec<T>::enc(wr + (i - off));
            int g = begin("commit", c); q.commit_write(c); wr += c; fin(g, c); off += c;
        }
    }
    void wop(int op, long n, Rng& r, long limit) { // limit: values that may still be published
        if (n > limit) n = limit;
        switch (op) {
        case W_PUSH: if (limit < 1) return; { T v = Codec<T>::enc(wr); int h = begin("bput", 1); q.push(v); ++wr; fin(h, 1); } break;
        case W_PUSHMOVE: if (limit < 1) return; { int h = begin("bput", 1); T v = Codec<T>::enc(wr); q.push(std::move(v)); ++wr; fin(h, 1); } break;
        case W_TRYPUSH: if (limit < 1) return; { T v = Codec<T>::enc(wr); int h = begin("put", 1); bool ok = q.try_push(v); if (ok) ++wr; fin(h, ok ? 1 : 0); } break;
        case W_WRITEN: if constexpr (Codec<T>::batch) { std::vector<T> b; for (long i = 0; i < n; ++i) b.push_back(Codec<T>::enc(wr + i)); b.push_back(Codec<T>::junk(3));
            int h = begin("put", n); size_t k = q.writeN(b.data(), n); wr += (long)k <= n ? (long)k : 0; fin(h, (long)k); } break;
        case W_PEEK: w_window(false, r, limit); break;
        case W_DBF: w_window(true, r, limit); break;
        case W_SIZE: { int h = begin("size", 0); size_t k = q.size(); fin(h, (long)k); } break;
        case W_SPACE: { int h = begin("space", 0); size_t k = q.space(); fin(h, (long)k); } break;
        case W_EMPTY: if constexpr (requires_empty<Q>::value) { int h = begin("empty", 0); bool k = q.empty(); fin(h, k); } break;
        }
    }
    template <class X, class = void> struct requires_empty : std::false_type {};
    template <class X> struct requires_empty<X, std::void_t<decltype(std::declval<X&>().empty())>> : std::true_type {};
    // ---------------- reader
    void r_window(bool dbf, Rng& r, long most = 1L << 60) {
        int h = begin("window", 0);
        const T *p1 = nullptr, *p2 = nullptr; size_t s1 = 0, s2 = 0, tot;
        if (dbf) { auto pr = q.read_dbf(); p1 = pr.first; s1 = pr.second; tot = s1; }
        else tot = q.peek_read(p1, s1, p2, s2);
        fin(h, (long)tot == (long)(s1 + s2) && (tot == 0 || p1) && (s2 == 0 || p2) ? (long)tot : -2);
        long off = 0, parts = r.chance(0.2) ? 2 : 1;
        while (parts-- > 0) {
            Runs v(Codec<T>::vm); long c0 = off;
            for (long i = c0; i < (long)tot; ++i) v.add(Codec<T>::dec(i < (long)s1 ? p1[i] : p2[i - s1]));
            note("look", (long)tot - c0, v.str());
            long c = r.chance(0.5) ? (long)tot - off : (long)r.below(tot - off + 1); if (c > most) c = most; most -= c;
            int g = begin("commit", c); q.commit_read(c); rd += c; fin(g, c); off += c;
        }
    }
    void rop(int op, long n, Rng& r, long limit) { // limit: values that will still be delivered (for blocking pop)
        switch (op) {
        case R_POP: if (limit < 1) return; { T v{}; int h = begin("bget", 1); q.pop(v); ++rd; Runs x(Codec<T>::vm); x.add(Codec<T>::dec(v)); fin(h, 1, x.str()); } break;
        case R_TRYPOP: { T v{}; int h = begin("get", 1); bool ok = q.try_pop(v); Runs x(Codec<T>::vm); if (ok) { ++rd; x.add(Codec<T>::dec(v)); } fin(h, ok, x.str()); } break;
        case R_READN: if constexpr (Codec<T>::batch) { std::vector<T> b(n + 2, Codec<T>::junk(1)); int h = begin("get", n); size_t k = q.readN(b.data() + 1, n);
            Runs x(Codec<T>::vm); for (long i = 0; i < (long)k && i < n; ++i) x.add(Codec<T>::dec(b[1 + i])); rd += (long)k; fin(h, (long)k, x.str()); } break;
        case R_PEEK: r_window(false, r); break;
        case R_DBF: r_window(true, r); break;
        case R_SIZE: { int h = begin("size", 0); size_t k = q.size(); fin(h, (long)k); } break;
        case R_SPACE: { int h = begin("space", 0); size_t k = q.space(); fin(h, (long)k); } break;
        case R_EMPTY: if constexpr (requires_empty<Q>::value) { int h = begin("empty", 0); bool k = q.empty(); fin(h, k); } break;
        case R_SIZECOMMIT: { int h = begin("size", 0); size_t k = q.size(); fin(h, (long)k); long c = r.chance(0.7) ? (long)k : (long)r.below(k + 1);
            int g = begin("commit", c); q.commit_read(c); rd += c; fin(g, c); } break;
        }
    }
};
