// Channel conformance harness. Modes: seq | conc | dfs | script.   usage: fifo MODE OUT FIRST N SEED [args]
#include "fifo_ops.hpp"
#include <memory>
#include <map>
#ifdef MRT
#include "mrt.hpp"
#endif
typedef std::complex<float> cf;
// Built in NPART parts (each instantiates a share of the element types), see bin/checks_core.py.
#ifndef KPART
#define KPART 0
#define NPART 1
#endif
extern uint64_t g_seed; extern std::string g_mode; extern std::vector<std::string> g_args; extern std::vector<std::vector<std::string>> g_scripts;
#if KPART == 0
uint64_t g_seed; std::string g_mode; std::vector<std::string> g_args; std::vector<std::vector<std::string>> g_scripts;
#endif

struct Cfg { bool dbf_type = false; const char* ty = ""; };
struct Job { // what to do with one queue object
    long id; Rng r; long req; bool exact; const char* what; std::vector<int>* dec = nullptr; std::vector<int>* wid = nullptr; bool ran = false;
};
template <class Q> static bool dm(Q& q) { if constexpr (Side<Q, int>::template requires_empty<Q>::value) return q.is_doubly_mapped(); else return q._queue.is_doubly_mapped(); }

template <class Q, class T> static void log_reset(Q& q, Job& j, size_t bytes_req, bool heap) {
    bool d = dm(q);
    E("reset").i("id", j.id).s("kind", j.what).i("esz", sizeof(T)).i("req", j.req).i("cap", (long)q.space()).t("exact", j.exact).i("vm", Codec<T>::vm)
        .t("big", heap && bytes_req >= 4096).t("dm", d).done();
}
struct Profile { std::vector<int> w, r; double big; };
static Profile profile(Rng& r, bool d, bool conc, bool mt = true) {
    Profile p; (void)conc;
    if (g_mode == "win" || g_mode == "winconc") {
        p.w = {W_PEEK}; p.r = {R_PEEK}; if (d) { p.w.push_back(W_DBF); p.r.push_back(R_DBF); if (r.chance(0.5)) { p.w = {W_DBF}; p.r = {R_DBF}; } }
        if (r.chance(0.4)) { p.w.push_back(W_TRYPUSH); p.r.push_back(R_TRYPOP); }
        if (r.chance(0.2)) { p.w.push_back(W_WRITEN); p.r.push_back(R_READN); }
        if (r.chance(0.2)) p.r.push_back(R_SIZECOMMIT);
        p.big = 0.3; return p;
    }
    for (;;) {
        p.w.clear(); p.r.clear();
        double dens = r.chance(0.5) ? 0.35 : 0.8;
        for (int i = 0; i < W_NOPS; ++i) if (r.chance(dens) && (i != W_DBF || d)) p.w.push_back(i);
        for (int i = 0; i < R_NOPS; ++i) if (r.chance(dens) && (i != R_DBF || d)) p.r.push_back(i);
        if (d && r.chance(0.5)) { p.w.push_back(W_DBF); p.r.push_back(R_DBF); }
        bool wm = false, rm = false;
        for (int o : p.w) wm |= (o == W_TRYPUSH || o == W_PUSH || o == W_PUSHMOVE || (mt && o == W_WRITEN) || o == W_PEEK || o == W_DBF);
        for (int o : p.r) rm |= (o == R_TRYPOP || o == R_POP || (mt && o == R_READN) || o == R_PEEK || o == R_DBF || o == R_SIZECOMMIT);
        if (wm && rm) { p.big = r.chance(0.3) ? 0.5 : 0.1; return p; }
    }
}
static long chunk(Rng& r, long cap, double big) { if (r.chance(big)) return r.range(0, cap + 3); return r.range(0, cap < 6 ? cap + 1 : 6); }

template <class Q, class T> static void run_seq(Q& q, Job& j, size_t br, bool heap) {
    log_reset<Q, T>(q, j, br, heap); Rng& r = j.r; long cap = (long)q.space();
    Side<Q, T> w(q, false, "w"), rd(q, false, "r"); Profile p = profile(r, dm(q), false, Codec<T>::batch);
    int ops = cap > 400 ? 60 : 90; double wp = 0.5;
    for (int i = 0; i < ops; ++i) {
        if (i % 12 == 0) wp = r.chance(0.5) ? 0.5 : r.chance(0.5) ? 0.8 : 0.2;
        if (i % 30 == 29) p = profile(r, dm(q), false, Codec<T>::batch);
        long in = w.wr - rd.rd; long n = cap > 400 && r.chance(0.5) ? r.range(cap / 3, cap + 2) : chunk(r, cap, p.big);
        if (r.chance(wp)) { int o = r.pick(p.w); if ((o == W_PUSH || o == W_PUSHMOVE) && in >= cap) o = W_TRYPUSH; w.wop(o, n, r, 1 << 30); }
        else { int o = r.pick(p.r); if (o == R_POP && in <= 0) o = R_TRYPOP; rd.rop(o, n, r, 1 << 30); }
    }
    // drain, then prove emptiness and full capacity
    for (long g = 0; g < 100000 && rd.rd < w.wr; ++g) { long before = rd.rd; rd.rop(Codec<T>::batch ? R_READN : R_TRYPOP, cap + 1, r, 0); if (rd.rd == before) break; }
    rd.rop(R_TRYPOP, 1, r, 0);
    if (cap <= 600) { for (long i = 0; i <= cap; ++i) w.wop(W_TRYPUSH, 1, r, 1 << 30); w.wop(W_SPACE, 0, r, 0);
        for (long i = 0; i <= cap; ++i) rd.rop(R_TRYPOP, 1, r, 0); }
}
// whole capacity usable, from several ring positions, by every kind of call
template <class Q, class T> static void run_sizes(Q& q, Job& j, size_t br, bool heap) {
    log_reset<Q, T>(q, j, br, heap); Rng& r = j.r; long cap = (long)q.space(); bool d = dm(q);
    Side<Q, T> w(q, false, "w"), rd(q, false, "r"); const long INF = 1L << 60;
    for (int round = 0; round < 4; ++round) {
        w.wop(W_SPACE, 0, r, 0); rd.rop(R_SIZE, 0, r, 0); rd.rop(R_EMPTY, 0, r, 0); rd.rop(R_TRYPOP, 1, r, 0);
        int m = (int)r.below(cap <= 300 ? 4 : 3); if (!Codec<T>::batch && m == 0) m = 1;
        if (m == 0) { long a = r.below(cap + 1); w.wop(W_WRITEN, a, r, INF); w.wop(W_WRITEN, cap + 5, r, INF); }
        else if (m == 1 || (m == 2 && !d)) { for (int g = 0; g < 40 && w.wr - rd.rd < cap; ++g) w.w_window(false, r, INF); w.wop(W_PEEK, 0, r, INF); }
        else if (m == 2) { for (int g = 0; g < 40 && w.wr - rd.rd < cap; ++g) w.w_window(true, r, INF); w.wop(W_DBF, 0, r, INF); }
        else for (long i = 0; i < cap; ++i) w.wop(r.chance(0.5) ? W_TRYPUSH : W_PUSH, 1, r, INF);
        if (Codec<T>::batch) w.wop(W_WRITEN, 3, r, INF);
        w.wop(W_TRYPUSH, 1, r, INF); w.wop(W_SPACE, 0, r, 0); w.wop(W_SIZE, 0, r, 0); w.wop(W_EMPTY, 0, r, 0); rd.rop(R_SIZE, 0, r, 0); rd.rop(R_EMPTY, 0, r, 0);
        // take one element: exactly one slot becomes free
        rd.rop(r.chance(0.5) ? R_TRYPOP : R_POP, 1, r, INF); w.wop(W_SPACE, 0, r, 0); w.wop(W_TRYPUSH, 1, r, INF); w.wop(W_TRYPUSH, 1, r, INF);
        long keep = round == 3 ? 0 : (long)r.below(cap + 1);
        m = (int)r.below(4);
        for (long g = 0; g < 3 * cap + 50 && w.wr - rd.rd > keep; ++g) {
            long n = w.wr - rd.rd - keep, b = rd.rd;
            if (m == 0 && Codec<T>::batch) rd.rop(R_READN, n, r, 0); else if (m == 1) rd.r_window(false, r, n); else if (m == 2 && d) rd.r_window(true, r, n); else if (cap <= 300) rd.rop(R_TRYPOP, 1, r, 0); else if (Codec<T>::batch) rd.rop(R_READN, n, r, 0); else rd.r_window(false, r, n);
            if (g > 60 && rd.rd == b) break; }
        for (long g = 0; g < 30 && w.wr - rd.rd > 0 && keep; ++g) { if (Codec<T>::batch) rd.rop(R_READN, keep, r, 0); else rd.r_window(false, r); if (w.wr - rd.rd == 0) break; }
    }
}
#ifdef MRT
template <class Q, class T> static void run_conc(Q& q, Job& j, size_t br, bool heap) {
    log_reset<Q, T>(q, j, br, heap); Rng& r = j.r; long cap = (long)q.space();
    Profile p = profile(r, dm(q), true, Codec<T>::batch); uint64_t sa = r.next(), sb = r.next();
    Side<Q, T> w0(q, false, "w"), r0(q, false, "r");
    if (r.chance(0.6) && Codec<T>::batch) { // move the indices somewhere, often just before the wrap
        long adv = r.chance(0.6) ? cap + 1 - (long)r.below(cap < 4 ? cap + 1 : 4) : (long)r.below(2 * cap);
        while (adv > 0) { long c = adv < cap ? adv : cap; long b = w0.wr; w0.wop(W_WRITEN, c, r, 1 << 30); if (w0.wr == b) break; r0.rop(R_READN, c, r, 0); adv -= c; } }
    long base = w0.wr; long target = base + (cap > 16 ? r.range(10, 24) : r.range(6, 4 * cap + 8));
    mrt::Opt o; o.seed = r.next(); static const double ps[] = {0.05, 0.2, 0.5, 0.8}; o.pswitch = ps[r.below(4)]; o.max_points = 30000; o.dfs = j.dec; o.dfs_width = j.wid;
    Side<Q, T> w(q, true, "w"), rd(q, true, "r"); w.wr = base; rd.rd = r0.rd;
    if (j.dec) { target = base + r.range(2, 3); p.big = 0.9; }
    mrt::begin(o);
    int a = mrt::spawn([&] { Rng ra(sa); while (w.wr < target) { long n = chunk(ra, cap, p.big); w.wop(ra.pick(p.w), n, ra, target - w.wr); mrt::point(); } });
    int b = mrt::spawn([&] { Rng rb(sb); while (rd.rd < target) { long n = chunk(rb, cap, p.big); rd.rop(rb.pick(p.r), n, rb, target - rd.rd); mrt::point(); } });
    mrt::join(a); mrt::join(b);
    mrt::end();
    r0.rd = rd.rd; r0.rop(R_TRYPOP, 1, r, 0); r0.rop(R_SIZE, 0, r, 0);
}
#endif
// one line of a script: w:put:3 | r:get:2 | w:window | r:commit:2 ...
template <class Q, class T> static void run_script(Q& q, Job& j, size_t br, bool heap) {
    log_reset<Q, T>(q, j, br, heap); Side<Q, T> w(q, false, "w"), rd(q, false, "r"); Rng& r = j.r;
    T *wp[2]{}; size_t ws[2]{}; const T* rp[2]{}; size_t rs[2]{}; long woff = 0, roff = 0; bool d = dm(q);
    for (auto& line : g_scripts[j.id % g_scripts.size()]) {
        char s = line[0]; size_t c2 = line.find(':', 2); std::string op = line.substr(2, c2 - 2); long n = c2 == std::string::npos ? 0 : atol(line.c_str() + c2 + 1);
        auto& S = s == 'w' ? w : rd; bool dbf = d && r.chance(0.5);
        if (s == 'w') {
            if (op == "put") { if (n == 1 && r.chance(0.5)) w.wop(W_TRYPUSH, 1, r, 1 << 30); else if (Codec<T>::batch) w.wop(W_WRITEN, n, r, 1 << 30); }
            else if (op == "bput") w.wop(r.chance(0.5) ? W_PUSH : W_PUSHMOVE, 1, r, 1 << 30);
            else if (op == "window") { int h = w.begin("window", 0); ws[0] = ws[1] = 0; size_t t; if (dbf) { auto pr = q.write_dbf(); wp[0] = pr.first; ws[0] = t = pr.second; } else t = q.peek_write(wp[0], ws[0], wp[1], ws[1]);
                w.fin(h, t == ws[0] + ws[1] ? (long)t : -2); woff = 0; }
            else if (op == "commit") { for (long i = 0; i < n; ++i) { long k = woff + i; (k < (long)ws[0] ? wp[0][k] : wp[1][k - ws[0]]) = Codec<T>::enc(w.wr + i); }
                int h = w.begin("commit", n); q.commit_write(n); w.wr += n; woff += n; w.fin(h, n); }
        } else {
            if (op == "get") { rs[0] = rs[1] = 0; if (n == 1 && r.chance(0.5)) rd.rop(R_TRYPOP, 1, r, 0); else if (Codec<T>::batch) rd.rop(R_READN, n, r, 0); }
            else if (op == "bget") { rs[0] = rs[1] = 0; roff = 0; rd.rop(R_POP, 1, r, 1 << 30); }
            else if (op == "window") { int h = rd.begin("window", 0); rs[0] = rs[1] = 0; size_t t; if (dbf) { auto pr = q.read_dbf(); rp[0] = pr.first; rs[0] = t = pr.second; } else t = q.peek_read(rp[0], rs[0], rp[1], rs[1]);
                rd.fin(h, t == rs[0] + rs[1] ? (long)t : -2); roff = 0; }
            else if (op == "look") { Runs v(Codec<T>::vm); long tot = rs[0] + rs[1]; for (long i = roff; i < tot; ++i) v.add(Codec<T>::dec(i < (long)rs[0] ? rp[0][i] : rp[1][i - rs[0]])); rd.note("look", tot > roff ? tot - roff : 0, v.str()); }
            else if (op == "commit") { int h = rd.begin("commit", n); q.commit_read(n); rd.rd += n; roff += n; rd.fin(h, n); }
        }
        if (op == "size" || op == "space") { if (s == 'r' && op == "size") { rs[0] = rs[1] = 0; roff = 0; } int h = S.begin(op.c_str(), 0); long k = op == "size" ? (long)q.size() : (long)q.space(); S.fin(h, k); }
    }
}
template <class Q, class T, class... A> static void go(Job& j, size_t br, bool heap, A... a) {
    auto qp = std::make_unique<Q>(a...); Q& q = *qp;
    if (g_mode == "seq") run_seq<Q, T>(q, j, br, heap);
    else if (g_mode == "sizes") run_sizes<Q, T>(q, j, br, heap);
    else if (g_mode == "win") run_seq<Q, T>(q, j, br, heap);
    else if (g_mode == "script") run_script<Q, T>(q, j, br, heap);
#ifdef MRT
    else run_conc<Q, T>(q, j, br, heap);
#endif
}
template <class T> static void heap(Job& j, long req, const char* what) { j.req = req; j.exact = false; j.what = what; go<cler::Channel<T>, T>(j, req * sizeof(T), true, (size_t)req); }
template <class T> static void heapq(Job& j, long req, const char* what) { j.req = req; j.exact = false; j.what = what; go<dro::SPSCQueue<T>, T>(j, req * sizeof(T), true, (size_t)req); }
template <class T, size_t N> static void stack(Job& j, const char* what) { j.req = N; j.exact = true; j.what = what; go<cler::Channel<T, N>, T>(j, N * sizeof(T), false); }
template <class T, size_t N> static void stackq(Job& j, const char* what) { j.req = N; j.exact = true; j.what = what; go<dro::SPSCQueue<T, N>, T>(j, N * sizeof(T), false); }

template <int P> static void pick_part(Job& j, const std::string& group) {
    Rng& r = j.r; long small = r.chance(0.7) ? r.range(1, 6) : r.range(7, 60);
    if (group.compare(0, 6, "script") == 0) { long kd = j.id / (long)g_scripts.size();
        switch (group[6]) {
        case '1': switch (kd % 4) { case 0: { if constexpr (1 % NPART == P) { j.ran = true; stack<int, 1>(j, "stack1"); } return; } case 1: { if constexpr (2 % NPART == P) { j.ran = true; heap<uint8_t>(j, 1, "u8"); } return; } case 2: { if constexpr (3 % NPART == P) { j.ran = true; heapq<Pod<2048>>(j, 1, "dbf2048"); } return; } default: { if constexpr (4 % NPART == P) { j.ran = true; heap<Pod<40>>(j, 1, "p40"); } return; } }
        case '2': switch (kd % 4) { case 0: { if constexpr (5 % NPART == P) { j.ran = true; stack<int, 2>(j, "stack2"); } return; } case 1: { if constexpr (6 % NPART == P) { j.ran = true; heap<uint8_t>(j, 2, "u8"); } return; } case 2: { if constexpr (7 % NPART == P) { j.ran = true; heapq<float>(j, 2, "float"); } return; } default: { if constexpr (8 % NPART == P) { j.ran = true; stackq<Pod<12>, 2>(j, "stackq2"); } return; } }
        case '3': switch (kd % 5) { case 0: { if constexpr (9 % NPART == P) { j.ran = true; stack<int, 3>(j, "stack3"); } return; } case 1: { if constexpr (10 % NPART == P) { j.ran = true; heap<cf>(j, 3, "cf"); } return; } case 2: { if constexpr (11 % NPART == P) { j.ran = true; heap<Pod<2048>>(j, 3, "dbf2048"); } return; } case 3: { if constexpr (12 % NPART == P) { j.ran = true; heap<Pod<1024>>(j, 3, "dbf1024"); } return; } default: { if constexpr (13 % NPART == P) { j.ran = true; heapq<uint8_t>(j, 3, "u8"); } return; } }
        default: switch (kd % 3) { case 0: { if constexpr (14 % NPART == P) { j.ran = true; stack<cf, 4>(j, "stack4"); } return; } case 1: { if constexpr (15 % NPART == P) { j.ran = true; heapq<double>(j, 4, "double"); } return; } default: { if constexpr (16 % NPART == P) { j.ran = true; heap<int16_t>(j, 4, "i16"); } return; } } } }
    int k = (int)r.below(group == "conc" ? 13 : 26);
    if (group == "win") { static const int ks[] = {13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25, 7, 8, 10, 2, 4, 3, 26}; k = ks[r.below(19)]; }
    if (group == "winconc") { static const int ks[] = {7, 7, 8, 8, 0, 2, 3, 5, 6, 12}; k = ks[r.below(10)]; }
    if (group == "sizes") {
        long pg = 4096 * r.range(1, 3);
        #define SZ(ES, ...) { small = r.chance(0.6) ? pg / (ES) + r.range(-3, 3) : r.chance(0.5) ? r.range(1, 40) : r.range(1, 3 * 4096 / (ES) + 4); if (small < 1) small = 1; __VA_ARGS__ return; }
        switch (r.below(16)) {
        case 0: SZ(1, if constexpr (46 % NPART == P) { j.ran = true; heap<uint8_t>(j, small, "u8"); }) case 1: SZ(2, if constexpr (47 % NPART == P) { j.ran = true; heap<int16_t>(j, small, "i16"); }) case 2: SZ(3, if constexpr (48 % NPART == P) { j.ran = true; heap<Pod<3>>(j, small, "p3"); })
        case 3: SZ(4, if constexpr (49 % NPART == P) { j.ran = true; heap<float>(j, small, "float"); }) case 4: SZ(8, if constexpr (50 % NPART == P) { j.ran = true; heapq<cf>(j, small, "cf"); }) case 5: SZ(12, if constexpr (51 % NPART == P) { j.ran = true; heap<Pod<12>>(j, small, "p12"); })
        case 6: SZ(16, if constexpr (52 % NPART == P) { j.ran = true; heap<Pod<16>>(j, small, "p16"); }) case 7: SZ(24, if constexpr (53 % NPART == P) { j.ran = true; heap<Pod<24>>(j, small, "p24"); }) case 8: SZ(32, if constexpr (54 % NPART == P) { j.ran = true; heapq<std::string>(j, small, "string"); })
        case 9: SZ(100, if constexpr (55 % NPART == P) { j.ran = true; heap<Pod<100>>(j, small, "p100"); }) case 10: SZ(1000, if constexpr (56 % NPART == P) { j.ran = true; heap<Pod<1000>>(j, small, "p1000"); }) case 11: SZ(4096, if constexpr (57 % NPART == P) { j.ran = true; heap<Pod<4096>>(j, small, "p4096"); })
        case 12: SZ(6000, if constexpr (58 % NPART == P) { j.ran = true; heapq<Pod<6000>>(j, small, "p6000"); }) case 13: { if constexpr (17 % NPART == P) { j.ran = true; stack<cf, 17>(j, "stack17"); } return; } case 14: { if constexpr (18 % NPART == P) { j.ran = true; stackq<Pod<3>, 33>(j, "stack33"); } return; }
        default: small = 2097152 / 32768 + r.range(-2, 2); { if constexpr (19 % NPART == P) { j.ran = true; heap<Pod<32768>>(j, small, "huge32k"); } return; } }
    }
    switch (k) {
    case 0: { if constexpr (20 % NPART == P) { j.ran = true; heap<int>(j, small, "int"); } return; }
    case 1: { if constexpr (21 % NPART == P) { j.ran = true; heap<uint8_t>(j, small, "u8"); } return; }
    case 2: { if constexpr (22 % NPART == P) { j.ran = true; heap<cf>(j, small, "cf"); } return; }
    case 3: { if constexpr (23 % NPART == P) { j.ran = true; heapq<std::string>(j, small, "string"); } return; }
    case 4: { if constexpr (24 % NPART == P) { j.ran = true; stack<int, 1>(j, "stack1"); } return; }
    case 5: { if constexpr (25 % NPART == P) { j.ran = true; stack<float, 4>(j, "stack4"); } return; }
    case 6: { if constexpr (26 % NPART == P) { j.ran = true; stackq<std::string, 3>(j, "stackstring"); } return; }
    case 7: { if constexpr (27 % NPART == P) { j.ran = true; heap<Pod<2048>>(j, r.range(1, 7), "dbf2048"); } return; }
    case 8: { if constexpr (28 % NPART == P) { j.ran = true; heap<Pod<1024>>(j, r.range(3, 9), "dbf1024"); } return; }
    case 9: { if constexpr (29 % NPART == P) { j.ran = true; heap<Pod<12>>(j, small, "p12"); } return; }
    case 10: { if constexpr (30 % NPART == P) { j.ran = true; heap<cf>(j, r.range(511, 516), "dbfcf"); } return; }
    case 11: { if constexpr (31 % NPART == P) { j.ran = true; heap<int>(j, r.range(1, 2), "int12"); } return; }
    case 12: { if constexpr (32 % NPART == P) { j.ran = true; heapq<Pod<24>>(j, r.range(1, 4), "p24"); } return; }
    // sequential only from here
    case 13: { if constexpr (33 % NPART == P) { j.ran = true; heap<uint8_t>(j, r.range(4095, 9000), "dbfu8"); } return; }
    case 14: { if constexpr (34 % NPART == P) { j.ran = true; heap<int>(j, r.range(1000, 3000), "dbfint"); } return; }
    case 15: { if constexpr (35 % NPART == P) { j.ran = true; heap<Pod<12>>(j, r.range(340, 1500), "dbf12"); } return; }
    case 16: { if constexpr (36 % NPART == P) { j.ran = true; heap<Pod<24>>(j, r.range(170, 700), "dbf24"); } return; }
    case 17: { if constexpr (37 % NPART == P) { j.ran = true; heap<Pod<40>>(j, r.range(100, 500), "dbf40"); } return; }
    case 18: { if constexpr (38 % NPART == P) { j.ran = true; heap<Pod<3>>(j, r.range(1300, 5000), "dbf3"); } return; }
    case 19: { if constexpr (39 % NPART == P) { j.ran = true; heap<Pod<1000>>(j, r.range(4, 30), "dbf1000"); } return; }
    case 20: { if constexpr (40 % NPART == P) { j.ran = true; heap<Pod<4096>>(j, r.range(1, 6), "dbf4096"); } return; }
    case 21: { if constexpr (41 % NPART == P) { j.ran = true; heap<Pod<32768>>(j, r.range(60, 80), "huge32k"); } return; }    // around and beyond 2 MB
    case 22: { if constexpr (42 % NPART == P) { j.ran = true; heap<Pod<4096>>(j, r.range(505, 620), "huge4k"); } return; }
    case 23: { if constexpr (43 % NPART == P) { j.ran = true; heap<double>(j, r.range(500, 1100), "dbfd"); } return; }
    case 24: { if constexpr (44 % NPART == P) { j.ran = true; stack<Pod<24>, 64>(j, "stack64"); } return; }
    case 26: { if constexpr (2 % NPART == P) { j.ran = true; heapq<std::string>(j, r.range(120, 400), "bigstring"); } return; }
    default: { if constexpr (45 % NPART == P) { j.ran = true; heap<Pod<6000>>(j, r.range(1, 3), "dbf6000"); } return; }
    }
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
bool CAT(run_part, KPART)(Job& j, const std::string& group) { pick_part<KPART>(j, group); return j.ran; }
#if KPART == 0
bool run_part1(Job&, const std::string&); bool run_part2(Job&, const std::string&); bool run_part3(Job&, const std::string&);
static void pick_and_run(Job& j, const std::string& group) {
    { Job k = j; if (run_part0(k, group)) return; }
#if NPART > 1
    { Job k = j; if (run_part1(k, group)) return; } { Job k = j; if (run_part2(k, group)) return; } { Job k = j; if (run_part3(k, group)) return; }
#endif
}
int main(int c, char** v) {
    g_mode = v[1]; long first = atol(v[3]), n = atol(v[4]); g_seed = strtoull(v[5], 0, 10); for (int i = 6; i < c; ++i) g_args.push_back(v[i]);
    if (g_mode == "script") { FILE* f = fopen(g_args[1].c_str(), "r"); char b[65536]; while (fgets(b, sizeof b, f)) { std::vector<std::string> s; for (char* t = strtok(b, " \n"); t; t = strtok(nullptr, " \n")) s.push_back(t); g_scripts.push_back(s); } fclose(f); }
    return vlog::run_isolated(v[2], first, n, [&](long id) {
        Job j{id, Rng(g_seed * 1000003 + id), 0, false, ""};
        if (g_mode == "script") { pick_and_run(j, g_args[0]); return; }
#ifdef MRT
        if (g_mode == "dfs") { std::vector<int> dec, wid; long budget = g_args.size() ? atol(g_args[0].c_str()) : 200;
            do { Job k{id, Rng(g_seed * 1000003 + id), 0, false, ""}; k.dec = &dec; k.wid = &wid; pick_and_run(k, "conc"); vlog::flush_trace(); } while (--budget > 0 && mrt::step_dfs(dec, wid)); return; }
        if (g_mode == "conc" || g_mode == "winconc") { pick_and_run(j, g_mode); return; }
#endif
        pick_and_run(j, g_mode);
    }, g_mode == "conc" || g_mode == "winconc" || g_mode == "dfs" ? 40 : 8);
}
#endif
