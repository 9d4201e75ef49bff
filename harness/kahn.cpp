// Real flowgraphs of real blocks under the controlled scheduler; logs what reaches the sinks (C12).
// usage: kahn MODE OUT FIRST N SEED
#include "blk.hpp"
#include "mrt.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include "desktop_blocks/math/add.hpp"
#include "desktop_blocks/math/gain.hpp"
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/utils/throttle.hpp"
#include "desktop_blocks/utils/throughput.hpp"
static uint64_t g_seed; static std::string g_mode;
struct World { Rng r{1}; std::vector<long> got; std::vector<std::string> nodes; std::vector<long> sinks; };
static World* W;
static long srcval(long i, long n) { return (n * (3 + 2 * i) + n / 8) % 97; }
static long rn(long a, long b) { mrt::Ignore ig; return W->r.range(a, b); }
template <class T> struct Src : cler::BlockBase { long i, n = 0; Src(long i_) : cler::BlockBase("src"), i(i_) {}
    Res procedure(cler::ChannelBase<T>* o) { PortT<T> p(o, false); size_t sp = o->space(); if (!sp) return cler::Error::NotEnoughSpace; size_t k = 1 + rn(0, std::min<long>(sp - 1, rn(0, 1) ? 400 : 3)); std::vector<Sm> v; for (size_t j = 0; j < k; ++j) v.push_back({srcval(i, n + j + 1)});
        static const int hows[] = {0, 2, 3}; size_t w = p.put(v, 0, hows[rn(0, 2)]); n += w; return cler::Empty{}; } };
template <class T> struct Dec : cler::BlockBase { cler::Channel<T> in; long k, ph = 0; Dec(long k_, size_t b) : cler::BlockBase("dec"), in(b), k(k_) {}
    Res procedure(cler::ChannelBase<T>* o) { if (!in.size()) return cler::Error::NotEnoughSamples; if (ph == 0 && !o->space()) return cler::Error::NotEnoughSpace; T t; in.pop(t); if (ph == 0) o->push(t); ph = (ph + 1) % k; return cler::Empty{}; } };
template <class T> struct Exp : cler::BlockBase { cler::Channel<T> in; long k, ph = 0; Exp(long k_, size_t b) : cler::BlockBase("exp"), in(b), k(k_) {}
    Res procedure(cler::ChannelBase<T>* o) { if (!o->space()) return cler::Error::NotEnoughSpace; const T *a, *b; size_t x, y; if (!in.peek_read(a, x, b, y)) return cler::Error::NotEnoughSamples; o->push(a[0]); if (++ph == k) { ph = 0; in.commit_read(1); } return cler::Empty{}; } };
template <class T> struct Snk : cler::BlockBase { cler::Channel<T> in; int k; Snk(int k_, size_t b) : cler::BlockBase("snk"), in(b), k(k_) {}
    Res procedure() { PortT<T> p(&in, in._queue.is_doubly_mapped()); size_t n = in.size(); if (!n) return cler::Error::NotEnoughSamples; size_t m = rn(0, 2) ? n : 1 + rn(0, n - 1); auto v = p.get(m, (int)rn(0, 3), 1.0); mrt::Ignore ig; if (!v.empty()) E("got").i("k", k + 1).raw("v", jsm(v)).done(); W->got[k] += v.size(); return cler::Empty{}; } };

struct Net { virtual ~Net() {} virtual void run(const cler::FlowGraphConfig&) = 0; virtual void run_for(long us, const cler::FlowGraphConfig&) = 0; virtual void stop() = 0; };
template <class... R> struct NetT : Net { cler::FlowGraph<cler::DesktopTaskPolicy, R...> fg; NetT(R... r) : fg(r...) {}
    void run(const cler::FlowGraphConfig& c) override { fg.run(c); } void run_for(long us, const cler::FlowGraphConfig& c) override { fg.run_for(std::chrono::microseconds(us), c); } void stop() override { fg.stop(); } };
template <class... R> static Net* net(R... r) { return new NetT<R...>(r...); }
// node descriptions: {k, a (parameter), in: [node indices]}
static int node(const char* k, long a, std::vector<long> in) { E e("x"); e.b.clear(); std::string s = "{\"k\":\"" + std::string(k) + "\",\"a\":" + std::to_string(a) + ",\"in\":["; for (size_t i = 0; i < in.size(); ++i) s += (i ? "," : "") + std::to_string(in[i]); W->nodes.push_back(s + "]}"); return (int)W->nodes.size(); }
static int sink(int n) { W->sinks.push_back(n); W->got.push_back(0); return (int)W->got.size() - 1; }
template <class T> struct Topo {
    std::vector<std::shared_ptr<void>> keep; Rng& r; size_t mn = 4096 / sizeof(T) ? 4096 / sizeof(T) : 1;
    Topo(Rng& r_) : r(r_) {}
    template <class B, class... A> B* mk(A... a) { auto p = std::make_shared<B>(a...); keep.push_back(p); return p.get(); }
    size_t dz() { return r.chance(0.5) ? mn : mn + r.below(mn + 2); }   // doubly mapped
    size_t dz0() { return r.chance(0.3) ? 0 : dz(); }
    size_t az() { return r.chance(0.5) ? 1 + r.below(6) : dz(); }       // any
    long g() { static const long v[] = {-3, -2, -1, 2, 3, 1}; return v[r.below(6)]; }
    Src<T>* src(long& n) { long i = W->nodes.size(); auto* b = mk<Src<T>>(i); n = node("src", i, {}); return b; }
    GainBlock<T>* gain(long& n, bool d) { long a = g(); auto* b = mk<GainBlock<T>>("gain", T((int)a), d ? dz0() : az()); n = node("gain", a, {n}); return b; }
    ThroughputBlock<T>* thr(long& n) { auto* b = mk<ThroughputBlock<T>>(std::string("thr"), dz0()); n = node("same", 0, {n}); return b; }
    ThrottleBlock<T>* throttle(long& n, bool d) { auto* b = mk<ThrottleBlock<T>>("throttle", (size_t)10000000, d ? dz() : az()); n = node("same", 0, {n}); return b; }
    FanoutBlock<T>* fan(long& n, size_t k) { auto* b = mk<FanoutBlock<T>>("fan", k, dz0()); n = node("same", 0, {n}); return b; }
    AddBlock<T>* add(long& n, std::vector<long> in) { auto* b = mk<AddBlock<T>>("add", in.size(), dz0()); n = node("add", 0, in); return b; }
    Dec<T>* dec(long& n, bool d) { long k = 2 + r.below(2); auto* b = mk<Dec<T>>(k, d ? dz() : az()); n = node("dec", k, {n}); return b; }
    Exp<T>* exp(long& n, bool d) { long k = 2 + r.below(2); auto* b = mk<Exp<T>>(k, d ? dz() : az()); n = node("exp", k, {n}); return b; }
    Snk<T>* snk(long n, bool d) { return mk<Snk<T>>(sink(n), d ? dz() : az()); }
    Net* make(int t) {
        using cler::BlockRunner; long a, b, c, d, e, f;
        switch (t) {
        case 0: { auto* s = src(a); auto* g1 = gain(a, false); auto* h = thr(a); auto* k = snk(a, true); return net(BlockRunner(s, &g1->in), BlockRunner(g1, &h->in), BlockRunner(h, &k->in), BlockRunner(k)); }
        case 1: { auto* s = src(a); auto* fo = fan(a, 2); b = c = a; auto* g1 = gain(b, true); auto* g2 = gain(c, true); auto* ad = add(d, {b, c}); auto* k = snk(d, true);
            return net(BlockRunner(s, &fo->in), BlockRunner(fo, &g1->in, &g2->in), BlockRunner(g1, &ad->in[0]), BlockRunner(g2, &ad->in[1]), BlockRunner(ad, &k->in), BlockRunner(k)); }
        case 2: { auto* s1 = src(a); auto* s2 = src(b); auto* s3 = src(c); auto* ad = add(d, {a, b, c}); auto* fo = fan(d, 2); auto* k1 = snk(d, true); e = d; auto* g1 = gain(e, true); auto* k2 = snk(e, false);
            return net(BlockRunner(s1, &ad->in[0]), BlockRunner(s2, &ad->in[1]), BlockRunner(s3, &ad->in[2]), BlockRunner(ad, &fo->in), BlockRunner(fo, &k1->in, &g1->in), BlockRunner(g1, &k2->in), BlockRunner(k1), BlockRunner(k2)); }
        case 3: { auto* s = src(a); auto* fo = fan(a, 3); b = c = d = a; auto* h = thr(b); auto* g1 = gain(c, true); auto* g2 = gain(d, true); auto* g3 = gain(d, false); auto* ad = add(e, {b, c, d}); auto* f2 = fan(e, 2); auto* k1 = snk(e, true); f = e; auto* tt = throttle(f, true); auto* k2 = snk(f, false);
            return net(BlockRunner(s, &fo->in), BlockRunner(fo, &h->in, &g1->in, &g2->in), BlockRunner(h, &ad->in[0]), BlockRunner(g1, &ad->in[1]), BlockRunner(g2, &g3->in), BlockRunner(g3, &ad->in[2]), BlockRunner(ad, &f2->in), BlockRunner(f2, &k1->in, &tt->in), BlockRunner(tt, &k2->in), BlockRunner(k1), BlockRunner(k2)); }
        case 4: { auto* s = src(a); auto* tt = throttle(a, false); auto* dd = dec(a, false); auto* k = snk(a, false); return net(BlockRunner(k), BlockRunner(dd, &k->in), BlockRunner(tt, &dd->in), BlockRunner(s, &tt->in)); }
        case 5: { auto* s = src(a); auto* x = exp(a, false); auto* h = thr(a); auto* dd = dec(a, true); auto* g1 = gain(a, false); auto* k = snk(a, false); return net(BlockRunner(s, &x->in), BlockRunner(x, &h->in), BlockRunner(h, &dd->in), BlockRunner(dd, &g1->in), BlockRunner(g1, &k->in), BlockRunner(k)); }
        case 6: { auto* s1 = src(a); auto* s2 = src(b); auto* f1 = fan(a, 2); auto* f2 = fan(b, 2); auto* a1 = add(c, {a, b}); e = a; auto* g1 = gain(e, true); auto* a2 = add(d, {b, e}); auto* a3 = add(f, {c, d}); auto* k = snk(f, true);
            return net(BlockRunner(s1, &f1->in), BlockRunner(s2, &f2->in), BlockRunner(f1, &a1->in[0], &g1->in), BlockRunner(f2, &a1->in[1], &a2->in[0]), BlockRunner(g1, &a2->in[1]), BlockRunner(a1, &a3->in[0]), BlockRunner(a2, &a3->in[1]), BlockRunner(a3, &k->in), BlockRunner(k)); }
        default: { auto* s = src(a); auto* k = snk(a, false); return net(BlockRunner(s, &k->in), BlockRunner(k)); }
        }
    }
};
typedef Big<512> B512; typedef Big<1024> B1k; typedef Big<4096> B4k;
static void trace(long id) {
    Rng r(g_seed * 1000003 + id); World w; W = &w; w.r = Rng(r.next());
    mrt::Opt o; o.seed = r.next(); static const double ps[] = {0.03, 0.15, 0.4}; o.pswitch = ps[r.below(3)]; o.max_points = 3000000; bool big = r.chance(0.1);
    std::shared_ptr<void> keep; Net* n; int t = (int)r.below(8); int ty = big ? 0 : 1 + (int)r.below(3);
#define MK(T) { auto tp = std::make_shared<Topo<T>>(r); n = tp->make(t); keep = tp; }
    switch (ty) { case 0: MK(int) break; case 1: MK(B512) break; case 2: MK(B1k) break; default: MK(B4k) }
    { std::string s = "["; for (size_t i = 0; i < w.nodes.size(); ++i) s += (i ? "," : "") + w.nodes[i]; E("reset").i("id", id).raw("nodes", s + "]").a("sinks", w.sinks).i("topo", t).i("ty", ty).done(); }
    mrt::begin(o); int runs = (int)r.range(1, 3);
    for (int k = 0; k < runs; ++k) {
        cler::FlowGraphConfig c; c.scheduler = r.chance(0.5) ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock; c.num_workers = 2 + r.below(5); c.max_calls_per_tick = 1 + r.below(8); c.adaptive_sleep = r.chance(0.3); c.adaptive_sleep_max_us = 50; c.adaptive_sleep_fail_threshold = r.below(4); c.collect_detailed_stats = r.chance(0.2);
        bool rf = r.chance(0.2); E("run").s("sched", c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "tpb").i("w", c.num_workers).i("mc", c.max_calls_per_tick).t("asl", c.adaptive_sleep).done();
        if (rf) n->run_for(r.below(200), c);
        else { std::vector<long> goal; long m = big ? (t >= 3 && t <= 5 ? 100 + r.below(400) : 300 + r.below(1200)) : 10 + r.below(60); { mrt::Ignore ig; for (auto x : w.got) goal.push_back(x + m); } n->run(c);
            for (;;) { bool all = true; { mrt::Ignore ig; for (size_t i = 0; i < goal.size(); ++i) all &= w.got[i] >= goal[i]; } if (all) break; mrt::sleep_ns(5000); }
            n->stop(); }
        E("stopped").t("adv", !rf).i("m", 1).done();
    }
    delete n; E("end").done(); mrt::end();
}
int main(int c, char** v) { if (c < 6) return 2; g_mode = v[1]; g_seed = atoll(v[5]); return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), trace, 60); }
