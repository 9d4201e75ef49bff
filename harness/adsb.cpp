// The ADS-B decoder and aircraft table (C23).  usage: adsb MODE OUT FIRST N SEED   MODE: dec | agg | shp | with -DMRT: dconc | conc
// Transmissions are made here, bit by bit, and put on the air as pulses; positions are encoded here.
#include "blk.hpp"
#include "desktop_blocks/adsb/adsb_decoder.hpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
#ifdef MRT
#include "mrt.hpp"
#else
namespace mrt { struct Ignore { Ignore() {} }; inline void yield() {} }
#endif
GuiRec g_gui;
static time_t g_now = 1000; extern "C" time_t time(time_t* t) { if (t) *t = g_now; return g_now; }
static uint64_t g_seed; static std::string g_mode;
typedef std::vector<unsigned char> By;
static std::string arr(const std::vector<long>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
template <class V> static std::string ints(const V& v, size_t n) { std::vector<long> t; for (size_t i = 0; i < n; ++i) t.push_back((long)(unsigned char)v[i]); return arr(t); }
// ------------------------------------------------------------------ transmissions
static uint32_t crc24(const By& m, size_t n) { uint32_t r = 0; for (size_t i = 0; i < n; ++i) { r ^= (uint32_t)m[i] << 16; for (int k = 0; k < 8; ++k) { r <<= 1; if (r & 0x1000000) r ^= 0x1FFF409; } } return r & 0xffffff; }
static void setf(By& b, int x, int y, uint32_t v) { for (int i = y; i >= x; --i, v >>= 1) { int k = 7 - (i - 1) % 8; b[(i - 1) / 8] = (b[(i - 1) / 8] & ~(1 << k)) | ((v & 1) << k); } }
static void seal(By& b, uint32_t addr) { uint32_t c = crc24(b, b.size() - 3) ^ addr; b[b.size() - 3] = c >> 16; b[b.size() - 2] = c >> 8; b[b.size() - 1] = c; }
static const uint32_t POOL[] = {0x4b1a62, 0x738011, 0xa0ffee, 0x00c5d1};
static By message(Rng& r) {
    static const int D[] = {17, 17, 17, 17, 11, 11, 0, 4, 5, 16, 20, 21, 18, 24}; int df = D[r.below(14)]; bool sh = df == 0 || df == 4 || df == 5 || df == 11; By b(sh ? 7 : 14); for (auto& x : b) x = (unsigned char)r.next(); setf(b, 1, 5, df); uint32_t a = POOL[r.below(4)];
    if (df == 11 || df == 17 || df == 18) { setf(b, 9, 32, a); if (df == 17) { int t = (int)r.below(6); if (t == 0) { setf(b, 33, 37, 1 + r.below(4)); if (r.chance(0.7)) for (int i = 0; i < 8; ++i) { static const int C[] = {1, 2, 26, 13, 32, 48, 57, 50, 32, 7}; setf(b, 41 + 6 * i, 46 + 6 * i, C[r.below(10)]); } } else if (t <= 2) { setf(b, 33, 37, 9 + r.below(10)); if (r.chance(0.8)) setf(b, 48, 48, 1); }
            else if (t <= 4) { setf(b, 33, 37, 19); setf(b, 38, 40, r.chance(0.7) ? 1 + r.below(2) : r.below(8)); if (r.chance(0.15)) setf(b, 47, 56, r.below(3)); if (r.chance(0.15)) setf(b, 58, 67, r.below(3)); if (r.chance(0.15)) setf(b, 70, 78, r.below(3)); } } seal(b, 0); return b; }
    if (df != 5 && df != 21 && r.chance(0.7)) { setf(b, 26, 26, 0); setf(b, 28, 28, 1); }
    seal(b, r.chance(0.9) ? a : (uint32_t)r.below(0x1000000)); return b; }
static void chips(const By& m, std::vector<int>& c) { static const int P[] = {1, 0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0}; c.assign(P, P + 16); for (auto b : m) for (int k = 7; k >= 0; --k) { int x = b >> k & 1; c.push_back(x); c.push_back(!x); } }
static std::string allow(uint32_t f) { std::vector<long> v; for (int i = 0; i < 32; ++i) if (f >> i & 1) v.push_back(i); return arr(v); }
static std::string record(const mode_s_msg& m, bool tail) {
    std::string s = "{\"b\":" + ints(m.msg, std::min(14, std::max(0, m.msgbits / 8))); auto I = [&](const char* k, long v) { s += std::string(",\"") + k + "\":" + std::to_string(v); }; auto T = [&](const char* k, bool v) { s += std::string(",\"") + k + "\":" + (v ? "true" : "false"); };
    I("bits", m.msgbits); I("df", m.msgtype); T("ok", m.crcok); I("err", m.errorbit); s += ",\"aa\":" + arr({m.aa1, m.aa2, m.aa3}); I("ca", m.ca); I("tc", m.metype); I("st", m.mesub); size_t n = 0; while (n < 8 && m.flight[n]) ++n; s += ",\"fl\":" + ints(m.flight, n);
    I("alt", m.altitude); I("unit", m.unit); T("f", m.fflag); T("t", m.tflag); I("la", m.raw_latitude); I("lo", m.raw_longitude); I("v", m.velocity); I("h", m.heading); I("vs", m.vert_rate_source); I("vg", m.vert_rate_sign); I("vr", m.vert_rate); I("fs", m.fs); I("dr", m.dr); I("um", m.um); I("id", m.identity); (void)tail; return s + "}"; }
static void dec(long id, bool conc = false) {
    Rng r(g_seed * 7919 + id); g_now = 1000 + (long)r.below(1000); bool fast = r.chance(0.5); uint32_t filter = r.chance(0.6) ? 0xFFFFFFFFu : (uint32_t)(r.next() | (r.chance(0.7) ? 1u << 17 : 0) | 1); auto mk = [&](bool f, uint32_t q) { return std::make_unique<ADSBDecoderBlock>("d", f ? ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2MHZ, q); };
    auto b = filter == 0xFFFFFFFFu && !fast && r.chance(0.5) ? std::make_unique<ADSBDecoderBlock>("d") : mk(fast, filter); std::unique_ptr<ADSBDecoderBlock> other; if (conc || r.chance(0.2)) other = mk(!fast, 0xFFFFFFFFu); // another instance keeps to itself
    auto R = [](cler::Channel<mode_s_msg>* c) { return std::unique_ptr<cler::Channel<mode_s_msg>>(c); }; auto out = R(new cler::Channel<mode_s_msg>(1 + (r.chance(0.5) ? r.below(4) : r.below(60)))); int drain = (int)r.below(3), prof = (int)r.below(4);
    E("reset").i("id", id).i("rate", fast).raw("allow", allow(filter)).i("now", g_now).done(); long at = 0; int segs = conc ? 1 : 1 + (int)r.below(4); double per = fast ? 1.2 : 1; std::vector<mode_s_msg> got(64); bool end = false;
#ifdef MRT
    mrt::Opt o; o.seed = r.next(); o.pswitch = 0.02; o.max_points = 3000000; mrt::begin(o); uint32_t f0 = filter; auto* pb = b.get(); auto* po = other.get();
    int t1 = mrt::spawn([=] { cler::Channel<mode_s_msg> oo(64); std::vector<uint16_t> z(700, 9); for (int k = 0; k < 3; ++k) { size_t q = std::min(po->in.space(), z.size()); po->in.writeN(z.data(), q); po->procedure(&oo); mrt::yield(); } });
    int t2 = mrt::spawn([=] { for (int k = 0; k < 6; ++k) { pb->set_df_filter(f0 ^ (k % 2 ? 0 : 1u << 31)); mrt::yield(); } pb->set_df_filter(f0); }); // no message is of format 31
#endif
    auto pop = [&](size_t n) { while (n) { size_t k = out->readN(got.data(), std::min(n, got.size())); if (!k) return; n -= k; } };
    auto call = [&]() { size_t room = out->space(), bs = out->size(), is = b->in.size(); Res z = b->procedure(out.get()); std::string s; const mode_s_msg *x, *y; size_t nx, ny; out->peek_read(x, nx, y, ny); for (size_t i = bs; i < out->size(); ++i) s += (s.empty() ? "" : ",") + record(i < nx ? x[i] : y[i - nx], true);
        E("call").i("room", room).i("took", (long)is - (long)b->in.size()).s("r", ename(z)).raw("out", "[" + s + "]").done(); return std::string(ename(z)); };
    for (int g = 0; g < segs && !end; ++g) {
        int n = (int)r.below(conc ? 4 : 9); long base = at; std::string tx; std::vector<double> air; double t = 2 + r.below(r.chance(0.5) ? 20 : 300); double noise = r.chance(0.3) ? 0 : 1;
        for (int i = 0; i < n; ++i) { By m = message(r); int df = m[0] >> 3; if (r.chance(0.25)) { int k = 1 + (int)r.below(3); while (k--) { int q = 6 + (int)r.below(m.size() * 8 - 5); if ((df == 11 || df == 17)) m[(q - 1) / 8] ^= 1 << (7 - (q - 1) % 8); if (r.chance(0.6)) break; } } else if (r.chance(0.05)) { int q = 1 + (int)r.below(5); if (df == 17) m[0] ^= 1 << (8 - q); }
            double amp = 4000 + r.below(56000); std::vector<int> c; chips(m, c); double p = fast ? t + r.below(10) / 10.0 : t; long P = (long)p; tx += (tx.empty() ? "" : ",") + std::string("{\"p\":") + std::to_string(base + P) + ",\"b\":" + ints(m, m.size()) + "}"; size_t need = (size_t)(p + per * c.size() + 4); if (air.size() < need) air.resize(need, 0);
            for (size_t k = 0; k < c.size(); ++k) if (c[k]) { double s = p + k * per, e = s + per; for (long j = (long)s; j < e; ++j) { double lo = std::max(s, (double)j), hi = std::min(e, j + 1.0); if (hi > lo) air[j] += amp * (hi - lo); } }
            for (long j = P; j < (long)need; ++j) air[j] += noise * (double)r.below((uint64_t)(amp / 50)); long gap = r.chance(0.5) ? 4 + (long)r.below(8) : 4 + (long)r.below(r.chance(0.3) ? 900 : 200); t = std::floor(p + per * c.size()) + gap; if (fast || !r.chance(0.3)) continue; if (gap > 2) t = p + c.size() + 2; }
        size_t total = (size_t)t + 330 + r.below(100); air.resize(total, 0); std::vector<uint16_t> s; for (double v : air) { double w = v > 0 ? v : noise * (double)r.below(60); s.push_back((uint16_t)std::min(65535.0, w)); }
        E("seg").raw("tx", "[" + tx + "]").done(); size_t pos = 0; long guard = 0;
        while (pos < total && ++guard < 4000) { size_t sp = b->in.space(), k = prof == 0 ? sp : prof == 1 ? 1 + r.below(60) : prof == 2 ? 1 + r.below(500) : r.chance(0.3) ? 240 + r.below(70) : 1 + r.below(sp + 1); k = std::min({k, sp, total - pos}); if (k) { size_t w = b->in.writeN(s.data() + pos, k); pos += w; E("feed").i("n", w).done(); }
            int calls = prof == 1 ? (int)r.below(2) : 1 + (int)r.below(3); while (calls--) call(); if (other && !conc && r.chance(0.3)) { size_t q = std::min<size_t>(other->in.space(), s.size()); other->in.writeN(s.data(), q); cler::Channel<mode_s_msg> oo(64); other->procedure(&oo); }
            if (drain == 0) pop(out->size()); else if (drain == 1) pop(r.below(out->size() + 1)); else if (r.chance(0.3)) pop(r.below(3)); if (sp == 0) pop(1); }
        at += (long)total; int idle = 0; while (idle < 2 && ++guard < 8000) { pop(out->size()); std::string z = call(); idle = z == "NES" ? idle + 1 : 0; }
        if (conc) break;
        if (r.chance(0.6)) { static const int D[] = {1, 30, 59, 60, 61, 100, 0}; g_now += D[r.below(7)]; E("clock").i("now", g_now).done(); }
        if (r.chance(0.3)) { filter = r.chance(0.4) ? 0xFFFFFFFFu : (uint32_t)(r.next() | 2); b->set_df_filter(filter); E("filter").raw("allow", allow(filter)).done(); } }
#ifdef MRT
    mrt::join(t1); mrt::join(t2); mrt::end();
#endif
    b.reset(); E("end").done(); }
// ------------------------------------------------------------------ positions
static int nl(double lat) { lat = std::fabs(lat); if (lat < 1e-9) return 59; if (lat >= 87) return lat > 87 ? 1 : 2; double a = 1 - std::cos(M_PI / 30), c = std::cos(M_PI / 180 * lat); return (int)std::floor(2 * M_PI / std::acos(1 - a / (c * c))); }
static void cpr(double lat, double lon, int odd, int& la, int& lo) { auto md = [](double x, double y) { return x - y * std::floor(x / y); }; double dl = 360.0 / (60 - odd); double yz = std::floor(131072 * md(lat, dl) / dl + 0.5); double rl = dl * (yz / 131072 + std::floor(lat / dl)); double dn = 360.0 / std::max(nl(rl) - odd, 1); double xz = std::floor(131072 * md(lon, dn) / dn + 0.5); la = (int)((long)yz & 131071); lo = (int)((long)xz & 131071); }
struct Plane { uint32_t icao; double lat, lon; long g; bool odd = false; char cs[9]; };
struct Case { std::unique_ptr<ADSBAggregateBlock> b; std::vector<Plane> p; Rng g{1}; long gid = 0; float cla, clo; bool cb; std::string cbs; bool reent = false; };
static std::string st(const ADSBState& a) { std::string s = "{\"icao\":" + std::to_string(a.icao); auto I = [&](const char* k, long v) { s += std::string(",\"") + k + "\":" + std::to_string(v); }; size_t n = 0; while (n < 8 && a.callsign[n]) ++n; s += ",\"cs\":" + ints(a.callsign, n); I("alt", a.altitude); I("gs", (long)a.groundspeed); I("tr", (long)a.track); I("vr", a.vertical_rate); s += std::string(",\"valid\":") + (a.position_valid ? "true" : "false"); auto q = [](double v, double m) { return std::isfinite(v) && std::fabs(v) <= m ? (long)std::nearbyint(v * 1e7) : 2000000000L; }; I("lat", q(a.lat, 90)); I("lon", q(a.lon, 180)); I("pt", a.position_update_time); I("last", a.last_update_time); I("n", a.message_count); return s + "}"; }
static mode_s_msg gen(Case& c, std::string& js) {
    Rng& r = c.g; mode_s_msg m; memset(&m, 0, sizeof m); m.heading = -1; m.errorbit = -1; m.crcok = 1; Plane& p = c.p[r.below(c.p.size())]; m.aa1 = p.icao >> 16; m.aa2 = p.icao >> 8 & 255; m.aa3 = p.icao & 255; long g = -1; int k = (int)r.below(12); m.msgtype = 17; m.msgbits = 112;
    if (k < 1) { static const int D[] = {0, 4, 16, 20}; m.msgtype = D[r.below(4)]; m.metype = (int)r.below(32); m.altitude = r.chance(0.15) ? -100 + 25 * (int)r.below(8) : 25 * (int)r.below(2000) - 1000; }
    else if (k < 2) { static const int D[] = {5, 21, 11}; m.msgtype = D[r.below(3)]; m.metype = (int)r.below(32); m.ca = 5; m.identity = 1200; }
    else if (k < 4) { m.metype = 1 + (int)r.below(4); if (r.chance(0.2)) for (int i = 0; i < 8; ++i) p.cs[i] = "ABCXYZ019 ?"[r.below(11)]; else if (r.chance(0.3)) p.cs[r.chance(0.5) ? 7 : r.below(8)] = "ABCXYZ019 ?"[r.below(11)]; p.cs[8] = 0; memcpy(m.flight, p.cs, 9); if (r.chance(0.05)) m.flight[0] = 0; if (r.chance(0.05)) m.flight[3 + r.below(4)] = 0; }
    else if (k < 6) { m.metype = 19; m.mesub = 1 + (int)r.below(4); if (r.chance(0.8)) m.velocity = (int)r.below(900); if (m.velocity || m.mesub > 2) m.heading = (int)r.below(361); if (r.chance(0.7)) { m.vert_rate = (int)r.below(512); m.vert_rate_sign = (int)r.below(2); } }
    else if (k < 7) { static const int T[] = {0, 5, 6, 7, 8, 20, 22, 23, 28, 29, 31}; m.metype = T[r.below(11)]; m.mesub = (int)r.below(8); if (m.metype == 0) m.altitude = 25 * (int)r.below(400); }
    else { m.metype = 9 + (int)r.below(10); if (r.chance(0.35)) { p.g = ++c.gid; double d = r.chance(0.1) ? 30 : 0.3; p.lat = std::max(-89.5, std::min(89.5, p.lat + d * ((double)r.below(2001) / 1000 - 1))); p.lon += d * ((double)r.below(2001) / 1000 - 1); if (p.lon > 180) p.lon -= 360; if (p.lon < -180) p.lon += 360; }
        if (r.chance(0.8)) p.odd = !p.odd; int la, lo; cpr(p.lat, p.lon, p.odd, la, lo); g = p.g; if (r.chance(0.04)) { la = (int)r.below(131072); lo = (int)r.below(131072); g = -1; p.g = ++c.gid; } m.fflag = p.odd ? (r.chance(0.5) ? 4 : 1) : 0; if (m.fflag == 1) m.fflag = 4; m.raw_latitude = la; m.raw_longitude = lo; if (r.chance(0.8)) m.altitude = 25 * (int)r.below(1800) - 300; }
    size_t n = 0; while (n < 8 && m.flight[n]) ++n; js = "{\"aa\":" + std::to_string(p.icao) + ",\"df\":" + std::to_string(m.msgtype) + ",\"tc\":" + std::to_string(m.metype) + ",\"fl\":" + ints(m.flight, n) + ",\"alt\":" + std::to_string(m.altitude) + ",\"v\":" + std::to_string(m.velocity) + ",\"h\":" + std::to_string(m.heading) + ",\"vr\":" + std::to_string(m.vert_rate) + ",\"vg\":" + std::to_string(m.vert_rate_sign) + ",\"f\":" + (m.fflag ? "true" : "false") + ",\"la\":" + std::to_string(m.raw_latitude) + ",\"lo\":" + std::to_string(m.raw_longitude) + ",\"g\":" + std::to_string(g) + ",\"tla\":" + std::to_string((long)std::nearbyint(p.lat * 1e7)) + ",\"tlo\":" + std::to_string((long)std::nearbyint(p.lon * 1e7)) + "}"; return m; }
static void snap(Case& c, long th, size_t max) { { mrt::Ignore ig; E("sb").i("th", th).done(); } ADSBState q[16]; size_t n = c.b->get_aircrafts(q, max); mrt::Ignore ig; std::string s; for (size_t i = 0; i < n && i < 16; ++i) s += (i ? "," : "") + st(q[i]); E("snap").i("th", th).i("max", max >= 16 ? -1 : (long)max).raw("q", "[" + s + "]").done(); }
static void count(Case& c, long th) { { mrt::Ignore ig; E("sb").i("th", th).done(); } size_t n = c.b->aircraft_count(); mrt::Ignore ig; E("count").i("th", th).i("n", n).done(); }
struct Tri { double x, y, d; std::string l; bool amb; };
static std::vector<Tri> g_tri; static std::string g_lab;
static void draw(Case& c, long th) {
    { mrt::Ignore ig; g_tri.clear(); g_lab.clear(); g_gui.depth = 0; E("sb").i("th", th).done(); } c.b->render(); mrt::Ignore ig;
    std::string s; for (auto& t : g_tri) s += (s.empty() ? "" : ",") + std::string("{\"x\":") + std::to_string(std::lround(t.x * 10)) + ",\"y\":" + std::to_string(std::lround(t.y * 10)) + ",\"dir\":" + std::to_string(std::lround(t.d)) + ",\"label\":" + t.l + ",\"amb\":" + (t.amb ? "true" : "false") + "}"; E("draw").i("th", th).raw("tri", "[" + s + "]").done(); }
static void hooks() {
    g_gui.text = [] {}; g_gui.tri = [](ImVec2 a, ImVec2 b, ImVec2 c) { mrt::Ignore ig; ImVec2 v[3] = {a, b, c}; double x = (a.x + b.x + c.x) / 3.0, y = (a.y + b.y + c.y) / 3.0, far = -1; int k = 0; for (int i = 0; i < 3; ++i) { double d = std::hypot(v[i].x - x, v[i].y - y); if (d > far) { far = d; k = i; } } double dir = std::atan2(v[k].x - x, -(v[k].y - y)) * 180 / M_PI; if (dir < 0) dir += 360; g_tri.push_back({x, y, dir, "[]", false}); };
    g_gui.label = [](ImVec2 p, const char* s) { char t[64]; size_t n = 0; while (n < 63 && s[n]) { t[n] = s[n]; ++n; } mrt::Ignore ig; std::vector<Tri*> near; for (auto& q : g_tri) if (q.l == "[]" && !q.amb && std::hypot(q.x - p.x, q.y - p.y) <= 60) near.push_back(&q); if (near.size() == 1) near[0]->l = ints(t, n); else for (auto q : near) q->amb = true; }; }
static Case* g_case;
static void on_update(const ADSBState& a, void* ctx) { ADSBState q = a; { mrt::Ignore ig; Case* c = (Case*)ctx; c->cbs += (c->cbs.empty() ? "" : ",") + st(q); } Case* c = (Case*)ctx; if (c->reent) snap(*c, 9, 16); }
static void setup(Case& c, Rng& r, long id) {
    c.g = Rng(r.next()); c.cla = (float)((double)r.below(1000) / 10 - 50); c.clo = (float)((double)r.below(3000) / 10 - 150); c.cb = r.chance(0.8); c.reent = c.cb && r.chance(0.3); size_t n = 1 + r.below(5);
    for (size_t i = 0; i < n; ++i) { Plane p; p.icao = i == 0 && r.chance(0.1) ? 0xffffff : (uint32_t)(1 + r.below(0xfffffe)); bool dup = false; for (auto& o : c.p) dup |= o.icao == p.icao; if (dup) continue; bool near = r.chance(0.6); p.lat = near ? c.cla + (double)r.below(24000) / 1000 - 12 : (double)r.below(178000) / 1000 - 89; p.lon = near ? c.clo + (double)r.below(48000) / 1000 - 24 : (double)r.below(360000) / 1000 - 180; if (r.chance(0.1)) p.lon = r.chance(0.5) ? 179.9 : -179.9; if (r.chance(0.1)) p.lat = r.chance(0.5) ? 0.02 : 86.9; if (p.lon > 180) p.lon -= 360; p.g = ++c.gid; for (int k = 0; k < 8; ++k) p.cs[k] = (char)('A' + r.below(26)); p.cs[8] = 0; c.p.push_back(p); }
    c.b = std::make_unique<ADSBAggregateBlock>("a", c.cla, c.clo, c.cb ? on_update : nullptr, &c, "/nonexistent/coast.shp");
    E("reset").i("id", id).i("clat", std::lround((double)c.cla * 1e4)).i("clon", std::lround((double)c.clo * 1e4)).i("w", 600).i("h", 300).i("ppd", 150).t("cb", c.cb).done(); hooks(); g_case = &c; }
static void push(Case& c, size_t k) { std::vector<mode_s_msg> v; { mrt::Ignore ig; std::string s; for (size_t i = 0; i < k; ++i) { std::string j; v.push_back(gen(c, j)); s += (i ? "," : "") + j; } E("push").i("now", g_now).raw("ms", "[" + s + "]").done(); } if (!v.empty()) c.b->in.writeN(v.data(), v.size()); }
static void proc(Case& c) { size_t a = c.b->in.size(); { mrt::Ignore ig; c.cbs.clear(); } Res z = c.b->procedure(); size_t n = a - c.b->in.size(); mrt::Ignore ig; E("proc").i("n", n).s("r", ename(z)).raw("cb", "[" + c.cbs + "]").done(); }
static void agg(long id) {
    Rng r(g_seed * 7919 + id); g_now = 1000 + (long)r.below(1000000); auto cp = std::make_unique<Case>(); Case& c = *cp; setup(c, r, id); int ops = 15 + (int)r.below(40); bool slow = r.chance(0.5);
    for (int k = 0; k < ops; ++k) { int w = (int)r.below(10); if (w < 5) { push(c, 1 + r.below(r.chance(0.3) ? 12 : 3)); if (r.chance(0.85)) while (c.b->in.size()) proc(c); } else if (w < 6) proc(c); else if (w < 7) { while (c.b->in.size()) proc(c); static const int D[] = {1, 2, 9, 10, 11, 60}; g_now += D[r.below(slow ? 3 : 6)]; } else if (w < 8) snap(c, 1, r.chance(0.3) ? r.below(5) : 16); else if (w < 9) count(c, 1); else draw(c, 1); }
    while (c.b->in.size()) proc(c); snap(c, 1, 16); draw(c, 1); cp.reset(); E("end").done(); }
// ------------------------------------------------------------------ coastline files
static void shp(long id) {
    Rng r(g_seed * 7919 + id); std::string f(100, '\0'), js; auto le = [&](uint32_t v) { for (int i = 0; i < 4; ++i) f.push_back((char)(v >> 8 * i)); }; auto be = [&](uint32_t v) { for (int i = 3; i >= 0; --i) f.push_back((char)(v >> 8 * i)); }; auto db = [&](double v) { f.append((const char*)&v, 8); }; int n = (int)r.below(7);
    for (int k = 0; k < n; ++k) { int type = r.chance(0.75) ? 3 : (int)r.below(9); long np = r.below(5), pts = np ? r.below(12) : r.below(2), dnp = np, dn = pts; std::vector<long> idx; for (long i = 0; i < np; ++i) idx.push_back(i ? (long)r.below(pts + 1) : 0); std::sort(idx.begin(), idx.end()); if (np && r.chance(0.12)) idx[r.below(np)] = r.chance(0.5) ? pts + 1 + r.below(1000) : r.below(pts + 1); if (np) idx[0] = 0; if (r.chance(0.08)) dnp = np + 1 + (r.chance(0.5) ? 30000000 : 0); if (r.chance(0.08)) dn = pts + 1 + (r.chance(0.5) ? 30000000 : (long)r.below(9));
        size_t at = f.size(); be(k + 1); be(0); le(type); for (int i = 0; i < 4; ++i) db(i); le(dnp); le(dn); for (long i : idx) le((uint32_t)i); std::string p; for (long i = 0; i < pts; ++i) { int lon = (int)r.below(720) - 360, lat = (int)r.below(360) - 180; db(lon / 2.0); db(lat / 2.0); p += (i ? ",[" : "[") + std::to_string(lat) + "," + std::to_string(lon) + "]"; }
        if (r.chance(0.15)) f.append(2 * (1 + r.below(9)), (char)r.next()); uint32_t len = (uint32_t)(f.size() - at - 8); for (int i = 0; i < 4; ++i) f[at + 4 + i] = (char)(len / 2 >> 8 * (3 - i));
        js += (k ? "," : "") + std::string("{\"at\":") + std::to_string(at) + ",\"len\":" + std::to_string(len) + ",\"type\":" + std::to_string(type) + ",\"np\":" + std::to_string(dnp) + ",\"n\":" + std::to_string(dn) + ",\"idx\":" + arr(idx) + ",\"pts\":[" + p + "]}"; }
    if (r.chance(0.3)) f.resize(r.below(f.size() + 1)); int fd = memfd_create("shp", 0); if (write(fd, f.data(), f.size()) != (ssize_t)f.size()) vlog::die("io"); std::string path = "/proc/self/fd/" + std::to_string(fd); if (r.chance(0.05)) path = "/nonexistent/x.shp";
    CoastlineData d; bool ok = d.load_from_shapefile(path.c_str()); std::string g; for (auto& l : d.polylines) { g += g.empty() ? "[" : ",["; for (size_t i = 0; i < l.size(); ++i) g += (i ? ",[" : "[") + std::to_string(std::lround(l[i].first * 2)) + "," + std::to_string(std::lround(l[i].second * 2)) + "]"; g += "]"; }
    E("reset").i("id", id).i("clat", 0).i("clon", 0).i("w", 0).i("h", 0).i("ppd", 0).t("cb", false).done(); E("shp").raw("recs", "[" + js + "]").i("size", path[1] == 'n' ? 0 : (long)f.size()).t("ok", ok).raw("got", "[" + g + "]").done(); close(fd); E("end").done(); }
#ifdef MRT
static void conc(long id) {
    Rng r(g_seed * 7919 + id); g_now = 5000; mrt::Opt o; static const double ps[] = {0.005, 0.03, 0.15}; o.seed = r.next(); o.pswitch = ps[r.below(3)]; o.max_points = 3000000; auto cp = std::make_unique<Case>(); Case& c = *cp; setup(c, r, id); int rounds = 4 + (int)r.below(10), looks = 4 + (int)r.below(8); size_t burst = 1 + r.below(4); Rng gr(r.next()); mrt::begin(o);
    int g = mrt::spawn([&] { for (int k = 0; k < rounds; ++k) { push(c, burst); proc(c); mrt::yield(); } });
    for (int k = 0; k < looks; ++k) { int w; { mrt::Ignore ig; w = (int)gr.below(4); } if (w < 2) snap(c, 1, 16); else if (w < 3) draw(c, 1); else count(c, 1); mrt::yield(); }
    mrt::join(g); snap(c, 1, 16); mrt::end(); cp.reset(); E("end").done(); }
#endif
int main(int c, char** v) {
    if (c < 6) return 2; g_mode = v[1]; g_seed = atoll(v[5]);
    return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), [&](long id) {
#ifdef MRT
        if (g_mode == "dconc") dec(id, true); else conc(id);
#else
        if (g_mode == "dec") dec(id); else if (g_mode == "shp") shp(id); else agg(id);
#endif
    }, 40); }
