// SourceAudioFileBlock on files made with FFmpeg's own encoders (C22).  usage: audio MODE OUT FIRST N SEED
// The reference is the whole file decoded and resampled by the libraries in one go; for lossless mono files
// at their own rate it is also the samples that were encoded.
#include "blk.hpp"
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include "desktop_blocks/sources/source_audio_file.hpp"
extern "C" {
#include <libavutil/opt.h>
#include <libavutil/channel_layout.h>
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();
// faults of the storage: the g_fail-th read of a packet and all later ones fail; seeks fail
static long g_fail = -1, g_reads; static bool g_noseek;
extern "C" int av_read_frame(AVFormatContext* x, AVPacket* p) { static auto real = (int (*)(AVFormatContext*, AVPacket*))dlsym(RTLD_NEXT, "av_read_frame"); if (g_fail >= 0 && g_reads >= g_fail) return AVERROR(EIO); ++g_reads; return real(x, p); }
extern "C" int av_seek_frame(AVFormatContext* x, int st, int64_t t, int fl) { static auto real = (int (*)(AVFormatContext*, int, int64_t, int))dlsym(RTLD_NEXT, "av_seek_frame"); return g_noseek ? AVERROR(EIO) : real(x, st, t, fl); }
static uint64_t g_seed; static int g_cb; static const char* g_cbname;
static void on_end(const char* f) { ++g_cb; g_cbname = f; }
static size_t fds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
[[noreturn]] static void broken(const char* w) { fprintf(stderr, "audio harness: %s\n", w); abort(); }
#define NEED(x) do { if ((x) < 0) broken(#x); } while (0)
struct Kind { const char* enc; const char* mux; int maxch; bool lossless, seekable; AVCodecID id; };
static const Kind K[] = {{"pcm_s16le", "wav", 8, true, true, AV_CODEC_ID_NONE}, {"pcm_s16le", "wav", 2, true, true, AV_CODEC_ID_NONE}, {"pcm_f32le", "wav", 8, true, true, AV_CODEC_ID_NONE}, {"pcm_u8", "wav", 2, true, true, AV_CODEC_ID_NONE}, {"pcm_s24le", "wav", 6, true, true, AV_CODEC_ID_NONE}, {"pcm_s32le", "wav", 2, true, true, AV_CODEC_ID_NONE}, {"pcm_f64le", "wav", 2, true, true, AV_CODEC_ID_NONE}, {"pcm_mulaw", "wav", 2, false, true, AV_CODEC_ID_NONE}, {"pcm_alaw", "wav", 2, false, true, AV_CODEC_ID_NONE},
    {"pcm_s16be", "aiff", 2, true, true, AV_CODEC_ID_NONE}, {"flac", "flac", 8, true, true, AV_CODEC_ID_NONE}, {"flac", "ogg", 2, true, false, AV_CODEC_ID_NONE}, {"mp2", "mp2", 2, false, false, AV_CODEC_ID_NONE}, {"aac", "adts", 6, false, false, AV_CODEC_ID_NONE}, {"aac", "matroska", 2, false, false, AV_CODEC_ID_NONE}, {"ac3", "ac3", 6, false, false, AV_CODEC_ID_NONE}, {"vorbis", "ogg", 2, false, false, AV_CODEC_ID_NONE}, {"opus", "ogg", 2, false, false, AV_CODEC_ID_NONE}, {"adpcm_ima_wav", "wav", 2, false, false, AV_CODEC_ID_NONE}, {"alac", "ipod", 2, true, false, AV_CODEC_ID_NONE}};
struct File { int fd = -1; std::string path; std::vector<float> truth; bool ok = true; };
static double wave(long i, int c) { return 0.45 * std::sin(0.031 * i * (c + 1) + c) + 0.3 * std::cos(0.0071 * i + 2 * c) + 0.1 * (((i * 7919) % 13) / 13.0 - 0.5); }
static void put(void* d, AVSampleFormat f, long at, double v) {
    switch (av_get_packed_sample_fmt(f)) { case AV_SAMPLE_FMT_U8: ((uint8_t*)d)[at] = (uint8_t)(128 + (int)(v * 127)); break; case AV_SAMPLE_FMT_S16: ((int16_t*)d)[at] = (int16_t)(v * 32767); break; case AV_SAMPLE_FMT_S32: ((int32_t*)d)[at] = (int32_t)(v * 2147483000.0) & ~0xff; break; case AV_SAMPLE_FMT_FLT: ((float*)d)[at] = (float)v; break; case AV_SAMPLE_FMT_DBL: ((double*)d)[at] = v; break; default: broken("format"); } }
static float got(const void* d, AVSampleFormat f, long at) {
    switch (av_get_packed_sample_fmt(f)) { case AV_SAMPLE_FMT_U8: return (((const uint8_t*)d)[at] - 128) / 128.0f; case AV_SAMPLE_FMT_S16: return ((const int16_t*)d)[at] / 32768.0f; case AV_SAMPLE_FMT_S32: return (float)(((const int32_t*)d)[at] / 2147483648.0); case AV_SAMPLE_FMT_FLT: return ((const float*)d)[at]; default: return (float)((const double*)d)[at]; } }
static void drainenc(AVCodecContext* c, AVFormatContext* o, AVPacket* p, int st, AVRational tb) { while (avcodec_receive_packet(c, p) >= 0) { p->stream_index = st; av_packet_rescale_ts(p, tb, o->streams[st]->time_base); NEED(av_interleaved_write_frame(o, p)); } }
// what: nstreams audio streams, the first one the one to play
static bool make(File& f, const Kind& k, int ch, int rate, long n, int extra) {
    f.fd = memfd_create("audio", 0); f.path = "/proc/self/fd/" + std::to_string(f.fd); AVFormatContext* o = nullptr; NEED(avformat_alloc_output_context2(&o, nullptr, k.mux, f.path.c_str()));
    std::vector<AVCodecContext*> cs; for (int s = 0; s <= extra; ++s) { const AVCodec* e = avcodec_find_encoder_by_name(k.enc); if (!e) { avformat_free_context(o); return false; } AVCodecContext* c = avcodec_alloc_context3(e); AVSampleFormat sf = e->sample_fmts ? e->sample_fmts[0] : AV_SAMPLE_FMT_S16; c->sample_fmt = sf; c->sample_rate = rate; av_channel_layout_default(&c->ch_layout, s ? 1 : ch); c->strict_std_compliance = FF_COMPLIANCE_EXPERIMENTAL; c->time_base = {1, rate}; if (o->oformat->flags & AVFMT_GLOBALHEADER) c->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
        if (s) c->bit_rate = 32000; if (avcodec_open2(c, e, nullptr) < 0) { avcodec_free_context(&c); for (auto x : cs) avcodec_free_context(&x); avformat_free_context(o); return false; } AVStream* st = avformat_new_stream(o, nullptr); NEED(avcodec_parameters_from_context(st->codecpar, c)); st->time_base = {1, rate}; if (!s) st->disposition |= AV_DISPOSITION_DEFAULT; cs.push_back(c); }
    NEED(avio_open(&o->pb, f.path.c_str(), AVIO_FLAG_WRITE)); if (avformat_write_header(o, nullptr) < 0) return false; AVPacket* p = av_packet_alloc(); AVFrame* fr = av_frame_alloc();
    for (int s = extra; s >= 0; --s) { AVCodecContext* c = cs[s]; long fs = c->frame_size && !(c->codec->capabilities & AV_CODEC_CAP_VARIABLE_FRAME_SIZE) ? c->frame_size : 1000; long m = s ? n / 2 : n; bool pl = av_sample_fmt_is_planar(c->sample_fmt); int cc = c->ch_layout.nb_channels;
        for (long i = 0; i < m; i += fs) { fr->nb_samples = (int)std::min(fs, m - i); if (fr->nb_samples < fs && !(c->codec->capabilities & (AV_CODEC_CAP_SMALL_LAST_FRAME | AV_CODEC_CAP_VARIABLE_FRAME_SIZE)) && c->frame_size) fr->nb_samples = (int)fs; fr->format = c->sample_fmt; av_channel_layout_copy(&fr->ch_layout, &c->ch_layout); fr->sample_rate = rate; fr->pts = i; NEED(av_frame_get_buffer(fr, 0));
            for (long j = 0; j < fr->nb_samples; ++j) for (int q = 0; q < cc; ++q) { double v = i + j < m ? wave(i + j, q + 9 * s) : 0; void* d = pl ? (void*)fr->extended_data[q] : (void*)fr->extended_data[0]; long at = pl ? j : j * cc + q; put(d, c->sample_fmt, at, v); if (!s && cc == 1 && i + j < m) f.truth.push_back(got(d, c->sample_fmt, at)); }
            NEED(avcodec_send_frame(c, fr)); drainenc(c, o, p, s, {1, rate}); av_frame_unref(fr); }
        NEED(avcodec_send_frame(c, nullptr)); drainenc(c, o, p, s, {1, rate}); }
    av_write_trailer(o); avio_closep(&o->pb); for (auto x : cs) avcodec_free_context(&x); avformat_free_context(o); av_packet_free(&p); av_frame_free(&fr); return true; }
// the whole file in one go; loops: frames given that many times, the end not flushed unless loops = 1
static bool reference(const File& f, int rate, int loops, std::vector<float>& out, int& inrate, int& inch, bool& err, long& frames) { frames = 0;
    AVFormatContext* x = nullptr; err = false; if (avformat_open_input(&x, f.path.c_str(), nullptr, nullptr) < 0) return false; int st; const AVCodec* d = nullptr; AVCodecContext* c = nullptr; SwrContext* w = nullptr; AVPacket* p = av_packet_alloc(); AVFrame* fr = av_frame_alloc(); bool ok = false;
    do { if (avformat_find_stream_info(x, nullptr) < 0) break; st = av_find_best_stream(x, AVMEDIA_TYPE_AUDIO, -1, -1, nullptr, 0); if (st < 0) break; d = avcodec_find_decoder(x->streams[st]->codecpar->codec_id); if (!d) break; c = avcodec_alloc_context3(d); avcodec_parameters_to_context(c, x->streams[st]->codecpar); if (avcodec_open2(c, d, nullptr) < 0) break;
        inrate = c->sample_rate; inch = c->ch_layout.nb_channels; AVChannelLayout mono, in; av_channel_layout_default(&mono, 1); if (c->ch_layout.order == AV_CHANNEL_ORDER_UNSPEC) av_channel_layout_default(&in, c->ch_layout.nb_channels); else { in = AVChannelLayout(); av_channel_layout_copy(&in, &c->ch_layout); }
        if (swr_alloc_set_opts2(&w, &mono, AV_SAMPLE_FMT_FLT, rate, &in, c->sample_fmt, c->sample_rate, 0, nullptr) < 0 || swr_init(w) < 0) break; ok = true;
        auto take = [&](const uint8_t** q, int n) { int m = swr_get_out_samples(w, n) + 64; size_t at = out.size(); out.resize(at + m); uint8_t* b[] = {(uint8_t*)(out.data() + at)}; int k = swr_convert(w, b, m, q, n); out.resize(at + std::max(k, 0)); return k; };
        for (int l = 0; l < loops && !err; ++l) { if (l) { NEED(av_seek_frame(x, st, 0, AVSEEK_FLAG_BACKWARD)); avcodec_flush_buffers(c); } bool eof = false;
            while (!eof) { int r = av_read_frame(x, p); if (r == AVERROR_EOF) { eof = true; avcodec_send_packet(c, nullptr); } else if (r < 0) { err = true; break; } else { if (p->stream_index != st) { av_packet_unref(p); continue; } r = avcodec_send_packet(c, p); av_packet_unref(p); if (r < 0) { err = true; break; } } while (avcodec_receive_frame(c, fr) == 0) { frames += fr->nb_samples; take((const uint8_t**)fr->extended_data, fr->nb_samples); } } }
        if (loops == 1 && g_fail < 0) while (take(nullptr, 0) > 0) {}
    } while (0);
    av_packet_free(&p); av_frame_free(&fr); if (w) swr_free(&w); if (c) avcodec_free_context(&c); avformat_close_input(&x); return ok; }
typedef SourceAudioFileBlock<float> B;
static void one(long id) {
    Rng r(g_seed * 7919 + id); const Kind& k = K[r.below(20)]; static const int R[] = {48000, 44100, 8000, 32000, 96000}; int ch = r.chance(0.5) ? 1 : 1 + (int)r.below(k.maxch); int rate = R[r.below(k.lossless ? 5 : 2)]; if (!strcmp(k.enc, "opus")) rate = 48000; int rr = r.chance(0.55) ? rate : R[r.below(5)];
    long n = r.chance(0.1) ? (long)r.below(3) : r.chance(0.5) ? 1 + (long)r.below(3000) : 1 + (long)r.below(12000); bool repeat = r.chance(0.35) && (k.seekable || n == 0); bool cb = r.chance(0.7); int bad = r.chance(0.12) ? 1 + (int)r.below(5) : 0; int extra = !strcmp(k.mux, "matroska") && r.chance(0.6) ? 1 : 0; if (n == 0 && strcmp(k.mux, "wav")) n = 1;
    File f; if (bad == 1) f.path = "/proc/self/fd/999"; else if (!make(f, k, ch, rate, n, extra)) { E("reset").i("id", id).s("codec", k.enc).i("total", 0).t("valid", false).t("repeat", false).t("cb", false).t("err", false).t("fault", false).done(); E("up").t("ok", false).done(); E("leak").i("bytes", 0).i("fds", 0).done(); E("end").done(); return; }
    if (bad == 2) { NEED(ftruncate(f.fd, 0)); std::vector<char> g(3000); for (auto& c : g) c = (char)r.next(); g[0] = 'x'; NEED(write(f.fd, g.data(), g.size())); } // bad = 3: an unplayable output rate
    if (bad == 4 && !strcmp(k.mux, "wav")) { uint8_t t[2] = {0x77, 0x7e}; NEED(pwrite(f.fd, t, 2, 20)); } // a codec nobody knows
    if (bad == 5 && !strcmp(k.mux, "wav") && !strncmp(k.enc, "pcm", 3)) { off_t s = lseek(f.fd, 0, SEEK_END); if (s > 200) { s = 100 + (off_t)r.below(s - 100); NEED(ftruncate(f.fd, s)); } } // cut short
    if (bad == 3) rr = 0; std::vector<float> one, ref; int ir = 0, ic = 0; bool err = false; long fr = 0, fr2; bool valid = bad != 1 && reference(f, rr, 1, one, ir, ic, err, fr); if (valid && !err && bad == 0 && k.lossless && ic == 1 && ir == rr && one.size() != f.truth.size()) broken("length");
    int loops = 1; if (repeat && valid) { loops = !fr || err ? 1 : (int)std::min(20000.0, 2 + 20000.0 * ir / ((double)fr * rr)); if (loops > 1) { bool e2; reference(f, rr, loops, ref, ir, ic, e2, fr2); if (ref.size() < 9000) { repeat = false; ref = one; loops = 1; } } else ref = one; } else ref = one;
    Rng r2(g_seed * 104729 + id); bool fault = false, noseek = false; long failat = -1; if (valid && !err && !bad && ir == rr && fr > 0 && r2.chance(0.3)) { fault = true; if (repeat && r2.chance(0.5)) { noseek = true; ref = one; loops = 1; }
        else { std::vector<float> t; bool e2; g_reads = 0; reference(f, rr, 1, t, ir, ic, e2, fr2); failat = (long)r2.below(g_reads); g_fail = failat; g_reads = 0; ref.clear(); loops = 1; if (!reference(f, rr, 1, ref, ir, ic, e2, fr2) || !e2) broken("fault"); g_fail = -1; one = ref; } }
    bool truth = valid && !bad && !err && k.lossless && ic == 1 && ir == rr && !f.truth.empty(); long pos = 0, total = valid ? (loops > 1 ? -1 : (long)one.size()) : 0;
    E("reset").i("id", id).s("codec", k.enc).i("total", total).t("valid", valid).t("repeat", repeat).t("cb", cb).t("err", err).t("fault", fault).done();
    auto build = [&]() -> B* { try { return new B("a", f.path.c_str(), (uint32_t)rr, repeat, cb ? on_end : nullptr); } catch (const std::exception&) { return nullptr; } };
    { B* w = build(); delete w; } { B* w = build(); delete w; } size_t fd0 = fds(), m0 = __sanitizer_get_current_allocated_bytes(); g_cb = 0; B* b = build(); bool up = b != nullptr; delete b; size_t m1 = __sanitizer_get_current_allocated_bytes(), fd1 = fds();
    E("up").t("ok", up).done(); E("leak").i("bytes", (long)m1 - (long)m0).i("fds", (long)fd1 - (long)fd0).done(); if (!up) { E("end").done(); return; }
    { b = build(); if (!b) broken("build"); g_fail = failat; g_reads = 0; g_noseek = noseek; Outs<float> o; o.make(r, true, 8); std::unique_ptr<Port> p(o.port(0)); int how = (int)r.below(4); long limit = total >= 0 ? total + 4000 : (long)ref.size() - 4200; int after = 0; std::vector<float> buf(16384); if (how) { std::vector<float> z(o.ch[0]->space()); o.ch[0]->writeN(z.data(), z.size()); o.ch[0]->commit_read(how == 3 ? 60 : 700); }
        for (int c = 0; c < 20000; ++c) { size_t sp = p->space(), bs = p->size(); g_cb = 0; g_cbname = nullptr; Res z = b->procedure(o.ch[0].get()); size_t m = p->size() - bs; const float *x, *y; size_t nx, ny; o.ch[0]->peek_read(x, nx, y, ny); long good = 0; bool run = true;
            for (size_t i = 0; i < m; ++i) { size_t q = bs + i; float v = q < nx ? x[q] : y[q - nx]; long at = pos + (long)i; bool g = at < (long)ref.size() && std::fabs(v - ref[at]) <= 1e-4f && (!truth || std::fabs(v - f.truth[at % f.truth.size()]) <= 1e-4f); if (!g) run = false; if (run) ++good; }
            pos += (long)m; if (g_cb && (!g_cbname || f.path != g_cbname)) g_cb = 99; E("ce").i("sp", sp).i("n", m).i("good", good).s("res", ename(z)).i("cb", g_cb).done();
            if (total < 0 ? pos >= limit : (m == 0 && sp > 0)) if (total < 0 || ++after >= 4) break; if (!Res(z).is_ok() && cler::is_fatal(Res(z).unwrap_err())) if (++after > 4) break;
            size_t sz = p->size(), k = how == 0 ? sz : how == 1 ? r.below(sz + 1) : how == 2 ? std::min(sz, (size_t)r.below(400)) : std::min(sz, 1 + (size_t)r.below(90)); if (k && o.ch[0]->readN(buf.data(), std::min(k, buf.size())) == 0) broken("read"); }
        delete b; g_fail = -1; g_noseek = false; }
    E("end").done(); if (f.fd >= 0) close(f.fd); }
int main(int c, char** v) { if (c < 6) return 2; g_seed = atoll(v[5]); av_log_set_level(AV_LOG_QUIET); return vlog::run_isolated(v[2], atol(v[3]), atol(v[4]), one, 40); }
