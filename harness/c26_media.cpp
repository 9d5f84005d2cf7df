// C26: the tools' media file writers and readers, against independent EBML/WebM, Ogg/Opus and Annex B code.
// Every case runs in a forked child, because the readers reject a file by exiting.
#include "glue.h"
#include "media_reader.h"
#include "media_writer_av1.h"
#include "media_writer_h26x.h"
#include "media_writer_ogg.h"
#include "media_writer_vp8.h"
#include "media_writer_vp9.h"
#include "srtc/encoded_frame.h"
#include <csignal>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace vf;
using ref::Bytes;

namespace {

// ---------------------------------------------------------------- child processes

struct Child {
    bool returned = false; // the function came back
    bool rejected = false; // it exited
    Bytes out;
};

Child inChild(const std::function<void(Bytes&)>& fn)
{
    int p[2];
    if (pipe(p)) harnessError("pipe");
    fflush(stdout);
    const auto pid = fork();
    if (pid < 0) harnessError("fork");
    if (pid == 0) {
        close(p[0]);
        rlimit rl = {20, 20};
        setrlimit(RLIMIT_CPU, &rl);
        alarm(0);
        if (!freopen("/dev/null", "w", stdout)) _exit(3);
        Bytes out;
        try {
            fn(out);
        } catch (const std::exception& e) {
            fprintf(stderr, "uncaught exception: %s\n", e.what());
            abort();
        }
        size_t at = 0;
        while (at < out.size()) {
            auto n = write(p[1], out.data() + at, out.size() - at);
            if (n <= 0) _exit(3);
            at += n;
        }
        _exit(42);
    }
    close(p[1]);
    Child c;
    uint8_t b[65536];
    bool stuck = false;
    while (true) {
        pollfd pf = {p[0], POLLIN, 0};
        int r = poll(&pf, 1, 120000);
        if (r < 0 && errno == EINTR) continue;
        if (r == 0) { stuck = true; kill(pid, SIGKILL); break; }
        auto n = read(p[0], b, sizeof b);
        if (n <= 0) break;
        c.out.insert(c.out.end(), b, b + n);
    }
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (stuck) fail("stuck", "does not finish");
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) fail("endless", "more than 20 s of CPU time");
        fail("crash", "killed by signal " + std::to_string(WTERMSIG(st)));
    }
    if (WEXITSTATUS(st) == 42) c.returned = true;
    else if (WEXITSTATUS(st) == 1) c.rejected = true;
    else if (WEXITSTATUS(st) == 3) harnessError("child");
    else _exit(WEXITSTATUS(st)); // sanitizer report, on our stderr
    return c;
}

std::string path(const std::string& name) { return opt.scratch + "/" + name; }
void save(const std::string& f, const Bytes& b)
{
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(reinterpret_cast<const char*>(b.data()), b.size());
    if (!o) harnessError("cannot write " + f);
}
bool load(const std::string& f, Bytes& b)
{
    std::ifstream i(f, std::ios::binary);
    if (!i) return false;
    b.assign(std::istreambuf_iterator<char>(i), {});
    return true;
}
struct Ser {
    Bytes& b;
    void u(uint64_t v) { for (int i = 0; i < 8; i++) b.push_back(v >> (8 * i)); }
    void d(const uint8_t* p, size_t n) { u(n); b.insert(b.end(), p, p + n); }
};
struct De {
    const Bytes& b;
    size_t at = 0;
    uint64_t u() { if (at + 8 > b.size()) harnessError("short child output"); uint64_t v = 0; for (int i = 0; i < 8; i++) v |= uint64_t(b[at + i]) << (8 * i); at += 8; return v; }
    Bytes d() { auto n = u(); if (at + n > b.size()) harnessError("short child output"); Bytes r(b.begin() + at, b.begin() + at + n); at += n; return r; }
};

// ---------------------------------------------------------------- what a reader returned

struct RFrame { int64_t pts; std::vector<Bytes> csd; Bytes data; };
struct Read { bool rejected = false; int codec = -1; std::vector<RFrame> frames; };

Read readBack(const std::string& file, bool info)
{
    auto c = inChild([&](Bytes& out) {
        auto r = MediaReader::create(file);
        auto m = r->loadMedia(info);
        Ser s{out};
        s.u(static_cast<uint64_t>(m.codec));
        s.u(m.frame_list.size());
        for (auto& f : m.frame_list) {
            s.u(static_cast<uint64_t>(f.pts_usec));
            s.u(f.csd.size());
            for (auto& x : f.csd) s.d(x.data(), x.size());
            s.d(f.frame.data(), f.frame.size());
        }
    });
    Read r;
    if (c.rejected) { r.rejected = true; return r; }
    De d{c.out};
    r.codec = static_cast<int>(d.u());
    for (auto n = d.u(); n > 0; n--) {
        RFrame f;
        f.pts = static_cast<int64_t>(d.u());
        for (auto k = d.u(); k > 0; k--) f.csd.push_back(d.d());
        f.data = d.d();
        r.frames.push_back(std::move(f));
    }
    return r;
}

// ---------------------------------------------------------------- bits

struct Bits {
    Bytes b; int n = 0;
    void put(uint64_t v, int w) { for (int i = w - 1; i >= 0; i--) { if (n % 8 == 0) b.push_back(0); b.back() |= ((v >> i) & 1) << (7 - n % 8); n++; } }
};
void add(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }

// ---------------------------------------------------------------- frames to write

struct Frame { uint64_t ts; Bytes data; bool key; };
struct Stream { ref::C codec; std::vector<Frame> frames; int w = 0, h = 0; /* of the first key frame that tells, or 0 */ };

size_t frameSize(Rng& r)
{
    switch (r.below(8)) {
    case 0: return r.range(90, 140);       // around the one to two byte element sizes
    case 1: return r.range(16340, 16400);  // two to three
    case 2: return r.range(11, 40);
    case 3: return r.range(1000, 70000);
    default: return r.range(11, 1500);
    }
}
Bytes leb(uint64_t v) { Bytes b; do { uint8_t x = v & 0x7f; v >>= 7; if (v) x |= 0x80; b.push_back(x); } while (v); return b; }

Bytes vp8Frame(Rng& r, bool key, int w, int h)
{
    auto d = r.bytes(std::max<size_t>(key ? 11 : 3, key ? frameSize(r) : r.chance(0.1) ? r.range(3, 12) : frameSize(r)));
    d[0] = (d[0] & 0xFE) | (key ? 0 : 1);
    if (key) {
        d[3] = 0x9d; d[4] = 0x01; d[5] = 0x2a;
        int ws = r.below(4), hs = r.below(4);
        d[6] = w & 255; d[7] = (w >> 8) | ws << 6; d[8] = h & 255; d[9] = (h >> 8) | hs << 6;
    }
    return d;
}
Bytes vp9Frame(Rng& r, bool key, int w, int h, int profile)
{
    Bits b;
    b.put(2, 2); b.put(profile & 1, 1); b.put(profile >> 1, 1);
    if (profile == 3) b.put(0, 1);
    if (!key && r.chance(0.2)) { b.put(1, 1); b.put(r.below(8), 3); return b.b; } // show_existing_frame
    b.put(0, 1); b.put(key ? 0 : 1, 1); b.put(1, 1); b.put(r.below(2), 1);
    if (key) {
        b.put(0x498342, 24);
        if (profile >= 2) b.put(r.below(2), 1);
        bool rgb = (profile & 1) && r.chance(0.3);
        b.put(rgb ? 7 : r.below(7), 3);
        if (!rgb) { b.put(r.below(2), 1); if (profile & 1) { b.put(r.below(4), 2); b.put(0, 1); } }
        else b.put(0, 1);
        b.put(w - 1, 16); b.put(h - 1, 16);
    }
    auto d = b.b;
    add(d, r.bytes(frameSize(r)));
    return d;
}
Bytes obu(Rng& r, int type, const Bytes& payload, bool ext)
{
    Bytes d = {static_cast<uint8_t>(type << 3 | (ext ? 4 : 0) | 2)};
    if (ext) d.push_back(r.below(8) << 5);
    add(d, leb(payload.size()));
    add(d, payload);
    return d;
}
Bytes av1Frame(Rng& r, bool key, int w, int h, bool td)
{
    Bytes d;
    bool ext = r.chance(0.2);
    if (td) add(d, obu(r, 2, {}, false));
    if (key) {
        Bits b;
        b.put(r.below(3), 3); b.put(0, 1); b.put(0, 1); b.put(0, 1);
        bool idd = r.chance(0.3); b.put(idd, 1);
        int ops = r.chance(0.3) ? r.range(1, 8) : 0; b.put(ops, 5);
        for (int i = 0; i <= ops; i++) {
            b.put(r.below(4096), 12);
            int lvl = r.below(24); b.put(lvl, 5);
            if (lvl > 7) b.put(r.below(2), 1);
            if (idd) { bool p = r.chance(0.5); b.put(p, 1); if (p) b.put(r.below(16), 4); }
        }
        auto width = [](int v) { int n = 1; while ((v - 1) >> n) n++; return n; };
        int wb = std::min<int>(16, width(w) + r.below(3)), hb = std::min<int>(16, width(h) + r.below(3));
        b.put(wb - 1, 4); b.put(hb - 1, 4); b.put(w - 1, wb); b.put(h - 1, hb);
        b.put(r.next() & 0xFFFF, 16);
        add(d, obu(r, 1, b.b, ext));
    }
    if (r.chance(0.2)) add(d, obu(r, 5, r.bytes(r.range(2, 40)), false));
    auto f = r.bytes(frameSize(r));
    f[0] = (f[0] & 0x1F) | (key ? 0 : 1) << 5; // show_existing_frame = 0, frame_type
    add(d, obu(r, 6, f, ext));
    return d;
}
Bytes nalus(Rng& r, ref::C c, bool key);

Bytes opusPacket(Rng& r, uint32_t& samples)
{
    int config = r.below(32), code = r.below(4);
    static const int silk[] = {480, 960, 1920, 2880};
    uint32_t fs = config < 12 ? silk[config % 4] : config < 16 ? (config % 2 ? 960 : 480) : 120u << (config % 4);
    int n = code == 0 ? 1 : code < 3 ? 2 : 0;
    Bytes d = {static_cast<uint8_t>(config << 3 | (r.below(2) << 2) | code)};
    if (code == 3) { n = r.range(1, std::max<int>(1, 5760 / fs)); d.push_back(n | (r.below(4) << 6)); }
    samples = n * fs;
    // sizes around the 255 byte segments too
    add(d, r.bytes(r.chance(0.1) ? 254 - d.size() + r.below(3) : r.chance(0.05) ? r.range(1000, 5000) : r.chance(0.1) ? 0 : r.range(1, 600)));
    return d;
}

Stream makeStream(Rng& r, ref::C c, bool hostile)
{
    Stream s;
    s.codec = c;
    int n = r.chance(0.1) ? r.range(0, 2) : r.chance(0.1) ? r.range(50, 200) : r.range(1, 40);
    uint64_t ts = r.chance(0.3) ? r.below(1ull << 34) : r.below(1ull << 32);
    const uint64_t clock = c == ref::C::Opus ? 48000 : 90000;
    int profile = r.below(4);
    bool td = r.chance(0.3);
    bool told = false;
    for (int i = 0; i < n; i++) {
        bool key = (i == 0 && r.chance(0.8)) || r.chance(0.1);
        Frame f;
        f.ts = ts;
        f.key = key;
        int w = r.chance(0.1) ? r.range(1, 20) : r.range(16, 8000), h = r.chance(0.1) ? r.range(1, 20) : r.range(16, 8000);
        if (c == ref::C::VP9 || c == ref::C::AV1) if (r.chance(0.1)) w = r.range(16384, 65535);
        switch (c) {
        case ref::C::VP8: f.data = vp8Frame(r, key, w, h); break;
        case ref::C::VP9: f.data = vp9Frame(r, key, w, h, profile); break;
        case ref::C::AV1: f.data = av1Frame(r, key, w, h, td); break;
        default: f.data = nalus(r, c, key); break;
        }
        if (hostile) {
            auto m = r.below(4);
            if (m == 0) f.data = r.bytes(r.chance(0.5) ? r.range(3, 16) : frameSize(r));
            if (m == 1) f.data.resize(std::max<size_t>(3, r.below(f.data.size() + 1)));
            if (m == 2) for (int k = r.range(1, 8); k > 0; k--) f.data[r.below(std::min<size_t>(f.data.size(), 40))] = r.next();
        } else if (key && !told) { told = true; s.w = w; s.h = h; }
        s.frames.push_back(f);
        auto step = r.chance(0.7) ? clock / 30 : r.chance(0.9) ? r.below(clock) + 1 : r.chance(0.8) ? clock * r.range(1, 100) : clock * 3600 * r.range(1, 90);
        ts += step;
    }
    return s;
}

// ---------------------------------------------------------------- writing

std::shared_ptr<MediaWriter> makeWriter(ref::C c, const std::string& f, const std::shared_ptr<srtc::Track>& t)
{
    switch (c) {
    case ref::C::VP8: return std::make_shared<MediaWriterVP8>(f, t);
    case ref::C::VP9: return std::make_shared<MediaWriterVP9>(f, t);
    case ref::C::AV1: return std::make_shared<MediaWriterAV1>(f, t);
    case ref::C::Opus: return std::make_shared<MediaWriterOgg>(f, t);
    default: return std::make_shared<MediaWriterH26x>(f, t);
    }
}
const char* ext(ref::C c) { return c == ref::C::Opus ? ".ogg" : c == ref::C::H264 ? ".h264" : c == ref::C::H265 ? ".h265" : ".webm"; }

void writeFile(Rng& r, const Stream& s, const std::string& file, bool stereo = false)
{
    unlink(file.c_str());
    int pace = r.below(3);
    auto c = inChild([&](Bytes&) {
        const bool audio = s.codec == ref::C::Opus;
        auto media = std::make_shared<srtc::Media>("0", audio ? srtc::MediaType::Audio : srtc::MediaType::Video);
        srtc::TrackBuilder tb(media, srtc::Direction::Subscribe, 1, 100, audio ? 48000 : 90000);
        tb.codec(glue::codec(s.codec), std::make_shared<srtc::Track::CodecOptions>(0x42e01f, r.pickOf({3, 10, 20, 60}), stereo));
        auto track = tb.build();
        {
            auto w = makeWriter(s.codec, file, track);
            w->start();
            for (auto& f : s.frames) {
                auto e = std::make_shared<srtc::EncodedFrame>();
                e->track = track;
                e->rtp_timestamp_ext = f.ts;
                e->seq_ext = 1;
                e->marker = true;
                e->data = glue::buf(f.data);
                w->send(e);
                if (pace == 1 && r.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
            }
            if (pace == 2) std::this_thread::sleep_for(std::chrono::milliseconds(r.below(4)));
        }
    });
    VF_CHECK(c.returned, "writer-gave-up", "the writer exited instead of saving a stream");
}

// ---------------------------------------------------------------- strict EBML / WebM parser

struct Ebml {
    const uint8_t* p; size_t n; size_t at = 0;
    bool more() const { return at < n; }
    static int width(uint8_t b) { int w = 1; while (w <= 8 && !(b & (0x80 >> (w - 1)))) w++; return w; }
    uint32_t id() {
        int w = width(p[at]);
        VF_CHECK(w <= 4 && at + w <= n, "webm-id", "element id at " << at);
        uint32_t v = 0; for (int i = 0; i < w; i++) v = v << 8 | p[at++];
        return v;
    }
    uint64_t size() {
        VF_CHECK(at < n, "webm-truncated", "no element size");
        int w = width(p[at]);
        VF_CHECK(w <= 8 && at + w <= n, "webm-size", "element size at " << at);
        uint64_t v = p[at++] & ((1u << (8 - w)) - 1), ones = (1ull << (7 * w)) - 1;
        for (int i = 1; i < w; i++) v = v << 8 | p[at++];
        VF_CHECK(v != ones, "webm-unknown-size", "an element has the reserved unknown size");
        return v;
    }
    Ebml elem(uint32_t& i) {
        i = id();
        auto s = size();
        VF_CHECK(s <= n - at, "webm-nesting", "element " << std::hex << i << std::dec << " of size " << s << " extends " << s - (n - at) << " past its parent");
        Ebml e{p + at, static_cast<size_t>(s)};
        at += s;
        return e;
    }
    uint64_t uint() const { VF_CHECK(n <= 8, "webm-uint", "unsigned integer of " << n << " bytes"); uint64_t v = 0; for (size_t i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
    std::string str() const { return std::string(reinterpret_cast<const char*>(p), n); }
    double dbl() const { VF_CHECK(n == 8 || n == 4, "webm-float", "float of " << n << " bytes"); if (n == 8) { auto v = uint(); double d; memcpy(&d, &v, 8); return d; } uint32_t v = uint(); float f; memcpy(&f, &v, 4); return f; }
};
struct WFrame { double ms; bool key; Bytes data; };
struct Webm { std::string codec; uint64_t w = 0, h = 0; double duration = -1, scale = 1e6; std::vector<WFrame> frames; };

Webm parseWebm(const Bytes& b)
{
    Webm m;
    Ebml file{b.data(), b.size()};
    uint32_t id;
    VF_CHECK(file.more(), "webm-empty", "empty file");
    auto head = file.elem(id);
    VF_CHECK(id == 0x1A45DFA3, "webm-header", "does not start with an EBML header");
    std::map<uint32_t, Bytes> hv;
    while (head.more()) { auto e = head.elem(id); hv[id] = Bytes(e.p, e.p + e.n); }
    auto hu = [&](uint32_t i, uint64_t def) { if (!hv.count(i)) return def; uint64_t v = 0; for (auto x : hv[i]) v = v << 8 | x; return v; };
    VF_CHECK(hu(0x4286, 1) == 1 && hu(0x42F7, 1) == 1 && hu(0x42F2, 4) == 4 && hu(0x42F3, 8) == 8, "webm-header", "EBML versions");
    VF_CHECK(hv.count(0x4282) && std::string(hv[0x4282].begin(), hv[0x4282].end()) == "webm", "webm-header", "doc type");
    VF_CHECK(hu(0x4285, 1) <= hu(0x4287, 1) && hu(0x4285, 1) >= 1, "webm-header", "doc type versions");
    VF_CHECK(file.more(), "webm-segment", "no segment");
    auto seg = file.elem(id);
    VF_CHECK(id == 0x18538067, "webm-segment", "no segment");
    VF_CHECK(!file.more(), "webm-trailing", "data after the segment");
    bool info = false;
    uint64_t track = 0;
    while (seg.more()) {
        auto e = seg.elem(id);
        if (id == 0x1549A966) {
            info = true;
            while (e.more()) { auto x = e.elem(id); if (id == 0x2AD7B1) m.scale = x.uint(); if (id == 0x4489) m.duration = x.dbl(); }
        } else if (id == 0x1654AE6B) {
            while (e.more()) {
                auto t = e.elem(id);
                VF_CHECK(id == 0xAE && !track, "webm-tracks", "one track entry expected");
                uint64_t uid = 0, type = 0;
                while (t.more()) {
                    auto x = t.elem(id);
                    if (id == 0xD7) track = x.uint();
                    if (id == 0x73C5) uid = x.uint();
                    if (id == 0x83) type = x.uint();
                    if (id == 0x86) m.codec = x.str();
                    if (id == 0xE0) while (x.more()) { auto y = x.elem(id); if (id == 0xB0) m.w = y.uint(); if (id == 0xBA) m.h = y.uint(); }
                }
                VF_CHECK(track && uid && type == 1, "webm-tracks", "track number " << track << " uid " << uid << " type " << type);
            }
        } else if (id == 0x1F43B675) {
            VF_CHECK(track && info, "webm-order", "a cluster before the tracks or the segment information");
            bool haveTime = false;
            uint64_t time = 0;
            while (e.more()) {
                auto x = e.elem(id);
                if (id == 0xE7) { time = x.uint(); haveTime = true; }
                if (id == 0xA3) {
                    VF_CHECK(haveTime, "webm-cluster", "a block before the cluster's time");
                    VF_CHECK(x.n >= 4, "webm-block", "block of " << x.n << " bytes");
                    auto t = x.size();
                    VF_CHECK(t == track, "webm-block", "block of track " << t);
                    int16_t rel = static_cast<int16_t>(x.p[x.at] << 8 | x.p[x.at + 1]);
                    auto flags = x.p[x.at + 2];
                    VF_CHECK((flags & 0x06) == 0 && (flags & 0x70) == 0, "webm-block", "flags " << int(flags));
                    m.frames.push_back({(static_cast<double>(time) + rel) * m.scale / 1e6, (flags & 0x80) != 0, Bytes(x.p + x.at + 3, x.p + x.n)});
                }
            }
        }
    }
    VF_CHECK(info && track, "webm-structure", "no segment information or tracks");
    return m;
}

std::string atFrame(size_t i, size_t n, const std::string& s) { return "frame " + std::to_string(i) + " of " + std::to_string(n) + ": " + s; }

void checkWebm(const Stream& s, const Bytes& b, bool hostile)
{
    auto m = parseWebm(b);
    const char* want = s.codec == ref::C::VP8 ? "V_VP8" : s.codec == ref::C::VP9 ? "V_VP9" : "V_AV1";
    VF_CHECK(m.codec == want, "webm-codec", "codec '" << m.codec << "'");
    VF_CHECK(m.frames.size() == s.frames.size(), "frame-count", m.frames.size() << " frames in the file, " << s.frames.size() << " were written");
    for (size_t i = 0; i < s.frames.size(); i++) {
        auto& f = m.frames[i];
        VF_CHECK(f.data == s.frames[i].data, "frame-data", atFrame(i, s.frames.size(), "content differs, " + std::to_string(f.data.size()) + " and " + std::to_string(s.frames[i].data.size()) + " bytes"));
        double ms = (s.frames[i].ts - s.frames[0].ts) / 90.0;
        VF_CHECK(std::abs(f.ms - ms) <= 1.0, "frame-time", atFrame(i, s.frames.size(), "at " + std::to_string(f.ms) + " ms, was written for " + std::to_string(ms)));
        if (i > 0 && !hostile) VF_CHECK(f.key == s.frames[i].key, "frame-key", atFrame(i, s.frames.size(), f.key ? "marked as a key frame" : "not marked as a key frame"));
        sig("w" + std::string(want) + std::to_string(f.key) + std::to_string(f.data.size() > 122 && f.data.size() < 128) + std::to_string(static_cast<int>(std::log2(f.data.size() + 1))) + "t" + std::to_string(static_cast<int>(std::log2(f.ms + 1))));
    }
    count("frames_written", s.frames.size());
    if (s.frames.size() > 1 && m.duration >= 0) {
        double d = (s.frames.back().ts - s.frames[0].ts) / 90.0;
        VF_CHECK(m.duration >= d - 1 && m.duration <= d + 100000, "webm-duration", "duration " << m.duration << " ms of " << d);
    }
    VF_CHECK(m.w > 0 && m.h > 0 || hostile, "webm-dimensions", "no dimensions");
    if (s.w) {
        VF_CHECK(static_cast<int>(m.w) == s.w && static_cast<int>(m.h) == s.h, "webm-dimensions", m.w << "x" << m.h << ", the first key frame is " << s.w << "x" << s.h);
        count("dimensions_checked");
    }
}

// ---------------------------------------------------------------- strict Ogg / Opus parser

void checkOgg(const std::vector<Bytes>& packets, const std::vector<uint32_t>& samples, const Bytes& b, int channels)
{
    std::vector<uint32_t> table(256);
    for (uint32_t i = 0; i < 256; i++) { uint32_t c = i << 24; for (int k = 0; k < 8; k++) c = c & 0x80000000u ? c << 1 ^ 0x04c11db7u : c << 1; table[i] = c; }
    std::vector<Bytes> got;
    std::vector<uint64_t> endGranule;
    Bytes cur;
    bool open = false, eos = false;
    uint32_t serial = 0, pageNo = 0;
    uint64_t total = 0, last = 0;
    for (size_t at = 0; at < b.size();) {
        VF_CHECK(b.size() - at >= 27 && !memcmp(&b[at], "OggS", 4) && b[at + 4] == 0, "ogg-page", "no page at " << at);
        const uint8_t* h = &b[at];
        auto le = [&](int o, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | h[o + i]; return v; };
        int flags = h[5], segs = h[26];
        uint64_t granule = le(6, 8);
        VF_CHECK(b.size() - at >= 27u + segs, "ogg-page", "truncated page header");
        size_t body = 0;
        for (int i = 0; i < segs; i++) body += h[27 + i];
        VF_CHECK(b.size() - at >= 27 + segs + body, "ogg-page", "truncated page");
        uint32_t crc = 0;
        for (size_t i = 0; i < 27 + segs + body; i++) crc = crc << 8 ^ table[(crc >> 24) ^ ((i >= 22 && i < 26) ? 0 : h[i])];
        VF_CHECK(crc == le(22, 4), "ogg-crc", "page " << pageNo);
        if (pageNo == 0) serial = le(14, 4);
        VF_CHECK(serial == le(14, 4) && le(18, 4) == pageNo, "ogg-page", "serial or sequence number of page " << pageNo);
        VF_CHECK(((flags & 2) != 0) == (pageNo == 0), "ogg-page", "beginning of stream flag of page " << pageNo);
        VF_CHECK(!eos, "ogg-eos", "a page after the end of the stream");
        VF_CHECK(((flags & 1) != 0) == open, "ogg-page", "continuation flag of page " << pageNo);
        eos = (flags & 4) != 0;
        size_t o = 27 + segs, done = 0;
        for (int i = 0; i < segs; i++) {
            cur.insert(cur.end(), h + o, h + o + h[27 + i]);
            o += h[27 + i];
            open = h[27 + i] == 255;
            if (!open) {
                size_t k = got.size();
                got.push_back(cur); cur.clear(); done++;
                if (k >= 2) { VF_CHECK(k - 2 < packets.size(), "ogg-packet-count", "more packets than were written"); total += samples[k - 2]; }
            }
        }
        if (pageNo == 0) VF_CHECK(got.size() == 1 && !open && granule == 0, "opus-header-page", "the header is not alone on the first page");
        if (got.size() <= 2 && pageNo > 0) VF_CHECK(granule == 0 || !done, "opus-header-page", "granule position of a header page");
        if (got.size() > 2 && got.size() - done < 2) fail("opus-header-page", "audio on the page of the tags");
        if (done == 0) VF_CHECK(granule == ~0ull, "ogg-granule", "a page on which no packet ends has position " << granule);
        else if (got.size() > 2) {
            VF_CHECK(granule == total, "ogg-granule", "position " << granule << " of page " << pageNo << ", its packets end at " << total << " samples");
            VF_CHECK(granule >= last, "ogg-granule", "positions go back");
            last = granule;
            count("granules_checked");
        }
        at += 27 + segs + body;
        pageNo++;
    }
    VF_CHECK(!open, "ogg-packet", "the last packet is not complete");
    VF_CHECK(got.size() >= 2, "opus-headers", got.size() << " packets in the file");
    auto& head = got[0];
    VF_CHECK(head.size() == 19 && !memcmp(head.data(), "OpusHead", 8) && head[8] == 1 && head[9] == channels && head[18] == 0, "opus-head", "header " << hex(head));
    VF_CHECK((head[12] | head[13] << 8 | head[14] << 16 | head[15] << 24) == 48000, "opus-head", "sample rate");
    auto& tags = got[1];
    VF_CHECK(tags.size() >= 16 && !memcmp(tags.data(), "OpusTags", 8), "opus-tags", "the second packet is not OpusTags");
    size_t o = 8;
    auto u32 = [&]() { VF_CHECK(o + 4 <= tags.size(), "opus-tags", "truncated"); uint32_t v = tags[o] | tags[o + 1] << 8 | tags[o + 2] << 16 | uint32_t(tags[o + 3]) << 24; o += 4; return v; };
    auto n = u32(); VF_CHECK(n <= tags.size() - o, "opus-tags", "vendor string"); o += n;
    for (auto c = u32(); c > 0; c--) { n = u32(); VF_CHECK(n <= tags.size() - o, "opus-tags", "comment"); o += n; }
    VF_CHECK(got.size() - 2 == packets.size(), "ogg-packet-count", got.size() - 2 << " packets in the file, " << packets.size() << " were written");
    for (size_t i = 0; i < packets.size(); i++) VF_CHECK(got[i + 2] == packets[i], "ogg-packet-data", "packet " << i << " of " << packets.size() << " differs");
    VF_CHECK(eos, "ogg-eos", "no end of stream");
    count("packets_written", packets.size());
    sig("ogg" + std::to_string(pageNo) + "/" + std::to_string(packets.size() / 8));
}

// ---------------------------------------------------------------- writers

void writeVideo(Rng& r, int64_t)
{
    auto c = r.pickOf({ref::C::VP8, ref::C::VP9, ref::C::AV1});
    bool hostile = r.chance(0.25);
    auto s = makeStream(r, c, hostile);
    note(std::string(ref::cname(c)) + (hostile ? " arbitrary" : "") + " frames=" + std::to_string(s.frames.size()));
    auto f = path(std::string("w-") + (c == ref::C::VP8 ? "vp8" : c == ref::C::VP9 ? "vp9" : "av1") + ".webm");
    writeFile(r, s, f);
    Bytes b;
    if (s.frames.empty()) { unlink(f.c_str()); return; }
    VF_CHECK(load(f, b), "no-file", "no output file");
    checkWebm(s, b, hostile);
    // the bundled reader agrees
    auto rd = readBack(f, r.chance(0.5));
    VF_CHECK(!rd.rejected, "round-trip", "the bundled reader rejects the file");
    VF_CHECK(rd.frames.size() == s.frames.size(), "round-trip", "the bundled reader finds " << rd.frames.size() << " of " << s.frames.size() << " frames");
    for (size_t i = 0; i < s.frames.size(); i++) {
        VF_CHECK(rd.frames[i].data == s.frames[i].data, "round-trip", atFrame(i, s.frames.size(), "content differs"));
        double us = (s.frames[i].ts - s.frames[0].ts) / 0.09;
        VF_CHECK(std::abs(rd.frames[i].pts - us) <= 1000.0, "round-trip", atFrame(i, s.frames.size(), "time differs"));
    }
    unlink(f.c_str());
    count("round_trips");
}

void writeH26x(Rng& r, int64_t)
{
    auto c = r.pickOf({ref::C::H264, ref::C::H265});
    auto s = makeStream(r, c, r.chance(0.2));
    auto f = path(std::string("w") + ext(c));
    note(ref::cname(c));
    writeFile(r, s, f);
    if (s.frames.empty()) { unlink(f.c_str()); return; }
    Bytes b, want;
    VF_CHECK(load(f, b), "no-file", "no output file");
    for (auto& x : s.frames) add(want, x.data);
    VF_CHECK(b == want, "frame-data", "the file has " << b.size() << " bytes and is not the " << want.size() << " bytes of the frames");
    unlink(f.c_str());
    count("frames_written", s.frames.size());
}

void writeOpus(Rng& r, int64_t)
{
    Stream s;
    s.codec = ref::C::Opus;
    std::vector<Bytes> packets;
    std::vector<uint32_t> samples;
    int n = r.chance(0.1) ? r.range(0, 2) : r.chance(0.1) ? r.range(500, 2000) : r.range(1, 150);
    uint64_t ts = r.below(1ull << 33);
    for (int i = 0; i < n; i++) {
        uint32_t k;
        auto d = opusPacket(r, k);
        packets.push_back(d); samples.push_back(k);
        s.frames.push_back({ts, d, true});
        ts += k;
    }
    auto f = path("w.ogg");
    note("Opus packets=" + std::to_string(n));
    const bool stereo = r.chance(0.5);
    writeFile(r, s, f, stereo);
    if (n == 0) { unlink(f.c_str()); return; }
    Bytes b;
    VF_CHECK(load(f, b), "no-file", "no output file");
    checkOgg(packets, samples, b, stereo ? 2 : 1);
    unlink(f.c_str());
}

// ---------------------------------------------------------------- files to read: WebM

Bytes vint(uint64_t v, int w) { Bytes b; for (int i = w - 1; i >= 0; i--) b.push_back(v >> (8 * i)); b[0] |= 0x80 >> (w - 1); return b; }
Bytes esize(Rng& r, uint64_t v)
{
    int w = 1;
    while (v >= (1ull << (7 * w)) - 1) w++;
    if (r.chance(0.3)) w += r.below(9 - w);
    // 8 byte values have 56 bits
    Bytes b(w);
    for (int i = 0; i < w; i++) b[w - 1 - i] = v >> (8 * i);
    b[0] |= 0x80 >> (w - 1);
    return b;
}
Bytes eid(uint32_t id) { Bytes b; for (int i = 3; i >= 0; i--) if (id >> (8 * i) || i == 0) b.push_back(id >> (8 * i)); return b; }
Bytes el(Rng& r, uint32_t id, const Bytes& content) { Bytes b = eid(id); add(b, esize(r, content.size())); add(b, content); return b; }
Bytes uintBytes(Rng& r, uint64_t v) { int w = 1; while (w < 8 && v >> (8 * w)) w++; if (r.chance(0.2)) w += r.below(9 - w); Bytes b; for (int i = w - 1; i >= 0; i--) b.push_back(i >= 8 ? 0 : v >> (8 * i)); return b; }
Bytes S(const char* s) { return Bytes(s, s + strlen(s)); }
Bytes extra(Rng& r)
{
    Bytes b;
    while (r.chance(0.2)) add(b, el(r, r.pickOf({0xECu, 0xBFu, 0x4D80u, 0x7373u, 0x22B59Cu, 0x114D9B74u}), r.bytes(r.below(60))));
    return b;
}
struct MadeWebm { Bytes file; std::vector<RFrame> frames; std::string codec; };

MadeWebm makeWebm(Rng& r, const std::string& codec)
{
    MadeWebm m;
    m.codec = codec;
    Bytes head;
    add(head, el(r, 0x4286, {1}));
    if (r.chance(0.8)) add(head, el(r, 0x42F7, {1}));
    if (r.chance(0.8)) { add(head, el(r, 0x42F2, {4})); add(head, el(r, 0x42F3, {8})); }
    add(head, el(r, 0x4282, S("webm")));
    if (r.chance(0.8)) { add(head, el(r, 0x4287, {4})); add(head, el(r, 0x4285, {2})); }
    if (r.chance(0.1)) add(head, el(r, 0xEC, r.bytes(r.below(20))));
    Bytes seg;
    add(seg, extra(r));
    uint64_t scale = 1000000;
    Bytes info;
    if (r.chance(0.85)) {
        scale = r.chance(0.5) ? 1000000 : r.pickOf({1000, 10000, 100000, 333667, 1000000, 10000000, 20833});
        add(info, extra(r));
        add(info, el(r, 0x2AD7B1, uintBytes(r, scale)));
        add(info, el(r, 0x4489, r.bytes(8)));
        add(info, extra(r));
        add(seg, el(r, 0x1549A966, info));
    }
    add(seg, extra(r));
    std::vector<int> numbers;
    int nt = r.range(1, 4), target = r.below(nt);
    Bytes tracks;
    for (int i = 0; i < nt; i++) {
        int num;
        do num = r.chance(0.8) ? r.range(1, 9) : r.range(1, 400); while (std::find(numbers.begin(), numbers.end(), num) != numbers.end());
        numbers.push_back(num);
        bool audio = r.chance(0.6);
        std::string cid = i == target ? codec : audio ? "A_OPUS" : codec == "V_VP8" ? "V_VP9" : "V_VP8";
        std::vector<Bytes> parts = {el(r, 0xD7, uintBytes(r, num)), el(r, 0x73C5, r.bytes(8)), el(r, 0x83, {static_cast<uint8_t>(i == target ? 1 : audio ? 2 : 1)}),
                                    el(r, 0x86, S(cid.c_str())), el(r, 0xE0, r.bytes(r.below(20))), extra(r)};
        for (size_t k = parts.size(); k > 1; k--) std::swap(parts[k - 1], parts[r.below(k)]);
        Bytes t;
        for (auto& p : parts) add(t, p);
        add(tracks, el(r, 0xAE, t));
        if (r.chance(0.1)) add(tracks, extra(r));
    }
    add(seg, el(r, 0x1654AE6B, tracks));
    add(seg, extra(r));
    uint64_t time = r.chance(0.2) ? r.below(1ull << 31) : r.below(3000);
    for (int k = r.range(0, 6); k > 0; k--) {
        Bytes cl;
        add(cl, extra(r));
        add(cl, el(r, 0xE7, uintBytes(r, time)));
        add(cl, extra(r));
        int span = 0;
        for (int i = r.range(0, 12); i > 0; i--) {
            bool mine = r.chance(0.6);
            int t = mine ? numbers[target] : r.pick(numbers);
            int rel = span;
            if (r.chance(0.1)) rel = std::max<int64_t>(-static_cast<int64_t>(time), r.range(-32768, -1));
            if (r.chance(0.05)) rel = 32767;
            span = std::min(32767, span + static_cast<int>(r.below(100)));
            Bytes blk = t < 127 && r.chance(0.9) ? vint(t, 1) : vint(t, 2);
            blk.push_back(static_cast<uint16_t>(rel) >> 8); blk.push_back(rel);
            blk.push_back((r.chance(0.3) ? 0x80 : 0) | (r.chance(0.1) ? 1 : 0) | (r.chance(0.1) ? 8 : 0));
            auto data = r.bytes(r.chance(0.05) ? 0 : frameSize(r) / (r.chance(0.5) ? 10 : 1));
            add(blk, data);
            add(cl, el(r, 0xA3, blk));
            if (t == numbers[target]) m.frames.push_back({(static_cast<int64_t>(time) + rel) * static_cast<int64_t>(scale) / 1000, {}, data});
            if (r.chance(0.1)) add(cl, extra(r));
        }
        add(seg, el(r, 0x1F43B675, cl));
        add(seg, extra(r));
        time += r.below(30000) + 1;
    }
    if (r.chance(0.3)) add(seg, el(r, 0x1C53BB6B, r.bytes(r.below(200))));
    m.file = el(r, 0x1A45DFA3, head);
    if (r.chance(0.1)) add(m.file, el(r, 0xEC, r.bytes(r.below(50))));
    add(m.file, el(r, 0x18538067, seg));
    if (r.chance(0.05)) add(m.file, el(r, 0xEC, r.bytes(r.below(50))));
    return m;
}

std::string nameFor(Rng& r, const std::string& codec)
{
    std::string k = codec == "V_VP8" ? "vp8" : codec == "V_VP9" ? "vp9" : "av1";
    return path(r.pickOf({"sintel-", "a.b-", "x-y-", "in-"}) + k + r.pickOf({"", "-1", ".x"}) + ".webm");
}
int codecOf(const std::string& c) { return static_cast<int>(c == "V_VP8" ? srtc::Codec::VP8 : c == "V_VP9" ? srtc::Codec::VP9 : srtc::Codec::AV1); }

void readWebm(Rng& r, int64_t)
{
    auto codec = r.pickOf({"V_VP8", "V_VP9", "V_AV1"});
    auto m = makeWebm(r, codec);
    auto f = nameFor(r, codec);
    save(f, m.file);
    note(std::string(codec) + " frames=" + std::to_string(m.frames.size()) + " bytes=" + std::to_string(m.file.size()));
    auto rd = readBack(f, r.chance(0.5));
    unlink(f.c_str());
    VF_CHECK(!rd.rejected, "rejected", "a well-formed file is rejected");
    VF_CHECK(rd.codec == codecOf(codec), "codec", "read as another codec");
    VF_CHECK(rd.frames.size() == m.frames.size(), "read-count", rd.frames.size() << " frames read of " << m.frames.size());
    for (size_t i = 0; i < m.frames.size(); i++) {
        VF_CHECK(rd.frames[i].data == m.frames[i].data, "read-data", atFrame(i, m.frames.size(), "content differs"));
        VF_CHECK(rd.frames[i].pts == m.frames[i].pts, "read-time", atFrame(i, m.frames.size(), "at " + std::to_string(rd.frames[i].pts) + " us, is at " + std::to_string(m.frames[i].pts)));
        VF_CHECK(rd.frames[i].csd.empty(), "read-csd", "codec data");
    }
    count("frames_read", m.frames.size());
    sig("rw" + std::string(codec) + std::to_string(m.frames.size()) + "/" + std::to_string(m.file.size() / 256));
}

// ---------------------------------------------------------------- files to read: Annex B

Bytes rbsp(Rng& r, size_t n)
{
    Bytes b;
    while (b.size() < n) {
        if (r.chance(0.03)) { add(b, {0, 0, 3, static_cast<uint8_t>(r.below(4))}); continue; } // emulation prevention
        b.push_back(r.chance(0.05) && !b.empty() && b.back() ? 0 : 1 + r.below(255));
    }
    if (!b.empty() && b.back() < 4) b.back() = 0x80;
    return b;
}
Bytes startCode(Rng& r) { return r.chance(0.6) ? Bytes{0, 0, 0, 1} : Bytes{0, 0, 1}; }

struct Nal { Bytes data; bool slice = false; };
struct Unit { std::vector<Nal> nals; bool key = false; std::vector<Bytes> csd; }; // csd: in effect for a key frame

Nal slice264(Rng& r, bool key, bool first)
{
    Bytes d = {static_cast<uint8_t>((r.range(1, 3) << 5) | (key ? 5 : 1))};
    d.push_back(first ? 0x80 | r.below(128) : 0x40 | r.below(64)); // first_mb_in_slice: ue(v) "1" is 0
    if (d.back() == 0) d.back() = 0x41;
    add(d, rbsp(r, frameSize(r) / 4 + 1));
    return {d, true};
}
Nal slice265(Rng& r, int type, bool first)
{
    Bytes d = {static_cast<uint8_t>(type << 1), static_cast<uint8_t>(1 + r.below(3)), static_cast<uint8_t>((first ? 0x80 : 0) | (1 + r.below(127)))};
    add(d, rbsp(r, frameSize(r) / 4 + 1));
    return {d, true};
}
Nal other(Rng& r, ref::C c, int type)
{
    Bytes d;
    if (c == ref::C::H264) d = {static_cast<uint8_t>((type == 7 || type == 8 ? 0x60 : 0) | type)};
    else d = {static_cast<uint8_t>(type << 1), 1};
    add(d, rbsp(r, r.range(2, 40)));
    return {d, false};
}

std::vector<Unit> makeUnits(Rng& r, ref::C c)
{
    std::vector<Unit> us;
    std::vector<Bytes> sets(c == ref::C::H264 ? 2 : 3);
    bool aud = r.chance(0.4), sei = r.chance(0.5), suffix = r.chance(0.3), repeat = r.chance(0.6);
    int slices = r.chance(0.5) ? 1 : r.range(2, 6);
    int n = r.chance(0.1) ? r.range(50, 120) : r.range(1, 25);
    for (int i = 0; i < n; i++) {
        Unit u;
        u.key = i == 0 || r.chance(0.2);
        if (aud) u.nals.push_back(other(r, c, c == ref::C::H264 ? 9 : 35));
        if (u.key && (i == 0 || repeat)) {
            bool fresh = i == 0 || r.chance(0.7);
            for (size_t k = 0; k < sets.size(); k++) {
                if (fresh) sets[k] = other(r, c, c == ref::C::H264 ? 7 + k : 32 + k).data;
                u.nals.push_back({sets[k], false});
            }
        }
        if (sei && r.chance(0.5)) u.nals.push_back(other(r, c, c == ref::C::H264 ? 6 : 39));
        int type265 = u.key ? r.pickOf({19, 20, 21}) : r.pickOf({0, 1, 1, 1, 8, 9});
        for (int k = 0; k < slices; k++) u.nals.push_back(c == ref::C::H264 ? slice264(r, u.key, k == 0) : slice265(r, type265, k == 0));
        if (suffix && r.chance(0.5)) u.nals.push_back(other(r, c, c == ref::C::H264 ? 12 : 40));
        if (u.key) u.csd = sets;
        us.push_back(u);
    }
    return us;
}
Bytes annexB(Rng& r, const std::vector<Unit>& us)
{
    Bytes b;
    for (auto& u : us) for (auto& n : u.nals) { add(b, startCode(r)); add(b, n.data); }
    return b;
}
std::vector<Bytes> splitNals(const Bytes& b)
{
    std::vector<size_t> at;
    std::vector<Bytes> out;
    for (size_t i = 0; i + 3 <= b.size(); i++) if (!b[i] && !b[i + 1] && b[i + 2] == 1) { at.push_back(i); i += 2; }
    for (size_t k = 0; k < at.size(); k++) {
        size_t e = k + 1 < at.size() ? at[k + 1] : b.size();
        while (e > at[k] + 3 && b[e - 1] == 0) e--;
        out.emplace_back(b.begin() + at[k] + 3, b.begin() + e);
    }
    return out;
}
Bytes nalus(Rng& r, ref::C c, bool key)
{
    auto us = makeUnits(r, c);
    Unit u = us[0];
    (void)key;
    Bytes b;
    for (auto& n : u.nals) { add(b, {0, 0, 0, 1}); add(b, n.data); }
    return b;
}

// The slices are exactly the unit's; everything else, if there, is from the same unit and in its order
void checkUnit(const Unit& u, const RFrame& f, size_t i, size_t n, bool h264)
{
    auto got = splitNals(f.data);
    size_t k = 0, slices = 0, want = 0;
    for (auto& x : u.nals) want += x.slice;
    for (auto& g : got) {
        while (k < u.nals.size() && u.nals[k].data != g) k++;
        VF_CHECK(k < u.nals.size(), "read-data", atFrame(i, n, "a NAL unit which is not the frame's, or out of order: " + hex(g, 16)));
        slices += u.nals[k].slice;
        k++;
    }
    VF_CHECK(slices == want, "read-data", atFrame(i, n, std::to_string(slices) + " slices of " + std::to_string(want)));
    VF_CHECK(f.pts == static_cast<int64_t>(i) * 40000, "read-time", atFrame(i, n, "at " + std::to_string(f.pts) + " us"));
    VF_CHECK(u.key ? f.csd.size() == u.csd.size() : f.csd.empty(), "read-csd", atFrame(i, n, std::to_string(f.csd.size()) + " parameter sets of " + std::to_string(u.csd.size())));
    for (size_t j = 0; j < f.csd.size(); j++) {
        auto s = splitNals(f.csd[j]);
        VF_CHECK(s.size() == 1 && s[0] == u.csd[j], "read-csd", atFrame(i, n, "parameter set " + std::to_string(j) + " is not the one in effect"));
        count("parameter_sets");
    }
    sig((h264 ? "h4" : "h5") + std::to_string(u.key) + std::to_string(u.nals.size()) + "," + std::to_string(want) + "," + std::to_string(got.size()) + "," + std::to_string(static_cast<int>(std::log2(f.data.size() + 1))));
}

void readAnnexB(Rng& r, int64_t)
{
    auto c = r.pickOf({ref::C::H264, ref::C::H265});
    auto us = makeUnits(r, c);
    auto b = annexB(r, us);
    auto f = path(std::string("r") + ext(c));
    save(f, b);
    note(std::string(ref::cname(c)) + " units=" + std::to_string(us.size()));
    auto rd = readBack(f, r.chance(0.5));
    unlink(f.c_str());
    VF_CHECK(!rd.rejected, "rejected", "a well-formed file is rejected");
    VF_CHECK(rd.codec == static_cast<int>(glue::codec(c)), "codec", "read as another codec");
    VF_CHECK(rd.frames.size() == us.size(), "read-count", rd.frames.size() << " frames read of " << us.size());
    for (size_t i = 0; i < us.size(); i++) checkUnit(us[i], rd.frames[i], i, us.size(), c == ref::C::H264);
    count("frames_read", us.size());
}

// ---------------------------------------------------------------- damaged files

Bytes damage(Rng& r, Bytes b)
{
    switch (r.below(6)) {
    case 0: for (int k = r.range(1, 6); k > 0 && !b.empty(); k--) b[r.below(b.size())] = r.next(); break;
    case 1: for (int k = r.range(1, 4); k > 0 && !b.empty(); k--) b[r.below(std::min<size_t>(b.size(), 200))] = r.pickOf({0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xFF, 0x7F}); break;
    case 2: if (!b.empty()) { auto at = r.below(b.size()); auto n = std::min<size_t>(r.range(1, 16), b.size() - at); b.erase(b.begin() + at, b.begin() + at + n); } break;
    case 3: { auto at = r.below(b.size() + 1); auto x = r.bytes(r.range(1, 16)); b.insert(b.begin() + at, x.begin(), x.end()); break; }
    case 4: b = r.bytes(r.below(r.chance(0.5) ? 9 : 400)); break;
    default: { // a size replaced by a huge one
        if (b.size() < 12) break;
        auto at = r.below(b.size() - 9);
        b[at] = 1; for (int i = 1; i < 8; i++) b[at + i] = r.chance(0.5) ? 0xFF : r.next();
        break; }
    }
    return b;
}

void damaged(Rng& r, int64_t)
{
    bool webm = r.chance(0.65);
    std::string f, what;
    Bytes b;
    MadeWebm m;
    std::vector<Unit> us;
    auto c = r.pickOf({ref::C::H264, ref::C::H265});
    if (webm) {
        auto codec = r.pickOf({"V_VP8", "V_VP9", "V_AV1"});
        m = makeWebm(r, codec); b = m.file; f = nameFor(r, codec); what = codec;
    } else { us = makeUnits(r, c); b = annexB(r, us); f = path(std::string("d") + ext(c)); what = ref::cname(c); }
    bool cut = r.chance(0.4);
    const auto whole = b.size();
    if (cut) b.resize(r.chance(0.3) ? r.below(std::min<size_t>(b.size() + 1, 120)) : r.below(b.size() + 1));
    else b = damage(r, b);
    save(f, b);
    note(what + (cut ? " cut at " + std::to_string(b.size()) + " of " + std::to_string(whole) : " damaged"));
    auto rd = readBack(f, r.chance(0.5));
    unlink(f.c_str());
    count(rd.rejected ? "damaged_rejected" : "damaged_read");
    sig("d" + what + std::to_string(cut) + std::to_string(rd.rejected) + std::to_string(rd.frames.size()) + "/" + std::to_string(b.size() / 64));
    if (!cut || rd.rejected) return;
    if (webm) {
        VF_CHECK(rd.frames.size() <= m.frames.size(), "cut-frames", "more frames than the whole file has");
        for (size_t i = 0; i < rd.frames.size(); i++)
            VF_CHECK(rd.frames[i].data == m.frames[i].data && rd.frames[i].pts == m.frames[i].pts, "cut-frames", atFrame(i, rd.frames.size(), "of a truncated file is not one of the whole file"));
    } else {
        VF_CHECK(rd.frames.size() <= us.size(), "cut-frames", "more frames than the whole file has");
        for (size_t i = 0; i + 1 < rd.frames.size(); i++) checkUnit(us[i], rd.frames[i], i, us.size(), c == ref::C::H264);
        count("cut_checked");
    }
}

} // namespace

int main(int argc, char** argv)
{
    bool threads = false;
    int n = 1;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "threads")) threads = true; else argv[n++] = argv[i];
    argc = n;
    std::vector<vf::Suite> all = {{"write", 4, writeVideo}, {"h26x", 1, writeH26x}, {"opus", 3, writeOpus}};
    if (!threads) { all.push_back({"webm", 4, readWebm}); all.push_back({"annexb", 4, readAnnexB}); all.push_back({"damaged", 8, damaged}); }
    return vf::runMain(argc, argv, "distinct (direction, codec, frame kind, size and time class, structure, outcome) situations of files that were written and parsed independently, or generated and read back", all);
}
