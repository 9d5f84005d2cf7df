// Media workloads in the deterministic world: what a publisher may send, independent decoding and bookkeeping of what it did send.
#pragma once
#include "session.h"
#include <cmath>

namespace sim {
using ref::C;
struct Vla { unsigned rid = 0; struct L { unsigned kbps = 0, w = 0, h = 0, fps = 0; bool operator==(const L& o) const { return kbps == o.kbps && w == o.w && h == o.h && fps == o.fps; } }; std::vector<L> layers; };
// https://webrtc.googlesource.com/src/+/refs/heads/main/docs/native-code/rtp-hdrext/video-layers-allocation00
inline bool parseVla(const Bytes& b, Vla& v, Str& why) {
    size_t i = 0;
    if (b.empty()) { why = "empty"; return false; }
    v.rid = b[0] >> 6;
    const unsigned ns = ((b[0] >> 4) & 3) + 1;
    std::vector<unsigned> bm(ns, b[0] & 15u);
    i = 1;
    if ((b[0] & 15) == 0) {
        for (unsigned s = 0; s < ns; s++) { if (i + s / 2 >= b.size()) { why = "bitmasks cut"; return false; } bm[s] = s % 2 ? b[i + s / 2] & 15u : b[i + s / 2] >> 4; }
        i += (ns + 1) / 2;
    }
    unsigned spatial = 0;
    for (auto m : bm) spatial += static_cast<unsigned>(__builtin_popcount(m));
    std::vector<unsigned> tl;
    for (unsigned k = 0; k < spatial; k++) { size_t at = i + k / 4; if (at >= b.size()) { why = "temporal layer counts cut"; return false; } tl.push_back(((b[at] >> (6 - 2 * (k % 4))) & 3u) + 1); }
    i += (spatial + 3) / 4;
    for (unsigned k = 0; k < spatial; k++) {
        Vla::L l;
        for (unsigned t = 0; t < tl[k]; t++) {
            uint64_t x = 0; int sh = 0;
            for (;;) { if (i >= b.size() || sh > 35) { why = "bit rates cut"; return false; } x |= static_cast<uint64_t>(b[i] & 0x7F) << sh; sh += 7; if (!(b[i++] & 0x80)) break; }
            l.kbps = static_cast<unsigned>(x);
        }
        v.layers.push_back(l);
    }
    if (i == b.size()) return true;
    for (auto& l : v.layers) {
        if (i + 5 > b.size()) { why = "resolutions cut"; return false; }
        l.w = be16(&b[i]) + 1u; l.h = be16(&b[i + 2]) + 1u; l.fps = b[i + 4];
        i += 5;
    }
    if (i != b.size()) { why = "bytes left over"; return false; }
    return true;
}

// The units a frame is on the wire
struct WireFrame { std::vector<Bytes> units; };
inline bool wireUnits(C c, const std::vector<ref::Pkt>& pp, WireFrame& out, Str& err) {
    switch (c) {
    case C::H264: return ref::depacketH264(pp, out.units, err);
    case C::H265: return ref::depacketH265(pp, out.units, err);
    case C::VP8: { Bytes b; if (!ref::depacketVP8(pp, b, err)) return false; out.units = {b}; return true; }
    case C::VP9: { Bytes b; int pic; bool inter; if (!ref::depacketVP9(pp, b, pic, inter, err)) return false; out.units = {b}; return true; }
    case C::AV1: { std::vector<ref::Obu> o; bool ns; if (!ref::depacketAV1(pp, o, ns, err)) return false; for (auto& x : o) { Bytes u{x.type, x.tid, x.sid}; u.insert(u.end(), x.payload.begin(), x.payload.end()); out.units.push_back(u); } return true; }
    default: out.units.clear(); for (auto& p : pp) out.units.push_back(p.payload); return true;
    }
}
inline WireFrame publishedUnits(const ref::Frame& f, const std::vector<Bytes>& params) {
    WireFrame w;
    if (f.codec == C::H264 || f.codec == C::H265) {
        const bool h264 = f.codec == C::H264;
        bool added = false;
        for (auto& n : f.nals) {
            bool isKey = h264 ? (n[0] & 31) == 5 : ((n[0] >> 1) >= 19 && (n[0] >> 1) <= 21);
            if (h264 ? ref::isParam264(n) : ref::isParam265(n)) continue;
            if (isKey && !added) { added = true; w.units.insert(w.units.end(), params.begin(), params.end()); }
            w.units.push_back(n);
        }
    } else if (f.codec == C::AV1) {
        for (auto& x : f.obus) { Bytes u{x.type, x.tid, x.sid}; u.insert(u.end(), x.payload.begin(), x.payload.end()); w.units.push_back(u); }
    } else w.units = {f.data};
    return w;
}

// Everything known about one published track
struct TrackMon {
    std::shared_ptr<srtc::Track> track;
    C codec = C::VP8;
    std::unique_ptr<ref::Gen> gen;
    Str mid, layer;
    uint32_t ssrc = 0, rtxSsrc = 0; unsigned pt = 0, rtxPt = 0, clock = 90000;
    bool nack = true;
    struct Pub { int64_t at = 0, pts = 0; ref::Frame f; std::vector<Bytes> params; uint64_t act = 0; std::vector<srtc::SimulcastLayer> layers; int64_t firstSent = -1, lastSent = -1; uint32_t ts = 0; uint64_t firstIdx = 0, lastIdx = 0; };
    std::vector<Pub> pubs;
    size_t next = 0;                 // first frame not completely sent
    std::vector<ref::Pkt> part;      // packets of the frame being sent
    int64_t pts = 0, interval = 33333;
    size_t sizeLo = 100, sizeHi = 4000; double keyRate = 0.05, burst = 0;
    bool needKey = true;

    struct Sent { Bytes plain; int64_t at; };
    std::map<uint64_t, Sent> sent;   // main SSRC, by extended index
    uint64_t lastIdx = 0; bool any = false;
    uint64_t packets = 0, octets = 0, rtxPackets = 0, wireBytes = 0;
    uint64_t lastRtx = 0; bool anyRtx = false;
    struct Ask { bool must = false, done = false; int64_t from = 0; };
    std::map<uint64_t, std::vector<std::shared_ptr<Ask>>> asks; // requests under way, by index
    bool resent(uint64_t index) {
        auto i = asks.find(index);
        if (i != asks.end()) for (bool must : {true, false}) for (auto& q : i->second) if (!q->done && q->must == must && q->from <= now()) { q->done = true; return true; }
        return false;
    }
    int64_t lastTsAt = 0;
    bool isVideo() const { return codec != C::Opus; }
    uint64_t find(uint16_t seq) const { // latest index with that sequence, 0: none
        if (!any) return 0;
        uint64_t base = (lastIdx & ~uint64_t(0xFFFF)) | seq;
        if (base > lastIdx) { if (base < 65536) return 0; base -= 65536; }
        return sent.count(base) ? base : 0;
    }
};
inline uint64_t randomNtp(vf::Rng& r) { return r.next() | 1; }
} // namespace sim
