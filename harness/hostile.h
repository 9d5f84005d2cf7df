// Content an authenticated peer may send: grammar-based and mutated RTP payloads, header extensions and control packets.
#pragma once
#include "media.h"
#include "vf.h"

namespace hostile {
using ref::Bytes; using ref::C;
inline void p8(Bytes& b, uint64_t v) { b.push_back(static_cast<uint8_t>(v)); }
inline void p16(Bytes& b, uint64_t v) { p8(b, v >> 8); p8(b, v); }
inline void p32(Bytes& b, uint64_t v) { p16(b, v >> 16); p16(b, v); }
inline void app(Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
inline uint64_t edge(vf::Rng& r, uint64_t fit, uint64_t max) { // a length field: mostly right
    if (r.chance(0.6)) return fit;
    return r.pickOf<uint64_t>({0, 1, 2, fit + 1, fit ? fit - 1 : 0, fit + 2, max, max - 1, max / 2, max / 2 + 1, r.next() & max}) & max;
}
inline Bytes fill(vf::Rng& r, size_t n) {
    switch (r.below(4)) { case 0: return Bytes(n, 0); case 1: return Bytes(n, 0xFF); case 2: { Bytes b(n, 0); if (n) b[r.below(n)] = static_cast<uint8_t>(r.next()); return b; } default: return r.bytes(n); }
}
inline size_t some(vf::Rng& r) { return r.chance(0.5) ? r.below(6) : r.chance(0.8) ? r.below(60) : r.below(1300); }
inline Bytes mutate(vf::Rng& r, Bytes b) {
    for (int k = static_cast<int>(r.range(1, 3)); k > 0; k--) switch (r.below(7)) {
        case 0: if (!b.empty()) b[r.below(b.size())] ^= static_cast<uint8_t>(1u << r.below(8)); break;
        case 1: b.resize(r.below(b.size() + 1)); break;
        case 2: app(b, r.bytes(1 + r.below(20))); break;
        case 3: if (b.size() > 1) { size_t i = r.below(b.size() - 1); uint16_t v = r.pickOf<uint16_t>({0, 1, 3, 0x7FFF, 0x8000, 0xFFFF, static_cast<uint16_t>(b.size()), static_cast<uint16_t>(b.size() - i)}); b[i] = static_cast<uint8_t>(v >> 8); b[i + 1] = static_cast<uint8_t>(v); } break;
        case 4: if (!b.empty()) b[r.below(std::min<size_t>(b.size(), 6))] = static_cast<uint8_t>(r.next()); break;
        case 5: if (!b.empty()) { size_t i = r.below(b.size()), n = r.below(b.size() - i + 1); b.erase(b.begin() + static_cast<long>(i), b.begin() + static_cast<long>(i + n)); } break;
        default: if (!b.empty()) { size_t i = r.below(b.size()); for (size_t j = i; j < b.size() && j < i + 8; j++) b[j] = static_cast<uint8_t>(r.next()); }
    }
    return b;
}
inline Bytes leb(vf::Rng& r, uint64_t v) {
    Bytes b;
    if (r.chance(0.1)) { for (size_t n = 1 + r.below(12); n > 0; n--) p8(b, 0x80 | r.next()); if (r.chance(0.5)) p8(b, r.below(128)); return b; }
    size_t extra = r.chance(0.1) ? r.below(5) : 0;
    for (;;) { uint8_t x = v & 0x7F; v >>= 7; if (v || extra) { if (!v) extra--; p8(b, x | 0x80); } else { p8(b, x); break; } }
    return b;
}
inline Bytes nal(vf::Rng& r, bool h264, size_t n) {
    Bytes b;
    if (h264) p8(b, (r.below(8) << 5) | r.pickOf<uint64_t>({0, 1, 1, 5, 5, 6, 7, 8, 9, 10, 12, r.below(32)}));
    else { p8(b, r.pickOf<uint64_t>({0, 1, 1, 19, 20, 21, 32, 33, 34, 35, 39, 40, r.below(64)}) << 1 | r.below(2)); p8(b, r.next()); }
    app(b, fill(r, n));
    return b;
}
inline Bytes payload(vf::Rng& r, C c, const std::vector<Bytes>& corpus) {
    if (!corpus.empty() && r.chance(0.3)) return mutate(r, r.pick(corpus));
    if (r.chance(0.05)) return {};
    if (r.chance(0.1)) return r.bytes(some(r));
    Bytes b;
    switch (c) {
    case C::H264: case C::H265: {
        const bool h = c == C::H264;
        const int kind = static_cast<int>(r.below(6));
        if (kind <= 1) { // aggregate
            if (h) p8(b, (r.below(4) << 5) | r.pickOf<uint64_t>({24, 24, 24, 25, 26, 27})); else { p8(b, 48 << 1); p8(b, r.below(256)); }
            for (size_t n = r.below(5); n > 0; n--) { auto x = nal(r, h, some(r)); if (r.chance(0.2)) x.resize(r.below(3)); p16(b, edge(r, x.size(), 0xFFFF)); app(b, x); }
            if (r.chance(0.2)) p8(b, r.next());
        } else if (kind <= 3) { // fragment
            if (h) p8(b, (r.below(4) << 5) | r.pickOf<uint64_t>({28, 28, 28, 29})); else { p8(b, 49 << 1 | r.below(2)); p8(b, r.next()); }
            if (r.chance(0.95)) p8(b, r.pickOf<uint64_t>({0, 0, 0x40, 0x80, 0x80, 0xC0, 0x20}) | (h ? r.pickOf<uint64_t>({1, 5, 7, 8, r.below(32)}) : r.pickOf<uint64_t>({1, 19, 20, 32, r.below(64)})));
            app(b, fill(r, r.chance(0.2) ? 0 : some(r)));
        } else b = nal(r, h, r.chance(0.2) ? 0 : some(r));
        if (r.chance(0.1)) b.resize(std::min<size_t>(b.size(), r.below(4)));
        return b; }
    case C::VP8: {
        p8(b, r.chance(0.3) ? r.next() : r.pickOf<uint64_t>({0x10, 0x00, 0x90, 0x80, 0x11, 0xB0}));
        if (b[0] & 0x80) { p8(b, r.next()); for (size_t n = r.below(6); n > 0; n--) p8(b, r.next()); }
        app(b, fill(r, some(r)));
        if (r.chance(0.2)) b.resize(std::min<size_t>(b.size(), r.below(8)));
        return b; }
    case C::VP9: {
        p8(b, r.chance(0.7) ? r.next() : r.pickOf<uint64_t>({0x0C, 0x8C, 0x08, 0x02, 0xFF, 0x5C}));
        if (b[0] & 0x80) { p8(b, r.next()); if (b.back() & 0x80) p8(b, r.next()); }
        if (b[0] & 0x20) { p8(b, r.next()); if (r.chance(0.5)) p8(b, r.next()); }
        if ((b[0] & 0x50) == 0x50) for (size_t n = 1 + r.below(5); n > 0; n--) p8(b, r.next());
        if (b[0] & 0x02) { // scalability structure
            p8(b, r.next());
            if (b.back() & 0x10) app(b, r.bytes(r.below(40)));
            p8(b, r.pickOf<uint64_t>({0, 1, 8, 255}));
            app(b, fill(r, r.below(300)));
        }
        app(b, fill(r, some(r)));
        if (r.chance(0.3)) b.resize(std::min<size_t>(b.size(), r.below(12)));
        return b; }
    case C::AV1: {
        p8(b, r.chance(0.5) ? r.next() : r.pickOf<uint64_t>({0x10, 0x18, 0x08, 0x00, 0x80, 0x90, 0xC0, 0x20, 0x30, 0x50}));
        const unsigned w = (b[0] >> 4) & 3;
        size_t n = r.chance(0.7) && w ? w : r.below(6);
        for (size_t i = 0; i < n; i++) {
            Bytes o;
            if (r.chance(0.95)) { p8(o, r.chance(0.3) ? r.next() : (r.pickOf<uint64_t>({1, 2, 3, 4, 5, 6, 8, 15}) << 3) | r.pickOf<uint64_t>({0, 0, 0, 2, 4, 6})); if (o[0] & 4 && r.chance(0.7)) p8(o, r.next()); }
            app(o, fill(r, some(r)));
            if (r.chance(0.15)) o.resize(std::min<size_t>(o.size(), r.below(3)));
            if (!(w && i + 1 == w)) app(b, leb(r, edge(r, o.size(), r.chance(0.5) ? 0xFFFFFFFFull : 0xFFFF)));
            app(b, o);
        }
        return b; }
    default: return fill(r, some(r));
    }
}
// A complete RTP packet
inline Bytes rtp(vf::Rng& r, uint32_t ssrc, unsigned pt, bool marker, uint16_t seq, uint32_t ts, const Bytes& pay, double bad, const std::vector<uint8_t>& extIds) {
    Bytes b;
    const bool x = r.chance(bad), p = r.chance(bad), cc = r.chance(bad * 0.5);
    const unsigned n = cc ? static_cast<unsigned>(r.below(16)) : 0;
    p8(b, 0x80 | (p ? 0x20 : 0) | (x ? 0x10 : 0) | n);
    p8(b, pt | (marker ? 0x80 : 0));
    p16(b, seq); p32(b, ts); p32(b, ssrc);
    app(b, r.bytes(4 * n));
    if (x) {
        Bytes e;
        const unsigned profile = r.pickOf<unsigned>({0xBEDE, 0xBEDE, 0xBEDE, 0x1000, 0x100F, static_cast<unsigned>(r.below(65536))});
        for (size_t k = r.below(6); k > 0; k--) {
            const unsigned id = extIds.empty() || r.chance(0.2) ? static_cast<unsigned>(r.below(256)) : r.pick(extIds);
            const size_t len = r.chance(0.5) ? r.below(4) : r.below(20);
            if (profile == 0xBEDE) p8(e, (id & 15) << 4 | edge(r, len ? len - 1 : 0, 15)); else { p8(e, id); p8(e, edge(r, len, 255)); }
            app(e, fill(r, len));
            if (r.chance(0.2)) e.insert(e.end(), r.below(4), 0);
        }
        if (r.chance(0.8)) while (e.size() % 4) p8(e, r.chance(0.9) ? 0 : r.next());
        p16(b, profile); p16(b, edge(r, e.size() / 4, 0xFFFF));
        app(b, e);
    }
    app(b, pay);
    if (p) { size_t k = r.below(12); app(b, Bytes(k, 0)); p8(b, r.chance(0.5) ? k + 1 : r.next()); }
    if (r.chance(bad * 0.1)) b.resize(12 + r.below(b.size() - 11));
    return b;
}
struct RtcpWorld { std::vector<uint32_t> ssrcs; std::vector<uint16_t> seqs; uint16_t twcc = 0; };
inline Bytes twccBody(vf::Rng& r, const RtcpWorld& w) {
    Bytes b;
    p16(b, r.chance(0.7) ? w.twcc - r.below(300) : r.next());
    size_t count = r.pickOf<size_t>({0, 1, 7, 14, 50, 200, 0xFFFF, r.below(65536)});
    p16(b, count); p8(b, r.next()); p8(b, r.next()); p8(b, r.next()); p8(b, r.next());
    for (size_t n = r.below(r.chance(0.1) ? 300 : 12); n > 0; n--) {
        if (r.chance(0.5)) p16(b, r.below(4) << 13 | r.pickOf<uint64_t>({0, 1, 7, 200, 8191, r.below(8192)}));
        else p16(b, 0x8000 | r.below(0x8000));
    }
    app(b, fill(r, r.below(r.chance(0.1) ? 900 : 40)));
    while (b.size() % 4) p8(b, 0);
    return b;
}
inline Bytes rtcp(vf::Rng& r, const RtcpWorld& w) {
    Bytes out;
    for (size_t n = 1 + r.below(4); n > 0; n--) {
        Bytes b;
        unsigned rc = static_cast<unsigned>(r.below(32)), pt = r.pickOf<unsigned>({200, 201, 202, 203, 204, 205, 205, 205, 206, 206, 207, 207, static_cast<unsigned>(r.range(192, 223))});
        auto ssrc = [&] { return w.ssrcs.empty() || r.chance(0.3) ? static_cast<uint32_t>(r.next()) : r.pick(w.ssrcs); };
        p32(b, ssrc());
        switch (pt) {
        case 200: app(b, fill(r, r.chance(0.7) ? 20 : r.below(30))); for (unsigned k = r.below(3); k > 0; k--) { p32(b, ssrc()); app(b, fill(r, 20)); } if (r.chance(0.5)) rc = static_cast<unsigned>(r.below(4)); break;
        case 201: for (unsigned k = r.below(4); k > 0; k--) { p32(b, ssrc()); app(b, fill(r, 20)); } if (r.chance(0.5)) rc = static_cast<unsigned>(r.below(4)); break;
        case 202: for (size_t k = r.below(4); k > 0; k--) { p8(b, r.below(9)); size_t l = r.below(30); p8(b, edge(r, l, 255)); app(b, r.bytes(l)); } break;
        case 205:
            p32(b, ssrc());
            if (r.chance(0.5)) { rc = 1; for (size_t k = r.pickOf<size_t>({0, 1, 2, 5, 60, 300}); k > 0; k--) { p16(b, !w.seqs.empty() && r.chance(0.8) ? r.pick(w.seqs) - r.below(20) : r.next()); p16(b, r.pickOf<uint64_t>({0, 1, 0xFFFF, r.next()})); } }
            else { rc = 15; app(b, twccBody(r, w)); }
            break;
        case 206: p32(b, ssrc()); rc = r.pickOf<unsigned>({1, 1, 4, 15, rc}); if (rc != 1 || r.chance(0.3)) app(b, fill(r, r.below(30))); if (rc == 15 && r.chance(0.5)) { app(b, {'R', 'E', 'M', 'B'}); p8(b, r.next()); app(b, r.bytes(3)); for (size_t k = r.below(4); k > 0; k--) p32(b, ssrc()); } break;
        case 207: for (size_t k = r.below(5); k > 0; k--) {
                const unsigned bt = r.pickOf<unsigned>({4, 5, 5, 6, 7, static_cast<unsigned>(r.below(256))});
                Bytes x;
                if (bt == 4) x = fill(r, 8); else if (bt == 5) for (size_t j = r.below(4); j > 0; j--) { p32(x, ssrc()); p32(x, r.next()); p32(x, r.pickOf<uint64_t>({0, 65536, 0xFFFFFFFF, r.next()})); } else x = fill(r, 4 * r.below(6));
                p8(b, bt); p8(b, r.next()); p16(b, edge(r, x.size() / 4, 0xFFFF)); app(b, x);
            } break;
        default: app(b, fill(r, r.below(60)));
        }
        if (r.chance(0.9)) while (b.size() % 4) p8(b, 0);
        Bytes h;
        p8(h, 0x80 | (r.chance(0.05) ? 0x20 : 0) | rc); p8(h, pt); p16(h, r.chance(0.8) ? b.size() / 4 : edge(r, b.size() / 4, 0xFFFF));
        app(h, b);
        app(out, h);
    }
    if (r.chance(0.15)) out = mutate(r, out);
    if (out.size() > 1400) out.resize(1400);
    return out;
}
} // namespace hostile
