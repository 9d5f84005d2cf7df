// Conversions between the reference code and srtc's public classes, plus an independent RTP parser.
#pragma once
#include "media.h"
#include "vf.h"
#include "srtc/byte_buffer.h"
#include "srtc/media.h"
#include "srtc/rtp_extension_source.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_time_source.h"
#include "srtc/srtc.h"
#include "srtc/track.h"
#include <cstring>
#include <map>
#include <memory>
#include <optional>

namespace glue {
using ref::Bytes;

inline srtc::ByteBuffer buf(const Bytes& b) { return b.empty() ? srtc::ByteBuffer() : srtc::ByteBuffer(b.data(), b.size()); }
inline Bytes bytes(const srtc::ByteBuffer& b) { return b.size() ? Bytes(b.data(), b.data() + b.size()) : Bytes(); }
inline srtc::Codec codec(ref::C c) {
    switch (c) { case ref::C::H264: return srtc::Codec::H264; case ref::C::H265: return srtc::Codec::H265; case ref::C::VP8: return srtc::Codec::VP8;
        case ref::C::VP9: return srtc::Codec::VP9; case ref::C::AV1: return srtc::Codec::AV1; default: return srtc::Codec::Opus; }
}
inline std::shared_ptr<srtc::Track> makeTrack(ref::C c, srtc::Direction d, uint32_t ssrc, uint8_t pt, uint32_t rtxSsrc = 0, uint8_t rtxPt = 0,
                                              bool nack = true, const std::shared_ptr<srtc::Media>& m = nullptr) {
    bool audio = c == ref::C::Opus;
    auto media = m ? m : std::make_shared<srtc::Media>("0", audio ? srtc::MediaType::Audio : srtc::MediaType::Video);
    srtc::TrackBuilder b(media, d, ssrc, pt, audio ? 48000 : 90000);
    b.codec(codec(c), std::make_shared<srtc::Track::CodecOptions>(0x42e01f, 20, false));
    if (rtxSsrc) b.rtx(rtxSsrc, rtxPt);
    b.nack(nack).pli(true);
    auto t = b.build();
    // tracks refer to their media weakly or strongly depending on the version: keep it alive
    static std::vector<std::shared_ptr<srtc::Media>> keep;
    keep.push_back(media);
    if (keep.size() > 4096) keep.erase(keep.begin(), keep.begin() + 2048);
    return t;
}

// RFC 3550 / 8285 parser, independent of srtc
struct Rtp {
    bool padding = false, ext = false, marker = false;
    uint8_t pt = 0, padSize = 0;
    uint16_t seq = 0, extId = 0;
    uint32_t ts = 0, ssrc = 0;
    std::vector<uint32_t> csrc;
    Bytes extData, payload;
    std::vector<std::pair<uint8_t, Bytes>> elements;
    size_t headerSize = 0;
    const Bytes* element(uint8_t id) const { for (auto& e : elements) if (e.first == id) return &e.second; return nullptr; }
};
inline bool parseExtElements(uint16_t id, const Bytes& d, std::vector<std::pair<uint8_t, Bytes>>& out) {
    size_t i = 0;
    if (id == 0xBEDE) {
        while (i < d.size()) {
            if (d[i] == 0) { i++; continue; }
            uint8_t e = d[i] >> 4; size_t n = (d[i] & 15) + 1;
            if (e == 15) break;
            i++;
            if (i + n > d.size()) return false;
            out.push_back({e, Bytes(d.begin() + i, d.begin() + i + n)});
            i += n;
        }
        return true;
    }
    if ((id & 0xFFF0) == 0x1000) {
        while (i < d.size()) {
            if (d[i] == 0) { i++; continue; }
            if (i + 2 > d.size()) return false;
            uint8_t e = d[i]; size_t n = d[i + 1];
            i += 2;
            if (i + n > d.size()) return false;
            out.push_back({e, Bytes(d.begin() + i, d.begin() + i + n)});
            i += n;
        }
        return true;
    }
    return true;
}
inline bool parseRtp(const Bytes& b, Rtp& r, std::string& err) {
    if (b.size() < 12) { err = "short"; return false; }
    if ((b[0] >> 6) != 2) { err = "version"; return false; }
    r.padding = b[0] & 0x20; r.ext = b[0] & 0x10;
    unsigned cc = b[0] & 15;
    r.marker = b[1] & 0x80; r.pt = b[1] & 0x7F;
    auto u16 = [&](size_t i) { return static_cast<uint16_t>(b[i] << 8 | b[i + 1]); };
    auto u32 = [&](size_t i) { return static_cast<uint32_t>(u16(i)) << 16 | u16(i + 2); };
    r.seq = u16(2); r.ts = u32(4); r.ssrc = u32(8);
    size_t i = 12;
    if (i + 4 * cc > b.size()) { err = "csrc"; return false; }
    for (unsigned k = 0; k < cc; k++, i += 4) r.csrc.push_back(u32(i));
    if (r.ext) {
        if (i + 4 > b.size()) { err = "ext header"; return false; }
        r.extId = u16(i); size_t n = 4u * u16(i + 2);
        i += 4;
        if (i + n > b.size()) { err = "ext data"; return false; }
        r.extData.assign(b.begin() + i, b.begin() + i + n);
        i += n;
        if (!parseExtElements(r.extId, r.extData, r.elements)) { err = "ext elements"; return false; }
    }
    size_t end = b.size();
    if (r.padding) {
        r.padSize = b.back();
        if (r.padSize == 0 || r.padSize > end - i) { err = "padding"; return false; }
        end -= r.padSize;
    }
    r.headerSize = i;
    r.payload.assign(b.begin() + i, b.begin() + end);
    return true;
}
} // namespace glue
