// Frame generators and independent reference payload parsers (written from the RFCs, no srtc code).
#pragma once
#include "vf.h"
#include <memory>
#include <string>
#include <vector>

namespace ref {
using Bytes = std::vector<uint8_t>;

enum class C { H264, H265, VP8, VP9, AV1, Opus };
const char* cname(C c);

struct Obu { uint8_t type; bool ext; uint8_t tid, sid; Bytes payload;
    bool operator==(const Obu& o) const { return type == o.type && tid == o.tid && sid == o.sid && payload == o.payload; } };

struct Frame {
    C codec = C::H264;
    Bytes data;                // as published
    bool key = false;
    std::vector<Bytes> nals;   // H26x: NAL units without start codes, in order
    std::vector<Obu> obus;     // AV1, without temporal delimiters
};

// Generates frames of one track. Every frame embeds its number, so that contents are unique.
struct Gen {
    C codec;
    vf::Rng rng;
    uint32_t counter = 0;
    Bytes vps, sps, pps;       // current parameter sets (H26x)
    bool paramsInFrame = true; // parameter sets inside key frames, or only as codec specific data
    bool extras = true;        // SEI / AUD / metadata units
    unsigned maxUnits = 4;
    bool av1Ext = false;
    explicit Gen(C c, vf::Rng r);
    void newParams();
    std::vector<Bytes> csd() const; // Annex B, for setCodecSpecificData
    Frame next(bool key, const std::vector<size_t>& unitSizes); // one size per unit (slices)
    Frame next(bool key, size_t approxSize);
};

Bytes escapeNal(Bytes raw); // emulation prevention and a non-zero last byte

// Reference payload parsers: packets of one frame, in order
struct Pkt { Bytes payload; bool marker; };
// return false and set err on a malformed payload
bool depacketH264(const std::vector<Pkt>& p, std::vector<Bytes>& nals, std::string& err);
bool depacketH265(const std::vector<Pkt>& p, std::vector<Bytes>& nals, std::string& err);
bool depacketVP8(const std::vector<Pkt>& p, Bytes& out, std::string& err);
bool depacketVP9(const std::vector<Pkt>& p, Bytes& out, int& pictureId, bool& inter, std::string& err);
bool depacketAV1(const std::vector<Pkt>& p, std::vector<Obu>& out, bool& newSeq, std::string& err);

std::vector<Bytes> splitAnnexB(const Bytes& b);
bool splitObus(const Bytes& b, std::vector<Obu>& out); // low-overhead format; false if malformed
bool isParam264(const Bytes& n);
bool isParam265(const Bytes& n);
bool isSlice264(const Bytes& n);
bool isSlice265(const Bytes& n);

// Does a delivered frame carry exactly published frame f (see DESIGN.md, C03)? params = parameter sets in force for f
bool sameFrame(const Frame& f, const std::vector<Bytes>& params, const Bytes& delivered, std::string& err);
} // namespace ref
