// C15: RTP / RTX / RTCP / header-extension encoding and parsing against an independent codec.
#include "glue.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtcp_packet_multi.h"
#include "srtc/rtp_extension.h"
#include "srtc/extension_map.h"
using namespace srtc;
using ref::Bytes;
using vf::Rng;

namespace {

void put16(Bytes& b, uint32_t v) { b.push_back(v >> 8); b.push_back(v); }
void put32(Bytes& b, uint32_t v) { put16(b, v >> 16); put16(b, v & 0xFFFF); }
Bytes be(uint64_t v, size_t n) { Bytes r(n); for (size_t i = 0; i < n; i++) r[i] = static_cast<uint8_t>(v >> (8 * (n - 1 - i))); return r; }
std::string where(const char* f, uint64_t got, uint64_t want) { return std::string(f) + " is " + std::to_string(got) + ", expected " + std::to_string(want); }

using Elements = std::vector<std::pair<uint8_t, Bytes>>;

void checkFinds(const RtpExtension& ext, const Elements& el, const char* key)
{
    for (size_t i = 0; i < el.size(); i++) {
        bool first = true;
        for (size_t j = 0; j < i; j++) if (el[j].first == el[i].first) first = false;
        if (!first) continue;
        auto v = ext.findAny(el[i].first);
        VF_CHECK(v.has_value(), std::string(key) + "-missing", "extension element " << int(el[i].first) << " (size " << el[i].second.size() << ") not found");
        VF_CHECK(Bytes(v->ptr, v->ptr + v->size) == el[i].second, std::string(key) + "-value", "extension element " << int(el[i].first) << " has another value");
        uint64_t n = 0;
        for (size_t k = 0; k < 8 && k < el[i].second.size(); k++) n = n << 8 | el[i].second[k];
        size_t sz = std::min<size_t>(8, el[i].second.size());
        auto top = [&](size_t w) { return sz > w ? n >> (8 * (sz - w)) : n; };
        auto a = ext.findU16(el[i].first); auto b = ext.findU32(el[i].first); auto c = ext.findU64(el[i].first);
        if (sz >= 2) VF_CHECK(a.has_value() && *a == top(2), std::string(key) + "-u16", "findU16"); else VF_CHECK(!a, std::string(key) + "-u16", "findU16 of a shorter element");
        if (sz >= 4) VF_CHECK(b.has_value() && *b == top(4), std::string(key) + "-u32", "findU32"); else VF_CHECK(!b, std::string(key) + "-u32", "findU32 of a shorter element");
        if (sz >= 8) VF_CHECK(c.has_value() && *c == top(8), std::string(key) + "-u64", "findU64"); else VF_CHECK(!c, std::string(key) + "-u64", "findU64 of a shorter element");
    }
    for (int id = 1; id < 256; id++) {
        bool have = false;
        for (auto& e : el) if (e.first == id) have = true;
        if (!have) VF_CHECK(!ext.findAny(id), std::string(key) + "-phantom", "element " << id << " found but never written");
    }
}

struct Built { RtpExtension ext; Elements el; };
Built buildOwn(Rng& r)
{
    Built b;
    RtpExtensionBuilder x;
    size_t n = r.pickOf({0, 0, 1, 2, 3, 5});
    std::set<int> used;
    for (size_t i = 0; i < n; i++) {
        uint8_t id = r.chance(0.8) ? r.range(1, 14) : r.range(15, 255);
        if (!used.insert(id).second) continue;
        switch (r.below(5)) {
        case 0: { uint16_t v = r.next(); x.addU16Value(id, v); b.el.push_back({id, be(v, 2)}); break; }
        case 1: { uint32_t v = r.next(); x.addU32Value(id, v); b.el.push_back({id, be(v, 4)}); break; }
        case 2: { uint64_t v = r.next(); x.addU64Value(id, v); b.el.push_back({id, be(v, 8)}); break; }
        case 3: { std::string s; size_t k = r.chance(0.1) ? r.range(200, 400) : r.range(0, 20);
            for (size_t j = 0; j < k; j++) s.push_back('a' + r.below(26));
            x.addStringValue(id, s); Bytes v(s.begin(), s.end()); if (v.size() > 255) v.resize(255); b.el.push_back({id, v}); break; }
        default: { auto v = r.bytes(r.chance(0.1) ? r.range(200, 400) : r.range(0, 20)); x.addBinaryValue(id, glue::buf(v)); if (v.size() > 255) v.resize(255); b.el.push_back({id, v}); break; }
        }
        if (!b.el.back().second.empty()) VF_CHECK(x.contains(id), "builder-contains", "contains(" << int(id) << ") is false right after adding it");
    }
    for (int id = 1; id < 256; id++) if (!used.count(id)) VF_CHECK(!x.contains(id), "builder-contains", "contains(" << id << ") is true, never added");
    // replacing a 16-bit value
    if (r.chance(0.5)) {
        std::vector<size_t> u16s;
        for (size_t i = 0; i < b.el.size(); i++) if (b.el[i].second.size() == 2) u16s.push_back(i);
        uint16_t v = r.next();
        if (!u16s.empty() && r.chance(0.8)) { auto i = r.pick(u16s); x.addOrReplaceU16Value(b.el[i].first, v); b.el[i].second = be(v, 2); vf::count("ext_replaced"); }
        else { int id = r.range(1, 14); if (used.insert(id).second) { x.addOrReplaceU16Value(id, v); b.el.push_back({static_cast<uint8_t>(id), be(v, 2)}); } }
    }
    b.ext = x.build();
    if (r.chance(0.3) && !b.ext.empty()) {
        auto y = RtpExtensionBuilder::from(b.ext);
        int id = r.range(1, 14);
        if (used.insert(id).second) { uint16_t v = r.next(); y.addOrReplaceU16Value(id, v); b.el.push_back({static_cast<uint8_t>(id), be(v, 2)}); }
        b.ext = y.build();
    }
    if (r.chance(0.3)) b.ext = b.ext.copy();
    if (b.el.empty()) VF_CHECK(b.ext.empty() && b.ext.size() == 0, "builder-empty", "no elements but the extension is not empty");
    else checkFinds(b.ext, b.el, "builder");
    return b;
}

std::shared_ptr<Track> track(Rng& r, bool rtx)
{
    uint32_t ssrc = r.next(); uint32_t rs = r.next() | 1;
    uint8_t pt = r.range(0, 127), rpt = r.range(1, 127);
    return glue::makeTrack(r.pickOf({ref::C::H264, ref::C::VP8, ref::C::Opus}), Direction::Publish, ssrc, pt, rtx ? rs : 0, rtx ? rpt : 0);
}

uint16_t randSeq(Rng& r) { return r.chance(0.3) ? r.pickOf<uint16_t>({0, 1, 0x7fff, 0x8000, 0xfffe, 0xffff}) : static_cast<uint16_t>(r.next()); }

void compareParsed(const std::shared_ptr<RtpPacket>& p, const std::shared_ptr<Track>& t, uint32_t ssrc, uint8_t pt, bool marker, uint16_t seq, uint32_t ts,
                   const Bytes& payload, const char* key)
{
    VF_CHECK(p, std::string(key) + "-rejected", "a standard packet was not parsed");
    VF_CHECK(p->getTrack() == t, std::string(key) + "-track", "track");
    VF_CHECK(p->getSSRC() == ssrc, std::string(key) + "-ssrc", where("ssrc", p->getSSRC(), ssrc));
    VF_CHECK(p->getPayloadId() == pt, std::string(key) + "-pt", where("payload type", p->getPayloadId(), pt));
    VF_CHECK(p->getMarker() == marker, std::string(key) + "-marker", where("marker", p->getMarker(), marker));
    VF_CHECK(p->getSequence() == seq, std::string(key) + "-seq", where("sequence", p->getSequence(), seq));
    VF_CHECK(p->getTimestamp() == ts, std::string(key) + "-ts", where("timestamp", p->getTimestamp(), ts));
    VF_CHECK(glue::bytes(p->getPayload()) == payload, std::string(key) + "-payload", "payload of " << p->getPayload().size() << " bytes differs from the " << payload.size() << " bytes sent");
    VF_CHECK(p->getPayloadSize() == payload.size(), std::string(key) + "-payload", "getPayloadSize");
}

void rtpRoundtrip(Rng& r, int64_t)
{
    bool rtx = r.chance(0.4);
    auto t = track(r, rtx);
    auto b = buildOwn(r);
    uint16_t seq = randSeq(r); uint32_t ts = r.next(), roc = r.chance(0.5) ? 0 : static_cast<uint32_t>(r.next());
    uint8_t pad = r.chance(0.5) ? 0 : r.range(1, 255);
    bool marker = r.chance(0.5);
    Bytes payload = r.bytes(r.pickOf<size_t>({0, 1, 2, 3, 7, 100, 1200, size_t(r.below(1300))}));
    uint32_t ssrc = t->getSSRC(); uint8_t pt = t->getPayloadId();
    bool custom = r.chance(0.2);
    if (custom) { ssrc = r.next(); pt = r.range(0, 127); }
    std::shared_ptr<RtpPacket> p;
    auto ext = b.ext.copy();
    if (custom) p = std::make_shared<RtpPacket>(t, ssrc, pt, marker, roc, seq, ts, pad, std::move(ext), glue::buf(payload));
    else if (b.el.empty() && r.chance(0.5)) p = std::make_shared<RtpPacket>(t, marker, roc, seq, ts, pad, glue::buf(payload));
    else p = std::make_shared<RtpPacket>(t, marker, roc, seq, ts, pad, std::move(ext), glue::buf(payload));
    compareParsed(p, t, ssrc, pt, marker, seq, ts, payload, "getter");
    VF_CHECK(p->getPaddingSize() == pad && p->getRollover() == roc, "getter-padding", "padding or rollover");
    std::ostringstream os;
    os << "rtp seq=" << seq << " pad=" << int(pad) << " payload=" << payload.size() << " ext=" << b.el.size() << " rtx=" << rtx;
    vf::note(os.str());
    auto check = [&](const Bytes& wire, uint32_t wantSsrc, uint8_t wantPt, uint16_t wantSeq, const Bytes& wantPayload, const char* key) {
        glue::Rtp x; std::string err;
        VF_CHECK(glue::parseRtp(wire, x, err), std::string(key) + "-wire", "not a standard RTP packet: " << err << " " << vf::hex(wire));
        VF_CHECK(x.csrc.empty(), std::string(key) + "-wire", "CSRCs");
        VF_CHECK(x.marker == marker && x.pt == wantPt && x.seq == wantSeq && x.ts == ts && x.ssrc == wantSsrc, std::string(key) + "-wire-header",
                 "marker " << x.marker << "/" << marker << " pt " << int(x.pt) << "/" << int(wantPt) << " seq " << x.seq << "/" << wantSeq << " ts " << x.ts << "/" << ts << " ssrc " << x.ssrc << "/" << wantSsrc);
        VF_CHECK(x.padSize == pad, std::string(key) + "-wire-padding", where("padding", x.padSize, pad));
        VF_CHECK(x.payload == wantPayload, std::string(key) + "-wire-payload", "payload differs");
        VF_CHECK(x.elements == b.el, std::string(key) + "-wire-extension", "extension elements differ, " << x.elements.size() << " instead of " << b.el.size());
        VF_CHECK(x.ext == !b.el.empty(), std::string(key) + "-wire-extension", "X bit");
        size_t want = 12 + b.ext.size() + wantPayload.size() + pad;
        VF_CHECK(wire.size() == want, std::string(key) + "-wire-size", where("size", wire.size(), want));
    };
    auto out = p->generate();
    VF_CHECK(out.rollover == roc, "rtp-rollover", where("rollover", out.rollover, roc));
    auto wire = glue::bytes(out.buf);
    check(wire, ssrc, pt, seq, payload, "rtp");
    auto q = RtpPacket::fromUdpPacket(t, out.buf);
    compareParsed(q, t, ssrc, pt, marker, seq, ts, payload, "rtp-parse");
    checkFinds(q->getExtension(), b.el, "rtp-parse-ext");
    auto out2 = p->generate();
    VF_CHECK(glue::bytes(out2.buf) == wire, "rtp-twice", "generating twice gives different bytes");
    if (rtx) {
        auto src = t->getRtxPacketSource();
        auto [r0, s0] = src->getNextSequence();
        for (int k = 0; k < 2; k++) {
            auto o = p->generateRtx(b.ext);
            uint16_t ws = s0 + 1 + k;
            uint32_t wr = r0 + ((static_cast<uint32_t>(s0) + 1 + k) >> 16);
            VF_CHECK(o.rollover == wr, "rtx-rollover", where("rollover", o.rollover, wr));
            Bytes wp = be(seq, 2); wp.insert(wp.end(), payload.begin(), payload.end());
            check(glue::bytes(o.buf), t->getRtxSSRC(), t->getRtxPayloadId(), ws, wp, "rtx");
            auto q2 = RtpPacket::fromUdpPacket(t, o.buf);
            compareParsed(q2, t, t->getRtxSSRC(), t->getRtxPayloadId(), marker, ws, ts, wp, "rtx-parse");
        }
        vf::count("rtx_packets");
    }
    vf::count("rtp_packets");
    vf::sig("rtp" + std::to_string(b.el.size()) + "p" + std::to_string(pad ? 1 + pad % 4 : 0) + "s" + std::to_string(payload.size() / 16) + (rtx ? "x" : "") + std::to_string(out.buf.size() % 4));
}

void sourceSequence(Rng& r, int64_t)
{
    RtpPacketSource s(static_cast<uint32_t>(r.next()), r.range(1, 127));
    auto [r0, q0] = s.getNextSequence();
    VF_CHECK(r0 == 0, "source-first-rollover", "the first packet has rollover " << r0);
    uint64_t idx = q0;
    int n = r.chance(0.1) ? 200000 : 3000;
    for (int i = 0; i < n; i++) {
        auto [ro, q] = s.getNextSequence();
        idx++;
        VF_CHECK((static_cast<uint64_t>(ro) << 16 | q) == idx, "source-sequence", "packet index " << ro << ":" << q << " follows " << (idx - 1));
    }
    vf::count("source_sequences", n);
    vf::sig("src" + std::to_string(q0 / 64));
}

// A packet as another sender would write it
void rtpForeign(Rng& r, int64_t)
{
    auto t = track(r, false);
    Bytes w; Elements el;
    bool padding = r.chance(0.3), ext = r.chance(0.6), marker = r.chance(0.5);
    unsigned cc = r.chance(0.4) ? r.range(1, 15) : 0;
    uint16_t seq = randSeq(r); uint32_t ts = r.next();
    w.push_back(0x80 | (padding ? 0x20 : 0) | (ext ? 0x10 : 0) | cc);
    w.push_back((marker ? 0x80 : 0) | t->getPayloadId());
    put16(w, seq); put32(w, ts); put32(w, t->getSSRC());
    for (unsigned i = 0; i < cc; i++) put32(w, static_cast<uint32_t>(r.next()));
    std::string kind = "none";
    if (ext) {
        int k = r.below(3);
        uint16_t id = k == 0 ? 0xBEDE : k == 1 ? 0x1000 | (r.chance(0.5) ? 0 : r.below(16)) : static_cast<uint16_t>(r.pickOf({0x1234, 0x0001, 0x2000, 0xFFFF, 0xBEDF}));
        kind = k == 0 ? "one" : k == 1 ? "two" : "other";
        Bytes d;
        if (k < 2) {
            int n = r.range(0, 6);
            std::set<int> used;
            for (int i = 0; i < n; i++) {
                if (r.chance(0.25)) { for (int z = r.range(1, 3); z > 0; z--) d.push_back(0); kind += "z"; }
                int eid = k == 0 ? r.range(1, 14) : r.range(1, 255);
                if (!used.insert(eid).second) continue;
                Bytes v = r.bytes(k == 0 ? r.range(1, 16) : r.pickOf<int64_t>({0, 1, 2, 3, 8, 17, 40}));
                if (k == 0) d.push_back(eid << 4 | (v.size() - 1)); else { d.push_back(eid); d.push_back(v.size()); }
                d.insert(d.end(), v.begin(), v.end());
                el.push_back({static_cast<uint8_t>(eid), v});
            }
            if (k == 0 && r.chance(0.1)) { d.push_back(0xF0 | r.below(16)); d.push_back(0x11); d.push_back(0x22); kind += "15"; }
        } else d = r.bytes(4 * r.below(6));
        while (d.size() % 4) d.push_back(0);
        if (r.chance(0.1) && kind.find("15") == std::string::npos && k < 2) d.insert(d.end(), 4, 0);
        put16(w, id); put16(w, d.size() / 4);
        w.insert(w.end(), d.begin(), d.end());
    }
    Bytes payload = r.bytes(r.pickOf<size_t>({0, 1, 2, 5, 50, 1100}));
    size_t headerEnd = w.size();
    w.insert(w.end(), payload.begin(), payload.end());
    if (padding) { int n = r.range(1, 255); w.insert(w.end(), n - 1, 0); w.push_back(n); }
    vf::note("foreign rtp cc=" + std::to_string(cc) + " ext=" + kind + " " + vf::hex(w, 120));
    auto p = RtpPacket::fromUdpPacket(t, glue::buf(w));
    compareParsed(p, t, t->getSSRC(), t->getPayloadId(), marker, seq, ts, payload, "foreign");
    checkFinds(p->getExtension(), el, "foreign-ext");
    vf::count("foreign_rtp");
    if (cc) vf::count("foreign_csrc");
    vf::sig("f" + kind + std::to_string(cc) + (padding ? "p" : "") + std::to_string(el.size()));
    // inconsistent ones: header truncated, padding longer than what is there
    size_t cut = r.below(headerEnd);
    Bytes tr(w.begin(), w.begin() + cut);
    if (padding) tr.empty() ? void() : void(tr[0] &= ~0x20);
    VF_CHECK(!RtpPacket::fromUdpPacket(t, glue::buf(tr)), "foreign-truncated-accepted", "a packet cut inside its header (" << cut << " of " << headerEnd << ") is accepted");
    if (padding) {
        Bytes bad = w;
        size_t room = bad.size() - headerEnd;
        if (room < 255) { bad.back() = r.range(room + 1, 255); VF_CHECK(!RtpPacket::fromUdpPacket(t, glue::buf(bad)), "foreign-padding-accepted", "padding count beyond the payload is accepted"); }
    }
    vf::count("foreign_rejected");
}

void rtcp(Rng& r, int64_t)
{
    // own
    std::vector<std::shared_ptr<RtcpPacket>> list;
    struct P { uint32_t ssrc; uint8_t rc, pt; Bytes payload; };
    std::vector<P> want;
    Bytes cat;
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
        P p{static_cast<uint32_t>(r.next()), static_cast<uint8_t>(r.below(32)), static_cast<uint8_t>(r.range(192, 223)), r.bytes(r.pickOf<size_t>({0, 4, 8, 20, 24, 100, 1000, size_t(r.below(40))}))};
        auto pk = std::make_shared<RtcpPacket>(p.ssrc, p.rc, p.pt, glue::buf(p.payload));
        VF_CHECK(pk->getSSRC() == p.ssrc && pk->getRC() == p.rc && pk->getPayloadId() == p.pt && glue::bytes(pk->getPayload()) == p.payload, "rtcp-getter", "getters");
        list.push_back(pk);
        while (p.payload.size() % 4) p.payload.push_back(0); // 32-bit words on the wire
        Bytes w;
        w.push_back(0x80 | p.rc); w.push_back(p.pt); put16(w, (8 + p.payload.size()) / 4 - 1); put32(w, p.ssrc);
        w.insert(w.end(), p.payload.begin(), p.payload.end());
        VF_CHECK(glue::bytes(pk->generate()) == w, "rtcp-wire", "RTCP bytes differ from the standard encoding: " << vf::hex(glue::bytes(pk->generate())) << " vs " << vf::hex(w));
        cat.insert(cat.end(), w.begin(), w.end());
        want.push_back(p);
    }
    RtcpPacketMulti multi(list);
    VF_CHECK(glue::bytes(multi.generate()) == cat, "rtcp-compound-wire", "compound differs from the concatenation of its packets");
    // as others send it: padded packets, packets without an SSRC, a cut tail
    std::vector<P> got;
    Bytes w;
    std::string shape;
    int m = r.range(1, 5);
    for (int i = 0; i < m; i++) {
        int k = r.below(8);
        if (k == 0) { w.push_back(0x80); w.push_back(203); put16(w, 0); shape += "b"; continue; } // BYE of nobody
        P p{static_cast<uint32_t>(r.next()), static_cast<uint8_t>(r.below(32)), static_cast<uint8_t>(r.range(200, 207)), r.bytes(4 * r.below(20))};
        bool pad = k == 1;
        size_t pn = pad ? 4 * r.range(1, 8) : 0;
        w.push_back(0x80 | (pad ? 0x20 : 0) | p.rc); w.push_back(p.pt); put16(w, (8 + p.payload.size() + pn) / 4 - 1); put32(w, p.ssrc);
        w.insert(w.end(), p.payload.begin(), p.payload.end());
        if (pad) { w.insert(w.end(), pn - 1, 0); w.push_back(pn); }
        shape += pad ? "p" : "n";
        got.push_back(p);
    }
    if (r.chance(0.3)) { // the rest of the datagram is missing
        Bytes tail; tail.push_back(0x80); tail.push_back(200); put16(tail, r.range(8, 60)); Bytes x = r.bytes(r.below(20)); tail.insert(tail.end(), x.begin(), x.end());
        w.insert(w.end(), tail.begin(), tail.end()); shape += "t";
    }
    vf::note("rtcp compound " + shape + " " + vf::hex(w, 200));
    auto l = RtcpPacket::fromUdpPacket(glue::buf(w));
    VF_CHECK(l.size() == got.size(), "rtcp-parse-count", where("number of packets", l.size(), got.size()) + " in " + shape);
    size_t i = 0;
    for (auto& p : l) {
        auto& g = got[i++];
        VF_CHECK(p->getSSRC() == g.ssrc && p->getRC() == g.rc && p->getPayloadId() == g.pt, "rtcp-parse-header", "header of packet " << i << " in " << shape);
        VF_CHECK(glue::bytes(p->getPayload()) == g.payload, "rtcp-parse-payload", "payload of packet " << i << " in " << shape);
    }
    vf::count("rtcp_packets", n + m);
    vf::sig("rtcp" + shape);
}

void buffers(Rng& r, int64_t)
{
    Bytes model; ByteBuffer b(r.chance(0.5) ? size_t(r.below(50)) : size_t(0)); ByteWriter w(b);
    struct Op { int k; uint64_t v; Bytes d; };
    std::vector<Op> ops;
    int n = r.range(1, 60);
    for (int i = 0; i < n; i++) {
        Op o{static_cast<int>(r.below(9)), r.chance(0.2) ? (r.chance(0.5) ? 0 : ~0ull) : r.next() >> r.below(64), {}};
        switch (o.k) {
        case 0: o.v &= 0xFF; w.writeU8(o.v); { auto x = be(o.v, 1); model.insert(model.end(), x.begin(), x.end()); } break;
        case 1: o.v &= 0xFFFF; w.writeU16(o.v); { auto x = be(o.v, 2); model.insert(model.end(), x.begin(), x.end()); } break;
        case 2: o.v &= 0xFFFFFFFF; w.writeU32(o.v); { auto x = be(o.v, 4); model.insert(model.end(), x.begin(), x.end()); } break;
        case 3: w.writeU64(o.v); { auto x = be(o.v, 8); model.insert(model.end(), x.begin(), x.end()); } break;
        case 4: o.v &= 0xFFFFFF; w.writeU24(o.v); { auto x = be(o.v, 3); model.insert(model.end(), x.begin(), x.end()); } break;
        case 5: o.v &= 0xFFFFFFFFFFFF; w.writeU48(o.v); { auto x = be(o.v, 6); model.insert(model.end(), x.begin(), x.end()); } break;
        case 6: { o.v &= 0xFFFFFFFF; w.writeLEB128(o.v); uint32_t v = o.v; do { model.push_back((v & 0x7F) | (v > 0x7F ? 0x80 : 0)); v >>= 7; } while (v); break; }
        case 7: o.d = r.bytes(r.below(300)); w.write(o.d.data(), o.d.size()); model.insert(model.end(), o.d.begin(), o.d.end()); break;
        case 8: o.d = r.bytes(r.below(50)); w.write(glue::buf(o.d)); model.insert(model.end(), o.d.begin(), o.d.end()); break;
        }
        ops.push_back(o);
        VF_CHECK(b.size() == model.size() && b.capacity() >= b.size(), "buffer-size", where("size", b.size(), model.size()));
    }
    VF_CHECK(glue::bytes(b) == model, "buffer-content", "written bytes differ from the big-endian model");
    auto c = b.copy();
    if (!model.empty()) VF_CHECK(c == b, "buffer-copy", "copy differs");
    ByteReader rd(c);
    for (auto& o : ops) {
        uint64_t v = o.v;
        switch (o.k) {
        case 0: v = rd.readU8(); break;
        case 1: v = rd.readU16(); break;
        case 2: v = rd.readU32(); break;
        case 3: v = rd.readU64(); break;
        case 4: v = rd.readU16(); v = v << 8 | rd.readU8(); break;
        case 5: v = rd.readU16(); v = v << 32 | rd.readU32(); break;
        case 6: v = rd.readLEB128(); break;
        case 7: case 8: { if (r.chance(0.3)) { rd.skip(o.d.size()); break; } auto x = rd.readByteBuffer(o.d.size()); VF_CHECK(glue::bytes(x) == o.d, "reader-bytes", "bytes"); break; }
        }
        VF_CHECK(v == o.v, "reader-value", "kind " << o.k << ": read " << v << ", written " << o.v);
    }
    VF_CHECK(rd.remaining() == 0 && rd.position() == model.size(), "reader-end", "position after reading everything");
    ByteBuffer m = std::move(c);
    VF_CHECK(glue::bytes(m) == model && c.size() == 0, "buffer-move", "move");
    vf::count("buffer_ops", n);
    vf::sig("buf" + std::to_string(model.size() / 8));
}

void extMap(Rng& r, int64_t)
{
    ExtensionMap m;
    std::map<int, std::string> by;
    std::vector<std::string> names = {"urn:ietf:params:rtp-hdrext:sdes:mid", "urn:a", "urn:b", "http://x/y", "", "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id"};
    int n = r.range(0, 6);
    for (int i = 0; i < n; i++) {
        int id = r.range(1, 14); auto nm = names[i];
        if (by.count(id)) continue;
        m.add(id, nm); by[id] = nm;
    }
    for (int k = 0; k < 30; k++) {
        int id = r.range(1, 15); auto nm = r.pick(names);
        int want = 0;
        for (auto& e : by) if (e.second == nm) want = e.first;
        int got = m.findByName(nm);
        VF_CHECK(got == want, "extmap-name", "findByName('" << nm << "') is " << got << ", expected " << want);
        auto s = m.findById(id);
        VF_CHECK(s == (by.count(id) ? by[id] : std::string()), "extmap-id", "findById(" << id << ") is '" << s << "'");
    }
    vf::count("extmaps");
}

} // namespace

int main(int argc, char** argv)
{
    return vf::runMain(argc, argv, "distinct (kind, extension count/format, padding, CSRC count, size class) shapes that went through encode and decode and were compared field by field",
                       {{"rtp", 6, rtpRoundtrip}, {"foreign", 6, rtpForeign}, {"rtcp", 4, rtcp}, {"buffers", 2, buffers}, {"source", 1, sourceSequence}, {"extmap", 1, extMap}});
}
