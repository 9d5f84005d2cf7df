#include "media.h"
#include <algorithm>

namespace ref {
const char* cname(C c) {
    switch (c) { case C::H264: return "H264"; case C::H265: return "H265"; case C::VP8: return "VP8"; case C::VP9: return "VP9"; case C::AV1: return "AV1"; default: return "Opus"; }
}
Bytes escapeNal(Bytes raw) {
    Bytes o;
    int z = 0;
    for (uint8_t b : raw) {
        if (z >= 2 && b <= 3) { o.push_back(3); z = 0; }
        o.push_back(b);
        z = b == 0 ? z + 1 : 0;
    }
    while (!o.empty() && o.back() == 0) o.back() = 0x80;
    return o;
}
static Bytes randomBody(vf::Rng& r, size_t n) {
    Bytes b = r.bytes(n);
    // bias towards values that matter to start-code scanners
    if (r.chance(0.3)) for (auto& x : b) if (r.chance(0.4)) x = static_cast<uint8_t>(r.below(4));
    return b;
}
Gen::Gen(C c, vf::Rng r) : codec(c), rng(r) { newParams(); }
void Gen::newParams() {
    auto mk = [&](std::vector<uint8_t> hdr) {
        Bytes b = rng.bytes(4 + rng.below(30));
        Bytes n = hdr;
        n.insert(n.end(), b.begin(), b.end());
        return escapeNal(n);
    };
    if (codec == C::H264) { sps = mk({0x67}); pps = mk({0x68}); }
    if (codec == C::H265) { vps = mk({0x40, 0x01}); sps = mk({0x42, 0x01}); pps = mk({0x44, 0x01}); }
}
std::vector<Bytes> Gen::csd() const {
    std::vector<Bytes> r;
    auto add = [&](const Bytes& n) { Bytes b = {0, 0, 0, 1}; b.insert(b.end(), n.begin(), n.end()); r.push_back(b); };
    if (!vps.empty()) add(vps);
    if (!sps.empty()) add(sps);
    if (!pps.empty()) add(pps);
    return r;
}
Frame Gen::next(bool key, size_t approx) {
    unsigned units = 1;
    if ((codec == C::H264 || codec == C::H265 || codec == C::AV1) && maxUnits > 1 && rng.chance(0.4)) units = 1 + rng.below(maxUnits);
    std::vector<size_t> sz;
    for (unsigned i = 0; i < units; i++) sz.push_back(std::max<size_t>(1, approx / units));
    return next(key, sz);
}
Frame Gen::next(bool key, const std::vector<size_t>& sizes) {
    Frame f;
    f.codec = codec;
    f.key = key;
    uint32_t id = counter++;
    auto stamp = [&](Bytes& b, size_t at) { // unique content (values >= 4, so that nothing gets escaped)
        uint32_t v = id;
        for (size_t i = at; i < b.size() && i < at + 5; i++) { b[i] = static_cast<uint8_t>(0x10 | (v & 15) | 0x40); v >>= 4; }
    };
    if (codec == C::H264 || codec == C::H265) {
        bool h264 = codec == C::H264;
        std::vector<Bytes> out;
        if (extras && rng.chance(0.15)) out.push_back(h264 ? Bytes{0x09, 0xF0} : Bytes{0x46, 0x01, 0x50}); // AUD
        if (key && paramsInFrame) {
            if (!h264) out.push_back(vps);
            out.push_back(sps);
            out.push_back(pps);
        }
        if (extras && rng.chance(0.15)) { // SEI
            Bytes s = h264 ? Bytes{0x06} : Bytes{0x4E, 0x01};
            Bytes b = rng.bytes(3 + rng.below(40));
            s.insert(s.end(), b.begin(), b.end());
            out.push_back(escapeNal(s));
        }
        for (size_t i = 0; i < sizes.size(); i++) {
            size_t n = std::max<size_t>(sizes[i], h264 ? 2 : 3);
            Bytes s;
            if (h264) s.push_back(key ? rng.pickOf<uint8_t>({0x65, 0x65, 0x25, 0x45}) : rng.pickOf<uint8_t>({0x01, 0x21, 0x41, 0x41, 0x61}));
            else {
                uint8_t t = key ? rng.pickOf<uint8_t>({19, 20, 21}) : rng.pickOf<uint8_t>({0, 1, 1, 1, 8, 9});
                uint8_t layer = rng.chance(0.8) ? 0 : static_cast<uint8_t>(rng.below(64)); // nuh_layer_id
                s.push_back(static_cast<uint8_t>(t << 1 | layer >> 5));
                s.push_back(static_cast<uint8_t>(layer << 3 | (rng.chance(0.4) ? 1 : 1 + rng.below(7)))); // temporal id plus 1
            }
            // first_mb_in_slice == 0 / first_slice_segment_in_pic_flag on the first slice only
            uint8_t x = static_cast<uint8_t>(rng.next());
            if (h264) x = i == 0 ? (x | 0x80) : static_cast<uint8_t>((x & 0x3F) | 0x40);
            else x = i == 0 ? (x | 0x80) : (x & 0x7F) | 0x04;
            s.push_back(x);
            size_t hdr = s.size();
            if (n > hdr) { Bytes b = randomBody(rng, n - hdr); s.insert(s.end(), b.begin(), b.end()); stamp(s, hdr); }
            s = escapeNal(s);
            out.push_back(s);
        }
        f.nals = out;
        for (size_t i = 0; i < out.size(); i++) {
            if (i == 0 || rng.chance(0.5)) f.data.push_back(0);
            f.data.insert(f.data.end(), {0, 0, 1});
            f.data.insert(f.data.end(), out[i].begin(), out[i].end());
        }
    } else if (codec == C::AV1) {
        auto leb = [](Bytes& b, size_t v) { do { uint8_t x = v & 0x7F; v >>= 7; if (v) x |= 0x80; b.push_back(x); } while (v); };
        auto put = [&](const Obu& o, bool size) {
            f.data.push_back(static_cast<uint8_t>((o.type << 3) | (o.ext ? 4 : 0) | (size ? 2 : 0)));
            if (o.ext) f.data.push_back(static_cast<uint8_t>((o.tid << 5) | (o.sid << 3)));
            if (size) leb(f.data, o.payload.size());
            f.data.insert(f.data.end(), o.payload.begin(), o.payload.end());
        };
        if (rng.chance(0.7)) { f.data.push_back(0x12); f.data.push_back(0); } // temporal delimiter
        bool ext = av1Ext && rng.chance(0.7);
        uint8_t tid = ext ? 1 + rng.below(2) : 0, sid = ext ? rng.below(3) : 0;
        if (key) f.obus.push_back({1, false, 0, 0, rng.bytes(3 + rng.below(20))});
        if (extras && rng.chance(0.15)) f.obus.push_back({5, false, 0, 0, rng.bytes(1 + rng.below(30))});
        for (size_t i = 0; i < sizes.size(); i++) {
            Obu o;
            o.type = sizes.size() == 1 ? 6 : (i == 0 ? (rng.chance(0.5) ? 3 : 6) : 4);
            o.ext = ext; o.tid = tid; o.sid = sid;
            o.payload = rng.bytes(std::max<size_t>(sizes[i], 2));
            if (o.type == 6 || o.type == 3) o.payload[0] = key ? 0x10 : 0x30; // shown key frame / inter frame
            stamp(o.payload, 1);
            f.obus.push_back(o);
        }
        for (size_t i = 0; i < f.obus.size(); i++) put(f.obus[i], i + 1 < f.obus.size() || rng.chance(0.7));
    } else if (codec == C::VP8) {
        size_t n = std::max<size_t>(sizes[0], 10);
        f.data = rng.bytes(n);
        f.data[0] = static_cast<uint8_t>((f.data[0] & 0xFE) | (key ? 0 : 1));
        if (key) { f.data[3] = 0x9d; f.data[4] = 0x01; f.data[5] = 0x2a; }
        stamp(f.data, key ? 6 : 3);
    } else if (codec == C::VP9) {
        size_t n = std::max<size_t>(sizes[0], 8);
        f.data = rng.bytes(n);
        f.data[0] = key ? 0x82 : 0x86; // frame marker 2, profile 0, not show-existing, frame type
        stamp(f.data, 1);
    } else {
        f.data = rng.bytes(std::max<size_t>(sizes[0], 1));
        stamp(f.data, f.data.size() > 6 ? 1 : 0);
    }
    return f;
}

bool depacketH264(const std::vector<Pkt>& ps, std::vector<Bytes>& nals, std::string& err) {
    Bytes fu;
    bool in = false;
    for (size_t k = 0; k < ps.size(); k++) {
        auto& p = ps[k].payload;
        if (p.empty()) { err = "empty payload"; return false; }
        if (p[0] & 0x80) { err = "forbidden bit set"; return false; }
        uint8_t t = p[0] & 31;
        if (t == 28) {
            if (p.size() < 3) { err = "FU-A without data"; return false; }
            bool s = p[1] & 0x80, e = p[1] & 0x40;
            if (p[1] & 0x20) { err = "FU-A reserved bit"; return false; }
            if (s && e) { err = "FU-A with start and end"; return false; }
            uint8_t h = (p[0] & 0x60) | (p[1] & 31);
            if (s) { if (in) { err = "FU-A start inside FU"; return false; } in = true; fu = {h}; }
            else { if (!in) { err = "FU-A continuation without start"; return false; } if (fu[0] != h) { err = "FU-A header changes"; return false; } }
            fu.insert(fu.end(), p.begin() + 2, p.end());
            if (e) { nals.push_back(fu); in = false; }
        } else {
            if (in) { err = "FU-A interrupted"; return false; }
            if (t == 24) {
                size_t i = 1; uint8_t nri = 0;
                while (i < p.size()) {
                    if (i + 2 > p.size()) { err = "STAP-A truncated"; return false; }
                    size_t n = p[i] << 8 | p[i + 1];
                    i += 2;
                    if (!n || i + n > p.size()) { err = "STAP-A bad size"; return false; }
                    nals.emplace_back(p.begin() + i, p.begin() + i + n);
                    nri = std::max<uint8_t>(nri, p[i] & 0x60);
                    i += n;
                }
                if ((p[0] & 0x60) != nri) { err = "STAP-A NRI is not the maximum"; return false; }
            } else if (t >= 1 && t <= 23) nals.push_back(p);
            else { err = "payload type " + std::to_string(t); return false; }
        }
    }
    if (in) { err = "FU-A not ended"; return false; }
    return true;
}
bool depacketH265(const std::vector<Pkt>& ps, std::vector<Bytes>& nals, std::string& err) {
    Bytes fu;
    bool in = false;
    for (auto& q : ps) {
        auto& p = q.payload;
        if (p.size() < 3) { err = "payload too short"; return false; }
        if (p[0] & 0x80) { err = "forbidden bit"; return false; }
        uint8_t t = (p[0] >> 1) & 63;
        if (t == 49) {
            if (p.size() < 4) { err = "FU without data"; return false; }
            bool s = p[2] & 0x80, e = p[2] & 0x40;
            if (s && e) { err = "FU with start and end"; return false; }
            Bytes h = {static_cast<uint8_t>((p[0] & 0x81) | ((p[2] & 63) << 1)), p[1]};
            if (s) { if (in) { err = "FU start inside FU"; return false; } in = true; fu = h; }
            else { if (!in) { err = "FU continuation without start"; return false; } if (fu[0] != h[0] || fu[1] != h[1]) { err = "FU header changes"; return false; } }
            fu.insert(fu.end(), p.begin() + 3, p.end());
            if (e) { nals.push_back(fu); in = false; }
        } else {
            if (in) { err = "FU interrupted"; return false; }
            if (t == 48) {
                size_t i = 2; int cnt = 0;
                uint8_t layer = 63, tid = 7;
                while (i < p.size()) {
                    if (i + 2 > p.size()) { err = "AP truncated"; return false; }
                    size_t n = p[i] << 8 | p[i + 1];
                    i += 2;
                    if (n < 2 || i + n > p.size()) { err = "AP bad size"; return false; }
                    nals.emplace_back(p.begin() + i, p.begin() + i + n);
                    layer = std::min<uint8_t>(layer, ((p[i] & 1) << 5) | (p[i + 1] >> 3));
                    tid = std::min<uint8_t>(tid, p[i + 1] & 7);
                    i += n; cnt++;
                }
                if (cnt < 2) { err = "AP with one unit"; return false; }
            } else if (t < 48) nals.push_back(p);
            else { err = "payload type " + std::to_string(t); return false; }
        }
    }
    if (in) { err = "FU not ended"; return false; }
    return true;
}
bool depacketVP8(const std::vector<Pkt>& ps, Bytes& out, std::string& err) {
    for (size_t k = 0; k < ps.size(); k++) {
        auto& p = ps[k].payload;
        if (p.empty()) { err = "empty"; return false; }
        size_t i = 1;
        bool s = p[0] & 0x10;
        if (p[0] & 0x48) { err = "reserved bits set"; return false; }
        if (s != (k == 0)) { err = "S bit wrong in packet " + std::to_string(k); return false; }
        if (p[0] & 7) { err = "partition index without start of partition"; return false; }
        if (p[0] & 0x80) {
            if (i >= p.size()) { err = "truncated"; return false; }
            uint8_t x = p[i++];
            if (x & 0x80) { if (i >= p.size()) { err = "truncated"; return false; } i += (p[i] & 0x80) ? 2 : 1; }
            if (x & 0x40) i++;
            if (x & 0x30) i++;
        }
        if (i >= p.size()) { err = "no payload after descriptor"; return false; }
        out.insert(out.end(), p.begin() + i, p.end());
    }
    return true;
}
bool depacketVP9(const std::vector<Pkt>& ps, Bytes& out, int& pic, bool& inter, std::string& err) {
    pic = -1;
    for (size_t k = 0; k < ps.size(); k++) {
        auto& p = ps[k].payload;
        if (p.empty()) { err = "empty"; return false; }
        size_t i = 1;
        bool I = p[0] & 0x80, P = p[0] & 0x40, L = p[0] & 0x20, F = p[0] & 0x10, B = p[0] & 8, E = p[0] & 4, V = p[0] & 2;
        if (L || F || V) { err = "unexpected descriptor flags"; return false; }
        if (B != (k == 0)) { err = "B bit wrong"; return false; }
        if (E != (k + 1 == ps.size())) { err = "E bit wrong"; return false; }
        if (k == 0) inter = P; else if (inter != P) { err = "P changes within frame"; return false; }
        if (I) {
            if (i >= p.size()) { err = "truncated"; return false; }
            int id = p[i] & 0x7F;
            if (p[i] & 0x80) { if (i + 1 >= p.size()) { err = "truncated"; return false; } id = id << 8 | p[i + 1]; i++; }
            i++;
            if (k == 0) pic = id; else if (pic != id) { err = "picture id changes within frame"; return false; }
        }
        if (i >= p.size()) { err = "no payload after descriptor"; return false; }
        out.insert(out.end(), p.begin() + i, p.end());
    }
    return true;
}
static bool readLeb(const Bytes& b, size_t& i, uint64_t& v) {
    v = 0;
    for (int s = 0; s < 56; s += 7) {
        if (i >= b.size()) return false;
        uint8_t x = b[i++];
        v |= static_cast<uint64_t>(x & 0x7F) << s;
        if (!(x & 0x80)) return true;
    }
    return false;
}
static bool parseObuElement(const Bytes& e, Obu& o, std::string& err) {
    size_t i = 0;
    if (e.empty()) { err = "empty OBU element"; return false; }
    uint8_t h = e[i++];
    if (h & 0x81) { err = "OBU forbidden/reserved bit"; return false; }
    o.type = (h >> 3) & 15;
    o.ext = h & 4;
    o.tid = o.sid = 0;
    if (o.ext) { if (i >= e.size()) { err = "OBU ext truncated"; return false; } o.tid = e[i] >> 5; o.sid = (e[i] >> 3) & 3; i++; }
    if (h & 2) { uint64_t n; if (!readLeb(e, i, n) || n != e.size() - i) { err = "OBU size field wrong"; return false; } }
    o.payload.assign(e.begin() + i, e.end());
    return true;
}
bool depacketAV1(const std::vector<Pkt>& ps, std::vector<Obu>& out, bool& newSeq, std::string& err) {
    Bytes part;
    bool open = false;
    newSeq = false;
    for (size_t k = 0; k < ps.size(); k++) {
        auto& p = ps[k].payload;
        if (p.size() < 2) { err = "payload too short"; return false; }
        bool Z = p[0] & 0x80, Y = p[0] & 0x40, N = p[0] & 8;
        unsigned W = (p[0] >> 4) & 3;
        if (p[0] & 7) { err = "reserved bits"; return false; }
        if (N && k) { err = "N bit not in the first packet"; return false; }
        if (N) newSeq = true;
        if (N && Z) { err = "N with Z"; return false; }
        if (Z != open) { err = "Z bit does not match the previous Y bit, packet " + std::to_string(k); return false; }
        size_t i = 1; unsigned n = 0;
        std::vector<Bytes> el;
        while (i < p.size()) {
            uint64_t len;
            if (W && n == W - 1) len = p.size() - i;
            else if (!readLeb(p, i, len)) { err = "bad element size"; return false; }
            if (len == 0 || i + len > p.size()) { err = "element size " + std::to_string(len) + " exceeds packet, packet " + std::to_string(k); return false; }
            el.emplace_back(p.begin() + i, p.begin() + i + len);
            i += len; n++;
        }
        if (W && n != W) { err = "W count wrong"; return false; }
        for (size_t j = 0; j < el.size(); j++) {
            bool cont = j == 0 && Z, more = j + 1 == el.size() && Y;
            if (cont) part.insert(part.end(), el[j].begin(), el[j].end()); else part = el[j];
            if (!more) { Obu o; if (!parseObuElement(part, o, err)) return false; out.push_back(o); part.clear(); }
        }
        open = Y;
    }
    if (open) { err = "last packet continues"; return false; }
    return true;
}
std::vector<Bytes> splitAnnexB(const Bytes& b) {
    std::vector<Bytes> r;
    std::vector<std::pair<size_t, size_t>> sc; // position, end of start code
    for (size_t i = 0; i + 3 <= b.size(); i++)
        if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) { sc.push_back({i > 0 && b[i - 1] == 0 ? i - 1 : i, i + 3}); i += 2; }
    for (size_t k = 0; k < sc.size(); k++) {
        size_t e = k + 1 < sc.size() ? sc[k + 1].first : b.size();
        r.emplace_back(b.begin() + sc[k].second, b.begin() + e);
    }
    if (sc.empty() || sc[0].first != 0) r.insert(r.begin(), Bytes{}); // leading garbage shows up as an empty unit
    return r;
}
bool splitObus(const Bytes& b, std::vector<Obu>& out) {
    size_t i = 0;
    while (i < b.size()) {
        uint8_t h = b[i++];
        Obu o;
        if (h & 0x80) return false;
        o.type = (h >> 3) & 15; o.ext = h & 4; o.tid = o.sid = 0;
        if (o.ext) { if (i >= b.size()) return false; o.tid = b[i] >> 5; o.sid = (b[i] >> 3) & 3; i++; }
        uint64_t n = b.size() - i;
        if (h & 2) { if (!readLeb(b, i, n)) return false; }
        if (n > b.size() - i) return false;
        o.payload.assign(b.begin() + i, b.begin() + i + n);
        i += n;
        out.push_back(o);
    }
    return true;
}
bool isParam264(const Bytes& n) { return !n.empty() && ((n[0] & 31) == 7 || (n[0] & 31) == 8); }
bool isParam265(const Bytes& n) { return n.size() > 1 && (n[0] >> 1) >= 32 && (n[0] >> 1) <= 34; }
bool isSlice264(const Bytes& n) { return !n.empty() && (n[0] & 31) >= 1 && (n[0] & 31) <= 5; }
bool isSlice265(const Bytes& n) { return n.size() > 1 && (n[0] >> 1) <= 31; }

bool sameFrame(const Frame& f, const std::vector<Bytes>& params, const Bytes& d, std::string& err) {
    if (f.codec == C::H264 || f.codec == C::H265) {
        bool h264 = f.codec == C::H264;
        auto units = splitAnnexB(d);
        std::vector<Bytes> slices, want, par, other;
        for (auto& n : f.nals) { if (h264 ? isSlice264(n) : isSlice265(n)) want.push_back(n); }
        for (auto& n : units) {
            if (h264 ? isSlice264(n) : isSlice265(n)) slices.push_back(n);
            else if (h264 ? isParam264(n) : isParam265(n)) par.push_back(n);
            else other.push_back(n);
        }
        if (slices != want) { err = "slices differ (" + std::to_string(slices.size()) + " delivered, " + std::to_string(want.size()) + " published)"; return false; }
        for (auto& n : par) if (std::find(params.begin(), params.end(), n) == params.end()) { err = "unknown parameter set"; return false; }
        if (f.key) for (auto& n : params) if (std::find(par.begin(), par.end(), n) == par.end()) { err = "parameter set missing from key frame"; return false; }
        for (auto& n : other) if (std::find(f.nals.begin(), f.nals.end(), n) == f.nals.end()) { err = "unit that was not published: " + vf::hex(n, 16); return false; }
        return true;
    }
    if (f.codec == C::AV1) {
        std::vector<Obu> got, all;
        if (!splitObus(d, got)) { err = "not a sequence of OBUs"; return false; }
        for (auto& o : got) if (o.type != 2) all.push_back(o);
        if (!(all == f.obus)) { err = "OBUs differ (" + std::to_string(all.size()) + " delivered, " + std::to_string(f.obus.size()) + " published)"; return false; }
        return true;
    }
    if (d != f.data) { err = "bytes differ (" + std::to_string(d.size()) + " delivered, " + std::to_string(f.data.size()) + " published)"; return false; }
    return true;
}
} // namespace ref
