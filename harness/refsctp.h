// An independent SCTP endpoint (RFC 4960 / 6525 / 8831 / 8832), used as the peer of srtc's session and to judge its packets.
#pragma once
#include "vf.h"
#include <deque>
#include <map>
#include <optional>
#include <set>

namespace refsctp {
using Bytes = std::vector<uint8_t>;

inline uint32_t crc32c(const uint8_t* p, size_t n, uint32_t crc = 0xFFFFFFFFu) {
    for (size_t i = 0; i < n; i++) {
        crc ^= p[i];
        for (int k = 0; k < 8; k++) crc = (crc >> 1) ^ (crc & 1 ? 0x82F63B78u : 0);
    }
    return crc;
}
inline void p16(Bytes& b, uint32_t v) { b.push_back(static_cast<uint8_t>(v >> 8)); b.push_back(static_cast<uint8_t>(v)); }
inline void p32(Bytes& b, uint32_t v) { p16(b, v >> 16); p16(b, v & 0xFFFF); }
inline uint16_t g16(const uint8_t* p) { return static_cast<uint16_t>(p[0] << 8 | p[1]); }
inline uint32_t g32(const uint8_t* p) { return static_cast<uint32_t>(g16(p)) << 16 | g16(p + 2); }

struct Chunk { uint8_t type = 0, flags = 0; Bytes body; };
struct Packet { uint16_t src = 0, dst = 0; uint32_t tag = 0; std::vector<Chunk> chunks; };

inline void setCrc(Bytes& b) {
    b[8] = b[9] = b[10] = b[11] = 0;
    uint32_t c = ~crc32c(b.data(), b.size());
    for (int i = 0; i < 4; i++) b[8 + i] = static_cast<uint8_t>(c >> (8 * i));
}
inline Bytes build(const Packet& p) {
    Bytes b;
    p16(b, p.src); p16(b, p.dst); p32(b, p.tag); p32(b, 0);
    for (auto& c : p.chunks) {
        b.push_back(c.type); b.push_back(c.flags); p16(b, static_cast<uint32_t>(c.body.size() + 4));
        b.insert(b.end(), c.body.begin(), c.body.end());
        while (b.size() % 4) b.push_back(0);
    }
    setCrc(b);
    return b;
}
// Empty result: not a well-formed packet, `why` says what is wrong.
inline std::optional<Packet> parse(const Bytes& in, std::string& why) {
    if (in.size() < 12) { why = "shorter than a header"; return {}; }
    Bytes b = in;
    setCrc(b);
    if (b != in) { why = "checksum"; return {}; }
    Packet p;
    p.src = g16(&in[0]); p.dst = g16(&in[2]); p.tag = g32(&in[4]);
    size_t i = 12;
    while (i < in.size()) {
        if (in.size() - i < 4) { why = "chunk header cut"; return {}; }
        size_t len = g16(&in[i + 2]);
        if (len < 4 || len > in.size() - i) { why = "chunk length"; return {}; }
        p.chunks.push_back({in[i], in[i + 1], Bytes(in.begin() + static_cast<long>(i) + 4, in.begin() + static_cast<long>(i + len))});
        size_t pad = (len + 3) & ~size_t(3);
        if (pad > in.size() - i) { why = "chunk padding missing"; return {}; }
        for (size_t k = i + len; k < i + pad; k++) if (in[k]) { why = "chunk padding not zero"; return {}; }
        i += pad;
    }
    if (p.chunks.empty()) { why = "no chunks"; return {}; }
    return p;
}

struct Data { uint32_t tsn = 0; uint16_t stream = 0, ssn = 0; uint32_t ppid = 0; uint8_t flags = 0; Bytes payload; };
inline Chunk dataChunk(const Data& d) {
    Chunk c{0, d.flags, {}};
    p32(c.body, d.tsn); p16(c.body, d.stream); p16(c.body, d.ssn); p32(c.body, d.ppid);
    c.body.insert(c.body.end(), d.payload.begin(), d.payload.end());
    return c;
}

struct Events {
    virtual ~Events() = default;
    virtual void onSend(const Bytes& packet) = 0;
    virtual void onOpen(const std::string& label, uint16_t stream) = 0;     // opened by the other side
    virtual void onAccepted(uint16_t stream) = 0;                           // our OPEN was acknowledged
    virtual void onMessage(uint16_t stream, bool text, const Bytes& m) = 0;
    virtual void onBad(const std::string& what) = 0;                        // the other side broke the protocol
};

struct Peer {
    Events& ev;
    vf::Rng rng;
    uint16_t local, remote;
    bool initiates;        // sends its own INIT (else only answers)
    uint32_t tag, peerTag = 0, nextTsn, cum = 0, rwnd = 131072;
    bool established = false, haveCum = false, sentInit = false;
    bool strictParity = true;
    unsigned peerParity = 0; // parity the other side must use for its streams
    Bytes cookie, peerCookie;
    enum St { Closed, CookieWait, CookieEchoed, Up } st = Closed;
    int64_t initTimer = 0, rtxTimer = 0;
    std::map<uint32_t, Data> ooo; // by distance from the initial TSN
    std::deque<Data> unacked, queued;
    std::map<uint16_t, uint16_t> outSsn, inSsn;
    std::map<uint16_t, Data> partial;
    std::map<uint16_t, std::string> openedByPeer;
    std::map<uint16_t, bool> ours; // stream -> acknowledged
    std::set<uint16_t> unorderedStreams;
    std::map<uint32_t, Bytes> heartbeats; uint32_t hbNext = 1; uint64_t hbAcked = 0;
    uint32_t reconfSeq = 1; std::set<uint32_t> reconfPending;
    uint32_t window = 131072; // what the other side lets us have in flight
    uint32_t initial = 0;     // first TSN of the other side
    uint64_t dataBytesHeld = 0;

    Peer(Events& e, vf::Rng r, uint16_t l, uint16_t rem, bool init) : ev(e), rng(r), local(l), remote(rem), initiates(init) {
        tag = static_cast<uint32_t>(rng.next()) | 1;
        nextTsn = rng.chance(0.3) ? 0u - static_cast<uint32_t>(rng.below(200)) : static_cast<uint32_t>(rng.next());
        cookie = rng.bytes(8 + rng.below(90));
    }
    void send(std::vector<Chunk> cs, std::optional<uint32_t> t = {}) { Packet p{local, remote, t ? *t : peerTag, std::move(cs)}; ev.onSend(build(p)); }

    void start(int64_t now) { if (initiates && st == Closed) { st = CookieWait; sendInit(now); } }
    void sendInit(int64_t now) {
        Chunk c{1, 0, {}};
        p32(c.body, tag); p32(c.body, rwnd); p16(c.body, 300); p16(c.body, 300); p32(c.body, nextTsn0());
        if (rng.chance(0.5)) { p16(c.body, 0xC000); p16(c.body, 4); }
        if (rng.chance(0.5)) { p16(c.body, 0x8008); p16(c.body, 6); c.body.push_back(0x82); c.body.push_back(0xC0); p16(c.body, 0); }
        send({c}, 0);
        initTimer = now + 300000;
    }
    uint32_t firstTsn = 0; bool firstSet = false;
    uint32_t nextTsn0() { if (!firstSet) { firstTsn = nextTsn; firstSet = true; } return firstTsn; }

    // application side
    void open(uint16_t stream, const std::string& label, bool unordered, const std::string& protocol) {
        Bytes m{0x03, static_cast<uint8_t>(unordered ? 0x80 : 0)};
        p16(m, static_cast<uint32_t>(rng.below(1024))); p32(m, 0); p16(m, static_cast<uint32_t>(label.size())); p16(m, static_cast<uint32_t>(protocol.size()));
        m.insert(m.end(), label.begin(), label.end());
        m.insert(m.end(), protocol.begin(), protocol.end());
        ours[stream] = false;
        if (unordered) unorderedStreams.insert(stream);
        push(stream, 50, m, false);
    }
    void message(uint16_t stream, bool text, const Bytes& m, size_t frag) {
        bool un = unorderedStreams.count(stream) && ours[stream] && rng.chance(0.8);
        if (m.empty()) push(stream, text ? 56 : 57, Bytes{0}, un);
        else push(stream, text ? 51 : 53, m, un, frag);
    }
    void push(uint16_t stream, uint32_t ppid, const Bytes& m, bool unordered, size_t frag = 1100) {
        nextTsn0();
        uint16_t ssn = unordered ? outSsn[stream] : outSsn[stream]++;
        for (size_t i = 0; i < m.size(); i += frag) {
            Data d;
            d.tsn = nextTsn++; d.stream = stream; d.ssn = ssn; d.ppid = ppid;
            size_t n = std::min(frag, m.size() - i);
            d.flags = static_cast<uint8_t>((i == 0 ? 2 : 0) | (i + n == m.size() ? 1 : 0) | (unordered ? 4 : 0));
            d.payload.assign(m.begin() + static_cast<long>(i), m.begin() + static_cast<long>(i + n));
            queued.push_back(d);
        }
    }
    void heartbeat() {
        Bytes info = rng.bytes(4 + rng.below(40));
        uint32_t id = hbNext++;
        info[0] = static_cast<uint8_t>(id >> 24); info[1] = static_cast<uint8_t>(id >> 16); info[2] = static_cast<uint8_t>(id >> 8); info[3] = static_cast<uint8_t>(id);
        Chunk c{4, 0, {}};
        p16(c.body, 1); p16(c.body, static_cast<uint32_t>(info.size() + 4));
        c.body.insert(c.body.end(), info.begin(), info.end());
        while (c.body.size() % 4) c.body.push_back(0);
        heartbeats[id] = c.body;
        send({c});
    }
    Chunk resetChunk(uint32_t seq, const std::vector<uint16_t>& streams) {
        Chunk c{0x82, 0, {}};
        p16(c.body, 0x000D); p16(c.body, static_cast<uint32_t>(16 + 2 * streams.size()));
        p32(c.body, seq); p32(c.body, 0); p32(c.body, nextTsn - 1);
        for (auto s : streams) p16(c.body, s);
        return c;
    }
    // moves what may be sent onto the wire
    void pump(int64_t now) {
        if (!established) return;
        std::vector<Chunk> cs;
        size_t sz = 0, flight = 0;
        for (auto& d : unacked) flight += d.payload.size();
        while (!queued.empty() && (flight == 0 || flight + queued.front().payload.size() <= window) && unacked.size() < 900) {
            auto& d = queued.front();
            if (sz && (sz + d.payload.size() + 16 > 1150 || rng.chance(0.4))) { send(cs); cs.clear(); sz = 0; }
            cs.push_back(dataChunk(d));
            sz += d.payload.size() + 16;
            flight += d.payload.size();
            unacked.push_back(d);
            queued.pop_front();
            if (!rtxTimer) rtxTimer = now + 200000;
        }
        if (!cs.empty()) send(cs);
    }
    int64_t next() const {
        int64_t t = INT64_MAX;
        if (st == CookieWait || st == CookieEchoed) t = std::min(t, initTimer);
        if (rtxTimer) t = std::min(t, rtxTimer);
        return t;
    }
    void tick(int64_t now) {
        if ((st == CookieWait || st == CookieEchoed) && now >= initTimer) {
            if (st == CookieWait) sendInit(now);
            else { send({Chunk{10, 0, peerCookie}}); initTimer = now + 300000; }
        }
        if (rtxTimer && now >= rtxTimer) {
            rtxTimer = unacked.empty() ? 0 : now + 200000;
            size_t n = 0;
            for (auto& d : unacked) { send({dataChunk(d)}); if (++n >= 40) break; }
        }
        pump(now);
    }
    Chunk sack() {
        Chunk c{3, 0, {}};
        p32(c.body, cum);
        uint64_t held = 0;
        for (auto& [k, d] : ooo) held += d.payload.size();
        p32(c.body, rwnd > held ? static_cast<uint32_t>(rwnd - held) : 0);
        std::vector<std::pair<uint32_t, uint32_t>> gaps;
        for (auto& [off, d] : ooo) {
            uint32_t o = d.tsn - cum;
            if (!gaps.empty() && gaps.back().second + 1 == o) gaps.back().second = o; else gaps.push_back({o, o});
        }
        p16(c.body, static_cast<uint32_t>(gaps.size()));
        std::vector<uint32_t> dups;
        if (rng.chance(0.2)) dups.push_back(cum);
        p16(c.body, static_cast<uint32_t>(dups.size()));
        for (auto& g : gaps) { p16(c.body, g.first); p16(c.body, g.second); }
        for (auto d : dups) p32(c.body, d);
        return c;
    }
    void up(int64_t now) { if (!established) { established = true; st = Up; pump(now); } }

    void receive(const Bytes& raw, int64_t now) {
        std::string why;
        auto p = parse(raw, why);
        if (!p) { ev.onBad("packet not well formed: " + why); return; }
        if (p->src != remote || p->dst != local) { ev.onBad("wrong ports"); return; }
        bool isInit = p->chunks[0].type == 1;
        if (isInit && p->chunks.size() != 1) { ev.onBad("INIT bundled"); return; }
        if (p->tag != (isInit ? 0 : tag)) {
            // acknowledgements before the tag is known carry 0, they are useless but harmless
            if (!isInit && p->tag == 0 && p->chunks[0].type == 3) return;
            ev.onBad("wrong verification tag"); return;
        }
        bool needSack = false;
        for (auto& c : p->chunks) {
            switch (c.type) {
            case 1: {
                if (c.body.size() < 16) { ev.onBad("INIT too short"); return; }
                peerTag = g32(&c.body[0]); setInitial(g32(&c.body[12]));
                window = g32(&c.body[4]);
                Chunk a{2, 0, {}};
                p32(a.body, tag); p32(a.body, rwnd); p16(a.body, 300); p16(a.body, 300); p32(a.body, nextTsn0());
                if (rng.chance(0.5)) { p16(a.body, 0x8008); p16(a.body, 6); a.body.push_back(0x82); a.body.push_back(0xC0); p16(a.body, 0); }
                p16(a.body, 7); p16(a.body, static_cast<uint32_t>(4 + cookie.size()));
                a.body.insert(a.body.end(), cookie.begin(), cookie.end());
                if (rng.chance(0.5)) { while (a.body.size() % 4) a.body.push_back(0); p16(a.body, 0xC000); p16(a.body, 4); }
                send({a});
                break;
            }
            case 2: {
                if (st != CookieWait) break;
                if (c.body.size() < 16) { ev.onBad("INIT_ACK too short"); return; }
                peerTag = g32(&c.body[0]); window = g32(&c.body[4]); setInitial(g32(&c.body[12]));
                size_t i = 16;
                bool found = false;
                while (c.body.size() - i >= 4) {
                    size_t l = g16(&c.body[i + 2]);
                    if (l < 4 || l > c.body.size() - i) { ev.onBad("INIT_ACK parameter length"); return; }
                    if (g16(&c.body[i]) == 7) { peerCookie.assign(c.body.begin() + static_cast<long>(i) + 4, c.body.begin() + static_cast<long>(i + l)); found = true; }
                    i += std::min((l + 3) & ~size_t(3), c.body.size() - i);
                }
                if (!found) { ev.onBad("INIT_ACK without a cookie"); return; }
                st = CookieEchoed;
                send({Chunk{10, 0, peerCookie}});
                initTimer = now + 300000;
                break;
            }
            case 10:
                if (c.body != cookie) { ev.onBad("cookie not echoed exactly"); return; }
                send({Chunk{11, 0, {}}});
                up(now);
                break;
            case 11:
                if (st == CookieEchoed) up(now);
                break;
            case 0: onData(c); needSack = true; break;
            case 3: onSack(c, now); break;
            case 4: send({Chunk{5, 0, c.body}}); break;
            case 5: {
                if (c.body.size() < 8) { ev.onBad("HEARTBEAT_ACK too short"); return; }
                auto it = heartbeats.find(g32(&c.body[4]));
                if (it == heartbeats.end() || it->second != c.body) { ev.onBad("HEARTBEAT_ACK does not repeat the heartbeat"); return; }
                hbAcked++;
                break;
            }
            case 0x82: {
                if (c.body.size() >= 12 && g16(&c.body[0]) == 0x10) {
                    if (g32(&c.body[8]) != 0 && g32(&c.body[8]) != 1) ev.onBad("stream reset refused");
                    reconfPending.erase(g32(&c.body[4]));
                }
                break;
            }
            case 6: ev.onBad("ABORT"); break;
            default: break;
            }
        }
        if (needSack) send({sack()});
        pump(now);
    }
    void setInitial(uint32_t tsn) { if (!haveCum) { haveCum = true; initial = tsn; cum = tsn - 1; } else if (tsn != initial) ev.onBad("initial TSN changed"); }
    void onSack(const Chunk& c, int64_t now) {
        if (c.body.size() < 12) { ev.onBad("SACK too short"); return; }
        uint32_t a = g32(&c.body[0]);
        size_t gaps = g16(&c.body[8]), dups = g16(&c.body[10]);
        if (c.body.size() != 12 + 4 * (gaps + dups)) { ev.onBad("SACK length"); return; }
        if (static_cast<int32_t>(a - nextTsn) >= 0) { ev.onBad("SACK for TSNs never sent"); return; }
        window = g32(&c.body[4]);
        bool progress = false;
        while (!unacked.empty() && static_cast<int32_t>(unacked.front().tsn - a) <= 0) { unacked.pop_front(); progress = true; }
        uint32_t prevEnd = 0;
        for (size_t i = 0; i < gaps; i++) {
            uint32_t s = g16(&c.body[12 + 4 * i]), e = g16(&c.body[14 + 4 * i]);
            if (s < 2 || e < s || s <= prevEnd + 0) { ev.onBad("SACK gap blocks " + std::to_string(s) + "-" + std::to_string(e)); return; }
            prevEnd = e;
            if (static_cast<int32_t>(a + e - nextTsn) >= 0) { ev.onBad("SACK gap block beyond the TSNs sent"); return; }
        }
        if (progress) rtxTimer = unacked.empty() ? 0 : now + 200000;
    }
    void onData(const Chunk& c) {
        if (c.body.size() <= 12) { ev.onBad("DATA chunk without user data"); return; }
        Data d;
        d.tsn = g32(&c.body[0]); d.stream = g16(&c.body[4]); d.ssn = g16(&c.body[6]); d.ppid = g32(&c.body[8]); d.flags = c.flags;
        d.payload.assign(c.body.begin() + 12, c.body.end());
        int32_t off = static_cast<int32_t>(d.tsn - cum);
        if (off <= 0) return;
        uint32_t key = d.tsn - initial;
        auto it = ooo.find(key);
        if (it != ooo.end()) { if (it->second.payload != d.payload || it->second.ssn != d.ssn || it->second.stream != d.stream || it->second.flags != d.flags) ev.onBad("retransmission differs from the original"); return; }
        uint64_t held = d.payload.size();
        for (auto& [k, x] : ooo) held += x.payload.size();
        if (off > 1 && held > rwnd) return; // no room, will be sent again
        ooo[key] = d;
        while (!ooo.empty() && ooo.begin()->second.tsn == cum + 1) { cum++; Data x = ooo.begin()->second; ooo.erase(ooo.begin()); inOrder(x); }
    }
    void inOrder(const Data& d) {
        const bool un = d.flags & 4;
        if (un && !unorderedStreams.count(d.stream)) { ev.onBad("unordered chunk on an ordered channel"); return; }
        auto& part = partial[d.stream];
        bool b = d.flags & 2, e = d.flags & 1;
        if (b) {
            uint16_t want = inSsn[d.stream];
            if (!un && d.ssn != want) { ev.onBad("stream " + std::to_string(d.stream) + ": sequence number " + std::to_string(d.ssn) + " where " + std::to_string(want) + " is next"); }
            if (!part.payload.empty()) { ev.onBad("first fragment inside a message"); }
            part = d;
        } else {
            if (part.payload.empty()) { ev.onBad("fragment without a beginning"); return; }
            if (part.ssn != d.ssn || part.ppid != d.ppid) ev.onBad("fragments of a message differ in sequence number or PPID");
            part.payload.insert(part.payload.end(), d.payload.begin(), d.payload.end());
        }
        if (!e) return;
        Data m = part;
        part = Data();
        inSsn[d.stream] = static_cast<uint16_t>(m.ssn + 1);
        vf::count("ref_messages");
        if (m.ppid == 50) {
            if (m.payload[0] == 3) {
                if (m.payload.size() < 12) { ev.onBad("DATA_CHANNEL_OPEN too short"); return; }
                size_t ll = g16(&m.payload[8]), pl = g16(&m.payload[10]);
                if (m.payload.size() != 12 + ll + pl) { ev.onBad("DATA_CHANNEL_OPEN length"); return; }
                if (strictParity && (d.stream & 1) != peerParity) ev.onBad("stream id " + std::to_string(d.stream) + " has the wrong parity for the role");
                if (m.payload[1] != 0) ev.onBad("channel type is not reliable ordered");
                if (openedByPeer.count(d.stream) || ours.count(d.stream)) ev.onBad("stream id used twice");
                std::string label(m.payload.begin() + 12, m.payload.begin() + 12 + static_cast<long>(ll));
                openedByPeer[d.stream] = label;
                push(d.stream, 50, Bytes{2}, false);
                ev.onOpen(label, d.stream);
            } else if (m.payload[0] == 2) {
                if (m.payload.size() != 1) ev.onBad("DATA_CHANNEL_ACK length");
                if (!ours.count(d.stream)) { ev.onBad("DATA_CHANNEL_ACK for a stream we did not open"); return; }
                if (ours[d.stream]) { ev.onBad("DATA_CHANNEL_ACK twice"); return; }
                ours[d.stream] = true;
                ev.onAccepted(d.stream);
            } else ev.onBad("DCEP message type");
            return;
        }
        if (!openedByPeer.count(d.stream) && !ours.count(d.stream)) { ev.onBad("message on a stream that is not open"); return; }
        switch (m.ppid) {
        case 51: ev.onMessage(d.stream, true, m.payload); break;
        case 53: ev.onMessage(d.stream, false, m.payload); break;
        case 56: ev.onMessage(d.stream, true, {}); break;
        case 57: ev.onMessage(d.stream, false, {}); break;
        default: ev.onBad("PPID " + std::to_string(m.ppid));
        }
    }
};
} // namespace refsctp
