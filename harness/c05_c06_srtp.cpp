// C05 (protect) and C06 (unprotect) at SrtpConnection / SrtpCrypto level, against the independent implementation.
// First extra argument selects the suites: "c05" or "c06".
#include "glue.h"
#include "refsrtp.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtcp_packet_source.h"
#include "srtc/srtp_connection.h"
#include "srtc/srtp_crypto.h"
#include "srtc/srtp_util.h"
#include "srtc/replay_protection.h"
#include <deque>
#include <openssl/srtp.h>
using namespace srtc;
using ref::Bytes;
using refsrtp::Profile;
using vf::Rng;

namespace {
const Profile kProfiles[] = {Profile::CM80, Profile::CM32, Profile::GCM128, Profile::GCM256};
unsigned long profileId(Profile p) { return p == Profile::CM80 ? SRTP_AES128_CM_SHA1_80 : p == Profile::CM32 ? SRTP_AES128_CM_SHA1_32 : p == Profile::GCM128 ? SRTP_AEAD_AES_128_GCM : SRTP_AEAD_AES_256_GCM; }
const char* pname(Profile p) { return p == Profile::CM80 ? "CM80" : p == Profile::CM32 ? "CM32" : p == Profile::GCM128 ? "GCM128" : "GCM256"; }

struct Conn {
    Profile p;
    std::shared_ptr<SrtpConnection> conn;
    refsrtp::Dir local, remote; // local: what srtc sends with, remote: what it receives with
};
Conn makeConn(Rng& r)
{
    Conn c;
    c.p = kProfiles[r.below(4)];
    auto k1 = r.bytes(refsrtp::keyLen(c.p)), k2 = r.bytes(refsrtp::keyLen(c.p)), s1 = r.bytes(refsrtp::saltLen(c.p)), s2 = r.bytes(refsrtp::saltLen(c.p));
    c.local = refsrtp::Dir(c.p, k1, s1); c.remote = refsrtp::Dir(c.p, k2, s2);
    CryptoBytes a, b, d, e;
    a.assign(k1.data(), k1.size()); b.assign(s1.data(), s1.size()); d.assign(k2.data(), k2.size()); e.assign(s2.data(), s2.size());
    auto [crypto, err] = SrtpCrypto::create(profileId(c.p), a, b, d, e);
    VF_CHECK(crypto && err.isOk(), "create", "SrtpCrypto::create failed: " << err.message);
    c.conn = std::make_shared<SrtpConnection>(crypto, profileId(c.p));
    return c;
}
Bytes rtcpBytes(Rng& r, uint32_t ssrc)
{
    size_t words = r.pickOf<size_t>({0, 1, 5, 6, 20, size_t(r.below(250))});
    auto p = RtcpPacket(ssrc, r.below(32), r.range(200, 207), glue::buf(r.bytes(4 * words)));
    return glue::bytes(p.generate());
}
Bytes foreignRtp(Rng& r, uint32_t ssrc, uint8_t pt, uint16_t seq, bool tiny = false)
{
    Bytes w;
    unsigned cc = r.chance(0.15) ? r.range(1, 15) : 0; bool ext = r.chance(0.4), pad = r.chance(0.1);
    w.push_back(0x80 | (ext ? 0x10 : 0) | (pad ? 0x20 : 0) | cc); w.push_back((r.chance(0.3) ? 0x80 : 0) | pt);
    w.push_back(seq >> 8); w.push_back(seq);
    auto ts = r.bytes(4); w.insert(w.end(), ts.begin(), ts.end());
    for (int i = 24; i >= 0; i -= 8) w.push_back(ssrc >> i);
    auto cs = r.bytes(4 * cc); w.insert(w.end(), cs.begin(), cs.end());
    if (ext) { int n = r.range(0, 10); w.push_back(0xBE); w.push_back(0xDE); w.push_back(0); w.push_back(n); auto e = r.bytes(4 * n); w.insert(w.end(), e.begin(), e.end()); }
    auto p = r.bytes(tiny ? r.range(1, 20) : r.pickOf<int64_t>({1, 2, 15, 16, 17, 100, 1000, r.range(1, 1200)}));
    if (pad) p.back() = 1;
    w.insert(w.end(), p.begin(), p.end());
    return w;
}
bool accept(Conn& c, bool control, const Bytes& wire, Bytes& plain)
{
    ByteBuffer out;
    bool ok = control ? c.conn->unprotectReceiveControl(glue::buf(wire), out) : c.conn->unprotectReceiveMedia(glue::buf(wire), out);
    plain = glue::bytes(out);
    return ok;
}

// ----- C05

void sendHistory(Rng& r, int64_t)
{
    auto c = makeConn(r);
    struct T { std::shared_ptr<Track> t; std::deque<std::shared_ptr<RtpPacket>> hist; };
    std::vector<T> tracks;
    int nt = r.range(1, 3);
    for (int i = 0; i < nt; i++)
        tracks.push_back({glue::makeTrack(ref::C::VP8, Direction::Publish, static_cast<uint32_t>(r.next()) | 1, r.range(96, 110), static_cast<uint32_t>(r.next()) | 1, r.range(111, 127)), {}});
    RtcpPacketSource rtcpSource(static_cast<uint32_t>(r.next()));
    std::set<std::pair<uint32_t, uint64_t>> usedRtp, usedRtcp;
    bool longRun = r.chance(0.06);
    int n = longRun ? 90000 : r.range(20, 400);
    std::map<uint32_t, uint64_t> lastIdx;
    uint32_t lastRtcp = 0;
    vf::note(std::string("send history ") + pname(c.p) + " n=" + std::to_string(n));
    for (int i = 0; i < n; i++) {
        auto& t = r.pick(tracks);
        auto& tt = const_cast<T&>(t);
        bool full = !longRun || i % 37 == 0;
        if (full && r.chance(0.2)) {
            uint32_t seq = rtcpSource.getNextSequence();
            VF_CHECK(seq > lastRtcp, "rtcp-index-order", "SRTCP index " << seq << " after " << lastRtcp);
            lastRtcp = seq;
            auto b = rtcpBytes(r, r.chance(0.5) ? tt.t->getSSRC() : static_cast<uint32_t>(r.next()));
            uint32_t ssrc = b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7];
            VF_CHECK(usedRtcp.insert({ssrc, seq}).second, "rtcp-index-reuse", "SRTCP index reused");
            ByteBuffer enc;
            VF_CHECK(c.conn->protectSendControl(glue::buf(b), seq, enc), "rtcp-protect-failed", "protectSendControl refuses a " << b.size() << " byte packet");
            auto w = glue::bytes(enc);
            auto want = c.local.protectRtcp(b, seq);
            VF_CHECK(w == want, "rtcp-bytes", pname(c.p) << ": SRTCP bytes are not the standard ones for index " << seq << ": " << vf::hex(w) << " vs " << vf::hex(want));
            vf::count("rtcp_protected");
            continue;
        }
        bool rtx = !tt.hist.empty() && r.chance(0.15);
        RtpPacket::Output out;
        if (rtx) out = r.pick(std::vector<std::shared_ptr<RtpPacket>>(tt.hist.end() - std::min<size_t>(4, tt.hist.size()), tt.hist.end()))->generateRtx(RtpExtension());
        else {
            auto [ro, seq] = tt.t->getRtpPacketSource()->getNextSequence();
            RtpExtensionBuilder eb;
            if (full && r.chance(0.5)) eb.addU16Value(r.range(1, 14), r.next());
            if (full && r.chance(0.3)) eb.addStringValue(r.range(1, 14), "mid0");
            auto p = std::make_shared<RtpPacket>(tt.t, r.chance(0.3), ro, seq, static_cast<uint32_t>(r.next()), full && r.chance(0.2) ? r.range(1, 255) : 0, eb.build(),
                                                 glue::buf(r.bytes(full ? r.range(1, 1150) : 4)));
            tt.hist.push_back(p);
            if (tt.hist.size() > 8) tt.hist.pop_front();
            out = p->generate();
        }
        auto b = glue::bytes(out.buf);
        uint16_t seq = b[2] << 8 | b[3];
        uint32_t ssrc = uint32_t(b[8]) << 24 | b[9] << 16 | b[10] << 8 | b[11];
        uint64_t idx = static_cast<uint64_t>(out.rollover) << 16 | seq;
        if (lastIdx.count(ssrc)) VF_CHECK(idx == lastIdx[ssrc] + 1, "rtp-index-order", "packet index of " << ssrc << " goes from " << lastIdx[ssrc] << " to " << idx);
        lastIdx[ssrc] = idx;
        VF_CHECK(usedRtp.insert({ssrc, idx}).second, "rtp-index-reuse", "packet index " << idx << " used twice");
        if (out.rollover) vf::count("rollover_packets");
        if (!full) continue;
        ByteBuffer enc;
        VF_CHECK(c.conn->protectSendMedia(out.buf, out.rollover, enc), "rtp-protect-failed", "protectSendMedia refuses a " << b.size() << " byte packet");
        auto w = glue::bytes(enc);
        auto want = c.local.protectRtp(b, static_cast<uint32_t>(idx >> 16));
        VF_CHECK(w == want, "rtp-bytes", pname(c.p) << ": SRTP bytes are not the standard ones for index " << idx << ": " << vf::hex(w) << " vs " << vf::hex(want));
        VF_CHECK(w.size() == b.size() + c.conn->getMediaProtectionOverhead(), "overhead", "the packet grew by " << w.size() - b.size() << ", announced " << c.conn->getMediaProtectionOverhead());
        vf::count("rtp_protected");
        vf::sig(std::string(pname(c.p)) + (rtx ? "x" : "n") + std::to_string(refsrtp::Dir::rtpHeader(b)) + "/" + std::to_string(b.size() / 8));
    }
}

// ----- C06

struct Stream {
    bool control; uint32_t ssrc; uint8_t pt; uint64_t next; // next index to send
    uint64_t highest = 0; bool any = false;                 // highest accepted
    std::set<uint64_t> accepted;
    std::deque<std::pair<uint64_t, std::pair<Bytes, Bytes>>> pool; // sent: index, (wire, plain)
};

void receiveHistory(Rng& r, int64_t)
{
    auto c = makeConn(r);
    std::vector<Stream> streams;
    int ns = r.range(1, 4);
    for (int i = 0; i < ns; i++) {
        Stream s;
        s.control = r.chance(0.3);
        s.ssrc = static_cast<uint32_t>(r.next()); s.pt = r.range(96, 127);
        s.next = s.control ? (r.chance(0.5) ? 1 : r.range(1, 0x7fff0000)) : r.pickOf<uint64_t>({1, 30000, 32000, static_cast<uint64_t>(r.below(30001))});
        if (r.chance(0.1) && i > 0 && !s.control) s.ssrc = streams[0].ssrc; // same SSRC, other payload type: another stream only if the type differs
        bool clash = false;
        for (auto& o : streams) if (o.ssrc == s.ssrc) clash = true;
        if (clash) s.ssrc = static_cast<uint32_t>(r.next());
        streams.push_back(std::move(s));
    }
    std::ostringstream os; os << "receive history " << pname(c.p) << " streams " << ns; vf::note(os.str());
    int n = r.range(100, 1500);
    double pTamper = r.pickOf<double>({0, 0.05, 0.3}), pReplay = r.pickOf<double>({0, 0.05, 0.3}), pReorder = r.pickOf<double>({0, 0.1, 0.4}), pDrop = r.pickOf<double>({0, 0.02, 0.2});
    bool fastForward = r.chance(0.5);
    std::string trace;
    auto deliverGenuine = [&](Stream& s, uint64_t idx, const Bytes& wire, const Bytes& plain) {
        Bytes got;
        bool ok = accept(c, s.control, wire, got);
        bool dup = s.accepted.count(idx);
        bool late = s.any && idx + 1900 < s.highest; // beyond any promised window: either answer is fine unless it is a replay
        std::ostringstream w; w << pname(c.p) << (s.control ? " SRTCP" : " SRTP") << " index " << idx << " (highest accepted " << (s.any ? std::to_string(s.highest) : "none") << ")";
        if (dup) { VF_CHECK(!ok, "replay-accepted", w.str() << " was accepted a second time"); vf::count("replays_rejected"); }
        else if (!ok) { VF_CHECK(late, s.control ? "genuine-control-rejected" : "genuine-media-rejected", w.str() << ": a genuine packet is rejected"); vf::count("late_rejected"); }
        if (ok) {
            VF_CHECK(got == plain, "plaintext", w.str() << ": plaintext differs from what the peer protected");
            s.accepted.insert(idx);
            if (!s.any || idx > s.highest) s.highest = idx;
            s.any = true;
            vf::count("genuine_accepted");
        }
        if (s.any && !s.control) vf::sig(std::string(pname(c.p)) + "d" + std::to_string(static_cast<int64_t>(idx - s.highest) / 8) + (ok ? "a" : "r") + std::to_string(idx >> 16) + (dup ? "D" : ""));
    };
    for (int i = 0; i < n; i++) {
        auto& s = streams[r.below(streams.size())];
        // The peer sends the next packet
        if (fastForward && !s.control && r.chance(0.02) && (s.next & 0xFFFF) < 65000) {
            // a long quiet stretch of packets, all of them delivered
            uint64_t target = (s.next & ~0xFFFFull) + 65500 - r.below(60);
            for (; s.next < target; s.next += r.chance(0.9) ? 400 : 1) {
                Bytes pl = foreignRtp(r, s.ssrc, s.pt, s.next, true);
                deliverGenuine(s, s.next, c.remote.protectRtp(pl, s.next >> 16), pl);
            }
            vf::count("fast_forwards");
        }
        if (r.chance(0.004) && s.any && s.next < s.highest + 10000) { s.next += r.pickOf<uint64_t>({1, 100, 511, 512, 513, 600, 2000, 2047, 2048, 2049, 5000, 20000}); vf::count("burst_losses"); }
        uint64_t idx = s.next++;
        Bytes plain = s.control ? rtcpBytes(r, s.ssrc) : foreignRtp(r, s.ssrc, s.pt, idx);
        bool encrypt = !s.control || !r.chance(0.05);
        Bytes wire = s.control ? c.remote.protectRtcp(plain, static_cast<uint32_t>(idx & 0x7fffffff), encrypt) : c.remote.protectRtp(plain, static_cast<uint32_t>(idx >> 16));
        s.pool.push_back({idx, {wire, plain}});
        if (s.pool.size() > 3000) s.pool.pop_front();
        // Forgeries around it
        int forgeries = r.chance(pTamper) ? r.range(1, 3) : 0;
        for (int k = 0; k < forgeries; k++) {
            Bytes bad = wire;
            std::string how;
            switch (r.below(8)) {
            case 0: bad[r.below(bad.size())] ^= 1 << r.below(8); how = "bit"; break;
            case 1: bad.resize(r.below(bad.size())); how = "truncate"; break;
            case 2: { auto x = r.bytes(r.range(1, 20)); bad.insert(bad.end(), x.begin(), x.end()); how = "extend"; break; }
            case 3: if (!s.control) { uint16_t q = s.next + r.range(-3000, 3000); if (r.chance(0.3)) q = r.next(); if (q == static_cast<uint16_t>(idx)) q++; bad[2] = q >> 8; bad[3] = q; } else { size_t o = refsrtp::gcm(c.p) ? bad.size() - 4 : bad.size() - 14; bad[o + 3 - r.below(4)] ^= 1 << r.below(7); } how = "index"; break;
            case 4: { size_t o = s.control ? 4 : 8; bad[o + r.below(4)] ^= r.range(1, 255); how = "ssrc"; break; }
            case 5: { size_t from = s.control ? 8 : 12; for (size_t j = from; j < bad.size(); j++) bad[j] = r.next(); how = "body"; break; }
            case 6: { // protected with other keys
                auto k = r.bytes(refsrtp::keyLen(c.p)), sa = r.bytes(refsrtp::saltLen(c.p)); refsrtp::Dir o(c.p, k, sa);
                bad = s.control ? o.protectRtcp(plain, idx + r.below(1000)) : o.protectRtp(plain, idx >> 16); how = "keys"; break; }
            default: { // genuine content protected for a future or past rollover, or our own packet reflected
                bad = s.control ? c.local.protectRtcp(plain, idx) : r.chance(0.5) ? c.local.protectRtp(plain, idx >> 16) : c.remote.protectRtp(plain, (idx >> 16) + 1 + r.below(3)); how = "reflect"; break; }
            }
            if (bad == wire) continue;
            Bytes got;
            // the 32-bit tag profile lets one in 2^32 forgeries through by construction
            VF_CHECK(!accept(c, s.control, bad, got), "forgery-accepted", pname(c.p) << (s.control ? " SRTCP" : " SRTP") << " forged packet (" << how << ") accepted");
            vf::count("forgeries_rejected");
            vf::sig("forge" + how + pname(c.p) + (s.control ? "c" : "m"));
        }
        if (r.chance(0.003)) { c.conn->onPeerConnected(); vf::count("reconnects"); }
        if (!r.chance(pDrop) && !r.chance(pReorder)) deliverGenuine(s, idx, wire, plain);
        // reordered and replayed packets
        if (!s.pool.empty() && (r.chance(pReorder) || r.chance(pReplay))) {
            size_t back = r.chance(0.8) ? r.below(std::min<size_t>(s.pool.size(), 60)) : r.below(s.pool.size());
            auto& e = s.pool[s.pool.size() - 1 - back];
            deliverGenuine(s, e.first, e.second.first, e.second.second);
            if (!s.control && s.any && (e.first >> 16) != (s.highest >> 16)) vf::count("across_rollover");
        }
    }
}

void replayClass(Rng& r, int64_t)
{
    // The window itself, against a set
    bool is16 = r.chance(0.5);
    uint64_t mod = is16 ? 65536ull : 4294967296ull;
    ReplayProtection rp(static_cast<uint32_t>(mod - 1), 2048);
    std::set<uint64_t> seen; uint64_t cur = 0; bool any = false;
    uint64_t base = r.pickOf<uint64_t>({0, mod - 2000, mod / 2, static_cast<uint64_t>(r.below(mod))}) + (mod << 1);
    uint64_t pos = base;
    for (int i = 0; i < 3000; i++) {
        uint64_t v = pos;
        if (r.chance(0.6)) v = pos += r.range(1, r.chance(0.05) ? 500 : 4);
        else v = pos - r.below(r.chance(0.1) ? 1500 : 30);
        if (any && v > cur + 512) { pos = cur; continue; } // the class promises nothing about larger jumps
        if (any && cur > v && (cur % mod) < (v % mod)) continue; // late across the wrap: not promised by the class
        bool ok = rp.canProceed(static_cast<uint32_t>(v % mod));
        bool want = !seen.count(v);
        if (any && v + 2048 <= cur) want = false;
        VF_CHECK(ok == want, "replay-window", "canProceed(" << v % mod << ") with maximum " << cur % mod << " is " << ok << (seen.count(v) ? ", already seen" : ", never seen"));
        if (ok) { VF_CHECK(rp.set(static_cast<uint32_t>(v % mod)), "replay-set", "set refuses"); seen.insert(v); if (!any || v > cur) cur = v; any = true; pos = std::max(pos, v); }
        vf::count("window_ops");
    }
    vf::sig("win" + std::to_string(base % 997));
}
} // namespace

int main(int argc, char** argv)
{
    bool c05 = false;
    int n = 0;
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) { if (!strcmp(argv[i], "c05")) c05 = true; else if (!strcmp(argv[i], "c06")) c05 = false; else a.push_back(argv[i]); }
    n = static_cast<int>(a.size());
    if (c05) return vf::runMain(n, a.data(), "distinct (profile, RTX or not, header size, packet size/8) shapes whose protected bytes were compared with the independent implementation", {{"send", 1, sendHistory}});
    return vf::runMain(n, a.data(), "distinct (profile, distance from highest accepted index, verdict, rollover, duplicate) arrivals and forgery kinds judged", {{"receive", 6, receiveHistory}, {"window", 1, replayClass}});
}
