// A scripted remote endpoint (ICE-lite-ish STUN, DTLS, SRTP, SCTP), written independently of srtc, and a recording wrapper around a real PeerConnection.
#pragma once
#include "simnet.h"
#include "../harness/glue.h"
#include "../harness/media.h"
#include "../harness/refsrtp.h"
#include "srtc/encoded_frame.h"
#include "srtc/peer_connection.h"
#include "srtc/publish_config.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#include "srtc/sender_report.h"
#include "srtc/subscribe_config.h"
#include "srtc/track_selector.h"
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <optional>
#include <set>

namespace sim {
using Str = std::string;

// Which property this run judges: monitors of other properties stay silent, each has its own run
inline Str prop = "all";
inline bool judges(const char* p) { return prop == "all" || prop == p; }
inline bool failed = false;
#define SIM_CHECK(p, cond, key, msg)                                                                                   \
    do {                                                                                                               \
        if (!(cond) && ::sim::judges(p)) {                                                                             \
            std::ostringstream vf_os;                                                                                  \
            vf_os << msg << " (t=" << ::sim::now() / 1000.0 << " ms)";                                                 \
            ::sim::failed = true;                                                                                      \
            ::vf::report(key, vf_os.str());                                                                            \
        }                                                                                                              \
    } while (0)

inline uint32_t be32(const uint8_t* p) { return uint32_t(p[0]) << 24 | uint32_t(p[1]) << 16 | uint32_t(p[2]) << 8 | p[3]; }
inline uint16_t be16(const uint8_t* p) { return static_cast<uint16_t>(p[0] << 8 | p[1]); }
inline void put16(Bytes& b, uint32_t v) { b.push_back(static_cast<uint8_t>(v >> 8)); b.push_back(static_cast<uint8_t>(v)); }
inline void put32(Bytes& b, uint32_t v) { put16(b, v >> 16); put16(b, v & 0xFFFF); }

// ---------------------------------------------------------------- STUN (RFC 5389)
namespace stun5389 {
enum : uint16_t { Username = 6, Integrity = 8, ErrorCode = 9, XorMapped = 0x20, Priority = 0x24, UseCandidate = 0x25, Software = 0x8022, Fingerprint = 0x8028, Controlled = 0x8029, Controlling = 0x802A };
enum : uint16_t { Request = 0x0001, Indication = 0x0011, Success = 0x0101, Error = 0x0111 };
inline uint32_t crc32(const uint8_t* p, size_t n) {
    uint32_t c = 0xFFFFFFFFu;
    for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (c & 1 ? 0xEDB88320u : 0); }
    return ~c;
}
struct Attr { uint16_t type; Bytes value; size_t pos; };
struct Msg {
    uint16_t type = 0; Bytes txid; std::vector<Attr> attrs;
    const Attr* find(uint16_t t) const { for (auto& a : attrs) if (a.type == t) return &a; return nullptr; }
    bool has(uint16_t t) const { return find(t) != nullptr; }
    Str text(uint16_t t) const { auto a = find(t); return a ? Str(a->value.begin(), a->value.end()) : Str(); }
};
inline bool looksLike(const Bytes& b) { return b.size() >= 20 && b[0] < 4 && be32(&b[4]) == 0x2112A442u; }
inline bool parse(const Bytes& b, Msg& m, Str& why) {
    if (!looksLike(b)) { why = "no STUN header"; return false; }
    m.type = be16(&b[0]);
    size_t len = be16(&b[2]);
    if (len % 4 || len + 20 != b.size()) { why = "length field " + std::to_string(len) + " of " + std::to_string(b.size()) + " bytes"; return false; }
    m.txid.assign(b.begin() + 8, b.begin() + 20);
    size_t i = 20;
    while (i < b.size()) {
        if (b.size() - i < 4) { why = "attribute header cut"; return false; }
        size_t n = be16(&b[i + 2]);
        if (n > b.size() - i - 4) { why = "attribute cut"; return false; }
        m.attrs.push_back({be16(&b[i]), Bytes(b.begin() + static_cast<long>(i) + 4, b.begin() + static_cast<long>(i + 4 + n)), i});
        i += 4 + ((n + 3) & ~size_t(3));
        if (i > b.size()) { why = "attribute padding missing"; return false; }
    }
    return true;
}
inline Bytes mac(const Bytes& raw, size_t upto, const Str& pwd) {
    Bytes c(raw.begin(), raw.begin() + static_cast<long>(upto));
    size_t l = upto + 24 - 20;
    c[2] = static_cast<uint8_t>(l >> 8); c[3] = static_cast<uint8_t>(l);
    return refsrtp::hmac(Bytes(pwd.begin(), pwd.end()), c);
}
// Fingerprint last and right, integrity right before it and right
inline bool verify(const Bytes& raw, const Msg& m, const Str& pwd, Str& why) {
    auto f = m.find(Fingerprint);
    if (!f || f->value.size() != 4 || f != &m.attrs.back()) { why = "fingerprint missing or not last"; return false; }
    if (be32(f->value.data()) != (crc32(raw.data(), f->pos) ^ 0x5354554eu)) { why = "fingerprint wrong"; return false; }
    auto a = m.find(Integrity);
    if (!a || a->value.size() != 20) { why = "no message integrity"; return false; }
    if (a->pos + 24 != f->pos) { why = "attributes between integrity and fingerprint"; return false; }
    if (mac(raw, a->pos, pwd) != a->value) { why = "message integrity wrong"; return false; }
    return true;
}
struct Builder {
    Bytes b;
    Builder(uint16_t type, const Bytes& txid) { put16(b, type); put16(b, 0); put32(b, 0x2112A442u); b.insert(b.end(), txid.begin(), txid.end()); }
    void len() { size_t l = b.size() - 20; b[2] = static_cast<uint8_t>(l >> 8); b[3] = static_cast<uint8_t>(l); }
    Builder& attr(uint16_t t, const Bytes& v) { put16(b, t); put16(b, static_cast<uint32_t>(v.size())); b.insert(b.end(), v.begin(), v.end()); while (b.size() % 4) b.push_back(0); len(); return *this; }
    Builder& text(uint16_t t, const Str& v) { return attr(t, Bytes(v.begin(), v.end())); }
    Builder& u32(uint16_t t, uint32_t v) { Bytes x; put32(x, v); return attr(t, x); }
    Builder& mapped(const Addr& a, const Bytes& txid) {
        Bytes v{0, static_cast<uint8_t>(a.ss.ss_family == AF_INET ? 1 : 2)};
        put16(v, a.port() ^ 0x2112u);
        Bytes k{0x21, 0x12, 0xA4, 0x42};
        k.insert(k.end(), txid.begin(), txid.end());
        auto raw = a.ss.ss_family == AF_INET ? reinterpret_cast<const uint8_t*>(&reinterpret_cast<const sockaddr_in*>(&a.ss)->sin_addr) : reinterpret_cast<const uint8_t*>(&reinterpret_cast<const sockaddr_in6*>(&a.ss)->sin6_addr);
        for (size_t i = 0; i < (a.ss.ss_family == AF_INET ? 4u : 16u); i++) v.push_back(raw[i] ^ k[i]);
        return attr(XorMapped, v);
    }
    Builder& integrity(const Str& pwd) { auto h = mac(b, b.size(), pwd); return attr(Integrity, h); }
    Builder& fingerprint() {
        size_t l = b.size() + 8 - 20;
        b[2] = static_cast<uint8_t>(l >> 8); b[3] = static_cast<uint8_t>(l);
        uint32_t v = crc32(b.data(), b.size()) ^ 0x5354554eu;
        return u32(Fingerprint, v);
    }
};
} // namespace stun5389

// ---------------------------------------------------------------- certificates
struct Cert {
    EVP_PKEY* key = nullptr; X509* x = nullptr; Str fingerprint;
    static const Cert& get(int i) { // a small pool, made once per process
        static std::map<int, Cert> pool;
        auto& c = pool[i];
        if (c.x) return c;
        if (i % 3 == 2) c.key = EVP_RSA_gen(2048);
        else c.key = EVP_EC_gen("P-256");
        c.x = X509_new();
        ASN1_INTEGER_set(X509_get_serialNumber(c.x), 1000 + i);
        X509_gmtime_adj(X509_get_notBefore(c.x), -86400);
        X509_gmtime_adj(X509_get_notAfter(c.x), 31536000L);
        X509_set_pubkey(c.x, c.key);
        auto name = X509_get_subject_name(c.x);
        Str cn = "peer" + std::to_string(i);
        X509_NAME_add_entry_by_txt(name, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>(cn.c_str()), -1, -1, 0);
        X509_set_issuer_name(c.x, name);
        X509_sign(c.x, c.key, EVP_sha256());
        uint8_t md[32]; unsigned n = 0;
        X509_digest(c.x, EVP_sha256(), md, &n);
        for (unsigned k = 0; k < n; k++) { char t[4]; snprintf(t, sizeof t, "%s%02X", k ? ":" : "", md[k]); c.fingerprint += t; }
        return c;
    }
};

// ---------------------------------------------------------------- SDP
struct OfferMedia { Str mid, kind; std::vector<unsigned> pts; std::map<unsigned, Str> rtpmap, fmtp; std::vector<Str> rids; std::vector<Str> extmap; uint32_t ssrc = 0, rtx = 0; std::vector<std::pair<uint32_t, uint32_t>> ssrcs; bool application = false; };
struct Offer { Str ufrag, pwd, fingerprint; std::vector<OfferMedia> media; };
inline std::vector<Str> lines(const Str& s) { std::vector<Str> r; Str c; for (char ch : s) { if (ch == '\n') { if (!c.empty() && c.back() == '\r') c.pop_back(); r.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) r.push_back(c); return r; }
inline Offer parseOffer(const Str& text) {
    Offer o;
    auto starts = [](const Str& l, const char* p) { return l.rfind(p, 0) == 0; };
    std::set<uint32_t> paired;
    for (auto& l : lines(text)) {
        if (starts(l, "m=")) {
            OfferMedia m;
            m.kind = l.substr(2, l.find(' ') - 2);
            m.application = m.kind == "application";
            if (!m.application) { std::istringstream is(l); Str t; is >> t >> t >> t; unsigned p; while (is >> p) m.pts.push_back(p); }
            o.media.push_back(m);
            paired.clear();
            continue;
        }
        if (starts(l, "a=ice-ufrag:")) o.ufrag = l.substr(12);
        if (starts(l, "a=ice-pwd:")) o.pwd = l.substr(10);
        if (starts(l, "a=fingerprint:sha-256 ")) o.fingerprint = l.substr(22);
        if (o.media.empty()) continue;
        auto& m = o.media.back();
        if (starts(l, "a=mid:")) m.mid = l.substr(6);
        if (starts(l, "a=rtpmap:")) { unsigned p = static_cast<unsigned>(atoi(l.c_str() + 9)); m.rtpmap[p] = l.substr(l.find(' ') + 1); }
        if (starts(l, "a=fmtp:")) { unsigned p = static_cast<unsigned>(atoi(l.c_str() + 7)); m.fmtp[p] = l.substr(l.find(' ') + 1); }
        if (starts(l, "a=rid:")) m.rids.push_back(l.substr(6, l.find(' ') - 6));
        if (starts(l, "a=extmap:")) m.extmap.push_back(l);
        if (starts(l, "a=ssrc:")) {
            uint32_t s = static_cast<uint32_t>(strtoul(l.c_str() + 7, nullptr, 10));
            bool known = paired.count(s);
            for (auto& p : m.ssrcs) known |= p.first == s;
            if (!known) m.ssrcs.push_back({s, 0});
        }
        if (starts(l, "a=ssrc-group:FID ")) {
            char* e; uint32_t a = static_cast<uint32_t>(strtoul(l.c_str() + 17, &e, 10)), b = static_cast<uint32_t>(strtoul(e, nullptr, 10));
            for (auto i = m.ssrcs.begin(); i != m.ssrcs.end();) if (i->first == b) i = m.ssrcs.erase(i); else ++i;
            for (auto& p : m.ssrcs) if (p.first == a) p.second = b;
            paired.insert(b);
        }
    }
    for (auto& m : o.media) if (!m.ssrcs.empty()) { m.ssrc = m.ssrcs[0].first; m.rtx = m.ssrcs[0].second; }
    return o;
}
struct AnswerMedia {
    Str mid, kind; bool application = false;
    unsigned pt = 0, rtxPt = 0; Str rtpmap, fmtp;
    bool nack = true, pli = true;
    std::vector<Str> extmap, rids;
    uint32_t ssrc = 0, rtxSsrc = 0; // what the answerer sends with (subscribe)
};
struct Answer {
    Str ufrag, pwd, fingerprint; bool active = false;
    std::vector<Addr> candidates; std::vector<AnswerMedia> media;
    unsigned sctpPort = 5000; int64_t maxMessage = 262144;
    bool weSend = false;
    Str text() const {
        std::ostringstream s;
        s << "v=0\r\no=- 4611 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n";
        if (media.size() > 1) { s << "a=group:BUNDLE"; for (auto& m : media) s << " " << m.mid; s << "\r\n"; }
        for (auto& m : media) {
            if (m.application) s << "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\n";
            else { s << "m=" << m.kind << " 9 UDP/TLS/RTP/SAVPF " << m.pt; if (m.rtxPt) s << " " << m.rtxPt; s << "\r\n"; }
            s << "c=IN IP4 0.0.0.0\r\na=ice-ufrag:" << ufrag << "\r\na=ice-pwd:" << pwd << "\r\na=fingerprint:sha-256 " << fingerprint << "\r\na=setup:" << (active ? "active" : "passive") << "\r\na=mid:" << m.mid << "\r\n";
            int i = 0;
            for (auto& c : candidates) { i++; s << "a=candidate:" << i << " 1 udp " << 2130706431 - i << " " << c.ip() << " " << c.port() << " typ host\r\n"; }
            if (m.application) { s << "a=sctp-port:" << sctpPort << "\r\na=max-message-size:" << maxMessage << "\r\n"; continue; }
            for (auto& e : m.extmap) s << e << "\r\n";
            s << (weSend ? "a=sendonly" : "a=recvonly") << "\r\na=rtcp-mux\r\na=rtcp-rsize\r\na=rtpmap:" << m.pt << " " << m.rtpmap << "\r\n";
            if (!m.fmtp.empty()) s << "a=fmtp:" << m.pt << " " << m.fmtp << "\r\n";
            if (m.nack) s << "a=rtcp-fb:" << m.pt << " nack\r\n";
            if (m.pli && m.kind == "video") s << "a=rtcp-fb:" << m.pt << " nack pli\r\n";
            if (m.rtxPt) s << "a=rtpmap:" << m.rtxPt << " rtx/" << (m.kind == "audio" ? 48000 : 90000) << "\r\na=fmtp:" << m.rtxPt << " apt=" << m.pt << "\r\n";
            if (!m.rids.empty()) {
                Str all;
                for (auto& r : m.rids) { s << "a=rid:" << r << " recv\r\n"; all += (all.empty() ? "" : ";") + r; }
                s << "a=simulcast:recv " << all << "\r\n";
            }
            if (m.ssrc) {
                if (m.rtxSsrc) s << "a=ssrc-group:FID " << m.ssrc << " " << m.rtxSsrc << "\r\n";
                s << "a=ssrc:" << m.ssrc << " cname:peer\r\n";
                if (m.rtxSsrc) s << "a=ssrc:" << m.rtxSsrc << " cname:peer\r\n";
            }
        }
        return s.str();
    }
};
// Answers every section with the codec at `pick` (by index among the non-rtx payload types)
inline Answer makeAnswer(const Offer& o, bool weSend, bool rtx, bool exts, const std::function<size_t(const OfferMedia&, size_t)>& pick = {}) {
    Answer a;
    a.weSend = weSend;
    for (auto& m : o.media) {
        AnswerMedia am;
        am.mid = m.mid; am.kind = m.kind; am.application = m.application;
        if (!m.application) {
            std::vector<unsigned> main;
            for (auto p : m.pts) if (m.rtpmap.count(p) && m.rtpmap.at(p).rfind("rtx/", 0) != 0) main.push_back(p);
            am.pt = main[pick ? pick(m, main.size()) % main.size() : 0];
            am.rtpmap = m.rtpmap.at(am.pt);
            if (m.fmtp.count(am.pt)) am.fmtp = m.fmtp.at(am.pt);
            if (rtx) for (auto& [p, f] : m.fmtp) if (f == "apt=" + std::to_string(am.pt)) am.rtxPt = p;
            if (rtx && weSend && !am.rtxPt) { unsigned p = 127; for (bool again = true; again;) { again = false; for (auto& x : o.media) for (auto q : x.pts) if (q == p) { p--; again = true; } for (auto& x : a.media) if (x.rtxPt == p || x.pt == p) { p--; again = true; } } am.rtxPt = p; }
            if (exts) am.extmap = m.extmap;
            else for (auto& e : m.extmap) if (e.find("transport-wide") == Str::npos && e.find("abs-capture") == Str::npos) am.extmap.push_back(e);
            am.rids = weSend ? std::vector<Str>() : m.rids;
        }
        a.media.push_back(am);
    }
    return a;
}

// ---------------------------------------------------------------- RTCP
struct Rtcp { uint8_t rc = 0, pt = 0; uint32_t ssrc = 0; Bytes body; }; // body follows the SSRC
inline std::vector<Rtcp> splitRtcp(const Bytes& b, Str& why) {
    std::vector<Rtcp> r;
    size_t i = 0;
    while (i < b.size()) {
        if (b.size() - i < 8) { why = "RTCP header cut"; return r; }
        size_t n = 4u * (be16(&b[i + 2]) + 1u);
        if ((b[i] >> 6) != 2 || n < 8 || n > b.size() - i) { why = "RTCP length"; return r; }
        r.push_back({static_cast<uint8_t>(b[i] & 31), b[i + 1], be32(&b[i + 4]), Bytes(b.begin() + static_cast<long>(i) + 8, b.begin() + static_cast<long>(i + n))});
        i += n;
    }
    return r;
}
inline Bytes makeRtcp(uint8_t rc, uint8_t pt, uint32_t ssrc, const Bytes& body) {
    Bytes b{static_cast<uint8_t>(0x80 | rc), pt};
    put16(b, static_cast<uint32_t>(body.size() / 4 + 1)); put32(b, ssrc);
    b.insert(b.end(), body.begin(), body.end());
    return b;
}

// Tracks which (ssrc, index) was used with which bytes: the keystream monitor (C05)
struct KeystreamMonitor {
    std::map<std::pair<uint32_t, uint64_t>, uint64_t> rtp, rtcp;
    void use(bool control, uint32_t ssrc, uint64_t index, const Bytes& wire) {
        auto& m = control ? rtcp : rtp;
        uint64_t h = vf::hash64(wire.data(), wire.size());
        auto [it, fresh] = m.insert({{ssrc, index}, h});
        SIM_CHECK("C05", fresh || it->second == h, control ? "srtcp-keystream-reused" : "srtp-keystream-reused",
                  (control ? "SRTCP" : "SRTP") << " ssrc " << ssrc << " index " << index << " protects two different packets");
        // a media packet resent as it was is no reuse; control packets are never resent
        SIM_CHECK("C05", fresh || !control, "srtcp-index-repeated", "SRTCP ssrc " << ssrc << " index " << index << " sent twice");
        vf::count(control ? "indices_control" : "indices_media");
    }
};
struct RxIndex { // RFC 3711 3.3.1
    bool any = false; uint64_t high = 0;
    uint64_t guess(uint16_t seq) const {
        if (!any) return seq;
        uint64_t roc = high >> 16; uint16_t s = static_cast<uint16_t>(high);
        if (s < 32768) { if (seq > s && seq - s > 32768) return roc ? ((roc - 1) << 16 | seq) : seq; return roc << 16 | seq; }
        if (s > seq && s - 32768 > seq) return (roc + 1) << 16 | seq;
        return roc << 16 | seq;
    }
    void update(uint64_t i) { if (!any || i > high) { any = true; high = i; } }
};
inline refsrtp::Profile profileOf(const Str& n) {
    if (n == "SRTP_AEAD_AES_256_GCM") return refsrtp::Profile::GCM256;
    if (n == "SRTP_AEAD_AES_128_GCM") return refsrtp::Profile::GCM128;
    if (n == "SRTP_AES128_CM_SHA1_32") return refsrtp::Profile::CM32;
    return refsrtp::Profile::CM80;
}
struct SrtpKeys { refsrtp::Profile p; refsrtp::Dir client, server;
    SrtpKeys(const Bytes& m, const Str& name) : p(profileOf(name)) {
        size_t k = refsrtp::keyLen(p), s = refsrtp::saltLen(p);
        if (m.size() < 2 * (k + s)) vf::harnessError("keying material too short");
        auto part = [&](size_t o, size_t n) { return Bytes(m.begin() + static_cast<long>(o), m.begin() + static_cast<long>(o + n)); };
        client = refsrtp::Dir(p, part(0, k), part(2 * k, s));
        server = refsrtp::Dir(p, part(k, k), part(2 * k + s, s));
    }
    size_t material() const { return 2 * (refsrtp::keyLen(p) + refsrtp::saltLen(p)); }
};

// Decodes what one side sends
struct SrtpReader {
    const refsrtp::Dir dir; KeystreamMonitor mon; std::map<uint32_t, RxIndex> idx;
    explicit SrtpReader(const refsrtp::Dir& d) : dir(d) {}
    static bool isRtcp(const Bytes& b) { return (b[1] & 0x7F) >= 64 && (b[1] & 0x7F) <= 95; }
    bool rtp(const Bytes& b, Bytes& out, uint64_t& index) {
        uint32_t ssrc = be32(&b[8]);
        auto& x = idx[ssrc];
        index = x.guess(be16(&b[2]));
        for (int d : {0, 1, -1}) {
            uint64_t i = index + static_cast<uint64_t>(d) * 65536u;
            if (d < 0 && index < 65536) continue;
            if (dir.unprotectRtp(b, static_cast<uint32_t>(i >> 16), out)) {
                if (d) SIM_CHECK("C05", false, "srtp-wrong-rollover", "packet protected with a rollover counter a receiver would not guess");
                index = i; x.update(i); mon.use(false, ssrc, i, b); return true;
            }
        }
        return false;
    }
    bool rtcp(const Bytes& b, Bytes& out, uint32_t& index) {
        bool enc = false;
        if (!dir.unprotectRtcp(b, index, enc, out)) return false;
        SIM_CHECK("C05", enc, "srtcp-not-encrypted", "control packet sent without encryption");
        mon.use(true, be32(&b[4]), index, b);
        return true;
    }
};

// ---------------------------------------------------------------- the scripted peer
struct RemotePeer {
    vf::Rng rng;
    Addr addr;                 // its own address
    Str ufrag, pwd;            // its own credentials (in the answer)
    Str rufrag, rpwd;          // the endpoint's (in the offer)
    const Cert* cert = &Cert::get(0);
    bool client = false;       // DTLS client (answer says active)
    bool presentCert = true;
    Str profiles = "SRTP_AEAD_AES_256_GCM:SRTP_AEAD_AES_128_GCM:SRTP_AES128_CM_SHA1_80:SRTP_AES128_CM_SHA1_32";
    int minVersion = DTLS1_VERSION, maxVersion = DTLS1_2_VERSION;
    bool answerStun = true, answerDtls = true;
    int64_t stunEvery = 0;     // sends binding requests of its own
    std::function<void(const Bytes&)> out; // towards the endpoint
    Addr endpoint;             // as this peer sees it
    std::shared_ptr<int> life = std::make_shared<int>(0);

    // what it saw
    uint64_t stunRequests = 0, useCandidates = 0, stunResponses = 0, dtlsDatagrams = 0, other = 0;
    std::map<Bytes, int64_t> pendingTx; // our requests
    std::set<Bytes> seenTx;
    bool handshakeDone = false, handshakeFailed = false, nominated = false, closedByPeer = false;
    std::unique_ptr<SrtpKeys> keys;
    std::unique_ptr<SrtpReader> reader;
    Str profile;
    std::function<void(const Bytes& plain, const Bytes& wire, uint64_t index)> onRtp;
    std::function<void(const Bytes& plain, const Bytes& wire, uint32_t index)> onRtcp;
    std::function<void(const Bytes&)> onData;
    std::function<void()> onConnected;
    std::function<void(const Bytes&)> onAny;
    uint64_t rtpSeen = 0, rtcpSeen = 0, undecodable = 0;

    explicit RemotePeer(vf::Rng r) : rng(r) { ufrag = token(4 + rng.below(20)); pwd = token(22 + rng.below(20)); }
    ~RemotePeer() { freeSsl(); }
    RemotePeer(const RemotePeer&) = delete;
    Str token(size_t n) { static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Str s; while (s.size() < n) s += a[rng.below(64)]; return s; }

    void receive(const Bytes& b) {
        if (onAny) onAny(b);
        if (b.empty()) return;
        if (stun5389::looksLike(b) && b[0] < 2) { stun(b); return; }
        if (b[0] >= 20 && b[0] <= 63) { dtlsDatagrams++; dtls(b); return; }
        if (b[0] >= 128 && b[0] <= 191) { srtp(b); return; }
        other++;
        SIM_CHECK("C07", false, "strange-datagram", "endpoint sent a datagram that is no STUN, DTLS or RTP: " << vf::hex(b, 24));
    }
    // -- STUN
    void stun(const Bytes& b) {
        stun5389::Msg m;
        Str why;
        bool ok = stun5389::parse(b, m, why);
        SIM_CHECK("C07", ok, "stun-malformed", why << ": " << vf::hex(b, 200));
        if (!ok) return;
        if (m.type == stun5389::Request) {
            stunRequests++;
            ok = stun5389::verify(b, m, pwd, why);
            SIM_CHECK("C07", ok, "stun-request-unverifiable", why);
            SIM_CHECK("C07", m.text(stun5389::Username) == ufrag + ":" + rufrag, "stun-request-username", m.text(stun5389::Username) << " instead of " << ufrag << ":" << rufrag);
            auto pr = m.find(stun5389::Priority);
            SIM_CHECK("C07", pr && pr->value.size() == 4 && be32(pr->value.data()) != 0, "stun-request-priority", "no priority");
            bool role = m.has(stun5389::Controlling) ? m.find(stun5389::Controlling)->value.size() == 8 : m.has(stun5389::Controlled);
            SIM_CHECK("C07", role, "stun-request-role", "no ICE role");
            SIM_CHECK("C07", seenTx.insert(m.txid).second || dupTolerant, "stun-transaction-reused", "transaction id used twice");
            if (m.has(stun5389::UseCandidate)) { useCandidates++; nominated = true; }
            if (answerStun && ok) {
                stun5389::Builder r(stun5389::Success, m.txid);
                if (rng.chance(0.5)) r.text(stun5389::Software, token(1 + rng.below(12)));
                r.mapped(endpoint, m.txid);
                r.integrity(pwd).fingerprint();
                out(r.b);
                if (m.has(stun5389::UseCandidate)) startDtls();
            }
        } else if (m.type == stun5389::Success) {
            stunResponses++;
            ok = stun5389::verify(b, m, rpwd, why);
            SIM_CHECK("C07", ok, "stun-response-unverifiable", why);
            bool known = pendingTx.count(m.txid);
            SIM_CHECK("C07", known, "stun-response-unknown", "answers a transaction that was never valid: " << vf::hex(m.txid));
            stun5389::Builder want(0, m.txid);
            want.mapped(addr, m.txid);
            auto x = m.find(stun5389::XorMapped);
            SIM_CHECK("C07", x && Bytes(want.b.begin() + 24, want.b.begin() + 24 + static_cast<long>(x->value.size())) == x->value, "stun-response-address", "mapped address is not the one the request came from");
            vf::count("stun_responses_checked");
        } else SIM_CHECK("C07", false, "stun-strange-type", "type " << m.type);
        vf::count("stun_messages_checked");
    }
    bool dupTolerant = true; // the network may duplicate
    Bytes request(bool controlled = true) {
        Bytes tx = rng.bytes(12);
        stun5389::Builder r(stun5389::Request, tx);
        if (rng.chance(0.5)) r.text(stun5389::Software, token(1 + rng.below(12)));
        r.text(stun5389::Username, rufrag + ":" + ufrag).u32(stun5389::Priority, 0x6E001EFFu).attr(controlled ? stun5389::Controlled : stun5389::Controlling, rng.bytes(8));
        r.integrity(rpwd).fingerprint();
        pendingTx[tx] = now();
        return r.b;
    }
    void stunLoop() {
        if (stunEvery <= 0) return;
        if (answerStun) out(request());
        after(stunEvery, [this, w = std::weak_ptr<int>(life)] { if (!w.expired()) stunLoop(); });
    }
    // -- DTLS
    SSL_CTX* ctx = nullptr; SSL* ssl = nullptr; std::deque<Bytes> in;
    static int bioRead(BIO* b, char* o, int n) {
        BIO_clear_retry_flags(b);
        auto self = static_cast<RemotePeer*>(BIO_get_data(b));
        if (self->in.empty()) { BIO_set_retry_read(b); return -1; }
        auto d = std::move(self->in.front()); self->in.pop_front();
        int k = std::min<int>(n, static_cast<int>(d.size()));
        memcpy(o, d.data(), static_cast<size_t>(k));
        return k;
    }
    static int bioWrite(BIO* b, const char* p, int n) {
        auto self = static_cast<RemotePeer*>(BIO_get_data(b));
        if (self->answerDtls && self->out) self->out(Bytes(p, p + n));
        return n;
    }
    static long bioCtrl(BIO*, int cmd, long, void*) {
        switch (cmd) { case BIO_CTRL_DGRAM_QUERY_MTU: case BIO_CTRL_DGRAM_GET_FALLBACK_MTU: return 1200; case BIO_CTRL_DGRAM_GET_MTU_OVERHEAD: return 28; case BIO_CTRL_FLUSH: case BIO_CTRL_DUP: return 1; default: return 0; }
    }
    static int verifyAny(int, X509_STORE_CTX*) { return 1; }
    void freeSsl() { if (ssl) { SSL_free(ssl); ssl = nullptr; } if (ctx) { SSL_CTX_free(ctx); ctx = nullptr; } }
    bool pumping = false;
    void startDtls() {
        if (ssl || !answerDtls) return;
        static BIO_METHOD* meth = nullptr;
        if (!meth) { meth = BIO_meth_new(BIO_TYPE_DGRAM, "speer"); BIO_meth_set_read(meth, bioRead); BIO_meth_set_write(meth, bioWrite); BIO_meth_set_ctrl(meth, bioCtrl); }
        ctx = SSL_CTX_new(client ? DTLS_client_method() : DTLS_server_method());
        SSL_CTX_set_min_proto_version(ctx, minVersion);
        SSL_CTX_set_max_proto_version(ctx, maxVersion);
        if (minVersion < DTLS1_2_VERSION) SSL_CTX_set_security_level(ctx, 0);
        if (presentCert) { SSL_CTX_use_certificate(ctx, cert->x); SSL_CTX_use_PrivateKey(ctx, cert->key); }
        SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, verifyAny);
        if (!profiles.empty()) SSL_CTX_set_tlsext_use_srtp(ctx, profiles.c_str());
        ssl = SSL_new(ctx);
        BIO* b = BIO_new(meth);
        BIO_set_data(b, this); BIO_set_init(b, 1);
        SSL_set_bio(ssl, b, b);
        SSL_set_options(ssl, SSL_OP_NO_QUERY_MTU);
        SSL_set_mtu(ssl, 1200);
        if (client) SSL_set_connect_state(ssl); else SSL_set_accept_state(ssl);
        step();
    }
    void dtls(const Bytes& b) {
        if (!answerDtls) return;
        if (!ssl) { if (client) return; startDtls(); }
        if (!ssl) return;
        in.push_back(b);
        step();
    }
    void step() {
        if (!ssl || handshakeFailed) return;
        if (!handshakeDone) {
            ERR_clear_error();
            int r = SSL_do_handshake(ssl);
            int e = SSL_get_error(ssl, r);
            if (r == 1) {
                handshakeDone = true;
                auto* p = SSL_get_selected_srtp_profile(ssl);
                profile = p ? p->name : "";
                if (!profile.empty()) {
                    Bytes m(2 * (32 + 14));
                    size_t n = SrtpKeys(Bytes(200), profile).material();
                    m.resize(n);
                    bool ok = SSL_export_keying_material(ssl, m.data(), n, "EXTRACTOR-dtls_srtp", 19, nullptr, 0, 0) == 1;
                    if (!ok) vf::harnessError("peer cannot export keys");
                    keys = std::make_unique<SrtpKeys>(m, profile);
                    reader = std::make_unique<SrtpReader>(client ? keys->server : keys->client);
                }
                if (onConnected) onConnected();
            } else if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) handshakeFailed = true;
        }
        if (handshakeDone) {
            uint8_t tmp[20000];
            while (true) {
                ERR_clear_error();
                int r = SSL_read(ssl, tmp, sizeof tmp);
                if (r <= 0) { if (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN) closedByPeer = true; break; }
                if (onData) onData(Bytes(tmp, tmp + r));
            }
        }
        timer();
    }
    bool timerArmed = false;
    void timer() {
        if (!ssl || handshakeDone || handshakeFailed || timerArmed) return;
        timeval tv = {};
        if (!DTLSv1_get_timeout(ssl, &tv)) return;
        timerArmed = true;
        after(tv.tv_sec * sec + tv.tv_usec + 1000, [this, w = std::weak_ptr<int>(life)] {
            if (w.expired()) return;
            timerArmed = false;
            if (!ssl || handshakeDone) return;
            if (DTLSv1_handle_timeout(ssl) < 0) { return; }
            step();
        });
    }
    void sendData(const Bytes& b) { if (handshakeDone) SSL_write(ssl, b.data(), static_cast<int>(b.size())); }
    void closeDtls() { if (ssl && handshakeDone) SSL_shutdown(ssl); }
    // -- SRTP
    const refsrtp::Dir& tx() const { return client ? keys->client : keys->server; }
    uint32_t rtcpIndex = 0;
    void sendRtp(const Bytes& plain, uint32_t roc = 0) { if (keys) out(tx().protectRtp(plain, roc)); }
    void sendRtcp(const Bytes& plain) { if (keys) out(tx().protectRtcp(plain, ++rtcpIndex)); }
    void srtp(const Bytes& b) {
        if (!reader) { SIM_CHECK("C05", handshakeDone || !judgeEarly, "srtp-before-keys", "media before the handshake is complete"); return; }
        if (b.size() < 12) { undecodable++; return; }
        Bytes plain;
        if (SrtpReader::isRtcp(b)) {
            uint32_t i = 0;
            if (reader->rtcp(b, plain, i)) { rtcpSeen++; if (onRtcp) onRtcp(plain, b, i); }
            else { undecodable++; SIM_CHECK("C05", !judgeUndecodable, "srtcp-undecodable", "a control packet a standard receiver cannot authenticate"); }
        } else {
            uint64_t i = 0;
            if (reader->rtp(b, plain, i)) { rtpSeen++; if (onRtp) onRtp(plain, b, i); }
            else { undecodable++; SIM_CHECK("C05", !judgeUndecodable, "srtp-undecodable", "a media packet a standard receiver cannot authenticate"); }
        }
    }
    bool judgeUndecodable = true, judgeEarly = true;
};

// ---------------------------------------------------------------- a real connection, recorded
using State = srtc::PeerConnection::ConnectionState;
inline const char* stateName(State s) { switch (s) { case State::Inactive: return "inactive"; case State::Connecting: return "connecting"; case State::Connected: return "connected"; case State::Failed: return "failed"; default: return "closed"; } }
struct Got { std::shared_ptr<srtc::Track> track; uint64_t seq, ts; Bytes data; int64_t at; bool marker; uint64_t act; int64_t actOff; };
struct Pc;
struct DcListener : srtc::PeerConnection::DataChannelListener {
    Pc* p;
    explicit DcListener(Pc* x) : p(x) {}
    void onDataChannelOpened(const Str& l) override;
    void onDataChannelClosed(const Str& l) override;
    void onDataChannelReceivedText(const Str& l, const Str& d) override;
    void onDataChannelReceivedBinary(const Str& l, const srtc::ByteBuffer& d) override;
};
struct DcEvent { char kind; Str label; Bytes data; int64_t at; }; // o c t b
struct Pc {
    std::unique_ptr<srtc::PeerConnection> pc;
    std::shared_ptr<srtc::SdpOffer> offer; std::shared_ptr<srtc::SdpAnswer> answer;
    srtc::Direction dir; int ep; Str name;
    std::vector<std::pair<int64_t, State>> states;
    std::vector<Got> frames; std::vector<DcEvent> dc;
    std::vector<std::pair<int64_t, srtc::PublishConnectionStats>> pubStats;
    std::vector<std::pair<int64_t, srtc::SubscribeConnectionStats>> subStats;
    std::vector<std::pair<int64_t, srtc::SenderReport>> srs;
    uint64_t keyRequests = 0, framesSeen = 0; bool keepFrames = true, closeReturned = false; bool started = false;
    std::function<void(State)> onState; std::function<void(const Got&)> onFrame;

    Pc(srtc::Direction d, Str n = "pc") : dir(d), name(std::move(n)) {
        pc = std::make_unique<srtc::PeerConnection>(d);
        ep = lastEpoll();
        pc->setConnectionStateListener([this](State s) { state(s); });
        pc->setDataChannelListener(std::make_shared<DcListener>(this));
        if (d == srtc::Direction::Publish) {
            pc->setPublishConnectionStatsListener([this](const srtc::PublishConnectionStats& s) { HarnessScope hs; alive("publish statistics"); pubStats.push_back({now(), s}); });
            pc->setPublishKeyFrameRequestedListener([this] { HarnessScope hs; alive("key frame request"); keyRequests++; });
        } else {
            pc->setSubscribeConnectionStatsListener([this](const srtc::SubscribeConnectionStats& s) { HarnessScope hs; alive("subscribe statistics"); subStats.push_back({now(), s}); });
            pc->setSubscribeEncodedFrameListener([this](const std::shared_ptr<srtc::EncodedFrame>& f) {
                HarnessScope hs;
                alive("frame");
                if (!keepFrames) { framesSeen++; return; }
                Got g{f->track, f->seq_ext, f->rtp_timestamp_ext, glue::bytes(f->data), now(), f->marker, f->abs_capture_time_ntp, f->abs_capture_time_offset};
                frames.push_back(g);
                if (onFrame) onFrame(g);
            });
            pc->setSubscribeSenderReportsListener([this](const std::shared_ptr<srtc::Track>&, const srtc::SenderReport& s) { HarnessScope hs; alive("sender report"); srs.push_back({now(), s}); });
        }
    }
    ~Pc() { close(); }
    void alive(const char* what) { HarnessScope hs; SIM_CHECK("C09", !closeReturned, "listener-after-close", what << " reported after close() returned"); if (closeReturned) failed = true; }
    State current() const { return states.empty() ? State::Inactive : states.back().second; }
    bool connected() const { return current() == State::Connected; }
    bool final() const { return current() == State::Failed || current() == State::Closed; }
    void state(State s) {
        HarnessScope hs;
        alive("state");
        vf::count(Str("state:") + stateName(s));
        State p = current();
        bool ok = p == State::Inactive ? s == State::Connecting : p == State::Connecting ? (s == State::Connected || s == State::Failed || s == State::Closed)
            : p == State::Connected ? (s == State::Connecting || s == State::Failed || s == State::Closed) : false;
        SIM_CHECK("C09", ok, "state-order", name << ": " << stateName(p) << " followed by " << stateName(s));
        states.push_back({now(), s});
        if (onState) onState(s);
    }
    Str history() const { std::ostringstream o; for (auto& [t, s] : states) o << stateName(s) << "@" << t / 1000 << " "; return o.str(); }
    Str start(const Str& text, const std::shared_ptr<srtc::TrackSelector>& sel = nullptr) {
        auto [a, e] = dir == srtc::Direction::Publish ? pc->parsePublishAnswer(offer, text, sel) : pc->parseSubscribeAnswer(offer, text, sel);
        if (e.isError()) return "parse: " + e.message;
        answer = a;
        if (auto e1 = pc->setOffer(offer); e1.isError()) return "setOffer: " + e1.message;
        if (auto e2 = pc->setAnswer(a); e2.isError()) return "setAnswer: " + e2.message;
        started = true;
        awaitParked(ep);
        return "";
    }
    void close() {
        if (!pc) return;
        if (closeReturned) { pc->close(); return; }
        release(ep);
        pc->close();
        closeReturned = true;
        if (started) SIM_CHECK("C09", final(), "close-not-final", name << ": close() returned in state " << stateName(current()));
    }
    void destroy() { if (!pc) return; release(ep); pc.reset(); closeReturned = true; }
};
inline void DcListener::onDataChannelOpened(const Str& l) { HarnessScope hs; p->alive("data channel open"); p->dc.push_back({'o', l, {}, now()}); }
inline void DcListener::onDataChannelClosed(const Str& l) { HarnessScope hs; p->alive("data channel close"); p->dc.push_back({'c', l, {}, now()}); }
inline void DcListener::onDataChannelReceivedText(const Str& l, const Str& d) { HarnessScope hs; p->alive("text"); p->dc.push_back({'t', l, Bytes(d.begin(), d.end()), now()}); }
inline void DcListener::onDataChannelReceivedBinary(const Str& l, const srtc::ByteBuffer& d) { HarnessScope hs; p->alive("binary"); p->dc.push_back({'b', l, glue::bytes(d), now()}); }

// One path between a connection and a peer, both directions with faults
struct Wire {
    Path toPeer, toPc;
    Addr peerAddr, pcAddr;
    int ep;
    RemotePeer* peer = nullptr;
    Wire(vf::Rng r, int e, const Addr& p, const Addr& c) : peerAddr(p), pcAddr(c), ep(e) {
        toPeer.rng = r.fork(); toPc.rng = r.fork();
        listen(peerAddr, [this](int, const Bytes& b) { toPeer.send(b); });
        toPeer.deliver = [this](const Bytes& b) { if (peer) peer->receive(b); };
        toPc.deliver = [this](const Bytes& b) { inject(b); };
    }
    ~Wire() { unlisten(peerAddr); }
    Wire(const Wire&) = delete;
    void inject(const Bytes& b) { int fd = socketTo(ep, peerAddr); if (fd >= 0) arrive(fd, peerAddr, b); }
    void injectFrom(const Addr& from, const Bytes& b) { int fd = socketTo(ep, peerAddr); if (fd >= 0) arrive(fd, from, b); }
    void attach(RemotePeer& p) { peer = &p; p.addr = peerAddr; p.endpoint = pcAddr; p.out = [this](const Bytes& b) { toPc.send(b); }; }
};
} // namespace sim
