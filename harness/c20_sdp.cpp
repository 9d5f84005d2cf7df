// C20: offers are well formed, answers are honoured exactly or refused.
//   offer   random configurations (valid and not); the text is read by an independent SDP parser
//   answer  answers rendered from a model (shuffled, decorated, with rejected sections, foreign codecs, odd candidates); the
//           parsed answer must equal the model, or be an error when the model is not acceptable
//   mangled the same texts after text-level damage: an error, or an answer every field of which the text states
#include "vf.h"
#include "srtc/media.h"
#include "srtc/peer_connection.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#include "srtc/track.h"
#include "srtc/track_selector.h"
#include "srtc/x509_certificate.h"
#include "srtc/logging.h"
#include <arpa/inet.h>
#include <algorithm>
#include <openssl/x509.h>
#include <openssl/evp.h>

using namespace srtc;
using vf::Rng;
using Str = std::string;

namespace {
struct Lay { Str name; unsigned w, h, fps, kbps; };
struct Cod { Codec c; uint32_t profile, minptime; bool stereo; };
struct Med { Str mid; bool video; std::vector<Cod> codecs; std::vector<Lay> layers; };
struct Cfg { bool publish, rtx = true, bwe = false, rfc8851 = false, act = false; Str cname; std::vector<Str> data; std::vector<Med> media; };

const char* codecName(Codec c) {
    switch (c) { case Codec::VP8: return "VP8"; case Codec::VP9: return "VP9"; case Codec::H264: return "H264"; case Codec::H265: return "H265";
        case Codec::AV1: return "AV1"; case Codec::Opus: return "opus"; default: return "rtx"; }
}
Str lower(Str s) { for (auto& c : s) c = static_cast<char>(tolower(c)); return s; }
bool isTokenChar(char c) { return isalnum(static_cast<unsigned char>(c)) || (c > 0x20 && c < 0x7f && !strchr("\"(),/:;<=>?@[\\]", c)); }
bool isToken(const Str& s) { return !s.empty() && std::all_of(s.begin(), s.end(), isTokenChar); }
std::vector<Str> split(const Str& s, char sep) {
    std::vector<Str> r; Str cur;
    for (char c : s) { if (c == sep) { r.push_back(cur); cur.clear(); } else cur += c; }
    r.push_back(cur);
    return r;
}
bool number(const Str& s, uint64_t& v) {
    if (s.empty() || s.size() > 19) return false;
    v = 0;
    for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + static_cast<unsigned>(c - '0'); }
    return true;
}
Str show(const Str& s) { Str r; for (char c : s) if (c == '\n') r += "\\n\n"; else if (static_cast<unsigned char>(c) < 32) { char b[8]; snprintf(b, 8, "\\x%02x", c & 255); r += b; } else r += c; return r; }

Str token(Rng& r, size_t min, size_t max) {
    static const Str cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
    Str s; size_t n = static_cast<size_t>(r.range(static_cast<int64_t>(min), static_cast<int64_t>(max)));
    while (s.size() < n) s += cs[r.below(cs.size())];
    return s;
}
Cod randomCodec(Rng& r, bool video) {
    if (!video) return {Codec::Opus, 0, r.pickOf<uint32_t>({0, 3, 10, 20, 60}), r.chance(0.5)};
    Codec c = r.pickOf({Codec::VP8, Codec::VP9, Codec::H264, Codec::H265, Codec::AV1, Codec::H264});
    return {c, c == Codec::H264 ? r.pickOf<uint32_t>({0x42001f, 0x42e01f, 0x4d001f, 0x640034, 0x42e028}) : 0, 0, false};
}
// `broken` receives the reason when the configuration must be refused
Cfg randomCfg(Rng& r, bool wantBroken, Str& broken) {
    Cfg c;
    c.publish = r.chance(0.6);
    if (c.publish) { c.rtx = r.chance(0.7); c.bwe = r.chance(0.5); c.rfc8851 = r.chance(0.5); }
    c.act = r.chance(0.3);
    c.cname = r.chance(0.1) ? Str() : token(r, 1, 20);
    unsigned nm = r.chance(0.1) ? 0 : static_cast<unsigned>(r.range(1, 4));
    std::set<Str> used;
    unsigned pts = 0;
    for (unsigned i = 0; i < nm; i++) {
        Med m;
        m.video = r.chance(0.6);
        do m.mid = r.chance(0.6) ? std::to_string(i) : token(r, 1, r.chance(0.1) ? 40 : 8); while (!used.insert(m.mid).second);
        unsigned per = c.rtx ? 2 : 1, left = (32 - pts) / per;
        unsigned n = static_cast<unsigned>(r.range(1, r.chance(0.15) ? 16 : 5));
        n = std::min(n, left);
        if (!n) break;
        for (unsigned k = 0; k < n; k++) m.codecs.push_back(randomCodec(r, m.video));
        pts += n * per;
        if (c.publish && m.video && r.chance(0.5)) {
            unsigned nl = static_cast<unsigned>(r.range(1, 4));
            std::set<Str> names;
            for (unsigned k = 0; k < nl; k++) {
                Lay l;
                do l.name = !names.empty() && r.chance(0.3) ? (r.chance(0.5) ? *names.begin() + token(r, 1, 2) : names.begin()->substr(0, 1 + r.below(names.begin()->size()))) : token(r, 1, 8); while (!names.insert(l.name).second);
                l.w = 320u << k; l.h = 180u << k; l.fps = static_cast<unsigned>(r.pickOf({15, 30, 60})); l.kbps = static_cast<unsigned>(r.range(100, 8000));
                m.layers.push_back(l);
            }
        }
        c.media.push_back(m);
    }
    if (r.chance(0.4) || c.media.empty()) for (int k = 0, n = static_cast<int>(r.range(1, 3)); k < n; k++) c.data.push_back(token(r, 1, 10));
    if (!wantBroken) return c;
    if (c.media.empty()) { broken = "nothing to send"; c.data.clear(); return c; }
    Med& m = c.media[r.below(c.media.size())];
    for (;;) switch (r.below(13)) {
    case 0: broken = "nothing to send"; c.media.clear(); c.data.clear(); return c;
    case 1: broken = "empty media id"; m.mid.clear(); return c;
    case 2: broken = "media without codecs"; m.codecs.clear(); return c;
    case 3: broken = "codec of the wrong type"; m.codecs[r.below(m.codecs.size())] = randomCodec(r, !m.video); return c;
    case 4: broken = "rtx as a codec"; m.codecs[r.below(m.codecs.size())].c = Codec::Rtx; return c;
    case 5: if (c.media.size() < 2) break; broken = "two media with one id"; c.media[1].mid = c.media[0].mid; return c;
    case 6: if (c.data.empty()) break; broken = "media id of the data channel section"; m.mid = "datachannel"; return c;
    case 7: broken = "media id that is no token"; m.mid += r.pickOf<const char*>({" x", "\nm=audio 9", "\r", "\t", ":", "\"", ";"}); return c;
    case 8: broken = "cname with separators"; c.cname += r.pickOf<const char*>({" x", "\na=x", "\r", "\t"}); return c;
    case 9: {
        broken = "more payload types than exist";
        while (pts <= 32) { m.codecs.push_back(randomCodec(r, m.video)); pts += c.rtx ? 2 : 1; }
        for (uint64_t k = r.below(120); k; k--) m.codecs.push_back(randomCodec(r, m.video));
        return c;
    }
    case 10: if (m.layers.size() < 2) break; broken = "two layers with one name"; m.layers[1].name = m.layers[0].name; return c;
    case 11: if (m.layers.empty()) break; broken = "layer name that is no token"; m.layers[r.below(m.layers.size())].name = r.pickOf<const char*>({"", "a b", "a;b", "a,b", "~a", "a\nb"}); return c;
    default: if (m.layers.empty()) break; broken = "more layers than can be signalled"; while (m.layers.size() < 5) m.layers.push_back({"x" + std::to_string(m.layers.size()), 64, 64, 30, 100}); return c;
    }
}
Str show(const Cfg& c) {
    std::ostringstream os;
    os << (c.publish ? "publish" : "subscribe") << (c.rtx ? " rtx" : "") << (c.bwe ? " bwe" : "") << " cname='" << show(c.cname) << "' data=" << c.data.size();
    for (auto& m : c.media) {
        os << " [" << show(m.mid) << (m.video ? " video" : " audio");
        for (auto& k : m.codecs) os << " " << codecName(k.c);
        for (auto& l : m.layers) os << " layer:" << show(l.name);
        os << "]";
    }
    return os.str();
}

struct Err { bool bad = false; Str message; bool isError() const { return bad; } bool isOk() const { return !bad; } };
struct World { std::shared_ptr<PeerConnection> pc; std::shared_ptr<SdpOffer> offer; Str text; Err err; };
World makeOffer(const Cfg& c) {
    World w;
    w.pc = std::make_shared<PeerConnection>(c.publish ? Direction::Publish : Direction::Subscribe);
    auto set = [&](const std::pair<std::shared_ptr<SdpOffer>, Error>& r) { w.offer = r.first; w.err = {r.second.isError(), r.second.message}; };
    if (c.publish) {
        PubOfferConfig o; o.cname = c.cname; o.enable_rtx = c.rtx; o.enable_bwe = c.bwe; o.enable_rfc8851 = c.rfc8851; o.enable_abs_capture_time = c.act;
        o.data_channel_config.data_channels = c.data;
        PubMediaConfig mc;
        for (auto& m : c.media) {
            PubMediaItem it; it.media_id = m.mid; it.media_type = m.video ? MediaType::Video : MediaType::Audio;
            for (auto& k : m.codecs) { PubCodec pc; pc.codec = k.c; pc.profile_level_id = k.profile; pc.minptime = k.minptime; pc.stereo = k.stereo; it.codec_list.push_back(pc); }
            for (auto& l : m.layers) it.layer_list.push_back({l.name, static_cast<uint16_t>(l.w), static_cast<uint16_t>(l.h), static_cast<uint16_t>(l.fps), l.kbps});
            mc.media_list.push_back(it);
        }
        set(w.pc->createPublishOffer(o, mc));
    } else {
        SubOfferConfig o; o.cname = c.cname; o.enable_abs_capture_time = c.act; o.data_channel_config.data_channels = c.data;
        SubMediaConfig mc;
        for (auto& m : c.media) {
            SubMediaItem it; it.media_id = m.mid; it.media_type = m.video ? MediaType::Video : MediaType::Audio;
            for (auto& k : m.codecs) { SubCodec pc; pc.codec = k.c; pc.profile_level_id = k.profile; pc.minptime = k.minptime; pc.stereo = k.stereo; it.codec_list.push_back(pc); }
            mc.media_list.push_back(it);
        }
        set(w.pc->createSubscribeOffer(o, mc));
    }
    if (w.err.isError()) return w;
    VF_CHECK(w.offer, "offer-null", "no error and no offer");
    auto [text, err] = w.offer->generate();
    w.text = text; w.err = {err.isError(), err.message};
    return w;
}

// ---------------------------------------------------------------- independent reading of an offer
struct Sec { Str m; std::vector<Str> a; };
struct Sdp { std::vector<Str> session; std::vector<Sec> secs; };
struct OPay { unsigned pt; Str codec; unsigned rtxPt = 0; };
struct OMed { std::vector<OPay> pay; uint32_t ssrc = 0, rtx = 0; std::map<Str, std::pair<uint32_t, uint32_t>> lay; };

Sdp readSdp(const Str& text) {
    Sdp s;
    VF_CHECK(!text.empty() && text.back() == '\n', "offer-syntax", "the last line is not terminated");
    Str order;
    for (auto l : split(text.substr(0, text.size() - 1), '\n')) {
        if (!l.empty() && l.back() == '\r') l.pop_back();
        VF_CHECK(l.size() >= 3 && islower(l[0]) && l[1] == '=', "offer-syntax", "line '" << show(l) << "' is not <type>=<value>");
        for (char c : l) VF_CHECK(c >= 0x20 && c < 0x7f, "offer-syntax", "line '" << show(l) << "' has a control character");
        VF_CHECK(l.back() != ' ' && l.find("  ") == Str::npos, "offer-syntax", "line '" << l << "' has an empty field");
        if (l[0] == 'm') { s.secs.push_back({l.substr(2), {}}); order = "m"; continue; }
        if (s.secs.empty()) {
            // v= o= s= t= a=*
            if (l[0] != 'a' || order.empty() || order.back() != 'a') order += l[0];
            s.session.push_back(l);
            VF_CHECK(Str("vosta").rfind(order, 0) == 0, "offer-syntax", "session lines in the order " << order);
        } else {
            if (l[0] != 'a' || order.back() != 'a') order += l[0];
            VF_CHECK(Str("mca").rfind(order, 0) == 0, "offer-syntax", "media lines in the order " << order);
            if (l[0] == 'a') s.secs.back().a.push_back(l.substr(2));
        }
    }
    VF_CHECK(s.session.size() >= 4, "offer-syntax", "session description too short");
    return s;
}
std::vector<Str> attrs(const Sec& s, const Str& name) {
    std::vector<Str> r;
    for (auto& l : s.a) {
        if (l == name) r.push_back("");
        else if (l.rfind(name + ":", 0) == 0) r.push_back(l.substr(name.size() + 1));
    }
    return r;
}
Str one(const Sec& s, const Str& name) {
    auto v = attrs(s, name);
    VF_CHECK(v.size() == 1, "offer-attribute", "section '" << s.m << "' has " << v.size() << " a=" << name << " lines");
    return v[0];
}
Str fingerprintOf(const std::shared_ptr<SdpOffer>& o) {
    uint8_t d[32]; unsigned n = 0;
    X509_digest(o->getCertificate()->getCertificate(), EVP_sha256(), d, &n);
    Str r; char b[4];
    for (unsigned i = 0; i < n; i++) { snprintf(b, 4, "%02x", d[i]); if (i) r += ":"; r += b; }
    return r;
}

std::vector<OMed> checkOffer(const Cfg& c, const World& w) {
    Sdp s = readSdp(w.text);
    bool data = !c.data.empty();
    VF_CHECK(s.session[0] == "v=0", "offer-syntax", "starts with " << s.session[0]);
    { auto o = split(s.session[1].substr(2), ' '); uint64_t v; VF_CHECK(o.size() == 6 && number(o[1], v) && number(o[2], v) && o[3] == "IN" && o[4] == "IP4", "offer-syntax", "origin " << s.session[1]); }
    VF_CHECK(s.session[3] == "t=0 0", "offer-syntax", s.session[3]);
    VF_CHECK(s.secs.size() == c.media.size() + data, "offer-sections", s.secs.size() << " sections for " << c.media.size() << " media and " << (data ? "data channels" : "no data channels"));
    std::vector<Str> bundle;
    for (auto& l : s.session) if (l.rfind("a=group:BUNDLE", 0) == 0) { VF_CHECK(bundle.empty(), "offer-bundle", "two groups"); bundle = split(l, ' '); bundle.erase(bundle.begin()); }
    std::vector<Str> mids;
    for (auto& x : s.secs) mids.push_back(one(x, "mid"));
    if (s.secs.size() > 1) VF_CHECK(bundle == mids, "offer-bundle", "the group does not list the sections");
    VF_CHECK(std::set<Str>(mids.begin(), mids.end()).size() == mids.size(), "offer-mid", "media ids repeat");
    std::set<uint64_t> allPt, allSsrc;
    std::map<uint64_t, Str> exts;
    std::vector<OMed> out;
    for (size_t i = 0; i < s.secs.size(); i++) {
        const Sec& x = s.secs[i];
        VF_CHECK(lower(one(x, "fingerprint")) == "sha-256 " + fingerprintOf(w.offer), "offer-fingerprint", one(x, "fingerprint") << " is not the certificate's");
        Str u = one(x, "ice-ufrag"), p = one(x, "ice-pwd");
        VF_CHECK(u == w.offer->getIceUFrag() && p == w.offer->getIcePassword(), "offer-credentials", "not the endpoint's credentials");
        VF_CHECK(u.size() >= 4 && p.size() >= 22, "offer-credentials", "credentials too short");
        for (char ch : u + p) VF_CHECK(isalnum(static_cast<unsigned char>(ch)) || ch == '+' || ch == '/', "offer-credentials", "not an ice-char");
        VF_CHECK(one(x, "setup") == "actpass", "offer-setup", one(x, "setup"));
        auto mf = split(x.m, ' ');
        if (i == c.media.size()) {
            VF_CHECK(x.m == "application 9 UDP/DTLS/SCTP webrtc-datachannel", "offer-section", x.m);
            VF_CHECK(one(x, "sctp-port") == std::to_string(w.offer->getSctpPort()) && one(x, "max-message-size") == std::to_string(w.offer->getSctpMaxMessageSize()), "offer-sctp", "port or size");
            continue;
        }
        const Med& m = c.media[i];
        OMed om;
        VF_CHECK(mids[i] == m.mid, "offer-mid", mids[i] << " for " << m.mid);
        VF_CHECK(mf.size() >= 4 && mf[0] == (m.video ? "video" : "audio") && mf[2] == "UDP/TLS/RTP/SAVPF", "offer-section", x.m);
        VF_CHECK(attrs(x, c.publish ? "sendonly" : "recvonly").size() == 1 && attrs(x, c.publish ? "recvonly" : "sendonly").empty(), "offer-direction", "direction attribute");
        VF_CHECK(attrs(x, "rtcp-mux").size() == 1, "offer-attribute", "rtcp-mux");
        std::vector<uint64_t> pts;
        for (size_t k = 3; k < mf.size(); k++) {
            uint64_t v;
            VF_CHECK(number(mf[k], v) && v >= 96 && v <= 127, "offer-payload-type", mf[k] << " is no dynamic payload type");
            VF_CHECK(allPt.insert(v).second, "offer-payload-type", v << " is used twice");
            pts.push_back(v);
        }
        std::map<uint64_t, Str> maps, fmtp;
        for (auto& l : attrs(x, "rtpmap")) { auto f = split(l, ' '); uint64_t v; VF_CHECK(f.size() == 2 && number(f[0], v) && maps.emplace(v, f[1]).second, "offer-rtpmap", l); }
        for (auto& l : attrs(x, "fmtp")) { auto f = split(l, ' '); uint64_t v; VF_CHECK(f.size() == 2 && number(f[0], v) && fmtp.emplace(v, f[1]).second, "offer-fmtp", l); VF_CHECK(maps.count(v), "offer-fmtp", l << " describes nothing"); }
        std::map<uint64_t, std::set<Str>> fb;
        for (auto& l : attrs(x, "rtcp-fb")) { auto sp = l.find(' '); uint64_t v; VF_CHECK(sp != Str::npos && number(l.substr(0, sp), v) && maps.count(v), "offer-rtcp-fb", l); fb[v].insert(l.substr(sp + 1)); }
        VF_CHECK(maps.size() == pts.size(), "offer-rtpmap", maps.size() << " rtpmap lines for " << pts.size() << " payload types");
        std::map<uint64_t, uint64_t> apt;
        for (auto pt : pts) {
            VF_CHECK(maps.count(pt), "offer-rtpmap", "nothing describes " << pt);
            if (maps[pt].rfind("rtx/", 0) == 0) {
                uint64_t a;
                VF_CHECK(c.rtx, "offer-rtx", "rtx though disabled");
                VF_CHECK(fmtp[pt].rfind("apt=", 0) == 0 && number(fmtp[pt].substr(4), a) && std::count(pts.begin(), pts.end(), a), "offer-rtx", "rtx for " << fmtp[pt]);
                VF_CHECK(apt.emplace(a, pt).second, "offer-rtx", "two rtx for " << a);
                VF_CHECK(split(maps[pt], '/')[1] == split(maps[a], '/')[1], "offer-rtx-clock", maps[pt] << " repairs " << maps[a]);
            } else {
                size_t k = om.pay.size();
                VF_CHECK(k < m.codecs.size(), "offer-codecs", "more codecs than configured");
                const Cod& cd = m.codecs[k];
                Str want = Str(codecName(cd.c)) + (m.video ? "/90000" : "/48000/2");
                VF_CHECK(maps[pt] == want, "offer-codecs", maps[pt] << " instead of " << want);
                om.pay.push_back({static_cast<unsigned>(pt), codecName(cd.c), 0});
                if (cd.c == Codec::H264) {
                    char b[16]; snprintf(b, 16, "%06x", cd.profile);
                    auto f = split(fmtp[pt], ';');
                    VF_CHECK(std::count(f.begin(), f.end(), Str("profile-level-id=") + b) && std::count(f.begin(), f.end(), "packetization-mode=1"), "offer-fmtp", fmtp[pt]);
                } else if (cd.c == Codec::Opus) {
                    auto f = split(fmtp[pt], ';');
                    VF_CHECK(std::count(f.begin(), f.end(), "minptime=" + std::to_string(cd.minptime)) && std::count(f.begin(), f.end(), Str("stereo=") + (cd.stereo ? "1" : "0")), "offer-fmtp", fmtp[pt]);
                }
                VF_CHECK(fb[pt].count("nack") && (!m.video || fb[pt].count("nack pli")), "offer-rtcp-fb", "no feedback for " << pt);
            }
        }
        VF_CHECK(om.pay.size() == m.codecs.size(), "offer-codecs", om.pay.size() << " codecs of " << m.codecs.size());
        for (auto& o : om.pay) { VF_CHECK(apt.count(o.pt) == (c.rtx ? 1u : 0u), "offer-rtx", "rtx for " << o.pt); if (c.rtx) o.rtxPt = static_cast<unsigned>(apt[o.pt]); }
        std::set<uint64_t> ids;
        bool twcc = false, rid = false, midExt = false, rrid = false;
        for (auto& l : attrs(x, "extmap")) {
            auto f = split(l, ' '); uint64_t v;
            VF_CHECK(f.size() == 2 && number(f[0], v) && v >= 1 && v <= 14 && ids.insert(v).second, "offer-extmap", l);
            VF_CHECK(exts.emplace(v, f[1]).first->second == f[1], "offer-extmap", "id " << v << " means two things");
            twcc |= f[1].find("transport-wide-cc") != Str::npos;
            rid |= f[1] == "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id";
            rrid |= f[1] == "urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id";
            midExt |= f[1] == "urn:ietf:params:rtp-hdrext:sdes:mid";
        }
        VF_CHECK(twcc == (!c.publish || c.bwe), "offer-extmap", "transport-wide feedback " << (twcc ? "offered" : "not offered"));
        // SSRCs
        std::map<uint64_t, Str> cn;
        std::vector<uint64_t> inOrder;
        for (auto& l : attrs(x, "ssrc")) {
            auto sp = l.find(' '); uint64_t v;
            VF_CHECK(sp != Str::npos && number(l.substr(0, sp), v) && v > 0 && v <= UINT32_MAX, "offer-ssrc", l);
            Str rest = l.substr(sp + 1);
            if (rest.rfind("cname:", 0) == 0) {
                VF_CHECK(rest.size() > 6 && (c.cname.empty() || rest.substr(6) == c.cname), "offer-cname", l);
                VF_CHECK(cn.emplace(v, rest.substr(6)).second, "offer-ssrc", l << " twice");
                inOrder.push_back(v);
                VF_CHECK(allSsrc.insert(v).second, "offer-ssrc-unique", v << " twice");
            } else VF_CHECK(rest.rfind("msid:", 0) == 0 && cn.count(v) && split(rest, ' ').size() == 2 && split(rest, ' ')[0].size() > 5, "offer-ssrc", l);
        }
        std::vector<std::pair<uint64_t, uint64_t>> fid;
        for (auto& l : attrs(x, "ssrc-group")) { auto f = split(l, ' '); uint64_t a, b; VF_CHECK(f.size() == 3 && f[0] == "FID" && number(f[1], a) && number(f[2], b) && cn.count(a) && cn.count(b), "offer-ssrc", l); fid.push_back({a, b}); }
        size_t streams = std::max<size_t>(1, m.layers.size());
        VF_CHECK(cn.size() == streams * (c.rtx ? 2 : 1), "offer-ssrc", cn.size() << " SSRCs for " << streams << " streams");
        VF_CHECK(fid.size() == (c.rtx ? streams : 0), "offer-ssrc", fid.size() << " FID groups");
        std::vector<uint64_t> base;
        for (auto v : inOrder) if (std::none_of(fid.begin(), fid.end(), [v](auto& f) { return f.second == v; })) base.push_back(v);
        VF_CHECK(base.size() == streams, "offer-ssrc", "FID groups overlap");
        auto rtxOf = [&](uint64_t v) { for (auto& f : fid) if (f.first == v) return static_cast<uint32_t>(f.second); return 0u; };
        if (m.layers.empty()) {
            om.ssrc = static_cast<uint32_t>(base[0]); om.rtx = rtxOf(base[0]);
            VF_CHECK(attrs(x, "simulcast").empty() && attrs(x, "rid").empty(), "offer-simulcast", "simulcast lines without layers");
        } else {
            VF_CHECK(midExt && rid && (rrid == c.rtx), "offer-extmap", "simulcast without its identification extensions");
            Str want = "send ";
            auto rids = attrs(x, "rid");
            VF_CHECK(rids.size() == m.layers.size(), "offer-simulcast", "rid lines");
            for (size_t k = 0; k < m.layers.size(); k++) {
                const Lay& l = m.layers[k];
                want += (k ? ";" : "") + l.name;
                Str r = l.name + " send";
                VF_CHECK(rids[k].rfind(r, 0) == 0 && (rids[k].size() > r.size()) == c.rfc8851, "offer-simulcast", rids[k]);
                if (c.rfc8851) {
                    auto f = split(rids[k].substr(r.size() + 1), ';');
                    for (auto& q : {"max-width=" + std::to_string(l.w), "max-height=" + std::to_string(l.h), "max-fps=" + std::to_string(l.fps)}) VF_CHECK(std::count(f.begin(), f.end(), q), "offer-simulcast", rids[k] << " lacks " << q);
                }
                om.lay[l.name] = {static_cast<uint32_t>(base[k]), rtxOf(base[k])};
                auto got = w.offer->getVideoSimulastSSRC(m.mid, l.name);
                VF_CHECK(got == om.lay[l.name], "offer-ssrc", "the offer says other SSRCs than the endpoint uses for layer " << l.name);
            }
            om.ssrc = static_cast<uint32_t>(base[0]); om.rtx = rtxOf(base[0]);
            VF_CHECK(one(x, "simulcast") == want, "offer-simulcast", one(x, "simulcast"));
        }
        auto got = w.offer->getMediaSSRC(m.mid);
        if (m.layers.empty()) VF_CHECK(got.first == om.ssrc && got.second == om.rtx, "offer-ssrc", "the offer says other SSRCs than the endpoint uses");
        out.push_back(om);
    }
    vf::count("offers_checked");
    return out;
}

void offerCase(Rng& r, int64_t) {
    Str broken;
    Cfg c = randomCfg(r, r.chance(0.35), broken);
    vf::note(show(c));
    auto w = makeOffer(c);
    if (!broken.empty()) {
        VF_CHECK(w.err.isError(), "offer-accepts-invalid", broken << " is accepted: " << show(w.text));
        vf::count("configurations_refused");
        vf::sig("refused " + broken + std::to_string(c.media.size()));
        return;
    }
    VF_CHECK(w.err.isOk(), "offer-refuses-valid", w.err.message);
    checkOffer(c, w);
    auto [again, err] = w.offer->generate();
    VF_CHECK(err.isOk() && again == w.text, "offer-unstable", "generating the offer again changes it: " << show(again));
    auto w2 = makeOffer(c);
    VF_CHECK(w2.err.isOk() && w2.offer->getIcePassword() != w.offer->getIcePassword() && w2.offer->getIceUFrag() != w.offer->getIceUFrag(), "offer-credentials", "two connections share credentials");
    Str shape;
    for (auto& m : c.media) { shape += m.video ? 'v' : 'a'; shape += std::to_string(m.codecs.size()) + "," + std::to_string(m.layers.size()) + ";"; }
    vf::sig(shape + std::to_string(c.publish) + std::to_string(c.rtx) + std::to_string(c.bwe) + std::to_string(!c.data.empty()));
}

// ---------------------------------------------------------------- answers
struct XTrack {
    Str mid, layer; bool video; Codec codec; unsigned pt, rtxPt; uint32_t ssrc, rtxSsrc, clock; bool nack, pli; uint32_t profile = 0, minptime = 0; bool stereo = false;
    unsigned layerIndex = 0; Lay lay{};
    Str str() const {
        std::ostringstream os;
        os << mid << (video ? "/video " : "/audio ") << codecName(codec) << " pt " << pt << " rtx " << rtxPt << " ssrc " << ssrc << "/" << rtxSsrc << " clock " << clock << (nack ? " nack" : "") << (pli ? " pli" : "")
           << " opt " << std::hex << profile << std::dec << "," << minptime << "," << stereo;
        if (!layer.empty()) os << " layer " << layer << "#" << layerIndex << " " << lay.w << "x" << lay.h << "@" << lay.fps << " " << lay.kbps;
        return os.str();
    }
};
struct Expect {
    bool ok = true; Str why;
    Str ufrag, pwd; std::vector<uint8_t> hash; bool active = false, data = false; unsigned port = 5000; uint64_t maxMsg = 65536; bool maxKnown = true;
    std::vector<Str> hosts; std::vector<XTrack> tracks;
};
Str hostStr(const Host& h) {
    char b[INET6_ADDRSTRLEN] = {};
    if (h.addr.ss.ss_family == AF_INET) { inet_ntop(AF_INET, &h.addr.sin_ipv4.sin_addr, b, sizeof b); return Str(b) + " " + std::to_string(ntohs(h.addr.sin_ipv4.sin_port)); }
    inet_ntop(AF_INET6, &h.addr.sin_ipv6.sin6_addr, b, sizeof b);
    return Str(b) + " " + std::to_string(ntohs(h.addr.sin_ipv6.sin6_port));
}
XTrack got(const std::shared_ptr<Track>& t) {
    // without a retransmission payload type the retransmission SSRC is not used
    XTrack x{t->getMedia()->getId(), "", t->getMediaType() == MediaType::Video, t->getCodec(), t->getPayloadId(), t->getRtxPayloadId(), t->getSSRC(), t->getRtxPayloadId() ? t->getRtxSSRC() : 0, t->getClockRate(), t->hasNack(), t->hasPli()};
    if (auto o = t->getCodecOptions()) { x.profile = o->profileLevelId; x.minptime = o->minptime; x.stereo = o->stereo; }
    if (t->isSimulcast()) { auto l = t->getSimulcastLayer(); x.layer = l->name; x.layerIndex = l->index; x.lay = {l->name, l->width, l->height, l->frames_per_second, l->kilobits_per_second}; }
    return x;
}
struct Text { Str s; Expect e; std::shared_ptr<TrackSelector> sel; };

Str icechars(Rng& r, size_t n) { static const Str cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/"; Str s; while (s.size() < n) s += cs[r.below(64)]; return s; }

// One answer to the offer, with what it means
Text makeAnswer(Rng& r, const Cfg& c, const std::vector<OMed>& om, bool allowWrong) {
    Text t; Expect& e = t.e;
    Str wrong; // one deliberate mistake
    if (allowWrong && r.chance(0.35))
        wrong = r.pickOf<const char*>({"no-ufrag", "no-pwd", "no-fingerprint", "bad-fingerprint", "sha1-only", "no-hosts", "no-mux", "bad-profile", "unknown-mid", "no-mid", "wrong-type", "dup-mid", "foreign-codecs", "no-ssrc", "all-rejected", "static-only"});
    e.ufrag = icechars(r, static_cast<size_t>(r.range(4, 32))); e.pwd = icechars(r, static_cast<size_t>(r.range(22, 60)));
    e.hash = r.bytes(32); e.active = r.chance(0.5);
    Str fp; for (size_t i = 0; i < 32; i++) { char b[4]; snprintf(b, 4, r.chance(0.5) ? "%02X" : "%02x", e.hash[i]); fp += (i ? ":" : "") + Str(b); }
    bool upperAlg = r.chance(0.1), session = r.chance(0.3), mixedCase = r.chance(0.2), shuffle = r.chance(0.3), spacedFmtp = r.chance(0.3);
    auto fail = [&](const Str& w) { if (e.ok) { e.ok = false; e.why = w; } };
    std::vector<Str> cred;
    if (wrong == "no-ufrag") fail("no ice-ufrag"); else cred.push_back("ice-ufrag:" + e.ufrag);
    if (wrong == "no-pwd") fail("no ice-pwd"); else cred.push_back("ice-pwd:" + e.pwd);
    if (wrong == "bad-fingerprint") { fp = r.pickOf<Str>({fp.substr(0, fp.size() - 3), fp + ":00", "", "zz" + fp.substr(2)}); fail("a fingerprint that is no SHA-256"); }
    if (wrong == "no-fingerprint") fail("no fingerprint");
    else if (wrong == "sha1-only") { cred.push_back("fingerprint:sha-1 00:01:02:03:04:05:06:07:08:09:0A:0B:0C:0D:0E:0F:10:11:12:13"); fail("no SHA-256 fingerprint"); }
    else {
        std::vector<Str> f{Str("fingerprint:") + (upperAlg ? "SHA-256 " : "sha-256 ") + fp};
        if (r.chance(0.15)) f.insert(f.begin() + static_cast<long>(r.below(2)), "fingerprint:sha-512 " + fp + ":" + fp);
        cred.insert(cred.end(), f.begin(), f.end());
    }
    cred.push_back(Str("setup:") + (e.active ? "active" : "passive"));
    std::vector<Str> cands;
    bool anyHost = false;
    {
        unsigned n = static_cast<unsigned>(r.range(1, 6));
        std::set<Str> seen;
        for (unsigned i = 0; i < n; i++) {
            bool v6 = r.chance(0.4), good = true;
            Str addr;
            if (v6) {
                in6_addr a; auto b = r.bytes(16); memcpy(&a, b.data(), 16);
                if (r.chance(0.3)) memset(reinterpret_cast<uint8_t*>(&a) + 4, 0, 8);
                if (r.chance(0.15)) { memset(&a, 0, 10); memset(reinterpret_cast<uint8_t*>(&a) + 10, 0xff, 2); }
                char s[64]; inet_ntop(AF_INET6, &a, s, sizeof s); addr = s;
            } else { auto b = r.bytes(4); b[0] = static_cast<uint8_t>(1 + b[0] % 220); for (int k = 0; k < 4; k++) addr += (k ? "." : "") + std::to_string(b[static_cast<size_t>(k)]); }
            if (!e.hosts.empty() && r.chance(0.2)) addr = split(r.pick(e.hosts), ' ')[0]; // another port of the same address
            Str port = std::to_string(r.range(1, 65535)), comp = "1", proto = r.chance(0.15) ? "UDP" : "udp", typ = "host";
            if (r.chance(0.1)) port = r.pickOf<const char*>({"1", "65535"});
            if (r.chance(0.3)) {
                good = false;
                switch (r.below(6)) {
                case 0: port = r.pickOf<const char*>({"0", "65536", "65537", "4294967297", "18446744073709551617", "-1", "+80", "", "80x", "99999999999999999999999"}); if (port.empty()) port = "0x50"; break;
                case 1: proto = "tcp"; break;
                case 2: comp = "2"; break;
                case 3: addr = r.pickOf<const char*>({"1.2.3", "300.1.1.1", "host.example.org", "1:2:3", ":::1", "1.2.3.4.5", "x"}); break;
                case 4: typ = "relay"; break;
                default: typ = "srflx"; break;
                }
            }
            Str l = "candidate:" + std::to_string(r.below(1u << 31)) + " " + comp + " " + proto + " " + std::to_string(r.below(1u << 31)) + " " + addr + " " + port + " typ " + typ;
            if (typ == "srflx" || typ == "relay") l += " raddr 10.0.0.1 rport 9";
            if (r.chance(0.3)) l += " generation 0 network-cost 50";
            if (wrong == "no-hosts") { if (good) continue; }
            cands.push_back(l);
            if (good) { anyHost = true; if (seen.insert(addr + " " + port).second) e.hosts.push_back(addr + " " + port); if (r.chance(0.2)) cands.push_back(l); }
        }
        if (!anyHost) fail("no usable candidate");
    }
    std::vector<std::vector<Str>> secs; // m= line first
    std::vector<size_t> order;
    bool anyMedia = false, muxNeeded = false;
    std::set<Str> midsUsed;
    for (size_t i = 0; i < c.media.size(); i++) {
        const Med& m = c.media[i];
        bool reject = (wrong == "all-rejected") || r.chance(0.15);
        std::vector<Str> a;
        Str mid = m.mid;
        bool video = m.video;
        if (wrong == "unknown-mid" && i == 0) { mid += "x"; while (std::any_of(c.media.begin(), c.media.end(), [&](auto& q) { return q.mid == mid; })) mid += "x"; reject = false; fail("a media id that was not offered"); }
        if (wrong == "wrong-type" && i == 0) { video = !video; reject = false; fail("an audio section answered with video"); }
        if (wrong == "no-mid" && i == 0) { reject = false; fail("a section without media id"); }
        struct P { unsigned pt; Codec codec; bool offered; unsigned rtx; uint32_t profile, minptime; bool stereo, nack, pli; uint32_t clock; bool haveMap; };
        std::vector<P> pays;
        bool foreignOnly = wrong == "foreign-codecs" && i == 0, staticOnly = wrong == "static-only" && i == 0;
        if (foreignOnly || staticOnly) reject = false;
        for (size_t k = 0; k < om[i].pay.size() && !foreignOnly && !staticOnly; k++) {
            if (!r.chance(0.7) && !(pays.empty() && k + 1 == om[i].pay.size())) continue;
            const Cod& cd = m.codecs[k];
            P p{om[i].pay[k].pt, cd.c, true, om[i].pay[k].rtxPt && r.chance(0.8) ? om[i].pay[k].rtxPt : 0, 0, 0, false, r.chance(0.7), m.video && r.chance(0.7), m.video ? 90000u : 48000u, true};
            if (cd.c == Codec::H264) p.profile = r.chance(0.8) ? r.pickOf<uint32_t>({0x42e01f, 0x42001f, 0x64001f, cd.profile}) : 0;
            if (cd.c == Codec::Opus && r.chance(0.8)) { p.minptime = r.pickOf<uint32_t>({10, 20}); p.stereo = r.chance(0.5); }
            pays.push_back(p);
        }
        std::set<Codec> have;
        for (auto& k : m.codecs) have.insert(k.c);
        std::vector<Codec> foreign;
        for (Codec k : {Codec::VP8, Codec::VP9, Codec::H264, Codec::H265, Codec::AV1, Codec::Opus}) if (!have.count(k)) foreign.push_back(k);
        if ((foreignOnly || r.chance(0.15)) && !foreign.empty()) {
            // a codec nobody offered, under a payload type the section did not use
            std::set<unsigned> usedPt; for (auto& q : om[i].pay) { usedPt.insert(q.pt); usedPt.insert(q.rtxPt); }
            std::vector<unsigned> fr; for (unsigned q = 96; q < 128; q++) if (!usedPt.count(q)) fr.push_back(q);
            if (!fr.empty()) {
                Codec fc = r.pick(foreign);
                P p{fr[r.below(fr.size())], fc, false, 0, fc == Codec::H264 ? 0x640034u : 0u, 0, false, true, true, 90000, true};
                pays.insert(pays.begin() + static_cast<long>(r.below(pays.size() + 1)), p);
            }
        }
        bool usable = std::any_of(pays.begin(), pays.end(), [](auto& p) { return p.offered; });
        if (r.chance(0.2)) std::reverse(pays.begin(), pays.end());
        Str mline = Str(video ? "video " : "audio ") + (reject ? "0" : r.chance(0.8) ? "9" : std::to_string(r.range(1, 65535))) + " " + (wrong == "bad-profile" && i == 0 && !reject ? "RTP/AVP" : "UDP/TLS/RTP/SAVPF");
        if (wrong == "bad-profile" && i == 0 && !reject) fail("a section that is not SAVPF over DTLS");
        std::vector<Str> maps, rest;
        for (auto& p : pays) {
            mline += " " + std::to_string(p.pt);
            Str nm = codecName(p.codec);
            if (mixedCase) for (auto& ch : nm) ch = static_cast<char>(r.chance(0.5) ? toupper(ch) : tolower(ch));
            maps.push_back("rtpmap:" + std::to_string(p.pt) + " " + nm + "/" + std::to_string(p.clock) + (p.codec == Codec::Opus ? "/2" : ""));
            Str f;
            auto add = [&](const Str& q) { f += (f.empty() ? "" : spacedFmtp ? "; " : ";") + q; };
            if (p.profile) { char b[16]; snprintf(b, 16, r.chance(0.5) ? "%06x" : "%06X", p.profile); add("level-asymmetry-allowed=1"); add("packetization-mode=1"); add(Str("profile-level-id=") + b); }
            if (p.minptime || p.stereo) { add("minptime=" + std::to_string(p.minptime)); add("useinbandfec=1"); add(Str("stereo=") + (p.stereo ? "1" : "0")); }
            if (!f.empty()) rest.push_back("fmtp:" + std::to_string(p.pt) + " " + f);
            if (p.nack) rest.push_back("rtcp-fb:" + std::to_string(p.pt) + " nack");
            if (p.pli) rest.push_back("rtcp-fb:" + std::to_string(p.pt) + " nack pli");
            if (r.chance(0.3)) rest.push_back("rtcp-fb:" + std::to_string(p.pt) + " " + r.pickOf<const char*>({"goog-remb", "transport-cc", "ccm fir", "ack rpsi"}));
            if (p.rtx) {
                mline += " " + std::to_string(p.rtx);
                maps.push_back("rtpmap:" + std::to_string(p.rtx) + " rtx/" + std::to_string(p.clock));
                rest.push_back("fmtp:" + std::to_string(p.rtx) + " apt=" + std::to_string(p.pt) + (r.chance(0.2) ? ";rtx-time=3000" : ""));
            }
        }
        if (r.chance(0.2) || pays.empty()) { mline += video ? " 34" : " 0 8"; maps.push_back(video ? "rtpmap:34 H263/90000" : "rtpmap:0 PCMU/8000"); }
        // SSRCs (the sender's, i.e. ours to receive)
        uint32_t ssrc = 0, rtxSsrc = 0;
        std::vector<Str> ss;
        if (!c.publish && !(wrong == "no-ssrc" && i == 0)) {
            ssrc = static_cast<uint32_t>(r.range(1, UINT32_MAX)); 
            bool grp = r.chance(0.7);
            ss.push_back("ssrc:" + std::to_string(ssrc) + " cname:abc");
            if (grp) {
                do rtxSsrc = static_cast<uint32_t>(r.range(1, UINT32_MAX)); while (rtxSsrc == ssrc);
                ss.push_back("ssrc:" + std::to_string(rtxSsrc) + " cname:abc");
                ss.insert(ss.begin() + static_cast<long>(r.below(3)), "ssrc-group:FID " + std::to_string(ssrc) + " " + std::to_string(rtxSsrc));
            }
        }
        if (wrong == "no-ssrc" && i == 0 && !c.publish && !reject) fail("a stream without SSRC");
        // simulcast
        std::vector<Str> chosen, sim;
        if (!m.layers.empty() && r.chance(0.8)) {
            for (auto& l : m.layers) if (r.chance(0.75)) chosen.push_back(l.name);
            if (r.chance(0.2)) std::reverse(chosen.begin(), chosen.end());
            if (!chosen.empty()) {
                Str s = "simulcast:recv ";
                auto listed = chosen;
                if (r.chance(0.1)) listed.push_back(chosen[0]);
                if (r.chance(0.1)) listed.insert(listed.begin(), "unknown" + token(r, 8, 8));
                for (size_t k = 0; k < listed.size(); k++) { s += (k ? ";" : "") + listed[k]; }
                for (auto& n : chosen) sim.push_back("rid:" + n + " recv");
                sim.push_back(s);
            }
        }
        // assemble
        std::vector<Str> body;
        body.insert(body.end(), maps.begin(), maps.end());
        body.insert(body.end(), rest.begin(), rest.end());
        body.insert(body.end(), ss.begin(), ss.end());
        body.insert(body.end(), sim.begin(), sim.end());
        std::vector<Str> head;
        if (wrong != "no-mid" || i != 0) head.push_back("mid:" + mid);
        if (wrong != "no-mux") head.push_back("rtcp-mux");
        head.push_back(c.publish ? "recvonly" : "sendonly");
        if (r.chance(0.3)) head.push_back("extmap:14 http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01");
        if (r.chance(0.3)) head.push_back("rtcp-rsize");
        if (r.chance(0.3)) head.push_back("x-vendor:some thing=else : ; ");
        if (!session) head.insert(head.begin(), cred.begin(), cred.end());
        head.insert(head.end(), body.begin(), body.end());
        if (shuffle) {
            std::vector<Str> sh;
            // keep the order of the lines whose order means something
            for (auto& l : head) sh.insert(sh.begin() + static_cast<long>(l.rfind("ssrc", 0) == 0 || l.rfind("fingerprint", 0) == 0 ? sh.size() : r.below(sh.size() + 1)), l);
            head = sh;
        }
        a.push_back(mline);
        a.insert(a.end(), head.begin(), head.end());
        secs.push_back(a);
        if (wrong == "dup-mid" && i == 0 && !reject) { secs.push_back(a); fail("two sections with one media id"); }
        if (reject) continue;
        anyMedia = true; muxNeeded = true;
        if (!usable) fail("no codec that was offered");
        if (!e.ok) continue;
        // which codec
        const P* sel = nullptr;
        for (auto& p : pays) if (p.offered) {
            if (!sel) { sel = &p; continue; }
            if (t.sel && m.video && (p.codec > sel->codec || (p.codec == sel->codec && p.profile > sel->profile))) sel = &p;
        }
        XTrack x{m.mid, "", m.video, sel->codec, sel->pt, sel->rtx, c.publish ? om[i].ssrc : ssrc, sel->rtx ? (c.publish ? om[i].rtx : rtxSsrc) : 0, sel->clock, sel->nack, sel->pli};
        x.profile = sel->profile; x.minptime = sel->minptime; x.stereo = sel->stereo;
        if (chosen.empty()) e.tracks.push_back(x);
        for (auto& n : chosen) {
            XTrack y = x; y.layer = n; y.ssrc = om[i].lay.at(n).first; y.rtxSsrc = sel->rtx ? om[i].lay.at(n).second : 0;
            for (unsigned k = 0; k < m.layers.size(); k++) if (m.layers[k].name == n) { y.layerIndex = k; y.lay = m.layers[k]; }
            e.tracks.push_back(y);
        }
    }
    // the selector matters for the expectation: see caller
    if (!c.data.empty() || r.chance(0.05)) {
        bool reject = r.chance(0.15) || wrong == "all-rejected";
        std::vector<Str> a{Str("application ") + (reject ? "0" : "9") + " UDP/DTLS/SCTP webrtc-datachannel", "mid:datachannel"};
        if (!session) a.insert(a.end(), cred.begin(), cred.end());
        unsigned port = 5000; uint64_t mx = 65536;
        if (r.chance(0.8)) { port = static_cast<unsigned>(r.range(1, 65535)); a.push_back("sctp-port:" + std::to_string(port)); }
        if (r.chance(0.8)) {
            if (r.chance(0.8)) { mx = static_cast<uint64_t>(r.pickOf<int64_t>({0, 1, 1200, 16384, 65536, 262144, 1073741823, 4294967295ll, r.range(1, 400000)})); a.push_back("max-message-size:" + std::to_string(mx)); }
            else { mx = 0; e.maxKnown = false; a.push_back("max-message-size:" + Str(r.pickOf<const char*>({"", "x", "-5", "4294967297", "99999999999999999999999999"}))); }
        }
        secs.push_back(a);
        if (!reject && !c.data.empty()) { e.data = true; e.port = port; e.maxMsg = mx; }
        else e.maxKnown = false;
    } else e.maxKnown = false;
    if (!anyMedia && !e.data) fail("nothing accepted");
    if (wrong == "no-mux" && muxNeeded) fail("no rtcp-mux");
    if (secs.empty()) fail("no sections");
    // candidates: in the first section or at random
    for (auto& l : cands) { auto& a = secs.empty() ? cred : secs[r.chance(0.7) ? 0 : r.below(secs.size())]; a.push_back(l); }
    // the candidates may also sit in a rejected section only, which is fine: they describe the peer
    Str nl = r.chance(0.5) ? "\r\n" : "\n";
    std::vector<Str> lines{"v=0", "o=- " + std::to_string(r.next() >> 2) + " 2 IN IP4 127.0.0.1", "s=-", "t=0 0"};
    if (r.chance(0.5)) lines.push_back("a=ice-lite");
    if (r.chance(0.5)) lines.push_back("a=msid-semantic: WMS *");
    if (session) for (auto& l : cred) lines.push_back("a=" + l);
    for (auto& s : secs) for (size_t k = 0; k < s.size(); k++) { lines.push_back((k ? "a=" : "m=") + s[k]); if (!k && r.chance(0.8)) lines.push_back("c=IN IP4 0.0.0.0"); }
    for (auto& l : lines) t.s += l + nl;
    if (r.chance(0.1)) t.s.resize(t.s.size() - nl.size());
    vf::count("answer_" + (e.ok ? Str("good") : Str("bad")));
    if (!e.ok) vf::count("bad: " + e.why);
    return t;
}
Str list(std::vector<Str> v) { std::sort(v.begin(), v.end()); Str s; for (auto& x : v) s += "\n   " + x; return s; }


std::pair<std::shared_ptr<SdpAnswer>, Error> parseIt(const World& w, const Cfg& c, const Str& text, const std::shared_ptr<TrackSelector>& sel) {
    vf::cpuLimit(10);
    return c.publish ? w.pc->parsePublishAnswer(w.offer, text, sel) : w.pc->parseSubscribeAnswer(w.offer, text, sel);
}

void answerCase(Rng& r, int64_t) {
    Str broken;
    Cfg c = randomCfg(r, false, broken);
    auto w = makeOffer(c);
    VF_CHECK(w.err.isOk(), "offer-refuses-valid", w.err.message);
    auto om = checkOffer(c, w);
    for (int k = 0; k < 4; k++) {
        Text t = makeAnswer(r, c, om, true);
        vf::note("offer " + show(c) + "\nanswer:\n" + show(t.s));
        auto [a, err] = parseIt(w, c, t.s, nullptr);
        if (!t.e.ok) {
            VF_CHECK(err.isError(), "answer-accepted", "accepted though it has " << t.e.why);
            VF_CHECK(!a, "answer-and-error", "an error and an answer");
            vf::sig("bad " + t.e.why + std::to_string(t.s.size() % 7));
            continue;
        }
        VF_CHECK(err.isOk() && a, "answer-refused", "a valid answer is refused: " << err.message);
        VF_CHECK(a->getIceUFrag() == t.e.ufrag && a->getIcePassword() == t.e.pwd, "answer-credentials", "credentials '" << a->getIceUFrag() << "' '" << a->getIcePassword() << "'");
        auto& h = a->getCertificateHash();
        VF_CHECK(lower(h.getAlg()) == "sha-256" && h.getBin().size() == 32 && !memcmp(h.getBin().data(), t.e.hash.data(), 32), "answer-fingerprint", "fingerprint " << h.getAlg() << " " << h.getHex());
        VF_CHECK(a->isSetupActive() == t.e.active, "answer-role", "role");
        std::vector<Str> gh, gt, wt;
        for (auto& x : a->getHostList()) gh.push_back(hostStr(x));
        VF_CHECK(list(gh) == list(t.e.hosts), "answer-candidates", "candidates" << list(gh) << "\n  instead of" << list(t.e.hosts));
        for (auto& x : a->getTrackList()) gt.push_back(got(x).str());
        for (auto& x : t.e.tracks) wt.push_back(x.str());
        VF_CHECK(list(gt) == list(wt), "answer-tracks", "tracks" << list(gt) << "\n  instead of" << list(wt));
        VF_CHECK(a->hasDataChannel() == t.e.data, "answer-data", "data channels " << a->hasDataChannel());
        if (t.e.data) {
            VF_CHECK(a->getSctpPort() == t.e.port, "answer-sctp", "port " << a->getSctpPort() << " instead of " << t.e.port);
            uint64_t limit = t.e.maxMsg ? t.e.maxMsg : UINT32_MAX;
            if (t.e.maxKnown) VF_CHECK(a->getMaxMessageSize() == limit, "answer-sctp", "message limit " << a->getMaxMessageSize() << " instead of " << limit);
        }
        // the highest track of each section, from the list each section offers to the selector
        struct Spy : TrackSelector {
            mutable std::vector<std::vector<std::shared_ptr<Track>>> lists; mutable std::vector<std::shared_ptr<Track>> chosen;
            std::shared_ptr<Track> selectTrack(const std::vector<std::shared_ptr<Track>>& l) const override { lists.push_back(l); chosen.push_back(HighestTrackSelector().selectTrack(l)); return chosen.back(); }
        };
        auto spy = std::make_shared<Spy>();
        auto [b, err2] = parseIt(w, c, t.s, spy);
        VF_CHECK(err2.isOk() && b, "answer-selector", "the answer is refused with a selector");
        for (size_t i = 0; i < spy->lists.size(); i++) {
            auto ch = spy->chosen[i];
            VF_CHECK(ch && std::count(spy->lists[i].begin(), spy->lists[i].end(), ch), "selector-outside", "the selected track is not one of the list");
            if (ch->getMediaType() == MediaType::Video)
                for (auto& o : spy->lists[i]) {
                    auto key = [](auto& q) { auto p = q->getCodecOptions(); return std::make_pair(static_cast<int>(q->getCodec()), p ? p->profileLevelId : 0); };
                    VF_CHECK(key(o) <= key(ch), "selector-highest", "a better track was not selected");
                }
            bool used = false;
            for (auto& x : b->getTrackList()) used |= x->getMedia() == ch->getMedia() && x->getPayloadId() == ch->getPayloadId() && x->getCodec() == ch->getCodec();
            VF_CHECK(used, "selector-ignored", "the selected track is not used");
        }
        vf::count("answers_exact");
        vf::count("tracks_compared", gt.size());
        vf::count("candidates_compared", gh.size());
        Str shape = std::to_string(c.publish) + std::to_string(t.e.data) + std::to_string(gh.size());
        for (auto& x : t.e.tracks) shape += Str(codecName(x.codec)) + (x.rtxPt ? "r" : "") + (x.layer.empty() ? "" : "L") + (x.nack ? "n" : "");
        vf::sig(shape);
    }
}

// ---------------------------------------------------------------- damaged texts
Str mangle(Rng& r, Str s) {
    static const std::vector<Str> junk = {"0", "-1", "+96", " 96", "4294967392", "18446744073709551712", "96x", "", "65536", "a=", "m=", "=", ":", ";", "a=mid:", "m=video", "m=video 9 UDP/TLS/RTP/SAVPF", "m=audio 9 UDP/TLS/RTP/SAVPF 111",
        "a=rtpmap:111 opus/48000/2", "a=rtpmap:96 rtx/90000", "a=fmtp:96 apt=96", "a=fmtp:97 apt=97", "a=simulcast:recv", "a=simulcast:recv ;;;", "a=rid:", "a=ssrc:0 cname:x", "a=ssrc-group:FID 0 0", "a=ssrc-group:FID 1", "a=candidate:", "a=candidate:1 1 udp 1 ::1 9 typ host",
        "a=extmap:0 x", "a=extmap:256 x", "a=extmap:15 y", "a=setup:actpass", "a=fingerprint:", "a=fingerprint:sha-256", "a=fingerprint:sha-256 AA", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel", "m=application", "a=sctp-port:0", "a=sctp-port:70000", "a=max-message-size:-1", "m=text 9 UDP/TLS/RTP/SAVPF 98", "a=rtcp-fb:* nack", "a=rtcp-fb:96"};
    for (int n = static_cast<int>(r.range(1, r.chance(0.2) ? 30 : 5)); n > 0; n--) {
        auto lines = split(s, '\n');
        switch (r.below(10)) {
        case 0: if (!s.empty()) s[r.below(s.size())] = static_cast<char>(r.next()); break;
        case 1: if (!s.empty()) s.erase(r.below(s.size()), r.below(8)); break;
        case 2: s.insert(r.below(s.size() + 1), r.pick(junk)); break;
        case 3: lines.erase(lines.begin() + static_cast<long>(r.below(lines.size()))); s.clear(); for (auto& l : lines) s += l + "\n"; break;
        case 4: { auto l = lines[r.below(lines.size())]; lines.insert(lines.begin() + static_cast<long>(r.below(lines.size())), l); s.clear(); for (auto& x : lines) s += x + "\n"; break; }
        case 5: std::swap(lines[r.below(lines.size())], lines[r.below(lines.size())]); s.clear(); for (auto& x : lines) s += x + "\n"; break;
        case 6: lines.insert(lines.begin() + static_cast<long>(r.below(lines.size())), r.pick(junk)); s.clear(); for (auto& x : lines) s += x + "\n"; break;
        case 7: { // replace a number
            std::vector<size_t> at; for (size_t i = 0; i < s.size(); i++) if (isdigit(static_cast<unsigned char>(s[i])) && (!i || !isdigit(static_cast<unsigned char>(s[i - 1])))) at.push_back(i);
            if (at.empty()) break;
            size_t i = at[r.below(at.size())], j = i; while (j < s.size() && isdigit(static_cast<unsigned char>(s[j]))) j++;
            s.replace(i, j - i, r.chance(0.5) ? r.pick(junk).substr(0, 25) : std::to_string(r.pickOf<uint64_t>({0, 1, 95, 96, 127, 128, 255, 256, 65535, 65536, 1ull << 32, (1ull << 32) + 96, UINT64_MAX})));
            break; }
        case 8: s.resize(r.below(s.size() + 1)); break;
        default: { size_t i = r.below(s.size() + 1); s.insert(i, Str(r.pickOf<size_t>({1, 100, 3000}), r.pickOf({' ', ':', ';', '=', 'A', '\0', '\n'}))); break; }
        }
        if (s.size() > 60000) s.resize(60000);
    }
    return s;
}
void mangledCase(Rng& r, int64_t) {
    Str broken;
    Cfg c = randomCfg(r, false, broken);
    auto w = makeOffer(c);
    auto om = checkOffer(c, w);
    for (int k = 0; k < 12; k++) {
        Text t = makeAnswer(r, c, om, false);
        Str s = r.chance(0.05) ? w.text + "\na=candidate:1 1 udp 1 127.0.0.1 9 typ host\n" : t.s;
        s = mangle(r, s);
        vf::note("offer " + show(c) + "\nanswer:\n" + show(s));
        auto [a, err] = parseIt(w, c, s, r.chance(0.5) ? nullptr : std::make_shared<HighestTrackSelector>());
        VF_CHECK(err.isError() != !!a, "answer-and-error", "an answer and an error, or neither");
        vf::count(a ? "mangled_accepted" : "mangled_refused");
        if (!a) continue;
        // every field must be stated by the text
        std::vector<Str> lines;
        for (auto l : split(s, '\n')) { l.erase(std::remove(l.begin(), l.end(), '\r'), l.end()); lines.push_back(l); }
        auto norm = [](const Str& l) { // 096 is 96
            Str q;
            for (size_t i = 0; i < l.size(); i++) { bool lead = l[i] == '0' && i + 1 < l.size() && isdigit(static_cast<unsigned char>(l[i + 1])) && (q.empty() || !isalnum(static_cast<unsigned char>(q.back()))); if (!lead) q += l[i]; }
            return q;
        };
        auto has = [&](const Str& l) { return std::any_of(lines.begin(), lines.end(), [&](auto& x) { return x == l || x.rfind(l + " ", 0) == 0; }); };
        VF_CHECK(!a->getIceUFrag().empty() && has("a=ice-ufrag:" + a->getIceUFrag()), "answer-credentials", "ufrag '" << a->getIceUFrag() << "' is not stated");
        VF_CHECK(!a->getIcePassword().empty() && has("a=ice-pwd:" + a->getIcePassword()), "answer-credentials", "pwd '" << a->getIcePassword() << "' is not stated");
        auto& h = a->getCertificateHash();
        VF_CHECK(h.getBin().size() == 32, "answer-fingerprint", "a fingerprint of " << h.getBin().size() << " bytes");
        {
            Str want; for (size_t i = 0; i < 32; i++) { char b[4]; snprintf(b, 4, "%02x", h.getBin().data()[i]); want += b; }
            bool found = false;
            for (auto& l : lines) { Str q = lower(l); if (q.rfind("a=fingerprint:sha-256", 0) != 0) continue; Str d; for (char ch : q.substr(21)) if (isxdigit(static_cast<unsigned char>(ch))) d += ch; found |= d == want; }
            VF_CHECK(found, "answer-fingerprint", want << " is not stated");
        }
        if (a->isSetupActive()) VF_CHECK(has("a=setup:active"), "answer-role", "active though not stated");
        for (auto& x : a->getHostList()) {
            Str want = hostStr(x); bool found = false;
            VF_CHECK(want.substr(want.size() - 2) != " 0", "answer-candidates", "port 0 in " << want);
            for (auto& l : lines) {
                if (l.rfind("a=candidate:", 0) != 0) continue;
                auto f = split(l, ' ');
                in6_addr b6; in_addr b4; char o[64]; uint64_t port;
                if (f.size() < 8 || !number(f[5], port)) continue;
                if (inet_pton(AF_INET, f[4].c_str(), &b4) == 1) inet_ntop(AF_INET, &b4, o, sizeof o); else if (inet_pton(AF_INET6, f[4].c_str(), &b6) == 1) inet_ntop(AF_INET6, &b6, o, sizeof o); else continue;
                found |= want == Str(o) + " " + std::to_string(port) && lower(f[2]) == "udp" && f[1] == "1" && f[6] == "typ" && f[7] == "host";
            }
            VF_CHECK(found, "answer-candidates", "candidate " << want << " is not stated");
        }
        std::set<std::pair<Str, Str>> ids;
        for (auto& tr : a->getTrackList()) {
            XTrack x = got(tr);
            const Med* m = nullptr; size_t mi = 0;
            for (size_t i = 0; i < c.media.size(); i++) if (c.media[i].mid == x.mid) { m = &c.media[i]; mi = i; }
            VF_CHECK(m, "answer-tracks", "track of a media that was not offered: " << x.str());
            VF_CHECK(m->video == x.video, "answer-tracks", "type of " << x.str());
            VF_CHECK(ids.insert({x.mid, x.layer}).second, "answer-tracks", "two tracks for " << x.str());
            VF_CHECK(std::any_of(m->codecs.begin(), m->codecs.end(), [&](auto& q) { return q.c == x.codec; }), "answer-tracks", "codec was not offered: " << x.str());
            VF_CHECK(x.pt >= 96 && x.pt <= 127, "answer-tracks", "payload type of " << x.str());
            // some section states payload type, codec and clock
            bool found = false, rtxFound = x.rtxPt == 0, ssrcFound = c.publish, cur = false, inM = false, rtxInM = false;
            for (size_t i = 0; i <= lines.size(); i++) {
                if (i == lines.size() || lines[i].rfind("m=", 0) == 0) { cur = i < lines.size(); if (!cur) break; auto f = split(norm(lines[i]), ' '); inM = std::count(f.begin(), f.end(), std::to_string(x.pt)) > 0; rtxInM = std::count(f.begin(), f.end(), std::to_string(x.rtxPt)) > 0; continue; }
                Str l = norm(lower(lines[i])), p = "a=rtpmap:" + std::to_string(x.pt) + " " + lower(codecName(x.codec)) + "/" + std::to_string(x.clock);
                found |= inM && (l == p || l.rfind(p + "/", 0) == 0 || l.rfind(p + " ", 0) == 0);
                Str q = "a=fmtp:" + std::to_string(x.rtxPt) + " ";
                Str packed; for (char ch : l) if (ch != ' ') packed += ch; // spaces between parameters are tolerated
                rtxFound |= rtxInM && l.rfind(q, 0) == 0 && packed.find("apt=" + std::to_string(x.pt)) != Str::npos;
                if (!c.publish) ssrcFound |= l.rfind("a=ssrc:" + std::to_string(x.ssrc), 0) == 0 || l.rfind("a=ssrc-group:fid " + std::to_string(x.ssrc) + " ", 0) == 0;
            }
            VF_CHECK(found, "answer-tracks", "not stated: " << x.str());
            VF_CHECK(rtxFound, "answer-tracks", "rtx not stated: " << x.str());
            VF_CHECK(ssrcFound && x.ssrc != 0, "answer-tracks", "ssrc not stated: " << x.str());
            if (c.publish) {
                auto pr = x.layer.empty() ? std::make_pair(om[mi].ssrc, om[mi].rtx) : om[mi].lay.at(x.layer);
                VF_CHECK(x.ssrc == pr.first && (x.rtxSsrc == pr.second || x.rtxSsrc == 0), "answer-tracks", "not the offered SSRC: " << x.str());
                if (x.rtxPt) VF_CHECK(x.rtxSsrc != 0, "answer-tracks", "retransmissions without an SSRC: " << x.str());
            }
        }
        VF_CHECK(!a->getTrackList().empty() || a->hasDataChannel(), "answer-empty", "accepted without content");
        VF_CHECK(!a->hasDataChannel() || !c.data.empty(), "answer-data", "data channels that were not offered");
        VF_CHECK(a->getSctpPort() != 0, "answer-sctp", "port 0");
        if (a->getSctpPort() != 5000) VF_CHECK(std::any_of(lines.begin(), lines.end(), [&](auto& l) { return split(norm(l), ' ')[0] == "a=sctp-port:" + std::to_string(a->getSctpPort()); }), "answer-sctp", "port " << a->getSctpPort() << " is not stated");
        vf::sig("m" + std::to_string(a->getTrackList().size()) + std::to_string(a->getHostList().size()) + std::to_string(a->hasDataChannel()) + std::to_string(c.media.size()));
    }
}
} // namespace

int main(int argc, char** argv) {
    setLogLevel(SRTC_LOG_Z);
    return vf::runMain(argc, argv, "one situation = an offer or answer of a distinct shape (sections, codecs, layers, retransmission, feedback, candidates), or a distinct mistake", {{"offer", 3, offerCase}, {"answer", 4, answerCase}, {"mangled", 3, mangledCase}});
}
