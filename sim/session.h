// A real connection against the scripted peer, with a randomly chosen configuration.
#pragma once
#include "speer.h"

namespace sim {
struct Setup {
    bool publish = true, client = false, rtx = true, exts = true, datachannel = false, audio = true, video = true, bwe = true;
    int certIndex = 0, pinIndex = 0;
    size_t dead = 0, liveAt = 0;       // candidates
    bool v6 = false;
    Str profiles;
    uint16_t pli = 0, jb = 0, nackDelay = 0;
    std::vector<ref::C> videoCodec{ref::C::VP8};
    std::vector<srtc::SimulcastLayer> layers;
    Str text() const {
        std::ostringstream o;
        o << (publish ? "publish" : "subscribe") << " dtls-" << (client ? "server" : "client") << (rtx ? " rtx" : "") << (exts ? " ext" : "") << (bwe ? " bwe" : "") << (datachannel ? " data" : "") << (audio ? " audio" : "")
          << (video ? " video" : "") << " candidates=" << dead + 1 << "/" << liveAt << (v6 ? " v6" : "") << " profiles=" << profiles << " pli=" << pli << " jb=" << jb;
        for (auto c : videoCodec) o << " " << ref::cname(c);
        return o.str();
    }
};
inline srtc::Codec sc(ref::C c) { return glue::codec(c); }
inline Setup randomSetup(vf::Rng& r) {
    Setup s;
    s.publish = r.chance(0.5);
    s.client = r.chance(0.5);
    s.rtx = r.chance(0.7); s.exts = r.chance(0.8); s.bwe = r.chance(0.7);
    s.audio = r.chance(0.7); s.video = !s.audio || r.chance(0.8);
    s.datachannel = r.chance(0.4);
    if (r.chance(0.1)) { s.audio = s.video = false; s.datachannel = true; }
    s.certIndex = s.pinIndex = static_cast<int>(r.below(4));
    s.dead = r.chance(0.4) ? r.below(5) : 0;
    s.liveAt = r.below(s.dead + 1);
    s.v6 = r.chance(0.3);
    s.pli = r.chance(0.3) ? static_cast<uint16_t>(r.range(100, 5000)) : 0;
    if (r.chance(0.3)) { s.jb = static_cast<uint16_t>(r.range(20, 400)); s.nackDelay = static_cast<uint16_t>(r.range(1, 40)); }
    static const std::vector<Str> all{"SRTP_AEAD_AES_256_GCM", "SRTP_AEAD_AES_128_GCM", "SRTP_AES128_CM_SHA1_80", "SRTP_AES128_CM_SHA1_32"};
    if (r.chance(0.6)) s.profiles = r.pick(all); else for (auto& p : all) s.profiles += (s.profiles.empty() ? "" : ":") + p;
    s.videoCodec = {r.pickOf({ref::C::H264, ref::C::H265, ref::C::VP8, ref::C::VP9, ref::C::AV1})};
    return s;
}
inline const char* kDead4[] = {"10.9.0.1", "10.9.0.2", "10.9.0.3", "10.9.0.4", "10.9.0.5", "10.9.0.6"};

struct Session {
    Setup s; vf::Rng rng;
    std::unique_ptr<RemotePeer> peer;
    std::unique_ptr<Pc> pc;
    std::unique_ptr<Wire> wire;
    Offer offer; Answer answer;
    std::vector<std::pair<Addr, uint64_t>> deadCandidates;
    struct Send { std::shared_ptr<srtc::Track> track; };
    explicit Session(const Setup& st, vf::Rng r) : s(st), rng(r) {
        pc = std::make_unique<Pc>(s.publish ? srtc::Direction::Publish : srtc::Direction::Subscribe);
        peer = std::make_unique<RemotePeer>(rng.fork());
        Str text;
        if (s.publish) {
            srtc::PubOfferConfig oc;
            oc.cname = "cname"; oc.enable_rtx = s.rtx; oc.enable_bwe = s.bwe; oc.enable_abs_capture_time = s.exts;
            srtc::PubMediaConfig mc;
            if (s.video) { srtc::PubMediaItem v; v.media_id = "v"; v.media_type = srtc::MediaType::Video; v.codec_list.push_back({sc(s.videoCodec[0]), 0x42e01f}); v.layer_list = s.layers; mc.media_list.push_back(v); }
            if (s.audio) { srtc::PubMediaItem v; v.media_id = "a"; v.media_type = srtc::MediaType::Audio; srtc::PubCodec c; c.codec = srtc::Codec::Opus; c.minptime = 20; v.codec_list.push_back(c); mc.media_list.push_back(v); }
            if (s.datachannel) oc.data_channel_config.data_channels = channels();
            auto [o, e] = pc->pc->createPublishOffer(oc, mc);
            if (!o) vf::harnessError("offer: " + e.message);
            pc->offer = o;
        } else {
            srtc::SubOfferConfig oc;
            oc.cname = "cname"; oc.pli_interval_millis = s.pli; oc.jitter_buffer_length_millis = s.jb; oc.jitter_buffer_nack_delay_millis = s.nackDelay; oc.enable_abs_capture_time = s.exts;
            srtc::SubMediaConfig mc;
            if (s.video) { srtc::SubMediaItem v; v.media_id = "v"; v.media_type = srtc::MediaType::Video; srtc::SubCodec c; c.codec = sc(s.videoCodec[0]); c.profile_level_id = 0x42e01f; v.codec_list.push_back(c); mc.media_list.push_back(v); }
            if (s.audio) { srtc::SubMediaItem v; v.media_id = "a"; v.media_type = srtc::MediaType::Audio; srtc::SubCodec c; c.codec = srtc::Codec::Opus; c.minptime = 20; v.codec_list.push_back(c); mc.media_list.push_back(v); }
            if (s.datachannel) oc.data_channel_config.data_channels = channels();
            auto [o, e] = pc->pc->createSubscribeOffer(oc, mc);
            if (!o) vf::harnessError("offer: " + e.message);
            pc->offer = o;
        }
        offer = parseOffer(pc->offer->generate().first);
        answer = makeAnswer(offer, !s.publish, s.rtx, s.exts);
        peer->cert = &Cert::get(s.certIndex);
        peer->profiles = s.profiles;
        peer->client = answer.active = s.client;
        answer.ufrag = peer->ufrag; answer.pwd = peer->pwd; answer.fingerprint = Cert::get(s.pinIndex).fingerprint;
        peer->rufrag = offer.ufrag; peer->rpwd = offer.pwd;
        if (!s.publish) {
            uint32_t base = 1000 + static_cast<uint32_t>(rng.below(4000000000u));
            for (auto& m : answer.media) if (!m.application) { m.ssrc = base; base += 1 + static_cast<uint32_t>(rng.below(1000)); if (m.rtxPt) { m.rtxSsrc = base; base += 1 + static_cast<uint32_t>(rng.below(1000)); } }
        }
        Addr live = s.v6 ? Addr::make("2001:db8::7", 7000) : Addr::make("10.1.0.7", 7000);
        for (size_t i = 0; i <= s.dead; i++) {
            if (i == s.liveAt) answer.candidates.push_back(live);
            else answer.candidates.push_back(rng.chance(0.3) ? Addr::make("2001:db8:dead::" + std::to_string(i + 1), 9000) : Addr::make(kDead4[i], 9000));
        }
        wire = std::make_unique<Wire>(rng.fork(), pc->ep, live, s.v6 ? Addr::make("2001:db8::99", 50001) : Addr::make("192.168.7.9", 50001));
        wire->attach(*peer);
    }
    static std::vector<std::string> channels() { return {"one", "two"}; }
    Str start() { return pc->start(answer.text()); }
    ~Session() { pc.reset(); wire.reset(); }

    // media flowing in the connection's direction, from whichever side sends
    bool flowing = false;
    int64_t pts = 0; uint16_t seq = 100; uint32_t ts = 5000; uint64_t mediaSent = 0;
    std::unique_ptr<ref::Gen> gen;
    void flow(int64_t interval) {
        if (!flowing) return;
        tickMedia();
        after(interval, [this, interval, w = std::weak_ptr<int>(peer->life)] { if (!w.expired()) flow(interval); });
    }
    void tickMedia() {
        mediaSent++;
        if (s.publish) {
            for (auto& t : pc->pc->getTrackList()) {
                if (t->getMediaType() == srtc::MediaType::Audio) { auto b = rng.bytes(20 + rng.below(200)); LibraryScope ls; (void)pc->pc->publishAudioFrame(t, pts, srtc::ByteBuffer(b.data(), b.size())); }
                else {
                    if (!gen) gen = std::make_unique<ref::Gen>(s.videoCodec[0], rng.fork());
                    auto f = gen->next(mediaSent % 20 == 1, 100 + rng.below(4000));
                    LibraryScope ls;
                    (void)pc->pc->publishVideoFrame(t, pts, srtc::ByteBuffer(f.data.data(), f.data.size()));
                }
            }
            pts += 20000;
        } else if (peer->keys) {
            for (auto& m : answer.media) {
                if (m.application) continue;
                Bytes b{0x80, static_cast<uint8_t>(m.pt | 0x80)};
                put16(b, seq); put32(b, ts); put32(b, m.ssrc);
                auto p = m.kind == "audio" ? rng.bytes(20 + rng.below(100)) : simpleVideo();
                b.insert(b.end(), p.begin(), p.end());
                peer->sendRtp(b, roc);
            }
            if (++seq == 0) roc++;
            ts += 960;
        }
    }
    uint32_t roc = 0;
    Bytes simpleVideo() {
        switch (s.videoCodec[0]) {
        case ref::C::VP8: { Bytes b{0x10}; auto r = rng.bytes(40); r[0] &= 0xFE; b.insert(b.end(), r.begin(), r.end()); return b; }
        case ref::C::VP9: { Bytes b{0x0C}; auto r = rng.bytes(40); b.insert(b.end(), r.begin(), r.end()); return b; }
        case ref::C::AV1: { Bytes b{0x18, 0x30}; auto r = rng.bytes(40); b.insert(b.end(), r.begin(), r.end()); return b; }
        case ref::C::H265: { Bytes b{0x26, 0x01}; auto r = rng.bytes(40); b.insert(b.end(), r.begin(), r.end()); return b; }
        default: { Bytes b{0x65}; auto r = rng.bytes(40); b.insert(b.end(), r.begin(), r.end()); return b; }
        }
    }
};
} // namespace sim
