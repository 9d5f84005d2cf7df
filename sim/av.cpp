// Media through whole connections in the deterministic world.
//   pub:  a publisher against the scripted peer, every datagram it sends decoded and compared with what the application published
//         (C22 frames, order, pacing, timestamps; C17 resends; C23 simulcast; C24 reports and statistics; C05 keystream)
#include "av.h"
#include "srtc/logging.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/util.h"
#include <ctime>

using namespace sim;

namespace {
constexpr const char* kTwcc = "transport-wide-cc";
constexpr const char* kAct = "abs-capture-time";
constexpr const char* kMid = "sdes:mid";
constexpr const char* kRid = "sdes:rtp-stream-id";
constexpr const char* kRrid = "sdes:repaired-rtp-stream-id";
constexpr const char* kVla = "video-layers-allocation00";
unsigned extId(const std::vector<Str>& maps, const char* what) {
    for (auto& l : maps) if (l.find(what) != Str::npos) return static_cast<unsigned>(atoi(l.c_str() + 9));
    return 0;
}
int64_t systemMicros() { return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); }

// Transport-wide feedback about packets in [base, base+times.size()), -1: not received
Bytes twccBody(uint32_t media, uint16_t base, const std::vector<int64_t>& times, uint8_t fb) {
    Bytes b;
    put32(b, media); put16(b, base); put16(b, static_cast<uint32_t>(times.size()));
    int64_t first = -1;
    for (auto t : times) if (t >= 0) { first = t; break; }
    const int64_t ref = std::max<int64_t>(first, 0) / 64000;
    put32(b, static_cast<uint32_t>(ref) << 8 | fb);
    std::vector<uint8_t> sym; Bytes d;
    int64_t last = ref * 64000;
    for (auto t : times) {
        if (t < 0) { sym.push_back(0); continue; }
        int64_t q = (t - last) / 250;
        if (q >= 0 && q <= 255) { sym.push_back(1); d.push_back(static_cast<uint8_t>(q)); } else { q = std::clamp<int64_t>(q, -32768, 32767); sym.push_back(2); put16(d, static_cast<uint16_t>(q)); }
        last += q * 250;
    }
    for (size_t i = 0; i < sym.size(); i += 7) { unsigned c = 0xC000; for (size_t k = 0; k < 7 && i + k < sym.size(); k++) c |= static_cast<unsigned>(sym[i + k]) << (12 - 2 * k); put16(b, c); }
    b.insert(b.end(), d.begin(), d.end());
    while (b.size() % 4) b.push_back(0);
    return b;
}

struct PubCfg {
    bool rtx = true, bwe = true, feedback = true, reports = true, client = false, csd = false, outage = false, spin = false;
    int64_t latency = 0, toPeer = 10 * ms, toPc = 10 * ms, jitter = 0, duration = 8 * sec;
    double nackRate = 0;
    struct M { bool audio; C codec; std::vector<srtc::SimulcastLayer> layers; bool nack = true; std::set<Str> without; };
    std::vector<M> media;
    Str profile;
    Str text() const {
        std::ostringstream o;
        o << "publish" << (rtx ? " rtx" : "") << (bwe ? " bwe" : "") << (feedback ? " feedback" : "") << (reports ? " reports" : "") << (csd ? " csd" : "") << (outage ? " outage" : "") << " latency=" << latency / 1000.0 << " delay=" << toPeer / ms << "/" << toPc / ms << " jitter=" << jitter / ms
          << " nacks=" << nackRate << " " << profile;
        for (auto& m : media) { o << " " << ref::cname(m.codec) << (m.nack ? "" : "-nonack"); for (auto& l : m.layers) o << "+" << l.name; for (auto& w : m.without) o << "-" << w; }
        return o.str();
    }
};
PubCfg randomPub(vf::Rng& r) {
    PubCfg c;
    c.rtx = r.chance(0.7); c.bwe = r.chance(0.6); c.feedback = r.chance(0.7); c.reports = r.chance(0.8); c.client = r.chance(0.5); c.csd = r.chance(0.3);
    c.outage = r.chance(0.1);
    c.latency = r.chance(0.5) ? 0 : r.range(1, 12) * ms;
    c.toPeer = r.range(0, 120) * ms; c.toPc = r.range(0, 120) * ms;
    c.jitter = r.chance(0.5) ? 0 : r.range(1, 20) * ms;
    c.duration = r.range(3, 14) * sec;
    if (r.chance(0.1)) c.duration = r.range(20, 40) * sec;
    c.nackRate = r.chance(0.7) ? (judges("C17") ? r.pickOf({0.002, 0.02, 0.1}) : r.pickOf({0.001, 0.005, 0.02})) : 0;
    static const std::vector<Str> all{"SRTP_AEAD_AES_256_GCM", "SRTP_AEAD_AES_128_GCM", "SRTP_AES128_CM_SHA1_80", "SRTP_AES128_CM_SHA1_32"};
    c.profile = r.pick(all);
    const size_t nv = r.below(3), na = nv ? r.below(3) : 1 + r.below(2);
    for (size_t i = 0; i < nv + na; i++) {
        PubCfg::M m;
        m.audio = i >= nv;
        m.codec = m.audio ? C::Opus : r.pickOf({C::H264, C::H265, C::VP8, C::VP9, C::AV1});
        m.nack = r.chance(0.85);
        if (!m.audio && r.chance(0.5)) {
            size_t n = 2 + r.below(3);
            std::vector<Str> names = r.chance(0.5) ? std::vector<Str>{"low", "mid", "hi", "x"} : std::vector<Str>{"q", "h", "f", "s"};
            for (size_t k = 0; k < n; k++) {
                srtc::SimulcastLayer l;
                l.name = names[k];
                l.width = static_cast<uint16_t>(r.range(16, 7680)); l.height = static_cast<uint16_t>(r.range(16, 4320)); l.frames_per_second = static_cast<uint16_t>(r.range(1, r.chance(0.9) ? 60 : 255)); l.kilobits_per_second = static_cast<uint32_t>(r.range(1, r.chance(0.8) ? 8000 : 200000));
                m.layers.push_back(l);
            }
        }
        for (auto e : {kTwcc, kAct, kMid, kRid, kRrid, kVla}) if (r.chance(0.06)) m.without.insert(e);
        c.media.push_back(m);
    }
    return c;
}

struct PubWorld {
    vf::Rng rng; PubCfg c;
    std::unique_ptr<RemotePeer> peer; std::unique_ptr<Pc> pc; std::unique_ptr<Wire> wire;
    Offer offer; Answer answer;
    std::vector<std::unique_ptr<TrackMon>> tracks;
    std::map<uint32_t, TrackMon*> bySsrc, byRtx;
    std::unique_ptr<SrtpReader> tap;
    std::unique_ptr<SrtpKeys> tapKeys;
    uint64_t wirePackets = 0, wireBytes = 0, framesSent = 0, twccSeen = 0;
    std::shared_ptr<int> life = std::make_shared<int>(0);
    bool stopping = false, reordered = false;

    explicit PubWorld(const PubCfg& cfg, vf::Rng r) : rng(r), c(cfg) {
        pc = std::make_unique<Pc>(srtc::Direction::Publish);
        peer = std::make_unique<RemotePeer>(rng.fork());
        srtc::PubOfferConfig oc;
        oc.cname = "cname"; oc.enable_rtx = c.rtx; oc.enable_bwe = c.bwe; oc.enable_abs_capture_time = true;
        srtc::PubMediaConfig mc;
        int k = 0;
        for (auto& m : c.media) {
            srtc::PubMediaItem v;
            v.media_id = (m.audio ? "a" : "v") + std::to_string(k++);
            v.media_type = m.audio ? srtc::MediaType::Audio : srtc::MediaType::Video;
            srtc::PubCodec pcodec; pcodec.codec = sc(m.codec); pcodec.profile_level_id = 0x42e01f; pcodec.minptime = m.audio ? 20 : 0;
            v.codec_list.push_back(pcodec); v.layer_list = m.layers;
            mc.media_list.push_back(v);
        }
        auto [o, e] = pc->pc->createPublishOffer(oc, mc);
        if (!o) vf::harnessError("offer: " + e.message);
        pc->offer = o;
        offer = parseOffer(o->generate().first);
        answer = makeAnswer(offer, false, c.rtx, true);
        for (size_t i = 0; i < answer.media.size(); i++) {
            auto& m = answer.media[i];
            m.nack = c.media[i].nack;
            auto& x = m.extmap;
            x.erase(std::remove_if(x.begin(), x.end(), [&](const Str& l) { for (auto& w : c.media[i].without) if (l.find(w) != Str::npos) return true; return false; }), x.end());
        }
        peer->profiles = c.profile;
        peer->client = answer.active = c.client;
        answer.ufrag = peer->ufrag; answer.pwd = peer->pwd; answer.fingerprint = peer->cert->fingerprint;
        peer->rufrag = offer.ufrag; peer->rpwd = offer.pwd;
        Addr live = Addr::make("10.1.0.7", 7000);
        answer.candidates.push_back(live);
        wire = std::make_unique<Wire>(rng.fork(), pc->ep, live, Addr::make("192.168.7.9", 50001));
        wire->attach(*peer);
        wire->toPeer.delay = c.toPeer; wire->toPc.delay = c.toPc;
        wire->toPeer.jitter = wire->toPc.jitter = c.jitter;
        reordered = rng.chance(0.3);
        wire->toPc.fifo = true; wire->toPeer.fifo = !reordered;
        peer->judgeUndecodable = true; peer->judgeEarly = !(reordered && c.jitter); // media may overtake the last flight
        listen(live, [this](int, const Bytes& b) { onWire(b); wire->toPeer.send(b); });
        if (c.latency) slowThread(pc->ep, c.latency);
        pc->pc->setPublishConnectionStatsListener([this](const srtc::PublishConnectionStats& s) { pc->alive("publish statistics"); pc->pubStats.push_back({now(), s}); onStats(s); });
        peer->onRtcp = [this](const Bytes& p, const Bytes&, uint32_t) { peerRtcp(p); };
        peer->onRtp = [this](const Bytes& p, const Bytes&, uint64_t) { peerRtp(p); };
    }
    ~PubWorld() { life.reset(); pc.reset(); wire.reset(); }
    int64_t bound() const { return (c.bwe && c.feedback ? 54 : 15) * ms + 2 * c.latency + 2500; }

    bool start() {
        auto e = pc->start(answer.text());
        if (!e.empty()) vf::harnessError("setup refused: " + e + "\n" + answer.text());
        if (!runWhile([&] { return !pc->connected() && !pc->final(); }, 8 * sec) || !pc->connected()) { vf::count("not_connected"); return false; }
        for (auto& t : pc->pc->getTrackList()) {
            auto m = std::make_unique<TrackMon>();
            m->track = t; m->ssrc = t->getSSRC(); m->rtxSsrc = t->getRtxSSRC(); m->pt = t->getPayloadId(); m->rtxPt = t->getRtxPayloadId();
            m->mid = t->getMedia()->getId();
            size_t i = 0;
            while (i < answer.media.size() && answer.media[i].mid != m->mid) i++;
            if (i == answer.media.size()) vf::harnessError("track of no media");
            const auto& cm = c.media[i];
            m->codec = cm.codec; m->clock = cm.audio ? 48000 : 90000; m->nack = cm.nack;
            SIM_CHECK("C22", t->getClockRate() == m->clock, "clock-rate", "track clock " << t->getClockRate());
            if (t->isSimulcast()) m->layer = t->getSimulcastLayer()->name;
            SIM_CHECK("C23", (m->layer.empty()) == cm.layers.empty(), "simulcast-track", "simulcast answer without a simulcast track");
            if (!m->layer.empty()) { // the layer's own SSRC in the offer
                size_t k = 0;
                while (k < cm.layers.size() && cm.layers[k].name != m->layer) k++;
                SIM_CHECK("C23", k < cm.layers.size() && k < offer.media[i].ssrcs.size() && offer.media[i].ssrcs[k].first == m->ssrc, "simulcast-ssrc", "layer " << m->layer << " uses SSRC " << m->ssrc);
            }
            SIM_CHECK("C23", bySsrc.count(m->ssrc) == 0, "ssrc-shared", "two tracks share SSRC " << m->ssrc);
            bySsrc[m->ssrc] = m.get();
            if (m->rtxPt) byRtx[m->rtxSsrc] = m.get();
            m->gen = std::make_unique<ref::Gen>(cm.codec, rng.fork());
            m->gen->paramsInFrame = !c.csd;
            m->gen->av1Ext = rng.chance(0.3);
            m->pts = rng.range(0, rng.chance(0.5) ? 1000000 : 1000000000000ll);
            m->interval = cm.audio ? 20000 : rng.pickOf({16667, 33333, 33366, 40000, 50000, 100000});
            m->sizeHi = cm.audio ? 400 : static_cast<size_t>(rng.pickOf({400, 400, 1500, 3000, 3000, 6000, 12000, 40000}));
            if (!cm.audio && rng.chance(judges("C22") ? 0.03 : 0.005)) m->sizeHi = 200000;
            m->burst = rng.chance(0.3) ? 0.1 : 0;
            tracks.push_back(std::move(m));
        }
        return true;
    }
    std::map<Str, std::vector<srtc::SimulcastLayer>> layersNow;
    std::map<Str, std::vector<std::pair<int64_t, std::vector<srtc::SimulcastLayer>>>> layerHistory;

    // -- publishing
    void publish(TrackMon& t) {
        if (!pc->connected()) { t.needKey = true; return; }
        const bool key = t.isVideo() && (t.needKey || rng.chance(t.keyRate));
        size_t size = t.isVideo() ? static_cast<size_t>(rng.range(20, static_cast<int64_t>(t.sizeHi))) : static_cast<size_t>(rng.range(1, 400));
        if (key && t.sizeHi > 3000) size *= 2;
        if (key && t.gen->paramsInFrame && rng.chance(0.3)) t.gen->newParams();
        TrackMon::Pub p;
        p.f = t.isVideo() ? t.gen->next(key, size) : t.gen->next(false, size);
        p.at = now(); p.pts = t.pts;
        if (t.codec == C::H264) p.params = {t.gen->sps, t.gen->pps};
        if (t.codec == C::H265) p.params = {t.gen->vps, t.gen->sps, t.gen->pps};
        p.act = rng.chance(0.5) ? randomNtp(rng) : 0;
        p.layers = layersNow[t.mid];
        t.needKey = false;
        srtc::ByteBuffer b = glue::buf(p.f.data);
        auto act = p.act; auto pts = p.pts;
        t.pubs.push_back(std::move(p));
        auto e = t.isVideo() ? pc->pc->publishVideoFrame(t.track, pts, std::move(b), act) : pc->pc->publishAudioFrame(t.track, pts, std::move(b), act);
        if (e.isError()) SIM_CHECK("C22", false, "publish-refused", e.message);
        vf::count("frames_published");
    }
    void flow(TrackMon& t) {
        if (stopping) return;
        int n = t.burst > 0 && rng.chance(t.burst) ? 1 + static_cast<int>(rng.below(4)) : 1;
        if (judges("C22") && t.burst > 0 && t.sizeHi <= 3000 && rng.chance(0.01)) { n = 10 + static_cast<int>(rng.below(50)); vf::count("large_bursts"); }
        for (int i = 0; i < n; i++) { publish(t); t.pts += t.interval + (rng.chance(0.2) ? rng.range(-t.interval / 3, t.interval / 3) : 0); }
        int64_t wait = t.interval * n;
        if (rng.chance(0.2)) wait = rng.range(0, 2 * t.interval);
        if (rng.chance(0.005)) { int64_t gap = rng.range(100, 3000) * ms; wait += gap; t.pts += gap; }
        after(wait, [this, &t, w = std::weak_ptr<int>(life)] { if (!w.expired()) flow(t); });
    }
    void relayer() {
        if (stopping) return;
        after(rng.range(300, 4000) * ms, [this, w = std::weak_ptr<int>(life)] {
            if (w.expired() || stopping) return;
            for (auto& t : tracks) if (!t->layer.empty() && rng.chance(0.3) && pc->connected()) {
                for (auto& l : layersNow[t->mid]) if (l.name == t->layer) {
                    l.width = static_cast<uint16_t>(rng.range(16, 7680)); l.height = static_cast<uint16_t>(rng.range(16, 4320)); l.frames_per_second = static_cast<uint16_t>(rng.range(1, 60)); l.kilobits_per_second = static_cast<uint32_t>(rng.range(0, 20000));
                    auto e = pc->pc->updateVideoSimulcastLayer(t->track, l);
                    SIM_CHECK("C23", e.isOk(), "layer-update-refused", e.message);
                    layerHistory[t->mid].push_back({now(), layersNow[t->mid]});
                    vf::count("layer_updates");
                }
            }
            relayer();
        });
    }

    // -- what the endpoint sends, at the moment it does
    void onWire(const Bytes& b) {
        if (b.size() < 12 || b[0] < 128 || b[0] > 191) return;
        if (!tap) {
            if (exported().empty()) { SIM_CHECK("C05", false, "srtp-before-keys", "media before the handshake is complete"); return; }
            auto& x = exported().back();
            tapKeys = std::make_unique<SrtpKeys>(x.material, x.profile);
            tap = std::make_unique<SrtpReader>(c.client ? tapKeys->server : tapKeys->client);
        }
        Bytes plain;
        if (SrtpReader::isRtcp(b)) {
            uint32_t i;
            bool ok = tap->rtcp(b, plain, i);
            SIM_CHECK("C05", ok, "srtcp-undecodable", "a control packet a standard receiver cannot authenticate");
            if (ok) onWireRtcp(plain);
            return;
        }
        uint64_t index = 0;
        bool ok = tap->rtp(b, plain, index);
        SIM_CHECK("C05", ok, "srtp-undecodable", "a media packet a standard receiver cannot authenticate");
        if (!ok) return;
        wirePackets++; wireBytes += b.size();
        glue::Rtp r; Str err;
        ok = glue::parseRtp(plain, r, err);
        SIM_CHECK("C22", ok, "rtp-format", err);
        if (!ok) return;
        if (auto i = bySsrc.find(r.ssrc); i != bySsrc.end()) { i->second->wireBytes += b.size(); onMain(*i->second, r, plain, index); }
        else if (auto j = byRtx.find(r.ssrc); j != byRtx.end()) { j->second->wireBytes += b.size(); onRtx(*j->second, r, index); }
        else SIM_CHECK("C22", false, "unknown-ssrc", "a packet with SSRC " << r.ssrc << " of no track");
    }
    void onMain(TrackMon& t, const glue::Rtp& r, const Bytes& plain, uint64_t index) {
        SIM_CHECK("C22", r.pt == t.pt, "payload-type", "payload type " << unsigned(r.pt) << " instead of " << t.pt);
        t.packets++; t.octets += r.payload.size();
        if (auto it = t.sent.find(index); it != t.sent.end()) { // a resend without RTX
            vf::count("resent_verbatim");
            SIM_CHECK("C17", t.rtxPt == 0, "resent-without-rtx", "resent on the media SSRC although RTX was negotiated");
            SIM_CHECK("C17", it->second.plain == plain, "resend-differs", "resent packet " << r.seq << " differs from the one sent");
            SIM_CHECK("C17", t.resent(index), "resend-unrequested", "packet " << r.seq << " resent without a request");
            return;
        }
        SIM_CHECK("C22", !t.any || index == t.lastIdx + 1, "sequence", "sequence index " << index << " after " << t.lastIdx << (c.rtx ? "" : " (no RTX)"));
        if (t.sent.size() > 70000) t.sent.erase(t.sent.begin());
        t.any = true; t.lastIdx = index;
        t.sent[index] = {plain, now()};
        vf::count("packets");
        if (t.next >= t.pubs.size()) { SIM_CHECK("C22", false, "unpublished-packet", "a packet although every published frame was sent already"); return; }
        auto& p = t.pubs[t.next];
        if (t.part.empty()) {
            p.ts = r.ts; p.firstSent = now(); p.firstIdx = index;
            const auto& z = t.pubs.front();
            // timestamps follow the presentation times
            const double want = static_cast<double>(p.pts - z.pts) * t.clock / 1e6;
            const int32_t off = static_cast<int32_t>(static_cast<uint32_t>(r.ts - z.ts) - static_cast<uint32_t>(static_cast<int64_t>(std::floor(want))));
            SIM_CHECK("C22", off >= -1 && off <= 2, "timestamp", "frame " << t.next << ", " << (p.pts - z.pts) << " us after the first: timestamp " << static_cast<int64_t>(static_cast<uint32_t>(r.ts - z.ts)) << " after, expected " << want);
            t.lastTsAt = now();
        } else SIM_CHECK("C22", r.ts == p.ts, "timestamp-in-frame", "packets of one frame have different timestamps");
        SIM_CHECK("C22", now() <= p.at + bound(), "late", "frame " << t.next << " of " << ref::cname(t.codec) << ": packet " << t.part.size() << " sent " << (now() - p.at) / 1000.0 << " ms after it was published, bound " << bound() / 1000.0);
        SIM_CHECK("C22", now() >= p.at, "early", "packet sent before it was published");
        checkExtensions(t, p, r);
        t.part.push_back({r.payload, r.marker});
        if (!t.isVideo() || r.marker) {
            WireFrame got; Str err;
            bool ok = wireUnits(t.codec, t.part, got, err);
            SIM_CHECK("C22", ok, "payload-format", ref::cname(t.codec) << " frame " << t.next << ": " << err);
            if (ok) {
                WireFrame want = publishedUnits(p.f, p.params);
                bool same = got.units == want.units;
                if (!same && judges("C23")) {
                    for (auto& o : tracks) if (o.get() != &t && o->codec == t.codec && o->mid == t.mid) for (auto& q : o->pubs)
                        if (publishedUnits(q.f, q.params).units == got.units) SIM_CHECK("C23", false, "other-layer", "a frame of layer " << o->layer << " on the SSRC of layer " << t.layer);
                }
                SIM_CHECK("C22", same, "frame", ref::cname(t.codec) << " frame " << t.next << (p.f.key ? " (key)" : "") << " of " << p.f.data.size() << " bytes: " << got.units.size() << " units on the wire, " << want.units.size() << " published, or bytes differ");
            }
            p.lastSent = now(); p.lastIdx = index;
            t.part.clear(); t.next++; framesSent++;
            vf::count("frames_checked");
            if (!t.layer.empty()) vf::count("layer_frames");
        }
    }
    void checkExtensions(TrackMon& t, const TrackMon::Pub& p, const glue::Rtp& r) {
        size_t mi = 0;
        while (answer.media[mi].mid != t.mid) mi++;
        auto& maps = answer.media[mi].extmap;
        const unsigned rid = extId(maps, kRid), mid = extId(maps, kMid), vla = extId(maps, kVla), act = extId(maps, kAct), rrid = extId(maps, kRrid);
        std::set<unsigned> known;
        for (auto e : {kRid, kMid, kVla, kAct, kTwcc, kRrid}) if (auto x = extId(maps, e)) known.insert(x);
        for (auto& [id, v] : r.elements) SIM_CHECK("C23", known.count(id), "extension-unknown", "extension id " << unsigned(id) << " was not negotiated");
        auto text = [&](unsigned id) -> std::optional<Str> { auto e = id ? r.element(static_cast<uint8_t>(id)) : nullptr; if (!e) return {}; return Str(e->begin(), e->end()); };
        auto gr = text(rid);
        if (t.layer.empty()) {
            SIM_CHECK("C23", !gr, "rid-without-simulcast", "stream id on a track without layers");
            SIM_CHECK("C23", !vla || !r.element(static_cast<uint8_t>(vla)), "vla-without-simulcast", "layer allocation on a track without layers");
        } else {
            if (gr) SIM_CHECK("C23", *gr == t.layer, "rid", "stream id " << *gr << " on layer " << t.layer);
            if (p.f.key && rid && t.part.empty()) { SIM_CHECK("C23", gr.has_value(), "rid-missing", "key frame of layer " << t.layer << " without its stream id" << (vla ? "" : " (no layer allocation negotiated)")); vf::count("key_frames_with_rid"); }
            if (auto e = vla ? r.element(static_cast<uint8_t>(vla)) : nullptr) {
                Vla v; Str err;
                bool ok = parseVla(*e, v, err);
                SIM_CHECK("C23", ok, "vla-format", err << " " << vf::hex(*e));
                if (ok) {
                    size_t index = 0;
                    while (index < p.layers.size() && p.layers[index].name != t.layer) index++;
                    SIM_CHECK("C23", v.rid == index, "vla-index", "announced index " << v.rid << " for layer " << t.layer << ", configured " << index);
                    std::vector<Vla::L> want;
                    for (auto& l : p.layers) want.push_back({l.kilobits_per_second, l.width, l.height, std::min<unsigned>(l.frames_per_second, 255)});
                    // updated while the frame waited
                    auto& h = layerHistory[t.mid];
                    bool later = false;
                    for (auto& x : h) if (x.first >= p.at) { std::vector<Vla::L> w; for (auto& l : x.second) w.push_back({l.kilobits_per_second, l.width, l.height, std::min<unsigned>(l.frames_per_second, 255)}); later |= w == v.layers; }
                    SIM_CHECK("C23", later || v.layers == want, "vla-layers", "announced " << v.layers.size() << " layers, first " << v.layers[0].kbps << "/" << v.layers[0].w << "x" << v.layers[0].h << "@" << v.layers[0].fps << ", configured " << want.size() << ", first " << want[0].kbps << "/" << want[0].w << "x" << want[0].h << "@" << want[0].fps);
                    vf::count("vla_checked");
                }
            } else if (p.f.key && vla && t.part.empty()) SIM_CHECK("C23", false, "vla-missing", "key frame without layer allocation");
        }
        if (auto m = text(mid)) SIM_CHECK("C23", *m == t.mid, "mid", "media id " << *m << " on media " << t.mid);
        if (rrid) SIM_CHECK("C23", !r.element(static_cast<uint8_t>(rrid)), "rrid-on-media", "repaired stream id on a media packet");
        if (act) {
            auto e = r.element(static_cast<uint8_t>(act));
            if (p.act && t.part.empty()) SIM_CHECK("C22", e, "capture-time-missing", "first packet of the frame lacks the capture time");
            if (e) {
                uint64_t v = 0;
                for (size_t i = 0; i < 8 && i < e->size(); i++) v = v << 8 | (*e)[i];
                SIM_CHECK("C22", e->size() >= 8 && v == p.act, "capture-time", "capture time " << v << " instead of " << p.act);
                vf::count("capture_times");
            }
        }
    }
    void onRtx(TrackMon& t, const glue::Rtp& r, uint64_t index) {
        t.rtxPackets++;
        vf::count("rtx_packets");
        SIM_CHECK("C17", r.pt == t.rtxPt, "rtx-payload-type", "payload type " << unsigned(r.pt));
        SIM_CHECK("C17", !t.anyRtx || index == t.lastRtx + 1, "rtx-sequence", "RTX index " << index << " after " << t.lastRtx);
        t.anyRtx = true; t.lastRtx = index;
        if (r.payload.size() < 2) { SIM_CHECK("C17", false, "rtx-short", "no original sequence number"); return; }
        uint16_t osn = be16(r.payload.data());
        uint64_t o = t.find(osn);
        if (!o) { SIM_CHECK("C17", false, "rtx-unsent", "resend of packet " << osn << " which was never sent"); return; }
        glue::Rtp org; Str err;
        glue::parseRtp(t.sent[o].plain, org, err);
        SIM_CHECK("C17", Bytes(r.payload.begin() + 2, r.payload.end()) == org.payload, "rtx-payload", "payload of the resent packet " << osn << " differs");
        SIM_CHECK("C17", r.ts == org.ts && r.marker == org.marker, "rtx-header", "timestamp or marker of the resent packet " << osn << " differs");
        SIM_CHECK("C17", t.resent(o), "rtx-unrequested", "packet " << osn << " resent without a request");
        size_t mi = 0;
        while (answer.media[mi].mid != t.mid) mi++;
        if (!t.layer.empty()) if (unsigned id = extId(answer.media[mi].extmap, kRrid)) {
            auto e = r.element(static_cast<uint8_t>(id));
            SIM_CHECK("C23", e && Str(e->begin(), e->end()) == t.layer, "rrid", "resent packet of layer " << t.layer << " carries the repaired stream id " << (e ? Str(e->begin(), e->end()) : Str("(none)")));
        }
    }
    // -- reports
    struct RrtrAt { uint32_t mid; int64_t lo, hi; }; // arrival from..to
    std::map<uint32_t, std::vector<RrtrAt>> rrtrOf;  // by SSRC
    struct SrAt { int64_t sent; }; std::map<std::pair<uint32_t, uint32_t>, int64_t> srMid; // (ssrc, mid) -> sent
    void onWireRtcp(const Bytes& plain) {
        Str why;
        auto list = splitRtcp(plain, why);
        SIM_CHECK("C24", why.empty(), "rtcp-format", why);
        for (auto& p : list) {
            vf::count("rtcp:" + std::to_string(p.pt));
            if (p.pt == 200) onSr(p);
            else if (p.pt == 207) onXr(p);
        }
    }
    void onSr(const Rtcp& p) {
        auto i = bySsrc.find(p.ssrc);
        SIM_CHECK("C24", i != bySsrc.end() && p.body.size() >= 20, "sr-format", "sender report of SSRC " << p.ssrc << " with " << p.body.size() << " bytes");
        if (i == bySsrc.end() || p.body.size() < 20) return;
        auto& t = *i->second;
        const uint64_t ntp = static_cast<uint64_t>(be32(&p.body[0])) << 32 | be32(&p.body[4]);
        const uint32_t rtp = be32(&p.body[8]), cnt = be32(&p.body[12]), oct = be32(&p.body[16]);
        srMid[{p.ssrc, static_cast<uint32_t>(ntp >> 16)}] = now();
        SIM_CHECK("C24", cnt == t.packets, "sr-packets", "sender report counts " << cnt << " packets, " << t.packets << " were sent on SSRC " << p.ssrc << " (RTX " << t.rtxPackets << ")");
        SIM_CHECK("C24", oct == static_cast<uint32_t>(t.octets), "sr-octets", "sender report counts " << oct << " octets, " << t.octets << " payload octets were sent");
        const double secs = static_cast<double>(systemMicros()) / 1e6 + 2208988800.0, said = static_cast<double>(ntp) / 4294967296.0;
        SIM_CHECK("C24", std::fabs(secs - said) < 0.002, "sr-ntp", "NTP time off by " << (said - secs) * 1000 << " ms");
        if (t.next > 0 || !t.part.empty()) {
            // the timestamp a frame captured now would have, going by the frame processed last (some may still wait for their turn)
            const double tol = t.clock * (0.002 + static_cast<double>(c.latency) / 1e6);
            double best = 1e18;
            for (size_t k = t.part.empty() ? t.next - 1 : t.next; k < t.pubs.size(); k++) {
                const auto& f = t.pubs[k];
                const uint32_t ts = f.firstSent >= 0 ? f.ts : t.pubs[0].ts + static_cast<uint32_t>(static_cast<int64_t>(static_cast<double>(f.pts - t.pubs[0].pts) * t.clock / 1e6));
                const double d = static_cast<double>(static_cast<int32_t>(rtp - ts)) - static_cast<double>(now() - (f.firstSent >= 0 ? f.firstSent : f.at)) * t.clock / 1e6;
                if (std::fabs(d) < std::fabs(best)) best = d;
            }
            SIM_CHECK("C24", std::fabs(best) <= tol, "sr-rtp", "RTP time off by " << best << " ticks from the frames' timestamps");
            vf::count("sr_pairs");
        }
        vf::count("sr_checked");
    }
    void onXr(const Rtcp& p) {
        size_t i = 0;
        while (i + 4 <= p.body.size()) {
            const uint8_t bt = p.body[i];
            const size_t n = 4u * be16(&p.body[i + 2]);
            i += 4;
            if (i + n > p.body.size()) { SIM_CHECK("C24", false, "xr-format", "block cut"); return; }
            if (bt == 5) for (size_t k = i; k + 12 <= i + n; k += 12) {
                const uint32_t ssrc = be32(&p.body[k]), lrr = be32(&p.body[k + 4]), dlrr = be32(&p.body[k + 8]);
                const RrtrAt* ref = nullptr; bool newer = false;
                for (auto& x : rrtrOf[ssrc]) if (x.mid == lrr && x.lo <= now()) { ref = &x; newer = false; } else if (x.hi + c.latency + ms <= now()) newer = true;
                SIM_CHECK("C24", ref && !newer, "dlrr-reference", "DLRR for SSRC " << ssrc << " refers to a report that is not its last");
                if (ref) {
                    const double lo = static_cast<double>(now() - ref->hi) / 1e6 - 0.002, hi = static_cast<double>(now() - ref->lo) / 1e6 + 0.002, d = dlrr / 65536.0;
                    SIM_CHECK("C24", d >= lo - static_cast<double>(c.latency) / 1e6 && d <= hi, "dlrr-delay", "DLRR delay " << d << " s, " << lo << ".." << hi << " true");
                    vf::count("dlrr_checked");
                }
            }
            i += n;
        }
    }
    uint64_t statsSeen = 0;
    std::vector<std::pair<double, int64_t>> rtts; // (ms, when)
    void onStats(const srtc::PublishConnectionStats& s) {
        statsSeen++;
        vf::count("stats_checked");
        auto num = [&](const char* what, float v) { SIM_CHECK("C24", std::isfinite(v) && v >= 0, "stats-number", what << " is " << v); };
        num("packets_lost_percent", s.packets_lost_percent); num("rtt_ms", s.rtt_ms); num("bandwidth_actual", s.bandwidth_actual_kbit_per_second); num("bandwidth_suggested", s.bandwidth_suggested_kbit_per_second);
        SIM_CHECK("C24", s.packets_lost_percent <= 100.0f, "stats-loss", "loss of " << s.packets_lost_percent << " %");
        SIM_CHECK("C24", s.packet_count == wirePackets, "stats-packets", s.packet_count << " packets reported, " << wirePackets << " sent");
        SIM_CHECK("C24", s.byte_count == wireBytes, "stats-bytes", s.byte_count << " bytes reported, " << wireBytes << " sent");
        SIM_CHECK("C24", s.frame_count == framesSent, "stats-frames", s.frame_count << " frames reported, " << framesSent << " sent");
        if (s.rtt_ms != 0) {
            const double lo = static_cast<double>(c.toPeer + c.toPc) / 1000.0 - 1, hi = static_cast<double>(c.toPeer + c.toPc + 2 * c.jitter + 2 * c.latency) / 1000.0 + 3;
            SIM_CHECK("C24", s.rtt_ms >= lo && s.rtt_ms <= hi, "stats-rtt", "round trip of " << s.rtt_ms << " ms reported, " << lo << ".." << hi << " true");
            vf::count("rtt_checked");
        }
    }
    // -- the peer's side
    std::map<uint16_t, int64_t> twccGot; int64_t twccLast = -1; uint8_t twccFb = 0; uint32_t anySsrc = 0;
    void peerRtp(const Bytes& p) {
        glue::Rtp r; Str err;
        if (!glue::parseRtp(p, r, err)) return;
        for (auto& m : answer.media) if (unsigned id = extId(m.extmap, kTwcc)) if (auto e = r.element(static_cast<uint8_t>(id)); e && e->size() == 2) { twccGot[be16(e->data())] = now(); twccSeen++; anySsrc = r.ssrc; break; }
    }
    void feedbackLoop() {
        if (!twccGot.empty() && c.feedback) {
            // split at the wrap
            std::vector<uint16_t> seqs;
            for (auto& [s, t] : twccGot) seqs.push_back(s);
            uint16_t base = seqs.front();
            if (seqs.back() - seqs.front() > 30000) { for (auto s : seqs) if (s > 30000) { base = s; break; } }
            if (twccLast >= 0 && static_cast<int16_t>(static_cast<uint16_t>(twccLast + 1) - base) < 0 && static_cast<uint16_t>(base - twccLast) < 3000) base = static_cast<uint16_t>(twccLast + 1);
            uint16_t n = 0;
            for (auto s : seqs) n = std::max<uint16_t>(n, static_cast<uint16_t>(s - base + 1));
            if (n < 8000) {
                std::vector<int64_t> times(n, -1);
                for (auto& [s, t] : twccGot) times[static_cast<uint16_t>(s - base)] = t;
                peer->sendRtcp(makeRtcp(15, 205, 77, twccBody(anySsrc, base, times, twccFb++)));
                twccLast = static_cast<uint16_t>(base + n - 1);
            }
            twccGot.clear();
        }
        after(100 * ms, [this, w = std::weak_ptr<int>(life)] { if (!w.expired()) feedbackLoop(); });
    }
    void peerRtcp(const Bytes& plain) {
        Str why;
        for (auto& p : splitRtcp(plain, why)) {
            if (p.pt != 200 || p.body.size() < 20 || !c.reports) continue;
            // answer with a receiver report after a while
            const uint32_t ssrc = p.ssrc, mid = be32(&p.body[0]) << 16 | be32(&p.body[4]) >> 16;
            const int64_t got = now(), hold = rng.chance(0.3) ? 0 : rng.range(0, 4500) * ms;
            after(hold, [this, ssrc, mid, got, w = std::weak_ptr<int>(life)] {
                if (w.expired()) return;
                Bytes b;
                put32(b, ssrc); put32(b, 0); put32(b, 0); put32(b, 0); put32(b, mid); put32(b, static_cast<uint32_t>((now() - got) * 65536 / sec));
                peer->sendRtcp(makeRtcp(1, 201, 77, b));
                vf::count("rr_sent");
            });
        }
    }
    void rrtrLoop() {
        after(rng.range(500, 6000) * ms, [this, w = std::weak_ptr<int>(life)] {
            if (w.expired()) return;
            if (c.reports && peer->keys) {
                const uint32_t ssrc = static_cast<uint32_t>(70 + rng.below(3));
                const uint64_t ntp = rng.next();
                Bytes b{4, 0, 0, 2};
                put32(b, static_cast<uint32_t>(ntp >> 32)); put32(b, static_cast<uint32_t>(ntp));
                peer->sendRtcp(makeRtcp(0, 207, ssrc, b));
                if (wire->toPc.up) rrtrOf[ssrc].push_back({static_cast<uint32_t>(ntp >> 16), now() + c.toPc, std::max(now() + c.toPc + c.jitter, wire->toPc.last)});
            }
            rrtrLoop();
        });
    }
    void nackLoop() {
        const int64_t step = 10 * ms;
        after(step, [this, w = std::weak_ptr<int>(life)] {
            if (w.expired() || stopping) return;
            for (auto& t : tracks) if (t->any && rng.chance(c.nackRate * 3)) nack(*t);
            nackLoop();
        });
    }
    void nack(TrackMon& t) {
        if (!peer->keys) return;
        const bool foreign = rng.chance(0.05);
        uint32_t ssrc = t.ssrc;
        if (foreign) ssrc = rng.chance(0.5) && t.rtxPt ? t.rtxSsrc : static_cast<uint32_t>(rng.next());
        if (bySsrc.count(ssrc) && ssrc != t.ssrc) return;
        Bytes b;
        put32(b, ssrc);
        std::vector<uint16_t> all;
        int entries = 1 + static_cast<int>(rng.below(3));
        for (int k = 0; k < entries; k++) {
            uint64_t back = rng.chance(0.8) ? rng.below(60) : rng.chance(0.8) ? rng.below(380) : rng.below(3000);
            uint16_t pid = static_cast<uint16_t>(t.lastIdx - back);
            if (rng.chance(0.05)) pid = static_cast<uint16_t>(t.lastIdx + 200 + rng.below(2000)); // not sent yet
            uint16_t blp = rng.chance(0.4) ? 0 : static_cast<uint16_t>(rng.next() & rng.next());
            put16(b, pid); put16(b, blp);
            all.push_back(pid);
            for (unsigned i = 0; i < 16; i++) if (blp >> i & 1) all.push_back(static_cast<uint16_t>(pid + i + 1));
        }
        peer->sendRtcp(makeRtcp(1, 205, 77, b));
        vf::count("nacks_sent");
        const int64_t hi = wire->toPc.last ? std::max(wire->toPc.last, now()) : now() + c.toPc + c.jitter;
        if (foreign) { vf::count("nacks_foreign"); return; }
        // what was sent by the time the request arrives may be resent; what was sent when it was written must be
        TrackMon* tp = &t;
        for (auto seq : all) {
            uint64_t o = t.find(seq);
            if (o && t.lastIdx - o > 40000) o = 0; // the next one of that number may be sent by then
            const bool must = o != 0;
            if (!o) { o = (t.lastIdx & ~uint64_t(0xFFFF)) | seq; if (o < t.lastIdx) o += 65536; }
            auto q = std::make_shared<TrackMon::Ask>();
            q->must = must; q->from = wire->toPc.up ? hi : now();
            t.asks[o].push_back(q);
            at(hi + c.latency + 3 * ms, [this, tp, o, q, must, w = std::weak_ptr<int>(life)] {
                if (w.expired()) return;
                auto& l = tp->asks[o];
                l.erase(std::find(l.begin(), l.end(), q));
                if (l.empty()) tp->asks.erase(o);
                if (q->done) { vf::count("nacks_answered"); return; }
                const bool can = tp->rtxPt != 0 || tp->nack;
                if (must && can && tp->lastIdx - o < 400) SIM_CHECK("C17", outageNow(), "not-resent", "packet " << static_cast<uint16_t>(o) << ", " << tp->lastIdx - o << " packets ago, was requested and not resent" << (tp->rtxPt ? " by RTX" : ""));
                else vf::count("nacks_beyond_history");
            });
        }
    }
    bool outageSeen = false;
    bool outageNow() const { return outageSeen; }

    void run() {
        if (!start()) return;
        for (size_t i = 0; i < answer.media.size(); i++) {
            // the list a receiver must see: the layers in the offer's order
            layersNow[answer.media[i].mid] = c.media[i].layers;
        }
        if (c.csd) for (auto& t : tracks) if (t->codec == C::H264 || t->codec == C::H265) {
            std::vector<srtc::ByteBuffer> l;
            for (auto& b : t->gen->csd()) l.push_back(glue::buf(b));
            (void)pc->pc->setVideoCodecSpecificData(t->track, std::move(l));
        }
        const bool relay = rng.chance(0.5);
        for (auto& t : tracks) after(rng.range(0, 50) * ms, [this, p = t.get(), w = std::weak_ptr<int>(life)] { if (!w.expired()) flow(*p); });
        feedbackLoop();
        if (c.reports) rrtrLoop();
        if (c.nackRate > 0) nackLoop();
        if (relay) relayer();
        if (c.outage) {
            const int64_t from = now() + rng.range(1000, 3000) * ms, len = rng.range(1000, 8500) * ms;
            at(from, [this, w = std::weak_ptr<int>(life)] { if (!w.expired()) { outageSeen = true; wire->toPc.up = false; } });
            at(from + len, [this, w = std::weak_ptr<int>(life)] { if (!w.expired()) wire->toPc.up = true; });
            c.duration = std::max(c.duration, from + len - now() + 4 * sec);
        }
        const int64_t end = now() + c.duration;
        while (now() < end && !sim::failed) runFor(50 * ms);
        stopping = true;
        if (!sim::failed) runFor(400 * ms);
        if (!sim::failed) {
            if (!c.outage) SIM_CHECK("C22", pc->connected(), "not-connected", pc->history());
            for (auto& t : tracks) {
                SIM_CHECK("C22", t->next == t->pubs.size(), "frames-unsent", ref::cname(t->codec) << ": " << t->pubs.size() - t->next << " of " << t->pubs.size() << " accepted frames never left");
                vf::count("tracks");
                uint64_t h = vf::hash64(ref::cname(t->codec));
                uint64_t k[] = {t->pubs.size(), t->packets, t->rtxPackets};
                vf::sig(vf::hash64(k, sizeof k, h));
            }
            if (c.latency) vf::count("slow_sessions");
            vf::count("sessions");
        }
    }
};
void pubCase(vf::Rng& r) {
    sim::failed = false;
    sim::reset(r.next());
    vf::wallLimit(120);
    PubCfg c = randomPub(r);
    vf::note(c.text());
    PubWorld w(c, r.fork());
    w.run();
    w.pc->destroy();
    if (sim::failed) throw vf::CaseFailed();
}
} // namespace

int main(int argc, char** argv) {
    srtc::setLogLevel(getenv("VF_LOG") ? SRTC_LOG_V : SRTC_LOG_Z);
    std::string mode = "c22";
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) { std::string x = argv[i]; if (x.size() == 3 && x[0] == 'c' && isdigit(x[1])) mode = x; else a.push_back(argv[i]); }
    sim::prop = "C" + mode.substr(1);
    int n = static_cast<int>(a.size());
    return vf::runMain(n, a.data(), "one situation = a distinct history of a publishing connection (codec, frames, packets, resends per track)", {{"publish", 1, [](vf::Rng& r, int64_t) { pubCase(r); }}});
}
