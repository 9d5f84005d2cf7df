// A publishing and a subscribing connection joined by a faulty network, both real, in the deterministic world.
// What the subscriber's listener gets is compared with what was published (C03, C04); what both put on the wire and the
// statistics they report are compared with the traffic that flowed (C17, C24, C05).
#include "av.h"
#include "srtc/logging.h"
#include <iostream>

using namespace sim;

namespace {
enum class Kind { Clean, Repair, Resume, Chaos };
const char* kindName(Kind k) { switch (k) { case Kind::Clean: return "clean"; case Kind::Repair: return "repair"; case Kind::Resume: return "resume"; default: return "chaos"; } }
struct Cfg {
    Kind kind = Kind::Clean;
    bool rtx = true, bwe = true, exts = true, client = false, csd = false, fifo = false, bothDown = false;
    int64_t latA = 0, latB = 0, ab = 10 * ms, ba = 10 * ms, jitterAb = 0, jitterBa = 0, duration = 6 * sec, pubJitter = 0;
    double loss = 0, dup = 0, corrupt = 0;
    uint16_t jb = 0, nackDelay = 0, pli = 0;
    int64_t length = 0, nd = 6;   // ms, at least
    std::vector<std::pair<int64_t, int64_t>> outages; // from, for
    Str profile;
    std::vector<C> media;
    std::vector<size_t> sizeHi; std::vector<int64_t> interval;
    int64_t spread() const { return bwe && exts ? 54 * ms : 15 * ms; }
    int64_t rtt() const { return ab + ba; }
    // how much later than the earliest possible a packet can come, relative to the first packet of its track
    int64_t variability() const { return spread() + pubJitter + (fifo ? 0 : jitterAb) + 2 * latA + 2 * latB + 3 * ms; }
    Str text() const {
        std::ostringstream o;
        o << kindName(kind) << (rtx ? " rtx" : "") << (bwe ? " bwe" : "") << (exts ? " ext" : "") << (csd ? " csd" : "") << (fifo ? " fifo" : "") << " delay=" << ab / ms << "/" << ba / ms << " jitter=" << jitterAb / ms << "/" << jitterBa / ms << " latency=" << latA / ms << "/" << latB / ms
          << " loss=" << loss << " dup=" << dup << " corrupt=" << corrupt << " jb=" << jb << "/" << nackDelay << " length>=" << length << " pli=" << pli << " pubjitter=" << pubJitter / ms << " dur=" << duration / ms << " " << profile;
        for (auto& x : outages) o << " outage@" << x.first / ms << "+" << x.second / ms << (bothDown ? "both" : "");
        for (size_t i = 0; i < media.size(); i++) o << " " << ref::cname(media[i]) << "<" << sizeHi[i] << "/" << interval[i] / 1000;
        return o.str();
    }
};
Cfg randomCfg(vf::Rng& r) {
    Cfg c;
    const double x = r.unit();
    if (judges("C03") && sim::prop != "all") c.kind = x < 0.15 ? Kind::Clean : x < 0.3 ? Kind::Repair : x < 0.45 ? Kind::Resume : Kind::Chaos;
    else if (sim::prop == "C04") c.kind = x < 0.35 ? Kind::Clean : x < 0.65 ? Kind::Repair : Kind::Resume;
    else if (sim::prop == "C17") c.kind = x < 0.7 ? Kind::Repair : Kind::Chaos;
    else if (sim::prop == "C24") c.kind = x < 0.4 ? Kind::Clean : x < 0.8 ? Kind::Repair : Kind::Resume;
    else c.kind = r.pickOf({Kind::Clean, Kind::Repair, Kind::Resume, Kind::Chaos});
    c.rtx = r.chance(0.7); c.bwe = r.chance(0.5); c.exts = r.chance(0.8); c.client = r.chance(0.5); c.csd = r.chance(0.2);
    c.latA = r.chance(0.6) ? 0 : r.range(1, 8) * ms; c.latB = r.chance(0.6) ? 0 : r.range(1, 8) * ms;
    c.ab = r.range(0, 100) * ms; c.ba = r.range(0, 100) * ms;
    if (r.chance(0.3)) { c.ab = r.range(0, 15) * ms; c.ba = r.range(0, 15) * ms; }
    c.pubJitter = r.chance(0.5) ? 0 : r.range(1, 30) * ms;
    c.duration = r.range(3, 9) * sec;
    if (sim::prop == "C24") c.duration = r.range(6, 22) * sec;
    else if (r.chance(0.05)) c.duration = r.range(15, 40) * sec;
    static const std::vector<Str> all{"SRTP_AEAD_AES_256_GCM", "SRTP_AEAD_AES_128_GCM", "SRTP_AES128_CM_SHA1_80", "SRTP_AES128_CM_SHA1_32"};
    c.profile = r.pick(all);
    c.pli = r.chance(0.3) ? static_cast<uint16_t>(r.range(100, 5000)) : 0;
    const size_t nv = r.chance(0.15) ? 0 : r.chance(0.8) ? 1 : 2, na = nv ? r.below(2) : 1 + r.below(2);
    for (size_t i = 0; i < nv + na; i++) {
        const bool audio = i >= nv;
        c.media.push_back(audio ? C::Opus : r.pickOf({C::H264, C::H265, C::VP8, C::VP9, C::AV1}));
        c.sizeHi.push_back(audio ? 400 : static_cast<size_t>(r.pickOf({300, 1500, 3000, 3000, 6000, 12000, 40000})));
        c.interval.push_back(audio ? r.pickOf({10000, 20000, 20000, 60000}) : r.pickOf({16667, 33333, 33366, 40000, 50000, 100000}));
    }
    switch (c.kind) {
    case Kind::Clean:
        c.fifo = r.chance(0.3);
        c.jitterAb = r.chance(0.2) ? 0 : c.fifo ? r.range(1, 400) * ms : r.range(1, 120) * ms;
        c.jitterBa = r.chance(0.5) ? 0 : r.range(1, 50) * ms;
        c.dup = r.chance(0.5) ? 0 : 0.1;
        break;
    case Kind::Repair:
        c.fifo = r.chance(0.5);
        c.jitterAb = r.chance(0.5) ? 0 : r.range(1, 30) * ms;
        c.jitterBa = r.chance(0.5) ? 0 : r.range(1, 30) * ms;
        c.loss = r.pickOf({0.002, 0.02, 0.1, 0.25});
        c.dup = r.chance(0.8) ? 0 : 0.05;
        break;
    case Kind::Resume: {
        c.fifo = r.chance(0.5);
        c.jitterAb = r.chance(0.5) ? 0 : r.range(1, 30) * ms;
        c.jitterBa = r.chance(0.5) ? 0 : r.range(1, 30) * ms;
        c.bothDown = r.chance(0.4);
        int64_t at = r.range(500, 2500) * ms;
        for (size_t i = 0, n = 1 + r.below(2); i < n; i++) {
            const int64_t len = r.chance(0.5) ? r.range(20, 800) * ms : r.chance(0.7) ? r.range(500, 4000) * ms : r.range(4500, 6300) * ms;
            c.outages.push_back({at, len});
            at += len + r.range(3000, 6000) * ms;
        }
        c.duration = at;
        break; }
    case Kind::Chaos:
        c.fifo = r.chance(0.3);
        c.jitterAb = r.chance(0.3) ? 0 : r.pickOf({20, 60, 200, 600}) * ms;
        c.jitterBa = r.chance(0.5) ? 0 : r.range(1, 200) * ms;
        c.loss = r.chance(0.2) ? 0 : r.pickOf({0.005, 0.02, 0.05, 0.1, 0.2, 0.35});
        c.dup = r.chance(0.5) ? 0 : r.pickOf({0.02, 0.2});
        c.corrupt = r.chance(0.5) ? 0 : r.pickOf({0.01, 0.1});
        if (r.chance(0.4)) for (size_t i = 0, n = 1 + r.below(4); i < n; i++) { c.outages.push_back({r.range(300, 6000) * ms, r.chance(0.7) ? r.range(10, 500) * ms : r.range(500, 7000) * ms}); c.duration = std::max(c.duration, c.outages.back().first + c.outages.back().second + 2 * sec); }
        c.bothDown = r.chance(0.5);
        break;
    }
    // what the delivery needs of the jitter buffer
    const int64_t rttLo = c.rtt() / ms, byDefault = rttLo + (rttLo >= 50 ? 25 : 12);
    c.nd = rttLo >= 50 ? 10 : 6; // not above that once a length is configured unless asked for
    if (c.kind == Kind::Chaos) {
        if (r.chance(0.4)) { c.jb = static_cast<uint16_t>(r.range(20, 600)); c.nackDelay = static_cast<uint16_t>(r.range(1, 40)); }
        c.length = byDefault;
        c.nd = std::max<int64_t>(10, c.nackDelay);
    } else {
        c.nackDelay = r.chance(0.5) ? 0 : static_cast<uint16_t>(r.range(1, 40));
        c.nd = 10;
        int64_t need = c.variability() / ms + 6;
        if (c.kind != Kind::Clean) need += std::max<int64_t>(10, c.nackDelay) + (c.rtt() + c.jitterBa + c.jitterAb + 3 * c.latA + 3 * c.latB) / ms + 6;
        if (need > byDefault || r.chance(0.5)) c.jb = static_cast<uint16_t>(need + static_cast<int64_t>(r.below(200)));
        if (c.jb && c.jb <= byDefault + 20) c.jb = static_cast<uint16_t>(byDefault + 60 + c.jitterAb / ms + c.jitterBa / ms); // else the measured round trip decides
        c.length = c.jb ? c.jb : byDefault;
        if (c.jb) c.nd = std::max<int64_t>(10, c.nackDelay);
    }
    return c;
}

struct SubMon {
    size_t next = 0;                        // smallest index that may be delivered next
    std::vector<uint8_t> got;               // by publish index
    uint64_t lastTs = 0; size_t lastIdx = 0; bool any = false; size_t epoch = 0;
    uint64_t delivered = 0;
    // arrivals at the subscriber
    std::map<uint64_t, int64_t> arrived;    // main index -> first time processed at the earliest
    uint64_t maxArrived = 0; bool anyArrived = false;
    std::vector<std::pair<int64_t, uint64_t>> highs; // (time, highest main index) as it grew
    std::set<uint64_t> dropped, asked;
    uint64_t askedTotal = 0;
    int consecutive = 0;
    size_t passed = 0;                      // packets that went through at the start
};
struct PktId { TrackMon* t = nullptr; uint64_t index = 0; bool rtx = false; uint64_t osn = 0; };

struct World {
    vf::Rng rng; Cfg c;
    std::unique_ptr<Pc> a, b;
    Path ab, ba;
    Addr addrA = Addr::make("10.2.0.8", 8000), addrB = Addr::make("10.1.0.7", 7000);
    Offer offA, offB; Answer ansA, ansB;
    std::vector<std::unique_ptr<TrackMon>> tracks;
    std::map<uint32_t, TrackMon*> bySsrc, byRtx;
    std::map<TrackMon*, SubMon> subs;
    std::unique_ptr<SrtpKeys> keys;
    std::unique_ptr<SrtpReader> tapA, tapB;
    std::map<uint64_t, PktId> ids;             // by hash of the datagram
    std::map<uint64_t, int64_t> seenAtB;       // datagram -> first delivery
    uint64_t rtpAtB = 0, rtpBytesAtB = 0;      // distinct media datagrams delivered
    std::vector<std::array<int64_t, 3>> rtpHistory; // (time, packets, bytes)
    bool stopping = false, down = false, downBa = false, dropping = false;
    std::shared_ptr<int> life = std::make_shared<int>(0);
    int64_t lastDownEnd = -1; size_t connects = 0;
    std::vector<std::pair<int64_t, std::map<TrackMon*, uint64_t>>> outageStart;

    explicit World(const Cfg& cfg, vf::Rng r) : rng(r), c(cfg) {
        a = std::make_unique<Pc>(srtc::Direction::Publish, "publisher");
        b = std::make_unique<Pc>(srtc::Direction::Subscribe, "subscriber");
        srtc::PubOfferConfig po; po.cname = "cname"; po.enable_rtx = c.rtx; po.enable_bwe = c.bwe; po.enable_abs_capture_time = c.exts;
        srtc::SubOfferConfig so; so.cname = "cname2"; so.pli_interval_millis = c.pli; so.jitter_buffer_length_millis = c.jb; so.jitter_buffer_nack_delay_millis = c.nackDelay; so.enable_abs_capture_time = c.exts;
        srtc::PubMediaConfig pm; srtc::SubMediaConfig sm;
        for (size_t i = 0; i < c.media.size(); i++) {
            const bool audio = c.media[i] == C::Opus;
            srtc::PubMediaItem p; srtc::SubMediaItem s;
            p.media_id = s.media_id = (audio ? "a" : "v") + std::to_string(i);
            p.media_type = s.media_type = audio ? srtc::MediaType::Audio : srtc::MediaType::Video;
            srtc::PubCodec pc; pc.codec = sim::sc(c.media[i]); pc.profile_level_id = 0x42e01f; pc.minptime = audio ? 20 : 0;
            srtc::SubCodec sc; sc.codec = pc.codec; sc.profile_level_id = 0x42e01f; sc.minptime = audio ? 20 : 0;
            p.codec_list.push_back(pc); s.codec_list.push_back(sc);
            pm.media_list.push_back(p); sm.media_list.push_back(s);
        }
        auto [oa, ea] = a->pc->createPublishOffer(po, pm);
        auto [ob, eb] = b->pc->createSubscribeOffer(so, sm);
        if (!oa || !ob) vf::harnessError("offer: " + ea.message + eb.message);
        a->offer = oa; b->offer = ob;
        offA = parseOffer(oa->generate().first); offB = parseOffer(ob->generate().first);
        ansA = makeAnswer(offA, false, c.rtx, c.exts);
        auto uri = [](const Str& l) { auto p = l.rfind(' '); return l.substr(p + 1); };
        for (size_t i = 0; i < ansA.media.size(); i++) {
            auto& x = ansA.media[i].extmap;
            x.erase(std::remove_if(x.begin(), x.end(), [&](const Str& l) { for (auto& y : offB.media[i].extmap) if (uri(y) == uri(l)) return false; return true; }), x.end());
        }
        ansA.ufrag = offB.ufrag; ansA.pwd = offB.pwd; ansA.fingerprint = offB.fingerprint; ansA.active = c.client;
        ansA.candidates = {addrB};
        ansB = ansA;
        ansB.weSend = true; ansB.active = !c.client;
        ansB.ufrag = offA.ufrag; ansB.pwd = offA.pwd; ansB.fingerprint = offA.fingerprint;
        ansB.candidates = {addrA};
        for (size_t i = 0; i < ansB.media.size(); i++) { ansB.media[i].ssrc = offA.media[i].ssrc; ansB.media[i].rtxSsrc = ansB.media[i].rtxPt ? offA.media[i].rtx : 0; }
        for (auto* p : {&ab, &ba}) { p->rng = rng.fork(); p->dup = c.dup; p->corrupt = c.corrupt; p->fifo = c.fifo; }
        ab.delay = c.ab; ab.jitter = c.jitterAb; ba.delay = c.ba; ba.jitter = c.jitterBa;
        if (c.kind == Kind::Chaos) ab.loss = ba.loss = c.loss;
        ab.deliver = [this](const Bytes& d) { deliver(d); };
        ba.deliver = [this](const Bytes& d) { deliverA(d); };
        listen(addrB, [this](int, const Bytes& d) { fromA(d); });
        listen(addrA, [this](int, const Bytes& d) { fromB(d); });
        if (c.latA) slowThread(a->ep, c.latA);
        if (c.latB) slowThread(b->ep, c.latB);
        b->onFrame = [this](const Got& g) { onGot(g); };
        b->onState = [this](State s) { if (s == State::Connected) connects++; };
        b->pc->setSubscribeConnectionStatsListener([this](const srtc::SubscribeConnectionStats& s) { b->alive("subscribe statistics"); b->subStats.push_back({now(), s}); onSubStats(s); });
    }
    ~World() { life.reset(); a.reset(); b.reset(); unlisten(addrA); unlisten(addrB); }

    // -- the network
    bool haveKeys(bool rtp) {
        if (tapA) return true;
        if (exported().empty()) { SIM_CHECK("C05", !rtp, "srtp-before-keys", "media before the handshake is complete"); return false; }
        auto& x = exported().back();
        keys = std::make_unique<SrtpKeys>(x.material, x.profile);
        // c.client: the subscriber is the DTLS client
        tapA = std::make_unique<SrtpReader>(c.client ? keys->server : keys->client);
        tapB = std::make_unique<SrtpReader>(c.client ? keys->client : keys->server);
        return true;
    }
    static bool isMedia(const Bytes& d) { return d.size() >= 12 && d[0] >= 128 && d[0] <= 191; }
    static uint64_t hashOf(const Bytes& d) { return vf::hash64(d.data(), d.size()); }
    void fromA(const Bytes& d) {
        bool lose = down;
        if (isMedia(d) && haveKeys(true)) {
            Bytes plain;
            if (SrtpReader::isRtcp(d)) {
                uint32_t i;
                if (tapA->rtcp(d, plain, i)) { if (!lose) onSrSent(plain, d); }
                else SIM_CHECK("C05", false, "srtcp-undecodable", "a control packet of the publisher that a standard receiver cannot authenticate");
            } else {
                uint64_t index = 0;
                if (tapA->rtp(d, plain, index)) {
                    PktId id;
                    const bool drop = sentByA(plain, index, id);
                    if (id.t) ids[hashOf(d)] = id;
                    if (drop && !lose) { lose = true; vf::count("packets_dropped"); if (!id.rtx) subs[id.t].dropped.insert(id.index); }
                } else SIM_CHECK("C05", false, "srtp-undecodable", "a media packet of the publisher that a standard receiver cannot authenticate");
            }
        }
        if (lose) return;
        ab.send(d);
    }
    void deliver(const Bytes& d) {
        const int fd = socketTo(b->ep, addrA);
        if (fd < 0) return;
        if (isMedia(d) && !SrtpReader::isRtcp(d)) {
            auto i = ids.find(hashOf(d));
            if (i != ids.end()) {
                const bool first = seenAtB.insert({i->first, now()}).second;
                if (first) { rtpAtB++; rtpBytesAtB += d.size(); rtpHistory.push_back({now(), static_cast<int64_t>(rtpAtB), static_cast<int64_t>(rtpBytesAtB)}); arrivedAtB(i->second); }
            }
        }
        if (isMedia(d) && SrtpReader::isRtcp(d)) srArrived(d);
        arrive(fd, addrA, d);
    }
    void fromB(const Bytes& d) {
        if (isMedia(d) && haveKeys(false)) {
            Bytes plain; uint32_t i;
            if (!SrtpReader::isRtcp(d)) SIM_CHECK("C05", false, "media-from-subscriber", "a subscriber sends media");
            else if (tapB->rtcp(d, plain, i)) rtcpFromB(plain);
            else SIM_CHECK("C05", false, "srtcp-undecodable", "a control packet of the subscriber that a standard receiver cannot authenticate");
        }
        if (downBa) return;
        ba.send(d);
    }
    void deliverA(const Bytes& d) { const int fd = socketTo(a->ep, addrB); if (fd >= 0) arrive(fd, addrB, d); }

    // true: lost on the way
    bool sentByA(const Bytes& plain, uint64_t index, PktId& id) {
        glue::Rtp r; Str err;
        if (!glue::parseRtp(plain, r, err)) return false;
        if (auto j = byRtx.find(r.ssrc); j != byRtx.end()) {
            id = {j->second, index, true, 0};
            if (r.payload.size() >= 2) id.osn = j->second->find(be16(r.payload.data()));
            vf::count("rtx_packets");
            return false;
        }
        auto i = bySsrc.find(r.ssrc);
        if (i == bySsrc.end()) return false;
        auto& t = *i->second;
        id = {&t, index, false, 0};
        if (t.sent.count(index)) { vf::count("resent_verbatim"); return false; }
        t.any = true; t.lastIdx = index; t.sent[index] = {{}, now()};
        t.packets++; t.octets += r.payload.size();
        vf::count("packets");
        if (t.next < t.pubs.size()) {
            auto& p = t.pubs[t.next];
            if (p.firstSent < 0) { p.firstSent = now(); p.ts = r.ts; p.firstIdx = index; }
            if (!t.isVideo() || r.marker) { p.lastSent = now(); p.lastIdx = index; t.next++; }
        }
        // in Repair: anything but the start of the stream, and not so much that nothing reveals it
        auto& s = subs[&t];
        if (dropping && t.next > 2 && s.consecutive < 6 && rng.chance(s.consecutive ? 0.4 : c.loss)) { s.consecutive++; return true; }
        if (!down) s.consecutive = 0;
        return false;
    }
    void arrivedAtB(const PktId& id) {
        auto& s = subs[id.t];
        const uint64_t index = id.rtx ? id.osn : id.index;
        if (!index) return;
        s.arrived.insert({index, now()});
        if (!id.rtx && (!s.anyArrived || index > s.maxArrived)) {
            if (s.anyArrived) for (uint64_t k = s.maxArrived + 1; k < index; k++) revealed(id.t, k);
            s.anyArrived = true; s.maxArrived = index; s.highs.push_back({now(), index});
        }
    }
    // -- C17: requests
    void revealed(TrackMon* t, uint64_t index) {
        if (c.kind != Kind::Repair || c.dup > 0) return;
        const int64_t from = now();
        after(c.nd * ms + 2 * c.latB + 5 * ms, [this, t, index, from, w = std::weak_ptr<int>(life)] {
            if (w.expired() || stopping) return;
            auto& s = subs[t];
            if (s.arrived.count(index)) return;
            vf::count("gaps_checked");
            SIM_CHECK("C17", s.asked.count(index), "not-requested", "packet " << (index & 0xFFFF) << " is missing since " << from / 1000.0 << " ms and was not requested");
        });
    }
    void rtcpFromB(const Bytes& plain) {
        Str why;
        auto list = splitRtcp(plain, why);
        SIM_CHECK("C24", why.empty(), "rtcp-format", why);
        for (auto& p : list) {
            vf::count("rtcp:" + std::to_string(p.pt));
            if (p.pt == 205 && p.rc == 1) onNack(p);
            else if (p.pt == 201) onRr(p);
        }
    }
    void onNack(const Rtcp& p) {
        if (p.body.size() < 8 || p.body.size() % 4) { SIM_CHECK("C17", false, "nack-format", p.body.size() << " bytes"); return; }
        auto i = bySsrc.find(be32(p.body.data()));
        SIM_CHECK("C17", i != bySsrc.end(), "nack-ssrc", "request for SSRC " << be32(p.body.data()));
        if (i == bySsrc.end()) return;
        auto& t = *i->second; auto& s = subs[&t];
        for (size_t k = 4; k + 4 <= p.body.size(); k += 4) {
            const uint16_t pid = be16(&p.body[k]), blp = be16(&p.body[k + 2]);
            for (int bit = -1; bit < 16; bit++) {
                if (bit >= 0 && !(blp >> bit & 1)) continue;
                const uint16_t seq = static_cast<uint16_t>(pid + bit + 1);
                const uint64_t index = t.find(seq);
                SIM_CHECK("C17", index != 0, "nack-unsent", "packet " << seq << " requested, which was never sent");
                if (!index) continue;
                auto ar = s.arrived.find(index);
                SIM_CHECK("C17", ar == s.arrived.end() || ar->second + c.latB + 2 * ms >= now(), "nack-received", "packet " << seq << " requested, which arrived " << (now() - (ar == s.arrived.end() ? 0 : ar->second)) / 1000.0 << " ms ago");
                SIM_CHECK("C17", index < s.maxArrived, "nack-beyond", "packet " << seq << " requested, nothing after it arrived");
                if (s.asked.insert(index).second) vf::count("requests_checked");
                s.askedTotal++;
            }
        }
    }
    // -- C24: reports
    struct SrSent { uint32_t ssrc, mid; uint64_t ntp; uint32_t rtp, packets, octets; };
    std::map<uint64_t, std::vector<SrSent>> srByDatagram;
    struct SrGot { SrSent s; int64_t at; };
    std::map<uint32_t, std::vector<SrGot>> srGot; // by SSRC
    std::vector<SrGot> srAll;
    void onSrSent(const Bytes& plain, const Bytes& wire) {
        Str why;
        for (auto& p : splitRtcp(plain, why)) if (p.pt == 200 && p.body.size() >= 20) {
            const uint64_t ntp = static_cast<uint64_t>(be32(&p.body[0])) << 32 | be32(&p.body[4]);
            srByDatagram[hashOf(wire)].push_back({p.ssrc, static_cast<uint32_t>(ntp >> 16), ntp, be32(&p.body[8]), be32(&p.body[12]), be32(&p.body[16])});
            auto i = bySsrc.find(p.ssrc);
            if (i != bySsrc.end()) SIM_CHECK("C24", be32(&p.body[12]) == i->second->packets || !c.rtx || c.kind == Kind::Resume, "sr-packets", "sender report counts " << be32(&p.body[12]) << " packets, " << i->second->packets << " were sent");
        }
    }
    void srArrived(const Bytes& d) {
        auto i = srByDatagram.find(hashOf(d));
        if (i == srByDatagram.end()) return;
        for (auto& s : i->second) { srGot[s.ssrc].push_back({s, now()}); srAll.push_back({s, now()}); }
        srByDatagram.erase(i);
    }
    void onRr(const Rtcp& p) {
        SIM_CHECK("C24", p.body.size() >= 24u * p.rc, "rr-format", unsigned(p.rc) << " blocks in " << p.body.size() << " bytes");
        for (size_t k = 0; k < p.rc && 24 * (k + 1) <= p.body.size(); k++) {
            const uint8_t* q = &p.body[24 * k];
            const uint32_t ssrc = be32(q), high = be32(q + 8), lsr = be32(q + 16), dlsr = be32(q + 20);
            auto i = bySsrc.find(ssrc);
            SIM_CHECK("C24", i != bySsrc.end(), "rr-ssrc", "report about SSRC " << ssrc);
            if (i == bySsrc.end()) continue;
            auto& s = subs[i->second];
            if (connects == 1) { // the extended number starts over with a new connection
                uint64_t lo = 0, hi = 0;
                for (auto& [t, v] : s.highs) { hi = v; if (t + c.latB + ms <= now()) lo = v; }
                SIM_CHECK("C24", high >= static_cast<uint32_t>(lo) && high <= static_cast<uint32_t>(hi), "rr-highest", ref::cname(i->second->codec) << ": highest sequence " << high << " reported, " << lo << ".." << hi << " true");
                vf::count("rr_highest_checked");
            }
            const SrGot* last = nullptr; const SrGot* alt = nullptr;
            for (auto& g : srGot[ssrc]) { if (g.at + c.latB + ms <= now()) last = &g; else alt = &g; }
            const SrGot* ref = alt && alt->s.mid == lsr ? alt : last;
            if (connects > 1) continue;
            if (!ref) { SIM_CHECK("C24", lsr == 0 && dlsr == 0, "rr-lsr", "echoes a sender report, none arrived"); continue; }
            SIM_CHECK("C24", lsr == ref->s.mid, "rr-lsr", "echoes sender report " << lsr << ", the last one was " << ref->s.mid);
            const double want = static_cast<double>(now() - ref->at) / 1e6, said = dlsr / 65536.0;
            SIM_CHECK("C24", said <= want + 0.002 && said >= want - static_cast<double>(c.latB) / 1e6 - 0.002, "rr-dlsr", "delay since the last sender report " << said << " s, true " << want << " s");
            vf::count("rr_checked");
        }
    }
    void onSubStats(const srtc::SubscribeConnectionStats& s) {
        vf::count("stats_checked");
        auto num = [&](const char* what, float v) { SIM_CHECK("C24", std::isfinite(v) && v >= 0, "stats-number", what << " is " << v); };
        num("packets_lost_percent", s.packets_lost_percent); num("rtt_ms", s.rtt_ms);
        SIM_CHECK("C24", s.packets_lost_percent <= 100, "stats-loss", "loss of " << s.packets_lost_percent << " %");
        if (connects != 1) return;
        int64_t pl = 0, bl = 0;
        for (auto i = rtpHistory.rbegin(); i != rtpHistory.rend(); ++i) if ((*i)[0] + c.latB + ms <= now()) { pl = (*i)[1]; bl = (*i)[2]; break; }
        SIM_CHECK("C24", static_cast<int64_t>(s.packet_count) >= pl && s.packet_count <= rtpAtB, "sub-packets", s.packet_count << " packets reported, " << pl << ".." << rtpAtB << " arrived");
        SIM_CHECK("C24", static_cast<int64_t>(s.byte_count) >= bl && s.byte_count <= rtpBytesAtB, "sub-bytes", s.byte_count << " bytes reported, " << bl << ".." << rtpBytesAtB << " arrived");
        SIM_CHECK("C24", s.frame_count == b->frames.size(), "sub-frames", s.frame_count << " frames reported, " << b->frames.size() << " delivered");
        uint64_t asked = 0;
        for (auto& [t, m] : subs) asked += m.askedTotal;
        const double want = asked ? 100.0 * static_cast<double>(asked) / static_cast<double>(asked + s.packet_count) : 0;
        SIM_CHECK("C24", std::fabs(s.packets_lost_percent - want) < 0.01 + want * 0.001, "sub-loss", "loss of " << s.packets_lost_percent << " % reported, " << want << " % true (" << asked << " missed)");
        if (s.rtt_ms != 0 && c.kind != Kind::Resume) {
            const double lo = static_cast<double>(c.rtt()) / 1000.0 - 1, hi = static_cast<double>(c.rtt() + c.jitterAb + c.jitterBa + 2 * c.latA + 2 * c.latB) / 1000.0 + 3;
            if (!c.fifo || (c.jitterAb < 20 * ms)) SIM_CHECK("C24", s.rtt_ms >= lo && s.rtt_ms <= hi, "sub-rtt", "round trip of " << s.rtt_ms << " ms reported, " << lo << ".." << hi << " true");
        }
    }
    // -- C03
    void onGot(const Got& g) {
        auto i = bySsrc.find(g.track ? g.track->getSSRC() : 0);
        SIM_CHECK("C03", i != bySsrc.end(), "frame-track", "a frame of a track that does not exist");
        if (i == bySsrc.end()) return;
        auto& t = *i->second; auto& s = subs[&t];
        vf::count("frames_delivered"); vf::count(Str("frames_") + ref::cname(t.codec));
        s.got.resize(t.pubs.size());
        const uint32_t ts = static_cast<uint32_t>(g.ts);
        size_t k = s.next; Str err, why;
        for (; k < t.pubs.size(); k++) { auto& p = t.pubs[k]; if (p.firstSent < 0) { k = t.pubs.size(); break; } if (p.ts == ts) { if (ref::sameFrame(p.f, p.params, g.data, err)) break; why = "differs from frame " + std::to_string(k) + (p.f.key ? " (key)" : "") + ": " + err; } }
        if (k >= t.pubs.size()) {
            if (judges("C03")) {
                if (why.empty()) for (size_t j = 0; j < t.pubs.size(); j++) if (ref::sameFrame(t.pubs[j].f, t.pubs[j].params, g.data, err)) { why = t.pubs[j].ts != ts ? "carries frame " + std::to_string(j) + " with another timestamp (" + std::to_string(ts) + " instead of " + std::to_string(t.pubs[j].ts) + ")" : s.got[j] ? "delivered frame " + std::to_string(j) + " again" : "delivered frame " + std::to_string(j) + " after frame " + std::to_string(s.next - 1); break; }
                if (why.empty()) why = "matches nothing that was published (timestamp " + std::to_string(ts) + ", " + std::to_string(g.data.size()) + " bytes)";
                SIM_CHECK("C03", false, "frame", ref::cname(t.codec) << ": " << why);
            }
            return;
        }
        auto& p = t.pubs[k];
        SIM_CHECK("C03", now() >= p.firstSent + c.ab, "time-travel", "frame " << k << " delivered before it can have arrived");
        if (s.any && s.epoch == connects) {
            const double want = static_cast<double>(p.pts - t.pubs[s.lastIdx].pts) * t.clock / 1e6;
            const double is = static_cast<double>(static_cast<int64_t>(g.ts - s.lastTs));
            SIM_CHECK("C03", std::fabs(is - want) <= 2, "timestamp", ref::cname(t.codec) << " frame " << k << ": timestamp " << is << " after frame " << s.lastIdx << ", " << want << " published");
        }
        SIM_CHECK("C03", g.act == (haveAct(t) ? p.act : 0), "capture-time", ref::cname(t.codec) << " frame " << k << ": capture time " << g.act << " instead of " << (haveAct(t) ? p.act : 0));
        s.any = true; s.lastTs = g.ts; s.lastIdx = k; s.epoch = connects;
        s.got[k] = 1; s.next = k + 1; s.delivered++;
    }
    bool haveAct(const TrackMon& t) const { for (auto& m : ansB.media) if (m.mid == t.mid) for (auto& l : m.extmap) if (l.find("abs-capture-time") != Str::npos) return true; return false; }

    // -- publishing
    int64_t pts0 = 0;
    void publish(TrackMon& t) {
        if (!a->connected()) { t.needKey = true; return; }
        const bool key = t.isVideo() && (t.needKey || rng.chance(t.keyRate));
        size_t size = t.isVideo() ? static_cast<size_t>(rng.range(20, static_cast<int64_t>(t.sizeHi))) : static_cast<size_t>(rng.range(1, 400));
        if (key && t.gen->paramsInFrame && rng.chance(0.3)) t.gen->newParams();
        TrackMon::Pub p;
        p.f = t.isVideo() ? t.gen->next(key, size) : t.gen->next(false, size);
        p.at = now(); p.pts = t.pts;
        if (t.codec == C::H264) p.params = {t.gen->sps, t.gen->pps};
        if (t.codec == C::H265) p.params = {t.gen->vps, t.gen->sps, t.gen->pps};
        p.act = rng.chance(0.5) ? randomNtp(rng) : 0;
        t.needKey = false;
        srtc::ByteBuffer buf = glue::buf(p.f.data);
        auto act = p.act; auto pts = p.pts;
        t.pubs.push_back(std::move(p));
        auto e = t.isVideo() ? a->pc->publishVideoFrame(t.track, pts, std::move(buf), act) : a->pc->publishAudioFrame(t.track, pts, std::move(buf), act);
        if (e.isError()) SIM_CHECK("C04", false, "publish-refused", e.message);
        vf::count("frames_published");
    }
    // presentation times follow the clock, up to pubJitter; in Chaos they may do anything
    void flow(TrackMon& t) {
        if (stopping) return;
        if (c.kind == Kind::Chaos) {
            int n = rng.chance(0.05) ? 1 + static_cast<int>(rng.below(5)) : 1;
            for (int i = 0; i < n; i++) { publish(t); t.pts += t.interval + (rng.chance(0.2) ? rng.range(-t.interval / 3, t.interval / 3) : 0); }
            int64_t wait = t.interval * n;
            if (rng.chance(0.01)) { wait += rng.range(50, 2500) * ms; if (rng.chance(0.7)) t.pts += wait; }
            after(wait, [this, &t, w = std::weak_ptr<int>(life)] { if (!w.expired()) flow(t); });
            return;
        }
        const int64_t late = c.pubJitter ? static_cast<int64_t>(rng.below(static_cast<uint64_t>(c.pubJitter))) : 0;
        const int64_t base = now();
        after(late, [this, &t, base, w = std::weak_ptr<int>(life)] { if (w.expired() || stopping) return; t.pts = std::max(pts0 + base, t.pts + 2); publish(t); });
        int64_t wait = std::max(t.interval, c.pubJitter + ms); // the next one comes after this one
        if (rng.chance(0.005)) wait += rng.range(50, 2500) * ms;
        after(wait, [this, &t, w = std::weak_ptr<int>(life)] { if (!w.expired()) flow(t); });
    }

    bool start() {
        auto ea = a->start(ansA.text()), eb = b->start(ansB.text());
        if (!ea.empty() || !eb.empty()) vf::harnessError("setup refused: " + ea + eb + "\n" + ansA.text() + "\n" + ansB.text());
        const double loss = ab.loss;
        if (c.kind == Kind::Chaos && c.loss > 0.1) ab.loss = ba.loss = 0.1;
        if (!runWhile([&] { return !(a->connected() && b->connected()) && !a->final() && !b->final(); }, 12 * sec) || !a->connected() || !b->connected()) { vf::count("not_connected"); SIM_CHECK("C04", c.kind == Kind::Chaos, "not-connected", a->history() << "| " << b->history()); return false; }
        ab.loss = ba.loss = loss;
        pts0 = rng.range(0, rng.chance(0.5) ? 1000000 : 1000000000000ll);
        auto list = a->pc->getTrackList();
        for (auto& x : list) {
            auto m = std::make_unique<TrackMon>();
            m->track = x; m->ssrc = x->getSSRC(); m->rtxSsrc = x->getRtxSSRC(); m->rtxPt = x->getRtxPayloadId(); m->mid = x->getMedia()->getId();
            size_t i = 0;
            while (i < ansA.media.size() && ansA.media[i].mid != m->mid) i++;
            if (i == ansA.media.size()) vf::harnessError("track of no media");
            m->codec = c.media[i]; m->clock = m->codec == C::Opus ? 48000 : 90000;
            bySsrc[m->ssrc] = m.get();
            if (m->rtxPt) byRtx[m->rtxSsrc] = m.get();
            m->gen = std::make_unique<ref::Gen>(m->codec, rng.fork());
            m->gen->paramsInFrame = !c.csd;
            m->gen->av1Ext = rng.chance(0.3);
            m->pts = pts0; m->interval = c.interval[i]; m->sizeHi = c.sizeHi[i];
            tracks.push_back(std::move(m));
        }
        SIM_CHECK("C03", b->pc->getTrackList().size() == list.size(), "tracks", "subscriber has " << b->pc->getTrackList().size() << " tracks, publisher " << list.size());
        return true;
    }
    void run() {
        if (!start()) return;
        if (c.csd) for (auto& t : tracks) if (t->codec == C::H264 || t->codec == C::H265) {
            std::vector<srtc::ByteBuffer> l;
            for (auto& x : t->gen->csd()) l.push_back(glue::buf(x));
            (void)a->pc->setVideoCodecSpecificData(t->track, std::move(l));
        }
        dropping = c.kind == Kind::Repair;
        for (auto& t : tracks) after(rng.range(0, 50) * ms, [this, p = t.get(), w = std::weak_ptr<int>(life)] { if (!w.expired()) flow(*p); });
        struct Out { int64_t from, to; };
        std::vector<Out> outs;
        const int64_t begin = now();
        for (auto& o : c.outages) {
            outs.push_back({begin + o.first, begin + o.first + o.second});
            at(begin + o.first, [this, w = std::weak_ptr<int>(life)] { if (!w.expired()) { down = true; downBa = c.bothDown; } });
            at(begin + o.first + o.second, [this, w = std::weak_ptr<int>(life)] { if (!w.expired()) { down = downBa = false; } });
        }
        const int64_t end = begin + c.duration;
        while (now() < end - sec && !sim::failed) runFor(50 * ms);
        dropping = false;
        while (now() < end && !sim::failed) runFor(50 * ms);
        stopping = true;
        const int64_t stopped = now();
        if (!sim::failed) runFor((c.length + 800) * ms + c.jitterAb);
        if (sim::failed) return;
        if (c.kind != Kind::Chaos) {
            SIM_CHECK("C04", a->connected() && b->connected(), "not-connected", a->history() << "| " << b->history());
            for (auto& tp : tracks) {
                auto& t = *tp; auto& s = subs[&t];
                s.got.resize(t.pubs.size());
                bool decodable = false; int64_t clear = 0;
                size_t missing = 0, first = 0, expected = 0;
                for (size_t k = 0; k < t.pubs.size(); k++) {
                    auto& p = t.pubs[k];
                    // when things must be all right again after an outage
                    bool broken = false;
                    for (auto& o : outs) {
                        const int64_t slack = resumeAt(t, o.from, o.to);
                        if (p.at >= o.from - 400 * ms && p.at < slack) broken = true;
                    }
                    (void)clear;
                    if (p.lastSent < 0) { SIM_CHECK("C04", broken || !a->connected(), "unsent", ref::cname(t.codec) << " frame " << k << " never left"); continue; }
                    if (broken) { decodable = false; continue; }
                    if (p.lastIdx > s.maxArrived && c.kind == Kind::Repair) { vf::count("tail_lost"); continue; } // nothing came after it to reveal the loss
                    if (c.kind == Kind::Repair) { // or only after the time the frame was due
                        auto d = s.dropped.lower_bound(p.firstIdx);
                        bool late = false;
                        for (; d != s.dropped.end() && *d <= p.lastIdx; ++d) for (auto& [at, i] : s.highs) if (i > *d) { late |= at > p.firstSent + c.ab + c.variability(); break; }
                        if (late) { vf::count("revealed_late"); continue; }
                    }
                    if (!t.isVideo() || p.f.key) decodable = true;
                    if (!decodable) continue;
                    expected++;
                    if (!s.got[k]) {
                        if (!missing) first = k;
                        missing++;
                        if (getenv("VF_MISSING")) { std::cerr << "missing " << k << (p.f.key ? " key" : "") << " packets " << p.lastIdx - p.firstIdx + 1 << ":"; for (auto& n : p.f.nals) std::cerr << " " << vf::hex(n, 4) << "/" << n.size(); std::cerr << "\n"; }
                    }
                }
                vf::count("frames_expected", expected);
                SIM_CHECK("C04", missing == 0, Str("missing-") + kindName(c.kind), ref::cname(t.codec) << ": " << missing << " of " << expected << " frames not delivered, first frame " << first << (missing && t.pubs[first].f.key ? " (key)" : "") << " of " << t.pubs.size() << ", packets " << (missing ? (t.pubs[first].firstIdx & 0xFFFF) : 0) << ".." << (missing ? (t.pubs[first].lastIdx & 0xFFFF) : 0) << ", published at " << (missing ? t.pubs[first].at / 1000.0 : 0) << " ms; dropped " << s.dropped.size() << ", asked " << s.asked.size());
            }
        }
        (void)stopped;
        // C24: each sender report that arrived was passed on
        if (connects == 1 && c.kind != Kind::Chaos) {
            SIM_CHECK("C24", b->srs.size() == srAll.size(), "sr-passed", b->srs.size() << " sender reports passed on, " << srAll.size() << " arrived");
            for (size_t k = 0; k < b->srs.size() && k < srAll.size(); k++) {
                auto& x = b->srs[k].second; auto& y = srAll[k].s;
                SIM_CHECK("C24", (static_cast<uint64_t>(x.ntp.seconds) << 32 | static_cast<uint32_t>(x.ntp.fraction)) == y.ntp && x.rtp == y.rtp && x.packet_count == y.packets && x.octet_count == y.octets, "sr-values", "sender report passed on with other values");
                vf::count("sr_passed");
            }
        }
        for (auto& t : tracks) {
            uint64_t h = vf::hash64(ref::cname(t->codec));
            auto& s = subs[t.get()];
            uint64_t k[] = {t->pubs.size(), t->packets, s.delivered, s.dropped.size(), s.asked.size()};
            vf::sig(vf::hash64(k, sizeof k, h));
        }
        vf::count(Str("sessions_") + kindName(c.kind));
        vf::count("sessions");
    }
    // After an outage [from, to): when frames published from then on must all come through
    int64_t resumeAt(TrackMon& t, int64_t from, int64_t to) {
        uint64_t lost = 0; // packets whose absence the receiver will see as one jump
        for (auto& [i, x] : t.sent) if (x.at >= from - 100 * ms && x.at < to + 100 * ms) lost++;
        int64_t r = to + (c.length + 300) * ms + c.jitterAb;
        if (lost > 900) r += 2200 * ms;
        for (auto* p : {a.get(), b.get()}) for (auto& [at, st] : p->states) if (st == State::Connected && at >= from) r = std::max(r, at + (c.length + 300) * ms + c.jitterAb);
        return r;
    }
};
void e2eCase(vf::Rng& r) {
    sim::failed = false;
    sim::reset(r.next());
    vf::wallLimit(120);
    Cfg c = randomCfg(r);
    vf::note(c.text());
    World w(c, r.fork());
    w.run();
    w.a->destroy(); w.b->destroy();
    if (sim::failed) throw vf::CaseFailed();
}
} // namespace

int main(int argc, char** argv) {
    srtc::setLogLevel(getenv("VF_LOG") ? SRTC_LOG_V : SRTC_LOG_Z);
    std::string mode = "c03";
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) { std::string x = argv[i]; if (x.size() == 3 && x[0] == 'c' && isdigit(x[1])) mode = x; else a.push_back(argv[i]); }
    sim::prop = "C" + mode.substr(1);
    int n = static_cast<int>(a.size());
    return vf::runMain(n, a.data(), "one situation = a distinct history of a track between two connections (codec, frames, packets, losses, requests, deliveries)", {{"e2e", 1, [](vf::Rng& r, int64_t) { e2eCase(r); }}});
}
