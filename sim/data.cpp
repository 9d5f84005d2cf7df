// Data channels of whole connections (C12, C13): a real connection against the scripted peer with a reference SCTP endpoint on top of DTLS,
// over a faulty network; and hostile content from an authenticated peer (C02).
#include "session.h"
#include "../harness/hostile.h"
#include "../harness/refsctp.h"
#include "srtc/logging.h"
#include "srtc/packetizer.h"

using namespace sim;

namespace {
struct World {
    vf::Rng& r;
    std::unique_ptr<Session> s;
    World(vf::Rng& rr, const Setup& st) : r(rr) {
        sim::failed = false;
        sim::reset(r.next());
        vf::wallLimit(60);
        s = std::make_unique<Session>(st, r.fork());
        vf::note(st.text());
        if (r.chance(0.3)) slowThread(s->pc->ep, r.range(1, 20) * ms);
    }
    void begin() {
        auto e = s->start();
        if (!e.empty()) vf::harnessError("setup refused: " + e + "\n" + s->answer.text());
    }
    ~World() { s.reset(); }
};
void finish(World& w) {
    w.s->pc->destroy();
    if (sim::failed) throw vf::CaseFailed();
}

struct Msg { bool text = false; Bytes data; };
bool same(const Msg& a, const Msg& b) { return a.text == b.text && a.data == b.data; }
Str desc(const Msg& m) { return (m.text ? "text of " : "binary of ") + std::to_string(m.data.size()) + " bytes"; }

// The reference SCTP endpoint over the peer's DTLS connection
struct Sctp : refsctp::Events {
    Session& s;
    refsctp::Peer ref;
    bool pack = false, started = false;
    std::deque<Bytes> seen;            // what the endpoint sent
    std::map<uint16_t, Str> label; std::map<Str, uint16_t> stream; std::map<Str, int> opens;
    std::set<Str> accepted;
    std::map<Str, std::deque<Msg>> toPeer, toPc; // outstanding
    uint64_t delivered = 0, packedDatagrams = 0;
    bool judge = true;
    size_t nextDc = 0;
    std::map<Str, int> announced, closedCount;
    std::shared_ptr<int> life = std::make_shared<int>(0);
    std::vector<Bytes> held; bool holding = false;
    std::function<void(const Bytes&)> wireOut;

    Sctp(Session& x, vf::Rng r, bool initiates, uint16_t remotePort) : s(x), ref(*this, r, static_cast<uint16_t>(x.answer.sctpPort), remotePort, initiates) {
        ref.peerParity = s.s.client ? 1 : 0;
        wireOut = s.peer->out;
        s.peer->out = [this](const Bytes& b) { if (holding && !b.empty() && b[0] >= 20 && b[0] <= 63) held.push_back(b); else wireOut(b); };
        s.peer->onData = [this](const Bytes& b) {
            if (seen.size() < 100) seen.push_back(b); else seen[b.size() % 100] = b;
            vf::count("sctp_packets");
            Hold h(*this);
            ref.receive(b, now());
        };
        s.peer->onConnected = [this, old = s.peer->onConnected] { if (old) old(); if (!started) { started = true; tick(); } };
    }
    struct Hold { Sctp& o; bool mine; explicit Hold(Sctp& x) : o(x), mine(!x.holding && x.pack) { if (mine) o.holding = true; } ~Hold() { if (mine) o.flush(); } };
    void flush() { // several DTLS records share a datagram, as RFC 6347 4.1.1 allows
        holding = false;
        Bytes d; size_t n = 0;
        for (auto& b : held) {
            if (!d.empty() && d.size() + b.size() > 1400) { if (n > 1) packedDatagrams++; wireOut(d); d.clear(); n = 0; }
            d.insert(d.end(), b.begin(), b.end()); n++;
        }
        if (n > 1) packedDatagrams++;
        held.clear();
        if (!d.empty()) wireOut(d);
    }
    void tick() {
        { Hold h(*this); ref.start(now()); ref.tick(now()); }
        drain();
        after(5 * ms, [this, w = std::weak_ptr<int>(life)] { if (!w.expired()) tick(); });
    }
    void onSend(const Bytes& p) override { s.peer->sendData(p); }
    void onOpen(const Str& l, uint16_t st) override { label[st] = l; stream[l] = st; opens[l]++; SIM_CHECK("C13", !judge || opens[l] == 1, "opened-twice", "channel '" << l << "' opened " << opens[l] << " times towards the peer"); }
    void onAccepted(uint16_t st) override { accepted.insert(label[st]); }
    void onBad(const Str& what) override { if (judge) for (auto p : {"C12", "C13"}) SIM_CHECK(p, false, "protocol", "the endpoint's SCTP packets break the protocol: " << what); }
    void onMessage(uint16_t st, bool text, const Bytes& m) override { if (judge) got(toPeer[label[st]], {text, m}, "the peer on '" + label[st] + "'"); }
    void got(std::deque<Msg>& exp, const Msg& m, const Str& who) {
        delivered++;
        vf::count("messages_delivered");
        if (!exp.empty() && same(exp.front(), m)) { exp.pop_front(); return; }
        SIM_CHECK("C12", false, "message-order", who << " received " << desc(m) << " where " << (exp.empty() ? Str("nothing is") : desc(exp.front()) + " is") << " next");
        SIM_CHECK("C13", false, "message-order", who << " received " << desc(m) << " where " << (exp.empty() ? Str("nothing is") : desc(exp.front()) + " is") << " next");
    }
    void drain() { // what the endpoint's listener was told
        for (; nextDc < s.pc->dc.size(); nextDc++) {
            auto& e = s.pc->dc[nextDc];
            if (!judge) continue;
            if (e.kind == 'o') { announced[e.label]++; vf::count("opens_announced"); for (auto p : {"C12", "C13"}) SIM_CHECK(p, announced[e.label] == 1, "opened-twice", "channel '" << e.label << "' announced open " << announced[e.label] << " times"); }
            else if (e.kind == 'c') { closedCount[e.label]++; SIM_CHECK("C13", closedCount[e.label] == 1 && announced[e.label] == 1, "closed-twice", "channel '" << e.label << "' closed " << closedCount[e.label] << " times, opened " << announced[e.label]); }
            else {
                SIM_CHECK("C13", announced[e.label] == 1 && !closedCount[e.label], "message-outside", "message on '" << e.label << "' outside its open phase");
                got(toPc[e.label], {e.kind == 't', e.data}, "the endpoint on '" + e.label + "'");
            }
        }
    }
    bool settled() { for (auto& l : {Str("one"), Str("two")}) if (!announced[l] || !opens[l]) return false; for (auto& [id, l] : label) if (!announced[l]) return false; return true; }
    size_t outstanding() const { size_t n = 0; for (auto& x : toPeer) n += x.second.size(); for (auto& x : toPc) n += x.second.size(); return n; }
};
uint16_t offerPort(const Str& offer) { for (auto& l : lines(offer)) if (l.rfind("a=sctp-port:", 0) == 0) return static_cast<uint16_t>(atoi(l.c_str() + 12)); vf::harnessError("no sctp-port in the offer"); return 0; }

srtc::Error sendVia(Pc& pc, const Str& label, const Msg& m) {
    if (m.text) return pc.pc->sendDataChannelText(label, Str(m.data.begin(), m.data.end()));
    return pc.pc->sendDataChannelBinary(label, srtc::ByteBuffer(m.data.data(), m.data.size()));
}

void channels(vf::Rng& r) {
    Setup st = randomSetup(r);
    st.datachannel = true;
    st.dead = r.chance(0.2) ? 1 : 0; st.liveAt = r.below(st.dead + 1);
    World w(r, st);
    Session& s = *w.s;
    s.peer->dupTolerant = true;
    s.peer->judgeUndecodable = false;
    const int64_t max = r.pickOf<int64_t>({262144, 65536, 65535, 1100, 1101, 5000, 100, 0});
    s.answer.maxMessage = max;
    s.answer.sctpPort = r.chance(0.5) ? 5000 : static_cast<unsigned>(1 + r.below(65535));
    s.wire->toPeer.delay = r.range(1, 40) * ms; s.wire->toPc.delay = r.range(1, 40) * ms;
    Sctp d(s, r.fork(), r.chance(0.6), offerPort(s.pc->offer->generate().first));
    d.pack = r.chance(0.5);
    d.ref.rwnd = r.pickOf<uint32_t>({131072, 131072, 65536, 20000, 3000});
    // before negotiation
    auto refused = [&](const Str& label, const Msg& m, const char* why) {
        auto e = sendVia(*s.pc, label, m);
        SIM_CHECK("C13", e.isError(), "not-refused", desc(m) << " " << why << " was accepted");
        vf::count("refused_messages");
    };
    const bool text = r.chance(0.5);
    refused("one", {text, r.bytes(10)}, "before negotiation");
    w.begin();
    if (max) SIM_CHECK("C13", s.pc->pc->getDataChannelMaxMessageSize() == max, "maximum", "getDataChannelMaxMessageSize() is " << s.pc->pc->getDataChannelMaxMessageSize() << ", the answer says " << max);
    if (!runWhile([&] { return !s.pc->connected() || !s.peer->handshakeDone; }, 6 * sec)) { SIM_CHECK("C12", false, "not-connected", s.pc->history()); finish(w); return; }
    // faults, once both halves of the handshake are done
    const int style = static_cast<int>(r.below(6));
    for (auto* p : {&s.wire->toPeer, &s.wire->toPc}) {
        if (style >= 1) p->loss = r.unit() * (style == 5 ? 0.25 : 0.1);
        if (style >= 2) p->dup = r.unit() * 0.3;
        if (style >= 3) p->jitter = r.range(1, 80) * ms;
    }
    s.flowing = r.chance(0.3);
    if (s.flowing) s.flow(20 * ms);
    const Str names[] = {"one", "two", "peer-a", "peer-b"};
    int peerChannels = static_cast<int>(r.below(3));
    int64_t openAt = now() + r.range(0, 500) * ms, next = now();
    int left = static_cast<int>(r.range(5, 60));
    uint64_t h = 0;
    auto size = [&]() -> size_t {
        size_t n;
        switch (r.below(7)) { case 0: n = 0; break; case 1: n = 1 + r.below(8); break; case 2: n = 1090 + r.below(25); break; case 3: n = (1 + r.below(6)) * 1100 + r.below(3) - 1; break; case 4: n = max ? static_cast<size_t>(max) - r.below(2) : 20000; break; default: n = r.below(3000); }
        if (n > 30000 && !r.chance(0.1)) n = 30000;
        return max ? std::min<size_t>(n, static_cast<size_t>(max)) : n;
    };
    const int64_t stopAt = now() + 20 * sec;
    int64_t upAgain = 0;
    while (!sim::failed && left > 0 && now() < stopAt) {
        if (peerChannels && now() >= openAt && d.ref.established) {
            const Str l = names[1 + peerChannels];
            uint16_t id = static_cast<uint16_t>((st.client ? 0 : 1) + 2 * (peerChannels - 1 + r.below(3) * 10));
            while (d.label.count(id)) id = static_cast<uint16_t>(id + 2);
            d.label[id] = l; d.stream[l] = id;
            Sctp::Hold hold(d);
            d.ref.open(id, l, false, r.chance(0.3) ? "proto" : "");
            peerChannels--;
        }
        for (int k = r.chance(0.2) ? 8 : 1; now() >= next && k > 0 && left > 0; k--) {
            const Str& l = names[r.below(4)];
            Msg m{r.chance(0.5), r.bytes(size())};
            if (r.chance(0.5)) {
                if (max && r.chance(0.1)) { m.data = r.bytes(static_cast<size_t>(max) + 1 + r.below(300)); refused(l, m, "over the maximum"); continue; }
                d.drain();
                if (!d.announced.count(l) || d.closedCount.count(l)) continue;
                auto e = sendVia(*s.pc, l, m);
                for (auto p : {"C12", "C13"}) SIM_CHECK(p, e.isOk(), "refused", desc(m) << " on open channel '" << l << "', maximum " << max << ": " << e.message);
                if (e.isOk()) d.toPeer[l].push_back(m);
            } else {
                if (!d.stream.count(l) || (!d.accepted.count(l) && !d.opens.count(l))) continue;
                Sctp::Hold hold(d);
                d.toPc[l].push_back(m);
                d.ref.message(d.stream[l], m.text, m.data, r.chance(0.2) ? std::max<size_t>(1 + r.below(1100), m.data.size() / 200) : 1100);
                d.ref.pump(now());
            }
            left--;
            h = vf::hash64(&k, sizeof k, h * 31 + m.data.size());
            vf::count("messages_sent");
        }
        if (now() >= next) next = now() + r.pickOf<int64_t>({1, 10, 50, 300}) * ms;
        if (upAgain && now() >= upAgain) { s.wire->toPeer.up = s.wire->toPc.up = true; upAgain = 0; }
        if (!upAgain && r.chance(0.003)) { auto p = r.chance(0.5) ? &s.wire->toPeer : &s.wire->toPc; p->up = false; upAgain = now() + r.range(100, 3000) * ms; vf::count("outages"); }
        runFor(r.range(1, 20) * ms);
    }
    for (auto* p : {&s.wire->toPeer, &s.wire->toPc}) { p->up = true; p->loss = 0; p->dup = 0; }
    const int64_t deadline = now() + 45 * sec;
    while (!sim::failed && now() < deadline && (d.outstanding() || !s.pc->connected() || !d.settled()) && !s.pc->final()) { runFor(50 * ms); d.drain(); }
    d.drain();
    if (!sim::failed) {
        SIM_CHECK("C12", !s.pc->final(), "session-lost", s.pc->history());
        SIM_CHECK("C12", d.outstanding() == 0, "message-missing", d.outstanding() << " accepted messages never arrived although the network delivers again");
        for (auto& l : {Str("one"), Str("two")}) for (auto p : {"C12", "C13"}) {
            SIM_CHECK(p, d.announced[l] == 1, "not-opened", "channel '" << l << "' was not announced open");
            SIM_CHECK(p, d.opens[l] == 1, "not-opened", "channel '" << l << "' was not opened towards the peer");
        }
        for (auto& [id, l] : d.label) if (l[0] == 'p') SIM_CHECK("C13", d.announced[l] == 1, "not-opened", "the peer's channel '" << l << "' was not announced open");
        for (auto& [l, id] : d.stream) if (l[0] != 'p') SIM_CHECK("C13", id % 2 == (st.client ? 1 : 0), "stream-parity", "channel '" << l << "' uses stream " << id << " although the endpoint is the DTLS " << (st.client ? "server" : "client"));
    }
    vf::count("packed_datagrams", d.packedDatagrams);
    vf::count("channel_sessions");
    vf::sig(h);
    d.judge = false;
    finish(w);
}

// ---------------------------------------------------------------- C02
struct GoodVideo { // a well-formed video stream towards the endpoint
    Session& s; ref::Gen gen; std::shared_ptr<srtc::Track> track; std::shared_ptr<srtc::Packetizer> pk;
    uint32_t ssrc = 0, rtxSsrc = 0; unsigned pt = 0, rtxPt = 0;
    uint16_t seq = 0; uint32_t roc = 0, ts = 0;
    std::vector<Bytes> corpus; vf::Rng rng;
    std::map<uint32_t, std::pair<ref::Frame, std::vector<Bytes>>> sent; std::set<uint32_t> tail;
    GoodVideo(Session& x, vf::Rng r) : s(x), gen(x.s.videoCodec[0], r.fork()), rng(r.fork()) {
        gen.paramsInFrame = true;
        for (auto& m : s.answer.media) if (m.kind == "video") { ssrc = m.ssrc; rtxSsrc = m.rtxSsrc; pt = m.pt; rtxPt = m.rtxPt; }
        track = glue::makeTrack(x.s.videoCodec[0], srtc::Direction::Publish, ssrc, static_cast<uint8_t>(pt));
        pk = srtc::Packetizer::make(track).first;
        seq = static_cast<uint16_t>(rng.next()); ts = ts0 = static_cast<uint32_t>(rng.next());
    }
    uint32_t ts0 = 0; int64_t began = now(); uint32_t elapsed = 0;
    void advance() { // timestamps follow the clock
        elapsed = std::max(elapsed + 1, static_cast<uint32_t>((now() - began) * 9 / 100));
        ts = ts0 + elapsed;
    }
    void next(uint16_t& sq, uint32_t& ro) { sq = seq; ro = roc; if (++seq == 0) roc++; }
    void frame(bool key, bool isTail) {
        auto f = gen.next(key, 1 + rng.below(3000));
        std::vector<Bytes> params;
        for (auto* x : {&gen.vps, &gen.sps, &gen.pps}) if (!x->empty()) params.push_back(*x);
        sent[ts] = {f, params};
        if (isTail) tail.insert(ts);
        for (auto& p : pk->generate({}, 16, now(), glue::buf(f.data))) {
            auto pay = glue::bytes(p->getPayload());
            if (corpus.size() < 100) corpus.push_back(pay); else corpus[rng.below(100)] = pay;
            uint16_t q; uint32_t ro; next(q, ro);
            s.peer->sendRtp(hostile::rtp(rng, ssrc, pt, p->getMarker(), q, ts, pay, 0, {}), ro);
        }
    }
};
void hostileCase(vf::Rng& r) {
    Setup st = randomSetup(r);
    st.audio = true;
    if (r.chance(0.8)) st.video = true;
    st.dead = 0; st.liveAt = 0;
    st.datachannel = r.chance(0.6);
    World w(r, st);
    Session& s = *w.s;
    s.wire->toPeer.delay = r.range(1, 40) * ms; s.wire->toPc.delay = r.range(1, 40) * ms;
    std::unique_ptr<Sctp> d;
    if (st.datachannel) { d = std::make_unique<Sctp>(s, r.fork(), r.chance(0.6), offerPort(s.pc->offer->generate().first)); d->judge = false; }
    w.begin();
    if (!runWhile([&] { return !s.pc->connected() || !s.peer->keys; }, 6 * sec)) { SIM_CHECK("C02", false, "not-connected", s.pc->history()); finish(w); return; }
    runFor(50 * ms);
    const bool sub = !st.publish;
    // ---- the attacker's knowledge
    hostile::RtcpWorld rw;
    for (auto& m : s.answer.media) { if (m.ssrc) rw.ssrcs.push_back(m.ssrc); if (m.rtxSsrc) rw.ssrcs.push_back(m.rtxSsrc); }
    for (auto& m : s.offer.media) for (auto& p : m.ssrcs) { rw.ssrcs.push_back(p.first); if (p.second) rw.ssrcs.push_back(p.second); }
    struct Out { uint32_t ssrc; uint16_t seq; Bytes pay; };
    std::deque<Out> recent; std::set<uint32_t> rtxSsrcs;
    for (auto& m : s.offer.media) for (auto& p : m.ssrcs) if (p.second) rtxSsrcs.insert(p.second);
    uint64_t rtxSeen = 0; Bytes lastRtx;
    uint64_t resent = 0; std::map<std::pair<uint32_t, uint16_t>, int> seenSeq;
    unsigned twccId = 0;
    for (auto& m : s.answer.media) for (auto& e : m.extmap) if (e.find("transport-wide") != Str::npos) twccId = static_cast<unsigned>(atoi(e.c_str() + 9));
    s.peer->onRtp = [&](const Bytes& p, const Bytes&, uint64_t) {
        glue::Rtp x; Str err;
        if (!glue::parseRtp(p, x, err)) return;
        if (twccId) if (auto* e = x.element(static_cast<uint8_t>(twccId)); e && e->size() >= 2) rw.twcc = be16(e->data());
        if (rtxSsrcs.count(x.ssrc)) { rtxSeen++; lastRtx = x.payload; return; }
        rw.seqs.push_back(x.seq);
        if (rw.seqs.size() > 200) rw.seqs.erase(rw.seqs.begin(), rw.seqs.begin() + 100);
        if (seenSeq[{x.ssrc, x.seq}]++) { resent++; return; }
        recent.push_back({x.ssrc, x.seq, x.payload});
        if (recent.size() > 200) recent.pop_front();
    };
    const std::vector<uint8_t> ext{1, 2, 3, 4, 5, 6, 7, 14, 15};
    std::unique_ptr<GoodVideo> gv;
    if (sub && st.video) gv = std::make_unique<GoodVideo>(s, r.fork());
    const bool wild = r.chance(0.3); // sequence numbers and timestamps of the video stream are hostile as well
    uint32_t aSsrc = 0; unsigned aPt = 0;
    for (auto& m : s.answer.media) if (m.kind == "audio") { aSsrc = m.ssrc; aPt = m.pt; }
    std::vector<std::pair<uint32_t, Bytes>> audio;
    uint64_t h = 0;
    uint16_t rq = 0;
    auto attackVideo = [&] {
        gv->advance();
        for (int64_t k = r.chance(0.6) ? 1 : r.range(2, 6); k > 0; k--) {
            auto pay = hostile::payload(r, st.videoCodec[0], gv->corpus);
            h = vf::hash64(pay.data(), std::min<size_t>(pay.size(), 3), h);
            uint16_t q; uint32_t ro; gv->next(q, ro);
            uint32_t t = gv->ts;
            const bool rtx = gv->rtxSsrc && gv->rtxPt && r.chance(0.2), m = k == 1 ? r.chance(0.8) : r.chance(0.1);
            if (wild && r.chance(0.2)) t = static_cast<uint32_t>(r.next());
            Bytes b;
            if (rtx) {
                Bytes x; hostile::p16(x, wild && r.chance(0.2) ? static_cast<uint32_t>(r.next() & 0xFFFF) : q); hostile::app(x, pay);
                if (wild && r.chance(0.1)) x.resize(r.below(2));
                b = hostile::rtp(r, gv->rtxSsrc, gv->rtxPt, m, rq++, t, x, wild ? 0.15 : 0, ext);
            } else b = hostile::rtp(r, gv->ssrc, wild && r.chance(0.05) ? static_cast<unsigned>(r.below(128)) : gv->pt, m, q, t, pay, 0.15, ext);
            if (b[1] >= 192 && b[1] <= 223) continue; // would be taken for a control packet
            if (b.size() < 12) continue;
            s.peer->sendRtp(b, rtx ? 0 : ro);
            vf::count("hostile_rtp");
        }
    };
    auto attackRtcp = [&] {
        auto b = hostile::rtcp(r, rw);
        if (b.size() < 8) return;
        b[0] = static_cast<uint8_t>(b[0] | 0x80); b[1] = static_cast<uint8_t>(b[1] < 192 || b[1] > 223 ? 201 : b[1]);
        h = vf::hash64(b.data(), 4, h);
        s.peer->sendRtcp(b);
        vf::count("hostile_rtcp");
    };
    auto attackData = [&] {
        Bytes b;
        if (d && !d->seen.empty() && r.chance(0.7)) {
            b = d->seen[r.below(d->seen.size())];
            if (b.size() < 12) return;
            std::swap(b[0], b[2]); std::swap(b[1], b[3]);
            refsctp::Packet p{static_cast<uint16_t>(s.answer.sctpPort), d->ref.remote, r.chance(0.9) ? d->ref.peerTag : 0, {}};
            Str why;
            if (auto q = refsctp::parse(d->seen[r.below(d->seen.size())], why)) p.chunks = q->chunks;
            for (size_t n = r.below(4); n > 0; n--) p.chunks.push_back({r.pickOf<uint8_t>({0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 14, 0x40, 0x82, 0xC0, static_cast<uint8_t>(r.next())}), static_cast<uint8_t>(r.below(8)), hostile::fill(r, r.below(60))});
            for (auto& c : p.chunks) {
                if (c.type == 6 || c.type == 14) c.type = 0;
                if (r.chance(0.5)) c.body = hostile::mutate(r, c.body);
                if (c.type == 0 && c.body.size() >= 12 && r.chance(0.7)) { uint32_t t = d->ref.nextTsn + static_cast<uint32_t>(r.range(-5, 300)); for (int i = 0; i < 4; i++) c.body[static_cast<size_t>(i)] = static_cast<uint8_t>(t >> (24 - 8 * i)); }
                if (c.body.size() > 1100) c.body.resize(1100);
            }
            b = refsctp::build(p);
            if (r.chance(0.1)) { b = hostile::mutate(r, b); if (b.size() >= 12 && r.chance(0.7)) refsctp::setCrc(b); }
        } else b = r.bytes(1 + r.below(r.chance(0.1) ? 3000 : 100));
        if (b.empty()) return;
        if (b.size() > 1400) b.resize(1400);
        s.peer->sendData(b);
        vf::count("hostile_sctp");
    };
    const int64_t end = now() + r.range(1, 12) * sec;
    int64_t next = now();
    const int intensity = static_cast<int>(r.range(1, 6));
    auto sendAudio = [&] {
        Bytes pay = r.bytes(10 + r.below(100));
        Bytes b{0x80, static_cast<uint8_t>(aPt | 0x80)};
        put16(b, s.seq); put32(b, s.ts); put32(b, aSsrc);
        b.insert(b.end(), pay.begin(), pay.end());
        s.peer->sendRtp(b, s.roc);
        audio.push_back({s.ts, pay});
        if (++s.seq == 0) s.roc++;
        s.ts += 960;
    };
    if (r.chance(0.7) && gv) { gv->frame(true, false); }
    while (now() < end && !sim::failed && s.pc->connected()) {
        if (now() >= next) {
            if (sub) { sendAudio(); if (gv && r.chance(0.3)) { gv->advance(); gv->frame(r.chance(0.2), false); } }
            else s.tickMedia();
            next += 20 * ms;
        }
        for (int64_t k = r.range(0, intensity); k > 0; k--) { switch (r.below(3)) { case 0: if (gv) attackVideo(); break; case 1: attackRtcp(); break; default: if (st.datachannel) attackData(); else if (r.chance(0.05)) attackData(); } }
        runUntil(std::min(next, now() + r.range(1, 20) * ms));
    }
    SIM_CHECK("C02", s.pc->connected() && s.pc->states.size() == 2, "session-disturbed", s.pc->history());
    if (sim::failed) { if (d) d->judge = false; finish(w); return; }
    // ---- the peer behaves again
    if (sub) {
        if (gv && !wild) for (int i = 0; i < 10; i++) { gv->advance(); gv->frame(i == 0, true); sendAudio(); runFor(33 * ms); }
        runFor(1500 * ms);
        std::vector<Bytes> gotAudio; std::set<uint32_t> gotVideo;
        for (auto& f : s.pc->frames) {
            if (f.track->getMediaType() == srtc::MediaType::Audio) { gotAudio.push_back(f.data); continue; }
            if (!gv || wild) continue;
            auto it = gv->sent.find(static_cast<uint32_t>(f.ts));
            if (it == gv->sent.end()) continue;
            Str err;
            SIM_CHECK("C02", ref::sameFrame(it->second.first, it->second.second, f.data, err), "corrupted", "a well-formed frame was altered by malformed packets: " << err);
            gotVideo.insert(static_cast<uint32_t>(f.ts));
            vf::count("genuine_frames");
        }
        bool sameA = gotAudio.size() == audio.size();
        for (size_t i = 0; sameA && i < audio.size(); i++) sameA = gotAudio[i] == audio[i].second;
        SIM_CHECK("C02", sameA, "other-track-disturbed", gotAudio.size() << " audio frames delivered of " << audio.size() << " while the video stream was hostile");
        vf::count("audio_frames", audio.size());
        if (gv && !wild) for (auto t : gv->tail) { SIM_CHECK("C02", gotVideo.count(t), "not-resumed", "a well-formed frame after the malformed packets was not delivered"); vf::count("resumed_frames"); }
    } else {
        const uint64_t before = s.peer->rtpSeen;
        for (int i = 0; i < 25; i++) { s.tickMedia(); runFor(20 * ms); }
        SIM_CHECK("C02", s.peer->rtpSeen >= before + 20, "publishing-stopped", s.peer->rtpSeen - before << " packets in 500 ms");
        SIM_CHECK("C02", s.peer->undecodable == 0, "publishing-disturbed", s.peer->undecodable << " undecodable packets");
        if (!recent.empty()) {
            // a well-formed request is still answered
            Out o = recent.back();
            bool nack = true;
            if (nack) {
                Bytes body; put32(body, o.ssrc); put16(body, o.seq); put16(body, 0);
                const uint64_t was = rtxSeen + resent;
                s.peer->sendRtcp(makeRtcp(1, 205, 1, body));
                runFor(300 * ms);
                SIM_CHECK("C02", rtxSeen + resent > was, "request-unanswered", "a well-formed retransmission request was not answered after the malformed control packets");
                vf::count("requests_answered");
            }
            if (st.video) {
                const uint64_t was = s.pc->keyRequests;
                uint32_t vs = 0;
                for (auto& m : s.offer.media) if (m.kind == "video") vs = m.ssrc;
                Bytes body; put32(body, vs);
                s.peer->sendRtcp(makeRtcp(1, 206, 1, body));
                runFor(300 * ms);
                SIM_CHECK("C02", s.pc->keyRequests > was, "request-unanswered", "a well-formed key frame request was not reported after the malformed control packets");
            }
        }
        for (auto& [t, x] : s.pc->pubStats) SIM_CHECK("C02", std::isfinite(x.packets_lost_percent) && std::isfinite(x.rtt_ms) && x.packets_lost_percent >= 0 && x.packets_lost_percent <= 100, "statistics", "lost " << x.packets_lost_percent << " rtt " << x.rtt_ms);
    }
    SIM_CHECK("C02", s.pc->connected() && s.pc->states.size() == 2, "session-disturbed", s.pc->history());
    vf::count("sessions_survived");
    vf::sig(h);
    s.peer->onRtp = nullptr;
    finish(w);
}
} // namespace

int main(int argc, char** argv) {
    srtc::setLogLevel(getenv("VF_LOG") ? SRTC_LOG_V : SRTC_LOG_Z);
    std::string mode = "c12";
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) { std::string x = argv[i]; if (x.size() == 3 && x[0] == 'c' && isdigit(x[1])) mode = x; else a.push_back(argv[i]); }
    sim::prop = "C" + mode.substr(1);
    int n = static_cast<int>(a.size());
    if (mode == "c02") return vf::runMain(n, a.data(), "one situation = a distinct sequence of hostile packet beginnings in one session", {{"hostile", 1, [](vf::Rng& r, int64_t) { hostileCase(r); }}});
    return vf::runMain(n, a.data(), "one situation = a distinct sequence of message sizes in one session", {{"channels", 1, [](vf::Rng& r, int64_t) { channels(r); }}});
}
