// Whole connections in the deterministic world: ICE, DTLS, liveness, lifecycle and hostile datagrams (C01, C07, C08, C09, C10).
#include "session.h"
#include "srtc/logging.h"
#include <climits>

using namespace sim;

namespace {
struct World {
    vf::Rng& r;
    std::unique_ptr<Session> s;
    World(vf::Rng& rr, const Setup& st) : r(rr) {
        sim::failed = false;
        sim::reset(r.next());
        vf::wallLimit(60);
        s = std::make_unique<Session>(st, r.fork());
        vf::note(st.text());
        if (r.chance(0.3)) slowThread(s->pc->ep, r.range(1, 20) * ms);
    }
    void begin() {
        auto e = s->start();
        if (!e.empty()) vf::harnessError("setup refused: " + e + "\n" + s->answer.text());
    }
    ~World() { s.reset(); }
};
void finish(World& w) {
    w.s->pc->destroy();
    SIM_CHECK("C09", fdsAlive() == 0, "sockets-left", fdsAlive() << " sockets still open after destruction");
    if (sim::failed) throw vf::CaseFailed();
}
int64_t liveStart(const Session& s) {
    // candidates of one family start 100 ms apart
    bool v6 = s.answer.candidates[s.s.liveAt].ss.ss_family == AF_INET6;
    int64_t n = 0;
    for (size_t i = 0; i < s.s.liveAt; i++) if ((s.answer.candidates[i].ss.ss_family == AF_INET6) == v6) n++;
    return n * 100 * ms;
}
int64_t lastStart(const Session& s) {
    int64_t a = 0, b = 0;
    for (auto& c : s.answer.candidates) (c.ss.ss_family == AF_INET6 ? a : b)++;
    return (std::max(a, b) - 1) * 100 * ms;
}

// ---------------------------------------------------------------- C10
// Evidence of the peer being there, as it reaches the endpoint
struct Liveness {
    Session& s;
    int64_t lastGood = -1, firstGood = -1, connectedAt = -1;
    std::set<Bytes> answered; std::set<uint64_t> seen;
    std::map<Bytes, int64_t> asked; // transaction -> sent
    std::deque<int64_t> good;
    // The last evidence the endpoint must have read by now: what came within the last 80 ms may still wait in the socket
    int64_t known() const { for (auto i = good.rbegin(); i != good.rend(); ++i) if (*i <= now() - 80 * ms) return *i; return connectedAt; }
    void evidence() { lastGood = now(); if (firstGood < 0) firstGood = lastGood; good.push_back(now()); while (good.size() > 5000) good.pop_front(); }
    explicit Liveness(Session& x) : s(x) {
        auto to = s.wire->toPeer.deliver;
        listen(s.wire->peerAddr, [this](int, const Bytes& b) {
            if (stun5389::looksLike(b) && be16(&b[0]) == stun5389::Request) asked[Bytes(b.begin() + 8, b.begin() + 20)] = now();
            s.wire->toPeer.send(b);
        });
        s.wire->toPc.deliver = [this](const Bytes& b) {
            if (b.size() >= 20) {
                if (stun5389::looksLike(b) && be16(&b[0]) == stun5389::Success) {
                    Bytes tx(b.begin() + 8, b.begin() + 20);
                    if (asked.count(tx) && now() - asked[tx] < 4900 * ms && answered.insert(tx).second) evidence();
                } else if (b[0] >= 128 && b[0] <= 191 && seen.insert(vf::hash64(b.data(), b.size())).second) evidence();
            }
            s.wire->inject(b);
        };
        s.pc->onState = [this](State st) {
            if (st == State::Connected) { lastGood = std::max(lastGood, now()); connectedAt = now(); }
            if (st == State::Connecting && connectedAt >= 0)
                SIM_CHECK("C10", now() - known() >= 4800 * ms, "spurious-interruption", "connection reported lost " << (now() - known()) / ms << " ms after the peer's last packet; " << s.pc->history());
            if (st == State::Failed && connectedAt >= 0)
                SIM_CHECK("C10", now() - known() >= 9600 * ms, "failed-early", "failed " << (now() - known()) / ms << " ms after the peer's last packet; " << s.pc->history());
        };
    }
    void step(int64_t d) {
        const int64_t end = now() + d;
        while (now() < end && !sim::failed) {
            runUntil(std::min(end, now() + 50 * ms));
            if (connectedAt >= 0) {
                if (s.pc->connected()) SIM_CHECK("C10", now() - lastGood <= 7000 * ms, "silence-unnoticed", "still connected " << (now() - lastGood) / ms << " ms after the peer's last packet");
                if (!s.pc->final()) SIM_CHECK("C10", now() - lastGood <= 12500 * ms, "never-fails", stateName(s.pc->current()) << " " << (now() - lastGood) / ms << " ms after the peer's last packet");
            }
        }
    }
    bool connect(int64_t by) {
        while (now() < by && !s.pc->connected() && !s.pc->final()) runUntil(now() + 10 * ms);
        return s.pc->connected();
    }
};
void traffic(Session& s, vf::Rng& r) {
    if (r.chance(0.4)) s.peer->stunEvery = r.range(500, 4000) * ms;
}
void c10connect(vf::Rng& r) {
    Setup st = randomSetup(r);
    const bool others = r.chance(0.08); // the others have failed by the time the last candidate answers
    if (others) { st.dead = 5; st.liveAt = 5; }
    World w(r, st);
    Session& s = *w.s;
    Liveness l(s);
    traffic(s, r);
    s.wire->toPeer.delay = r.range(0, 75) * ms; s.wire->toPc.delay = r.range(0, 75) * ms;
    const int mode = others ? 3 : static_cast<int>(r.below(3));
    int64_t from = 0;
    std::map<int, int> dropped;
    if (mode == 0) { // lost datagrams
        size_t lose = r.below(3);
        std::set<uint64_t> a, b;
        for (size_t i = 0; i < lose; i++) (r.chance(0.5) ? a : b).insert(r.below(r.chance(0.7) ? 12 : 30));
        auto na = std::make_shared<uint64_t>(0), nb = std::make_shared<uint64_t>(0);
        s.wire->toPeer.drop = [a, na](const Bytes&) { return a.count((*na)++) != 0; };
        s.wire->toPc.drop = [b, nb](const Bytes&) { return b.count((*nb)++) != 0; };
        if (r.chance(0.3)) { s.wire->toPeer.dup = s.wire->toPc.dup = 0.2; }
        std::ostringstream o; o << st.text() << " lose>"; for (auto x : a) o << x << ","; o << " <"; for (auto x : b) o << x << ","; o << " rtt " << (s.wire->toPeer.delay + s.wire->toPc.delay) / ms;
        vf::note(o.str());
        vf::count("lossy_connects", lose ? 1 : 0);
    } else if (mode == 1) { // the peer starts answering late
        s.peer->answerStun = false;
        from = r.range(100, 3000) * ms;
        at(from, [&s, w1 = std::weak_ptr<int>(s.peer->life)] { if (!w1.expired()) s.peer->answerStun = true; });
        vf::note(st.text() + " peer answers from " + std::to_string(from / ms) + " ms");
        vf::count("late_connects");
    } else if (mode == 3) {
        s.peer->answerStun = false;
        s.wire->toPeer.delay = r.range(0, 10) * ms; s.wire->toPc.delay = r.range(0, 10) * ms;
    } else { // large round trip
        s.wire->toPeer.delay = r.range(75, 300) * ms; s.wire->toPc.delay = r.range(75, 300) * ms;
        vf::count("slow_connects");
    }
    w.begin();
    s.peer->stunLoop();
    const int64_t t0 = liveStart(s);
    if (mode == 3) {
        from = t0 + r.range(4000, 4700) * ms;
        at(from, [&s, w1 = std::weak_ptr<int>(s.peer->life)] { if (!w1.expired()) s.peer->answerStun = true; });
        vf::note(st.text() + " peer answers from " + std::to_string(from / ms) + " ms, candidate started at " + std::to_string(t0 / ms));
        vf::count("last_hope_connects");
    }
    bool ok = l.connect(t0 + 5600 * ms);
    if (mode == 3 && !ok && !(l.firstGood >= from && l.firstGood <= t0 + 4600 * ms)) vf::count("no_request_in_time");
    else SIM_CHECK("C10", ok, "not-connected", "reachable candidate, mode " << mode << ", " << s.pc->history());
    if (ok && s.pc->connected()) {
        vf::count("connected");
        s.wire->toPeer.drop = s.wire->toPc.drop = nullptr; // (losing both keep-alives in a row is silence)
        l.step(r.range(1, 8) * sec);
        SIM_CHECK("C10", s.pc->connected(), "did-not-stay", s.pc->history());
    }
    if (st.dead) vf::count("dead_candidates", st.dead);
    vf::sig("connect:" + std::to_string(mode) + std::to_string(st.dead) + std::to_string(st.liveAt) + (st.v6 ? "6" : "4") + (st.client ? "s" : "c") + std::to_string(st.certIndex) + st.profiles + std::to_string(s.peer->dtlsDatagrams));
    finish(w);
}
void c10stay(vf::Rng& r) {
    Setup st = randomSetup(r);
    World w(r, st);
    Session& s = *w.s;
    Liveness l(s);
    traffic(s, r);
    s.wire->toPeer.delay = r.range(1, 150) * ms; s.wire->toPc.delay = r.range(1, 150) * ms;
    const int kind = static_cast<int>(r.below(st.audio || st.video ? 4 : 1)); // 0 idle, 1 steady media, 2 bursts of media, 3 media only (STUN unanswered, subscriber)
    w.begin();
    s.peer->stunLoop();
    if (!l.connect(6 * sec)) { SIM_CHECK("C10", false, "not-connected", s.pc->history()); finish(w); return; }
    int64_t mediaEvery = r.range(20, 1500) * ms;
    if (kind == 1 || (kind == 3 && !st.publish)) { s.flowing = true; s.flow(mediaEvery); }
    if (kind == 3 && !st.publish) s.peer->answerStun = false;
    const int64_t total = r.range(20, 120) * sec;
    const int64_t end = now() + total;
    if (kind == 2) {
        while (now() < end && !sim::failed) {
            if (s.flowing) s.flowing = false; else { s.flowing = true; s.flow(mediaEvery); }
            l.step(r.range(300, 9000) * ms);
        }
    } else l.step(total);
    SIM_CHECK("C10", s.pc->states.size() == 2, "connection-flapped", "peer answers everything, kind " << kind << ": " << s.pc->history());
    vf::count("idle_seconds", static_cast<uint64_t>(total / sec));
    vf::sig("stay:" + std::to_string(kind) + std::to_string(mediaEvery / 50000) + std::to_string(total / sec / 10) + (st.publish ? "p" : "s") + (st.datachannel ? "d" : "") + std::to_string(s.wire->toPeer.delay / 20000));
    finish(w);
}
void c10silence(vf::Rng& r) {
    Setup st = randomSetup(r);
    World w(r, st);
    Session& s = *w.s;
    Liveness l(s);
    traffic(s, r);
    s.wire->toPeer.delay = r.range(1, 100) * ms; s.wire->toPc.delay = r.range(1, 100) * ms;
    const bool media = r.chance(0.5) && (st.audio || st.video);
    w.begin();
    s.peer->stunLoop();
    if (!l.connect(6 * sec)) { SIM_CHECK("C10", false, "not-connected", s.pc->history()); finish(w); return; }
    if (media) { s.flowing = true; s.flow(r.range(20, 500) * ms); }
    std::ostringstream o; o << st.text() << (media ? " media" : " idle");
    for (int round = 0; round < 4 && !s.pc->final() && !sim::failed; round++) {
        l.step(r.range(0, 12000) * ms);
        if (!s.pc->connected()) break;
        // silence in one or both directions
        const int how = static_cast<int>(r.below(3));
        if (how != 1) s.wire->toPc.up = false;
        if (how != 0) s.wire->toPeer.up = false;
        bool mediaStillArrives = how == 1 && media && !st.publish;
        const int64_t t0 = now();
        const bool forever = r.chance(0.25);
        o << " cut" << how << "@" << t0 / ms;
        vf::note(o.str());
        if (mediaStillArrives) { // only the other way is cut: what arrives keeps the connection
            l.step(r.range(6, 20) * sec);
            SIM_CHECK("C10", s.pc->connected(), "lost-while-receiving", s.pc->history());
            s.wire->toPeer.up = true;
            vf::count("one_way_cuts");
            continue;
        }
        if (forever) {
            l.step(14 * sec);
            SIM_CHECK("C10", s.pc->current() == State::Failed, "not-failed", "silent for 14 s, " << s.pc->history());
            vf::count("silences_forever");
            break;
        }
        // lost 5 s after the last evidence, given up 10 s after it: the peer comes back in time for that
        const int64_t back = l.lastGood + (r.chance(0.4) ? r.range(200, 4500) * ms : r.range(5200, 7000) * ms);
        l.step(std::max<int64_t>(back - now(), 10 * ms));
        const int64_t d = now() - t0;
        s.wire->toPc.up = s.wire->toPeer.up = true;
        o << " back@" << now() / ms;
        vf::note(o.str());
        bool was = s.pc->connected();
        if (!s.pc->final()) {
            l.step(2600 * ms);
            SIM_CHECK("C10", s.pc->connected(), "not-restored", "peer returned after " << d / ms << " ms, " << s.pc->history());
            vf::count(was ? "short_silences" : "restored");
        } else SIM_CHECK("C10", false, "failed-before-return", "failed within " << d / ms << " ms, " << s.pc->history());
    }
    vf::sig("silence:" + s.pc->history().substr(0, 200));
    finish(w);
}
void c10dead(vf::Rng& r) {
    Setup st = randomSetup(r);
    World w(r, st);
    Session& s = *w.s;
    Liveness l(s);
    const int how = static_cast<int>(r.below(3)); // nothing arrives / answers STUN but no DTLS / connects never
    if (how == 0) s.wire->toPeer.up = false;
    if (how == 1) s.peer->answerStun = false;
    if (how == 2) s.peer->answerDtls = false;
    s.wire->toPeer.delay = r.range(1, 200) * ms; s.wire->toPc.delay = r.range(1, 200) * ms;
    traffic(s, r);
    w.begin();
    s.peer->stunLoop();
    const int64_t last = lastStart(s);
    if (how == 2) l.step(7 * sec + last); else { l.step(4800 * ms + last); SIM_CHECK("C10", !s.pc->final(), "gave-up-early", s.pc->history()); l.step(2200 * ms); }
    SIM_CHECK("C10", s.pc->current() == State::Failed, "dead-not-failed", "how " << how << " " << s.pc->history());
    SIM_CHECK("C10", s.pc->states.size() == 2, "dead-states", s.pc->history());
    vf::count("dead_peers");
    vf::sig("dead:" + std::to_string(how) + std::to_string(st.dead) + (st.v6 ? "6" : "4") + (st.client ? "s" : "c"));
    finish(w);
}

// ---------------------------------------------------------------- C09
void poke(Session& s, vf::Rng& r) { // any public call, whatever the state
    auto& pc = *s.pc->pc;
    auto tracks = pc.getTrackList();
    srtc::ByteBuffer b(reinterpret_cast<const uint8_t*>("\x00\x00\x00\x01\x65xyz"), 8);
    switch (r.below(8)) {
    case 0: for (auto& t : tracks) if (t->getMediaType() == srtc::MediaType::Audio) (void)pc.publishAudioFrame(t, now(), std::move(b)); break;
    case 1: for (auto& t : tracks) if (t->getMediaType() == srtc::MediaType::Video) (void)pc.publishVideoFrame(t, now(), std::move(b)); break;
    case 2: (void)pc.sendDataChannelText("one", "late"); break;
    case 3: (void)pc.sendDataChannelBinary("two", std::move(b)); break;
    case 4: for (auto& t : tracks) (void)pc.requestPictureLossIndicator(t); break;
    case 5: (void)pc.getDataChannelMaxMessageSize(); break;
    case 6: (void)pc.setOffer(s.pc->offer); break;
    case 7: if (s.pc->answer) (void)pc.setAnswer(s.pc->answer); break;
    }
}
void c09(vf::Rng& r) {
    Setup st = randomSetup(r);
    World w(r, st);
    Session& s = *w.s;
    s.wire->toPeer.delay = r.range(1, 100) * ms; s.wire->toPc.delay = r.range(1, 100) * ms;
    s.wire->toPeer.loss = s.wire->toPc.loss = r.chance(0.3) ? 0.1 : 0;
    s.wire->toPeer.dup = s.wire->toPc.dup = r.chance(0.3) ? 0.2 : 0;
    s.wire->toPc.jitter = r.chance(0.3) ? 30 * ms : 0;
    if (r.chance(0.15)) s.peer->answerStun = false;
    if (r.chance(0.1)) s.peer->answerDtls = false;
    if (r.chance(0.1)) { s.answer.fingerprint = Cert::get(7).fingerprint; }
    if (r.chance(0.3)) s.peer->stunEvery = r.range(300, 3000) * ms;
    std::ostringstream o; o << st.text();
    const int how = static_cast<int>(r.below(6)); // 0 close, 1 destroy, 2 close twice, 3 close and destroy later, 4 peer closes, 5 peer alert
    if (r.chance(0.05)) { // never started
        poke(s, r);
        s.pc->close();
        poke(s, r);
        s.pc->close();
        SIM_CHECK("C09", s.pc->states.empty(), "state-without-start", s.pc->history());
        vf::count("never_started");
        finish(w);
        return;
    }
    w.begin();
    s.peer->stunLoop();
    bool media = r.chance(0.6), cuts = r.chance(0.4);
    int64_t stop = r.chance(0.15) ? 0 : r.chance(0.5) ? r.range(0, 1500) * ms : r.range(0, 16000) * ms;
    o << " how=" << how << " at " << stop / ms << (media ? " media" : "") << (cuts ? " cuts" : "");
    vf::note(o.str());
    const int64_t end = now() + stop;
    while (now() < end && !s.pc->final()) {
        runUntil(std::min(end, now() + r.range(1, 400) * ms));
        if (media && !s.flowing && s.pc->connected()) { s.flowing = true; s.flow(r.range(10, 100) * ms); }
        if (s.pc->connected() && st.datachannel && r.chance(0.2)) (void)s.pc->pc->sendDataChannelText("one", "hello");
        if (cuts && r.chance(0.1)) { s.wire->toPc.up = !s.wire->toPc.up; }
        if (r.chance(0.05)) poke(s, r);
    }
    auto before = s.pc->current();
    vf::count(Str("stop_in:") + stateName(before));
    if (how >= 4) {
        s.wire->toPc.up = s.wire->toPeer.up = true;
        s.wire->toPeer.loss = s.wire->toPc.loss = 0;
        bool was = s.pc->connected() && s.peer->handshakeDone;
        s.flowing = false;
        runFor(300 * ms);
        was = was && s.pc->connected();
        s.peer->closeDtls();
        int64_t t0 = now();
        if (was) {
            runWhile([&] { return !s.pc->final(); }, 1 * sec);
            SIM_CHECK("C09", s.pc->current() == State::Closed, "peer-close-unnoticed", "the peer closed the session, state " << stateName(s.pc->current()) << " " << (now() - t0) / ms << " ms later");
            vf::count("closed_by_peer");
        }
        runFor(r.range(0, 2000) * ms);
    }
    const bool fin = s.pc->final();
    const size_t n = s.pc->states.size();
    switch (how) {
    case 1: s.flowing = false; s.pc->destroy(); break;
    case 2: s.pc->close(); s.pc->close(); break;
    default: s.pc->close();
    }
    if (fin) SIM_CHECK("C09", s.pc->states.size() == n, "state-after-final", s.pc->history());
    if (s.pc->pc) SIM_CHECK("C09", s.pc->final(), "close-not-final", s.pc->history());
    // the world goes on
    for (int i = 0; i < 10; i++) {
        s.peer->sendRtcp(makeRtcp(1, 206, 1, Bytes(4)));
        if (!st.publish) s.tickMedia();
        s.peer->out(s.peer->request());
        if (s.pc->pc) poke(s, r);
        runFor(r.range(1, 700) * ms);
    }
    if (s.pc->pc && r.chance(0.5)) s.pc->close();
    vf::sig("close:" + std::to_string(how) + stateName(before) + std::to_string(stop / (250 * ms)) + (media ? "m" : "") + (st.publish ? "p" : "s") + (st.datachannel ? "d" : "") + std::to_string(s.pc->states.size()));
    finish(w);
}

// ---------------------------------------------------------------- C08
void c08(vf::Rng& r) {
    Setup st = randomSetup(r);
    const int kind = static_cast<int>(r.below(6)); // 0,1 right, 2 wrong certificate, 3 none, 4 no SRTP, 5 fingerprint differs in one place
    if (kind == 2) st.pinIndex = (st.certIndex + 1 + static_cast<int>(r.below(3))) % 4;
    if (kind == 4) st.profiles.clear();
    World w(r, st);
    Session& s = *w.s;
    if (kind == 3) s.peer->presentCert = false;
    if (kind == 5) {
        auto& f = s.answer.fingerprint;
        size_t at = r.pickOf<size_t>({0, 31, static_cast<size_t>(r.below(32))}) * 3 + r.below(2);
        const char* digits = "0123456789ABCDEF";
        char c = f[at];
        while (f[at] == c) f[at] = digits[r.below(16)];
    }
    const bool right = kind < 2;
    s.wire->toPeer.delay = r.range(1, 60) * ms; s.wire->toPc.delay = r.range(1, 60) * ms;
    s.wire->toPeer.jitter = r.chance(0.2) ? 40 * ms : 0;
    if (r.chance(0.3)) s.peer->maxVersion = DTLS1_2_VERSION;
    bool firstSeen = false, hello = false;
    s.peer->onAny = [&](const Bytes& b) {
        if (!b.empty() && b[0] == 22 && b.size() > 13) { // handshake in the clear
            if (be16(&b[3]) == 0) { if (b[13] == 1) hello = true; firstSeen = true; }
        }
        if (b.size() > 1 && b[0] >= 128 && b[0] <= 191 && !right)
            SIM_CHECK("C08", false, "media-to-wrong-peer", "the endpoint sends " << (SrtpReader::isRtcp(b) ? "control" : "media") << " packets to a peer without the pinned certificate");
    };
    uint64_t data = 0;
    s.peer->onData = [&](const Bytes& b) { data++; SIM_CHECK("C08", right, "data-to-wrong-peer", b.size() << " bytes of data-channel traffic to a peer without the pinned certificate"); };
    s.peer->judgeUndecodable = s.peer->judgeEarly = true;
    s.peer->onRtp = [&](const Bytes&, const Bytes&, uint64_t) {};
    w.begin();
    s.flowing = true;
    s.flow(r.range(10, 50) * ms);
    // the scripted peer sends whatever it can as soon as it thinks it may
    s.peer->onConnected = [&] { s.peer->sendData(r.bytes(40)); s.peer->sendRtcp(makeRtcp(0, 201, 77, {})); };
    runFor(4 * sec);
    if (!s.pc->connected()) runFor(4 * sec);
    SIM_CHECK("C08", firstSeen || (st.client && kind != 0), "no-handshake", "no DTLS handshake message at all, " << s.pc->history());
    SIM_CHECK("C08", hello == !st.client, "dtls-role", "the answer says the peer is " << (st.client ? "active" : "passive") << " and the endpoint " << (hello ? "sent" : "did not send") << " a ClientHello");
    if (right) {
        SIM_CHECK("C08", s.pc->connected(), "right-certificate-refused", s.pc->history());
        auto& ex = exported();
        SIM_CHECK("C08", s.peer->undecodable == 0, "wrong-keys", s.peer->undecodable << " packets the peer cannot decode with the exported keys of profile " << s.peer->profile);
        if (!ex.empty() && s.peer->keys) {
            std::set<Bytes> m;
            for (auto& e : ex) { Bytes k = e.material; k.resize(std::min(k.size(), s.peer->keys->material())); m.insert(k); }
            vf::count("key_exports", ex.size());
        }
        if (st.publish) { if (st.audio || st.video) SIM_CHECK("C08", s.peer->rtpSeen > 5, "nothing-sent", "peer decoded " << s.peer->rtpSeen << " packets"); }
        else if (st.audio) SIM_CHECK("C08", s.pc->frames.size() > 5, "nothing-received", s.pc->frames.size() << " frames of " << s.mediaSent);
        vf::count("right_sessions");
        vf::count("packets_decoded", s.peer->rtpSeen + s.peer->rtcpSeen + s.pc->frames.size());
    } else {
        bool ever = false;
        for (auto& [t, x] : s.pc->states) ever |= x == State::Connected;
        SIM_CHECK("C08", !ever, "wrong-peer-connected", "kind " << kind << " " << s.pc->history());
        SIM_CHECK("C08", s.pc->frames.empty() && s.pc->dc.empty() && s.pc->srs.empty(), "wrong-peer-delivers", "content of a wrong peer was delivered");
        SIM_CHECK("C08", s.pc->current() == State::Failed, "wrong-peer-not-failed", "kind " << kind << " " << s.pc->history());
        vf::count("wrong_sessions");
        vf::count("wrong_kind" + std::to_string(kind));
    }
    vf::sig("dtls:" + std::to_string(kind) + (st.client ? "s" : "c") + st.profiles + std::to_string(st.certIndex) + std::to_string(st.pinIndex) + (st.publish ? "p" : "s") + (st.datachannel ? "d" : ""));
    finish(w);
}

// ---------------------------------------------------------------- C07
struct Forge { Bytes msg; Str what; };
Bytes refingerprint(Bytes b) { // makes the fingerprint right again after a change before it
    if (b.size() < 28) return b;
    size_t f = b.size() - 8;
    uint32_t v = stun5389::crc32(b.data(), f) ^ 0x5354554eu;
    for (int i = 0; i < 4; i++) b[f + 4 + static_cast<size_t>(i)] = static_cast<uint8_t>(v >> (24 - 8 * i));
    return b;
}
Str spoil(vf::Rng& r, Str v) {
    switch (r.below(7)) {
    case 0: return "";
    case 1: if (!v.empty()) v.pop_back(); return v;
    case 2: return v + static_cast<char>(33 + r.below(90));
    case 3: { size_t i = r.below(v.size()); char c = v[i]; while (v[i] == c) v[i] = static_cast<char>(33 + r.below(90)); return v; }
    case 4: { for (auto& c : v) if (isalpha(c)) { c = static_cast<char>(c ^ 0x20); return v; } return v + "x"; }
    case 5: return v + Str(1, '\0');
    default: { size_t c = v.find(':'); return c == Str::npos ? v + v : v.substr(c + 1) + ":" + v.substr(0, c); }
    }
}
Bytes genuineRequest(RemotePeer& p, vf::Rng& r) {
    Bytes tx = r.bytes(12);
    stun5389::Builder b(stun5389::Request, tx);
    std::vector<int> order{0, 1, 2, 3, 4};
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    for (int k : order) switch (k) {
        case 0: b.text(stun5389::Username, p.rufrag + ":" + p.ufrag); break;
        case 1: if (r.chance(0.8)) b.u32(stun5389::Priority, static_cast<uint32_t>(r.next())); break;
        case 2: if (r.chance(0.8)) b.attr(r.chance(0.5) ? stun5389::Controlled : stun5389::Controlling, r.bytes(8)); break;
        case 3: if (r.chance(0.4)) b.text(stun5389::Software, p.token(1 + r.below(40))); break;
        case 4: if (r.chance(0.3)) b.attr(stun5389::UseCandidate, {}); if (r.chance(0.3)) b.attr(static_cast<uint16_t>(0xC000 + r.below(200)), r.bytes(r.below(40))); break;
        }
    b.integrity(p.rpwd).fingerprint();
    p.pendingTx[tx] = now();
    return b.b;
}
Forge forgedRequest(RemotePeer& p, vf::Rng& r) {
    Bytes tx = r.bytes(12);
    const Str user = p.rufrag + ":" + p.ufrag;
    auto start = [&] { stun5389::Builder b(stun5389::Request, tx); b.u32(stun5389::Priority, 1).attr(stun5389::Controlled, r.bytes(8)); return b; };
    auto b = start();
    switch (r.below(11)) {
    case 0: { Str u = spoil(r, user); if (u == user) u += "!"; b.text(stun5389::Username, u).integrity(p.rpwd).fingerprint(); return {b.b, "username"}; }
    case 1: { Str k = spoil(r, p.rpwd); if (k == p.rpwd) k += "!"; if (k == p.rpwd + Str(1, '\0')) k = "x" + p.rpwd; b.text(stun5389::Username, user).integrity(k).fingerprint(); return {b.b, "password"}; }
    case 2: b.text(stun5389::Username, user).fingerprint(); return {b.b, "no integrity"};
    case 3: { b.text(stun5389::Username, user).integrity(p.rpwd).fingerprint(); b.b[b.b.size() - 1 - r.below(4)] ^= static_cast<uint8_t>(1u << r.below(8)); return {b.b, "fingerprint"}; }
    case 4: b.text(stun5389::Username, user).integrity(p.rpwd); return {b.b, "no fingerprint"};
    case 5: { b.text(stun5389::Username, user).integrity(p.rpwd).fingerprint(); size_t i = 8 + r.below(b.b.size() - 16); if (i >= b.b.size() - 8) i = 9; if (i < 20) i += 12; b.b[i] ^= static_cast<uint8_t>(1u << r.below(8)); return {refingerprint(b.b), "bit flip"}; }
    case 6: b.text(stun5389::Username, user).integrity(p.pwd).fingerprint(); return {b.b, "the other side's password"};
    case 7: { b.text(stun5389::Username, user); auto m = stun5389::mac(b.b, b.b.size(), p.rpwd); m.resize(r.below(20)); b.attr(stun5389::Integrity, m).fingerprint(); return {b.b, "short integrity"}; }
    case 8: b.integrity(p.rpwd).fingerprint(); return {b.b, "no username"};
    case 9: b.text(stun5389::Username, p.ufrag + ":" + p.rufrag).integrity(p.rpwd).fingerprint(); return {b.b, "swapped username"};
    default: { b.text(stun5389::Username, user).attr(stun5389::Integrity, Bytes(20, static_cast<uint8_t>(r.below(2) * 255))).fingerprint(); return {b.b, "constant integrity"}; }
    }
}
// A response to the transaction which an attacker without the password could make
Forge forgedResponse(RemotePeer& p, vf::Rng& r, const Bytes& tx, const Addr& endpoint) {
    auto start = [&](uint16_t type = stun5389::Success) { stun5389::Builder b(type, tx); b.mapped(endpoint, tx); return b; };
    auto b = start();
    switch (r.below(9)) {
    case 0: { Str k = spoil(r, p.pwd); if (k == p.pwd) k += "!"; if (k == p.pwd + Str(1, '\0')) k = "x" + p.pwd; b.integrity(k).fingerprint(); return {b.b, "password"}; }
    case 1: b.fingerprint(); return {b.b, "no integrity"};
    case 2: return {b.b, "bare"};
    case 3: { b.integrity(p.pwd).fingerprint(); b.b[b.b.size() - 1 - r.below(4)] ^= static_cast<uint8_t>(1u << r.below(8)); return {b.b, "fingerprint"}; }
    case 4: { b.integrity(p.pwd).fingerprint(); size_t i = 24 + r.below(b.b.size() - 8 - 24); b.b[i] ^= static_cast<uint8_t>(1u << r.below(8)); return {refingerprint(b.b), "bit flip"}; }
    case 5: b.integrity(p.rpwd).fingerprint(); return {b.b, "the other side's password"};
    case 6: b.attr(stun5389::Integrity, Bytes(20, static_cast<uint8_t>(r.below(2) * 255))).fingerprint(); return {b.b, "constant integrity"};
    case 7: { auto e = start(stun5389::Error); e.attr(stun5389::ErrorCode, {0, 0, 4, 1}); e.fingerprint(); return {e.b, "error"}; }
    default: { auto m = stun5389::mac(b.b, b.b.size(), p.pwd); m.resize(r.below(20)); b.attr(stun5389::Integrity, m).fingerprint(); return {b.b, "short integrity"}; }
    }
}
// Requests of all kinds against a connection in all phases
void c07requests(vf::Rng& r) {
    Setup st = randomSetup(r);
    World w(r, st);
    Session& s = *w.s;
    if (r.chance(0.3)) { s.answer.ufrag = s.peer->ufrag = s.peer->token(4 + r.below(252)); s.answer.pwd = s.peer->pwd = s.peer->token(22 + r.below(230)); }
    s.wire->toPeer.delay = r.range(1, 50) * ms; s.wire->toPc.delay = r.range(1, 50) * ms;
    if (r.chance(0.2)) s.peer->answerStun = false;
    std::map<Bytes, std::pair<Str, bool>> sent; // transaction -> what, genuine
    std::map<Bytes, int> answers;
    s.peer->onAny = [&](const Bytes& b) {
        if (!stun5389::looksLike(b)) return;
        uint16_t type = be16(&b[0]);
        if (type == stun5389::Request) return;
        Bytes tx(b.begin() + 8, b.begin() + 20);
        auto i = sent.find(tx);
        SIM_CHECK("C07", i == sent.end() || i->second.second, "forged-request-answered", "a request with a bad " << i->second.first << " was answered with " << std::hex << type);
        if (i != sent.end()) answers[tx]++;
    };
    w.begin();
    for (int i = 0; i < 40 && !sim::failed && !s.pc->final(); i++) {
        runFor(r.range(1, i < 10 ? 40 : 300) * ms);
        const bool genuine = r.chance(0.4);
        Forge f = genuine ? Forge{genuineRequest(*s.peer, r), "-"} : forgedRequest(*s.peer, r);
        Bytes tx(f.msg.begin() + 8, f.msg.begin() + 20);
        sent[tx] = {f.what, genuine};
        const bool there = !s.pc->final() && socketTo(s.pc->ep, s.wire->peerAddr) >= 0; // has that candidate started?
        s.wire->inject(f.msg);
        vf::count(genuine ? "genuine_requests" : "forged_requests");
        vf::sig("request:" + f.what + stateName(s.pc->current()) + std::to_string(i / 10) + (st.v6 ? "6" : "4"));
        if (genuine && there) {
            runFor(s.wire->toPeer.delay + 150 * ms);
            if (!s.pc->final() && socketTo(s.pc->ep, s.wire->peerAddr) >= 0)
                SIM_CHECK("C07", answers[tx] == 1, "genuine-request-unanswered", "a valid binding request was answered " << answers[tx] << " times: " << vf::hex(f.msg, 300));
        }
    }
    finish(w);
}
// Only forged responses: the path must not be selected
void c07select(vf::Rng& r) {
    Setup st = randomSetup(r);
    World w(r, st);
    Session& s = *w.s;
    s.wire->toPeer.delay = r.range(1, 50) * ms; s.wire->toPc.delay = r.range(1, 50) * ms;
    const bool thenGenuine = r.chance(0.5);
    const int64_t gap = r.range(1, 30) * ms;
    std::vector<Bytes> old;
    Str kinds;
    s.peer->answerStun = false;
    s.peer->onAny = [&](const Bytes& b) {
        if (!stun5389::looksLike(b) || be16(&b[0]) != stun5389::Request) {
            if (!thenGenuine) SIM_CHECK("C07", b.empty() || b[0] < 20 || b[0] > 63 || st.client, "selected-by-forgery", "DTLS starts although no response ever verified");
            return;
        }
        stun5389::Msg m; Str why;
        if (!stun5389::parse(b, m, why)) return;
        if (!thenGenuine) SIM_CHECK("C07", !m.has(stun5389::UseCandidate), "selected-by-forgery", "USE-CANDIDATE although no response ever verified: " << kinds);
        for (int i = static_cast<int>(r.range(1, 3)); i > 0; i--) {
            Forge f = forgedResponse(*s.peer, r, m.txid, s.wire->pcAddr);
            if (kinds.size() < 200) kinds += f.what + "; ";
            vf::count("forged_responses");
            vf::sig("select:" + f.what + (thenGenuine ? "g" : "f") + std::to_string(i));
            after(s.wire->toPc.delay, [&s, f, l = std::weak_ptr<int>(s.peer->life)] { if (!l.expired()) s.wire->inject(f.msg); });
        }
        // a genuine response to a transaction never made
        if (r.chance(0.3)) { Bytes tx = r.bytes(12); stun5389::Builder g(stun5389::Success, tx); g.mapped(s.wire->pcAddr, tx).integrity(s.peer->pwd).fingerprint(); Bytes x = g.b; after(s.wire->toPc.delay, [&s, x, l = std::weak_ptr<int>(s.peer->life)] { if (!l.expired()) s.wire->inject(x); }); vf::count("unasked_responses"); }
        if (thenGenuine) {
            stun5389::Builder g(stun5389::Success, m.txid);
            g.mapped(s.wire->pcAddr, m.txid).integrity(s.peer->pwd).fingerprint();
            Bytes x = g.b; bool uc = m.has(stun5389::UseCandidate);
            after(s.wire->toPc.delay + gap, [&s, x, uc, l = std::weak_ptr<int>(s.peer->life)] { if (l.expired()) return; s.wire->inject(x); if (uc) s.peer->startDtls(); });
        }
    };
    w.begin();
    runFor(thenGenuine ? 5 * sec : 7 * sec + lastStart(s));
    if (thenGenuine) SIM_CHECK("C07", s.pc->connected(), "forgery-spoils-genuine", "each genuine response was preceded by forged ones (" << kinds << "), " << s.pc->history());
    else SIM_CHECK("C07", s.pc->current() == State::Failed && s.pc->states.size() == 2, "selected-by-forgery", kinds << " " << s.pc->history());
    vf::count(thenGenuine ? "genuine_after_forged" : "forged_only");
    finish(w);
}
// Forged keep-alive responses must not keep a dead path
void c07keep(vf::Rng& r) {
    Setup st = randomSetup(r);
    World w(r, st);
    Session& s = *w.s;
    s.wire->toPeer.delay = r.range(1, 50) * ms; s.wire->toPc.delay = r.range(1, 50) * ms;
    w.begin();
    std::vector<Bytes> captured;
    bool attack = false;
    Str kinds;
    auto plain = s.wire->toPc.deliver;
    s.wire->toPc.deliver = [&](const Bytes& b) { if (stun5389::looksLike(b) && be16(&b[0]) == stun5389::Success) captured.push_back(b); plain(b); };
    s.peer->onAny = [&](const Bytes& b) {
        if (!attack || !stun5389::looksLike(b) || be16(&b[0]) != stun5389::Request) return;
        Bytes tx(b.begin() + 8, b.begin() + 20);
        Forge f = forgedResponse(*s.peer, r, tx, s.wire->pcAddr);
        if (kinds.size() < 200) kinds += f.what + "; ";
        vf::count("forged_responses");
        after(s.wire->toPc.delay, [&s, f, l = std::weak_ptr<int>(s.peer->life)] { if (!l.expired()) s.wire->inject(f.msg); });
    };
    runWhile([&] { return !s.pc->connected() && !s.pc->final(); }, 6 * sec);
    if (!s.pc->connected()) vf::harnessError("not connected: " + s.pc->history());
    runFor(r.range(100, 9000) * ms);
    attack = true;
    s.peer->answerStun = false;
    const int64_t t0 = now();
    runFor(200 * ms);
    while (now() < t0 + 14 * sec && !s.pc->final()) {
        runFor(r.range(50, 400) * ms);
        if (!captured.empty() && r.chance(0.5)) { s.wire->inject(r.pick(captured)); vf::count("replayed_responses"); }
        if (r.chance(0.3)) { s.wire->inject(forgedRequest(*s.peer, r).msg); vf::count("forged_requests"); }
        if (r.chance(0.3)) { Bytes tx = r.bytes(12); stun5389::Builder g(stun5389::Success, tx); g.mapped(s.wire->pcAddr, tx).integrity(s.peer->pwd).fingerprint(); s.wire->inject(g.b); vf::count("unasked_responses"); }
        if (s.pc->connected()) SIM_CHECK("C07", now() - t0 < 7 * sec, "kept-by-forgery", "still connected " << (now() - t0) / ms << " ms after the last genuine response; forged: " << kinds);
    }
    SIM_CHECK("C07", s.pc->current() == State::Failed, "kept-by-forgery", s.pc->history() << " forged: " << kinds);
    vf::sig("keep:" + kinds.substr(0, 60));
    vf::count("keep_sessions");
    finish(w);
}

// ---------------------------------------------------------------- C01
struct Attacker {
    vf::Rng& r; Session& s;
    std::deque<Bytes> toPc, toPeer; // genuine datagrams seen on the wire
    Attacker(vf::Rng& rr, Session& x) : r(rr), s(x) {}
    void keep(std::deque<Bytes>& q, const Bytes& b) { if (q.size() < 60) q.push_back(b); else if (r.chance(0.1)) q[r.below(q.size())] = b; }
    Bytes mutate(Bytes b) {
        for (int k = static_cast<int>(r.range(1, 3)); k > 0; k--) switch (r.below(7)) {
            case 0: if (!b.empty()) b[r.below(b.size())] ^= static_cast<uint8_t>(1u << r.below(8)); break;
            case 1: b.resize(r.below(b.size() + 1)); break;
            case 2: { auto x = r.bytes(1 + r.below(40)); b.insert(b.end(), x.begin(), x.end()); break; }
            case 3: if (b.size() > 4) { size_t i = r.below(b.size() - 1); uint16_t v = r.pickOf<uint16_t>({0, 1, 3, 0x7FFF, 0x8000, 0xFFFF, static_cast<uint16_t>(b.size()), static_cast<uint16_t>(b.size() - 20), static_cast<uint16_t>(b.size() + 4)}); b[i] = static_cast<uint8_t>(v >> 8); b[i + 1] = static_cast<uint8_t>(v); } break;
            case 4: if (!b.empty()) b[r.below(std::min<size_t>(b.size(), 24))] = static_cast<uint8_t>(r.next()); break;
            case 5: if (!b.empty()) { size_t i = r.below(b.size()), n = r.below(b.size() - i + 1); b.erase(b.begin() + static_cast<long>(i), b.begin() + static_cast<long>(i + n)); } break;
            default: if (!b.empty()) { size_t i = r.below(b.size()); for (size_t j = i; j < b.size() && j < i + 8; j++) b[j] = static_cast<uint8_t>(r.next()); }
            }
        return b;
    }
    Bytes stunish() {
        Bytes b;
        put16(b, r.pickOf<uint16_t>({0x0001, 0x0101, 0x0111, 0x0011, static_cast<uint16_t>(r.below(0x200))}));
        put16(b, 0); put32(b, 0x2112A442u);
        Bytes tx = r.bytes(12);
        if (!toPeer.empty() && r.chance(0.6)) { auto& g = toPeer[r.below(toPeer.size())]; if (stun5389::looksLike(g)) tx.assign(g.begin() + 8, g.begin() + 20); }
        b.insert(b.end(), tx.begin(), tx.end());
        for (size_t n = r.below(5); n > 0; n--) {
            uint16_t type = r.pickOf<uint16_t>({stun5389::Username, stun5389::Integrity, stun5389::Fingerprint, stun5389::XorMapped, stun5389::ErrorCode, stun5389::Priority, stun5389::UseCandidate, 0x0001, static_cast<uint16_t>(r.next())});
            size_t len = r.chance(0.6) ? r.pickOf<size_t>({0, 4, 8, 20}) : r.below(60);
            put16(b, type);
            put16(b, r.chance(0.75) ? static_cast<uint32_t>(len) : r.pickOf<uint32_t>({0, 1, 0xFFFF, 0xFFFC, 0xFFEC, static_cast<uint32_t>(r.below(3000))}));
            auto v = type == stun5389::Username && r.chance(0.7) ? Bytes(s.offer.ufrag.begin(), s.offer.ufrag.end()) : r.bytes(len);
            if (r.chance(0.9)) while (v.size() % 4) v.push_back(0);
            b.insert(b.end(), v.begin(), v.end());
        }
        size_t l = b.size() - 20;
        switch (r.below(6)) { case 0: l = r.below(70000); break; case 1: l = r.pickOf<size_t>({0, 4, 8, 0xFFFF, 0xFFFC, 0xFFEC, l + 4, l + 8, l + 1}); break; default: break; }
        b[2] = static_cast<uint8_t>(l >> 8); b[3] = static_cast<uint8_t>(l);
        if (r.chance(0.4)) { // a fingerprint that fits, as far as the length field goes
            size_t n = std::min(b.size(), l + 20);
            put16(b, stun5389::Fingerprint); put16(b, 4);
            size_t m = b.size() + 4 - 20;
            if (r.chance(0.8)) { b[2] = static_cast<uint8_t>(m >> 8); b[3] = static_cast<uint8_t>(m); n = b.size() - 4; }
            put32(b, stun5389::crc32(b.data(), n) ^ 0x5354554eu);
        }
        if (r.chance(0.15)) b.resize(20 + r.below(9));
        return b;
    }
    Bytes dtlsish() {
        Bytes b;
        for (size_t n = 1 + r.below(3); n > 0; n--) {
            uint8_t type = r.pickOf<uint8_t>({20, 21, 21, 22, 22, 23, 24, static_cast<uint8_t>(r.range(20, 24))});
            b.push_back(type); b.push_back(0xFE); b.push_back(r.pickOf<uint8_t>({0xFD, 0xFF, 0x00}));
            put16(b, r.pickOf<uint32_t>({0, 0, 1, 1, 2, 0xFFFF})); // epoch
            put16(b, 0); put32(b, static_cast<uint32_t>(r.chance(0.5) ? r.below(50) : r.next()));
            Bytes body;
            if (type == 21 && r.chance(0.8)) body = {r.pickOf<uint8_t>({1, 2}), r.pickOf<uint8_t>({0, 10, 20, 40, 42, 80, 90, 100})};
            else if (type == 20 && r.chance(0.8)) body = {1};
            else if (type == 22 && r.chance(0.8)) {
                body = {r.pickOf<uint8_t>({0, 1, 2, 3, 11, 12, 14, 16, 20}), 0};
                uint32_t len = r.chance(0.5) ? static_cast<uint32_t>(r.below(300)) : static_cast<uint32_t>(r.next() & 0xFFFF);
                put16(body, len); put16(body, static_cast<uint32_t>(r.below(6)));
                body.push_back(0); put16(body, r.chance(0.7) ? 0 : static_cast<uint32_t>(r.below(400))); body.push_back(0); put16(body, r.chance(0.7) ? len : static_cast<uint32_t>(r.below(400)));
                auto x = r.bytes(std::min<size_t>(len, 300)); body.insert(body.end(), x.begin(), x.end());
            } else body = r.bytes(r.below(200));
            put16(b, r.chance(0.85) ? static_cast<uint32_t>(body.size()) : static_cast<uint32_t>(r.next() & 0xFFFF));
            b.insert(b.end(), body.begin(), body.end());
        }
        return b;
    }
    Bytes rtpish() {
        Bytes b;
        b.push_back(static_cast<uint8_t>(0x80 | r.below(64)));
        uint32_t ssrc = static_cast<uint32_t>(r.next());
        uint8_t pt = static_cast<uint8_t>(r.next());
        for (auto& m : s.answer.media) if (r.chance(0.5)) { ssrc = r.chance(0.7) ? m.ssrc : m.rtxSsrc; pt = static_cast<uint8_t>(m.pt | (r.chance(0.5) ? 0x80 : 0)); }
        if (r.chance(0.3)) pt = static_cast<uint8_t>(r.range(200, 207));
        b.push_back(pt);
        put16(b, r.chance(0.5) ? s.seq + static_cast<uint32_t>(r.below(20)) : static_cast<uint32_t>(r.next() & 0xFFFF)); put32(b, static_cast<uint32_t>(r.next())); put32(b, ssrc);
        auto x = r.bytes(r.chance(0.3) ? r.below(24) : r.below(1400));
        b.insert(b.end(), x.begin(), x.end());
        if (r.chance(0.1)) b.resize(r.below(14));
        return b;
    }
    Bytes make(Str& kind) {
        switch (r.below(8)) {
        case 0: { kind = "random"; Bytes b = r.bytes(r.chance(0.1) ? r.below(20000) : r.below(300)); if (!b.empty() && r.chance(0.7)) b[0] = r.pickOf<uint8_t>({0, 1, 2, 20, 21, 22, 23, 24, 63, 64, 127, 128, 191, 192, 255}); return b; }
        case 1: case 2: kind = "stun"; return stunish();
        case 3: kind = "dtls"; return dtlsish();
        case 4: kind = "rtp"; return rtpish();
        case 5: kind = "mutated"; if (!toPc.empty()) return mutate(toPc[r.below(toPc.size())]); return r.bytes(30);
        case 6: kind = "reflected"; if (!toPeer.empty()) { auto b = toPeer[r.below(toPeer.size())]; return r.chance(0.5) ? b : mutate(b); } return r.bytes(30);
        default: kind = "replayed"; if (!toPc.empty()) return toPc[r.below(toPc.size())]; return {};
        }
    }
};
void c01(vf::Rng& r) {
    Setup st = randomSetup(r);
    if (r.chance(0.4)) { st.publish = false; st.audio = true; }
    World w(r, st);
    Session& s = *w.s;
    s.wire->toPeer.delay = r.range(1, 50) * ms; s.wire->toPc.delay = r.range(1, 50) * ms;
    Attacker a(r, s);
    std::set<uint64_t> genuine;
    auto plain = s.wire->toPc.deliver;
    s.wire->toPc.deliver = [&](const Bytes& b) { a.keep(a.toPc, b); genuine.insert(vf::hash64(b.data(), b.size())); plain(b); };
    s.peer->onAny = [&](const Bytes& b) { a.keep(a.toPeer, b); };
    s.peer->judgeUndecodable = false;
    // with early attackers the session itself may fail (the handshake is not protected): then only safety is judged
    const bool early = r.chance(0.4);
    w.begin();
    s.peer->stunLoop();
    std::string kind;
    auto attack = [&](int n) {
        for (int i = 0; i < n; i++) {
            Bytes b = a.make(kind);
            if (kind == "mutated" || kind == "reflected") if (genuine.count(vf::hash64(b.data(), b.size()))) continue;
            if (b.size() > 65507) b.resize(65507);
            if (kind == "replayed" && !s.pc->connected()) continue; // a replayed handshake message is a genuine one
            Addr from = s.wire->peerAddr;
            if (r.chance(0.2)) from = r.chance(0.5) ? Addr::make("10.6.6.6", 6666) : Addr::make(from.ip(), static_cast<uint16_t>(from.port() + 1 + r.below(100)));
            for (int c = r.chance(0.03) ? 40 : 1; c > 0; c--) s.wire->injectFrom(from, b);
            vf::count("attack:" + kind);
            vf::sig(kind + stateName(s.pc->current()) + std::to_string(b.size() / 16) + (b.empty() ? "" : std::to_string(b[0])) + (b.size() > 20 ? std::to_string(b[1]) : ""));
        }
    };
    const int64_t t0 = now();
    while (now() < t0 + 6 * sec && !s.pc->connected() && !s.pc->final()) {
        if (early) attack(static_cast<int>(r.below(4)));
        runFor(r.range(1, 60) * ms);
    }
    if (!s.pc->connected()) {
        SIM_CHECK("C01", early, "not-connected", s.pc->history());
        SIM_CHECK("C01", s.pc->frames.empty() && s.pc->dc.empty() && s.pc->srs.empty(), "forgery-delivered", "content delivered without a session");
        runFor(6 * sec);
        SIM_CHECK("C01", s.pc->final(), "no-progress", s.pc->history());
        vf::count("handshakes_disturbed");
        finish(w);
        return;
    }
    if (early) vf::count("handshakes_survived");
    // established: genuine media flows, everything forged is ignored
    std::vector<std::pair<uint32_t, Bytes>> sent;
    const bool sub = !st.publish;
    uint64_t reports = 0;
    s.peer->onRtcp = [&](const Bytes&, const Bytes&, uint32_t) { reports++; };
    runFor(50 * ms);
    while (!s.peer->keys && now() < t0 + 10 * sec) runFor(10 * ms); // the peer ends its half of the handshake a little later
    const uint64_t before = s.peer->rtpSeen;
    const int64_t total = r.range(500, 9000) * ms, end = now() + total;
    int64_t next = now();
    uint32_t audioSsrc = 0; unsigned audioPt = 0;
    for (auto& m : s.answer.media) if (m.kind == "audio") { audioSsrc = m.ssrc; audioPt = m.pt; }
    const int intensity = static_cast<int>(r.range(1, 12));
    while (now() < end && !sim::failed && s.pc->connected()) {
        if (now() >= next) {
            if (sub && audioSsrc) {
                Bytes pay = r.bytes(10 + r.below(100));
                Bytes b{0x80, static_cast<uint8_t>(audioPt | 0x80)};
                put16(b, s.seq); put32(b, s.ts); put32(b, audioSsrc);
                b.insert(b.end(), pay.begin(), pay.end());
                s.peer->sendRtp(b, s.roc);
                sent.push_back({s.ts, pay});
                if (++s.seq == 0) s.roc++;
                s.ts += 960;
            } else if (!sub) s.tickMedia();
            next += 20 * ms;
        }
        attack(static_cast<int>(r.below(static_cast<uint64_t>(intensity) + 1)));
        runUntil(std::min(next, now() + r.range(1, 20) * ms));
    }
    runFor(1000 * ms);
    SIM_CHECK("C01", s.pc->connected() && s.pc->states.size() == 2, "session-disturbed", s.pc->history());
    SIM_CHECK("C01", s.pc->dc.empty() || st.datachannel, "forgery-delivered", "data-channel event out of nothing");
    for (auto& d : s.pc->dc) SIM_CHECK("C01", d.kind == 'o', "forgery-delivered", "data-channel event " << d.kind);
    SIM_CHECK("C01", s.pc->srs.empty(), "forgery-delivered", "sender report out of nothing");
    SIM_CHECK("C01", s.pc->keyRequests == 0, "forgery-delivered", "key frame request out of nothing");
    if (sub) {
        size_t i = 0;
        bool same = s.pc->frames.size() == sent.size();
        for (; same && i < sent.size(); i++) same = s.pc->frames[i].data == sent[i].second;
        SIM_CHECK("C01", same, "media-disturbed", s.pc->frames.size() << " frames delivered of " << sent.size() << " sent, first difference at " << i);
        vf::count("genuine_frames", sent.size());
    } else if (st.audio) {
        SIM_CHECK("C01", s.peer->rtpSeen - before >= static_cast<uint64_t>(total / (20 * ms)) * 9 / 10, "publishing-disturbed", s.peer->rtpSeen - before << " packets in " << total / ms << " ms");
        SIM_CHECK("C01", s.peer->undecodable == 0, "publishing-disturbed", s.peer->undecodable << " undecodable packets");
    }
    vf::count("sessions_survived");
    finish(w);
}
} // namespace

int main(int argc, char** argv) {
    srtc::setLogLevel(getenv("VF_LOG") ? SRTC_LOG_V : SRTC_LOG_Z);
    std::string mode = "c10";
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) { std::string x = argv[i]; if (x.size() == 3 && x[0] == 'c' && isdigit(x[1])) mode = x; else a.push_back(argv[i]); }
    sim::prop = "C" + mode.substr(1);
    int n = static_cast<int>(a.size());
    if (mode == "c10") return vf::runMain(n, a.data(), "one situation = a distinct connection attempt (roles, candidates, faults) or a distinct history of states under a schedule of silences",
        {{"connect", 4, [](vf::Rng& r, int64_t) { c10connect(r); }}, {"stay", 2, [](vf::Rng& r, int64_t) { c10stay(r); }}, {"silence", 3, [](vf::Rng& r, int64_t) { c10silence(r); }}, {"dead", 1, [](vf::Rng& r, int64_t) { c10dead(r); }}});
    if (mode == "c01") return vf::runMain(n, a.data(), "one situation = a distinct (kind, size class, leading bytes, connection state) of a hostile datagram", {{"hostile", 1, [](vf::Rng& r, int64_t) { c01(r); }}});
    if (mode == "c09") return vf::runMain(n, a.data(), "one situation = a distinct way and moment of ending a session", {{"close", 1, [](vf::Rng& r, int64_t) { c09(r); }}});
    if (mode == "c08") return vf::runMain(n, a.data(), "one situation = a distinct (certificate, role, profiles, direction) handshake", {{"dtls", 1, [](vf::Rng& r, int64_t) { c08(r); }}});
    if (mode == "c07") return vf::runMain(n, a.data(), "one situation = a distinct (message kind, phase) of genuine and forged STUN traffic",
        {{"requests", 3, [](vf::Rng& r, int64_t) { c07requests(r); }}, {"select", 3, [](vf::Rng& r, int64_t) { c07select(r); }}, {"keep", 1, [](vf::Rng& r, int64_t) { c07keep(r); }}});
    return 2;
}
