// Real connections on real threads, the real clock and loopback sockets; application threads call the public API at any time (C11).
// TSan / ASan watch memory, a watchdog watches for deadlocks, the effects of accepted calls are counted at the relay and at the other end.
#include "speer.h"
#include "srtc/logging.h"
#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <mutex>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

namespace sim {
// the parts of the simulated world speer.h refers to; nothing here is simulated
int64_t now() { return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Addr Addr::make(const std::string& ip, uint16_t port) {
    Addr a;
    auto in = reinterpret_cast<sockaddr_in*>(&a.ss);
    in->sin_family = AF_INET; in->sin_port = htons(port); inet_pton(AF_INET, ip.c_str(), &in->sin_addr);
    return a;
}
std::string Addr::ip() const { char b[64]; inet_ntop(AF_INET, &reinterpret_cast<const sockaddr_in*>(&ss)->sin_addr, b, sizeof b); return b; }
uint16_t Addr::port() const { return ntohs(reinterpret_cast<const sockaddr_in*>(&ss)->sin_port); }
} // namespace sim
using namespace sim;
using srtc::PeerConnection;

namespace {
using CS = PeerConnection::ConnectionState;
std::mutex gReportMutex;
void rep(const Str& key, const Str& what) { std::lock_guard l(gReportMutex); vf::report(key, what); }
void msleep(int64_t n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
void usleep_(int64_t n) { if (n > 0) std::this_thread::sleep_for(std::chrono::microseconds(n)); else std::this_thread::yield(); }

// Two sockets on the loopback; what comes in on one leaves through the other, to whoever wrote to that last
struct Relay {
    int fd[2]; uint16_t port[2];
    std::atomic<bool> quit{false}, down{false};
    std::thread th;
    std::mutex m;
    struct Flow { uint64_t lo = 0, hi = 0; bool any = false; std::set<uint64_t> seqs; uint64_t markers = 0; bool audio = false; };
    std::map<uint32_t, Flow> flows; // from side 0, by SSRC
    std::set<uint8_t> mainPts, audioPts;
    Relay() {
        for (int i = 0; i < 2; i++) {
            fd[i] = ::socket(AF_INET, SOCK_DGRAM, 0);
            int big = 4 << 20;
            setsockopt(fd[i], SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
            sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (::bind(fd[i], reinterpret_cast<sockaddr*>(&a), sizeof a)) vf::harnessError("bind");
            socklen_t l = sizeof a; getsockname(fd[i], reinterpret_cast<sockaddr*>(&a), &l);
            port[i] = ntohs(a.sin_port);
        }
    }
    void start() { th = std::thread([this] { run(); }); }
    void run() {
        sockaddr_in peer[2] = {}; bool known[2] = {};
        uint8_t b[4096];
        while (!quit) {
            pollfd p[2] = {{fd[0], POLLIN, 0}, {fd[1], POLLIN, 0}};
            if (::poll(p, 2, 20) <= 0) continue;
            for (int i = 0; i < 2; i++) {
                while (true) {
                    sockaddr_in from = {}; socklen_t l = sizeof from;
                    auto n = ::recvfrom(fd[i], b, sizeof b, MSG_DONTWAIT, reinterpret_cast<sockaddr*>(&from), &l);
                    if (n <= 0) break;
                    peer[i] = from; known[i] = true;
                    if (i == 0) note(b, static_cast<size_t>(n));
                    if (known[1 - i] && !down) (void)::sendto(fd[1 - i], b, static_cast<size_t>(n), 0, reinterpret_cast<sockaddr*>(&peer[1 - i]), sizeof peer[0]);
                }
            }
        }
    }
    void note(const uint8_t* b, size_t n) {
        if (n < 12 || (b[0] >> 6) != 2 || !mainPts.count(b[1] & 0x7F)) return;
        std::lock_guard l(m);
        auto& f = flows[be32(b + 8)];
        const uint16_t s = be16(b + 2);
        const uint64_t x = f.any ? static_cast<uint64_t>(static_cast<int64_t>(f.hi) + static_cast<int16_t>(s - static_cast<uint16_t>(f.hi))) : 0x100000u + s;
        if (!f.any) { f.any = true; f.lo = f.hi = x; f.audio = audioPts.count(b[1] & 0x7F) > 0; }
        f.lo = std::min(f.lo, x); f.hi = std::max(f.hi, x);
        if (f.seqs.insert(x).second && b[1] & 0x80) f.markers++;
    }
    ~Relay() { quit = true; if (th.joinable()) th.join(); ::close(fd[0]); ::close(fd[1]); }
};

struct Side;
struct Dc : PeerConnection::DataChannelListener {
    Side* s;
    explicit Dc(Side* x) : s(x) {}
    void onDataChannelOpened(const Str& l) override;
    void onDataChannelClosed(const Str&) override;
    void onDataChannelReceivedText(const Str& l, const Str& d) override;
    void onDataChannelReceivedBinary(const Str& l, const srtc::ByteBuffer& d) override;
};
struct Side {
    std::unique_ptr<PeerConnection> pc;
    bool publish; Str name;
    std::shared_ptr<srtc::SdpOffer> offer; std::shared_ptr<srtc::SdpAnswer> answer;
    std::atomic<bool> closeReturned{false};
    std::atomic<int> state{0};
    std::atomic<uint64_t> frames{0}, keyRequests{0}, stats{0}, changes{0}, apiCalls{0}, fromCallbacks{0};
    std::mutex m;
    std::set<Str> open;
    std::vector<Str> got[2];
    bool callInside = false, closeInside = false;
    std::vector<CS> states;
    Side(bool pub, Str n) : publish(pub), name(std::move(n)) { pc = std::make_unique<PeerConnection>(pub ? srtc::Direction::Publish : srtc::Direction::Subscribe); listeners(-1); }
    void alive(const char* what) { if (closeReturned) rep("listener-after-close", name + ": " + what + " reported after close() returned"); }
    void onState(CS s) {
        alive("state");
        { std::lock_guard l(m); states.push_back(s); }
        state = static_cast<int>(s); changes++;
        if (callInside) inside();
        if (closeInside && s == CS::Connected) { pc->close(); fromCallbacks++; }
    }
    void inside() { // calls from the network thread, inside a listener
        fromCallbacks++;
        (void)pc->getTrackList(); (void)pc->getOffer(); (void)pc->getAnswer(); (void)pc->getMediaList(); (void)pc->getDataChannelMaxMessageSize();
        (void)pc->sendDataChannelText("nobody", "x");
        for (auto& t : pc->getTrackList()) if (!publish) (void)pc->requestPictureLossIndicator(t);
    }
    void listeners(int which) {
        if (which < 0 || which == 0) pc->setConnectionStateListener([this](CS s) { onState(s); });
        if (which < 0 || which == 1) pc->setDataChannelListener(std::make_shared<Dc>(this));
        if (which < 0 || which == 2) pc->setPublishConnectionStatsListener([this](const srtc::PublishConnectionStats&) { alive("statistics"); stats++; if (callInside) inside(); });
        if (which < 0 || which == 3) pc->setPublishKeyFrameRequestedListener([this] { alive("key frame request"); keyRequests++; if (callInside) inside(); });
        if (which < 0 || which == 4) pc->setSubscribeConnectionStatsListener([this](const srtc::SubscribeConnectionStats&) { alive("statistics"); stats++; });
        if (which < 0 || which == 5) pc->setSubscribeEncodedFrameListener([this](const std::shared_ptr<srtc::EncodedFrame>& f) { alive("frame"); if (f && f->track) frames++; if (callInside && frames % 16 == 1) inside(); });
        if (which < 0 || which == 6) pc->setSubscribeSenderReportsListener([this](const std::shared_ptr<srtc::Track>&, const srtc::SenderReport&) { alive("sender report"); });
    }
    bool connected() const { return state == static_cast<int>(CS::Connected); }
    bool over() const { return state >= static_cast<int>(CS::Failed); }
    bool isOpen(const Str& l) { std::lock_guard g(m); return open.count(l) > 0; }
    void close() {
        pc->close();
        closeReturned = true;
    }
};
void Dc::onDataChannelOpened(const Str& l) { s->alive("channel"); { std::lock_guard g(s->m); s->open.insert(l); } if (s->callInside) s->inside(); }
void Dc::onDataChannelClosed(const Str&) { s->alive("channel"); }
void Dc::onDataChannelReceivedText(const Str& l, const Str& d) { s->alive("message"); std::lock_guard g(s->m); s->got[l == "two"].push_back(d); }
void Dc::onDataChannelReceivedBinary(const Str& l, const srtc::ByteBuffer& d) { s->alive("message"); std::lock_guard g(s->m); s->got[l == "two"].push_back(Str(reinterpret_cast<const char*>(d.data()), d.size())); }

struct Pair {
    vf::Rng rng; Relay relay;
    Side a{true, "publisher"}, b{false, "subscriber"};
    Str textA, textB;
    bool simulcast, data;
    Pair(vf::Rng r, bool sc, bool dc) : rng(r), simulcast(sc), data(dc) {
        srtc::PubOfferConfig po; po.cname = "cname"; po.enable_rtx = rng.chance(0.7); po.enable_bwe = rng.chance(0.5); po.enable_abs_capture_time = rng.chance(0.5);
        srtc::SubOfferConfig so; so.cname = "cname2"; so.pli_interval_millis = static_cast<uint16_t>(rng.chance(0.5) ? 500 : 0); so.jitter_buffer_length_millis = 300; so.enable_abs_capture_time = po.enable_abs_capture_time;
        if (data) po.data_channel_config.data_channels = so.data_channel_config.data_channels = {"one", "two"};
        srtc::PubMediaItem p; srtc::SubMediaItem s;
        p.media_id = s.media_id = "v"; p.media_type = s.media_type = srtc::MediaType::Video;
        p.codec_list.push_back({srtc::Codec::VP8, 0}); srtc::SubCodec c; c.codec = srtc::Codec::VP8; s.codec_list.push_back(c);
        if (simulcast) p.layer_list = {{"low", 320, 180, 15, 300}, {"hi", 1280, 720, 30, 1500}};
        srtc::PubMediaConfig pm; srtc::SubMediaConfig sm;
        pm.media_list.push_back(p); sm.media_list.push_back(s);
        srtc::PubMediaItem p2; srtc::SubMediaItem s2;
        p2.media_id = s2.media_id = "a"; p2.media_type = s2.media_type = srtc::MediaType::Audio;
        srtc::PubCodec pc; pc.codec = srtc::Codec::Opus; pc.minptime = 20; p2.codec_list.push_back(pc);
        srtc::SubCodec sc2; sc2.codec = srtc::Codec::Opus; sc2.minptime = 20; s2.codec_list.push_back(sc2);
        pm.media_list.push_back(p2); sm.media_list.push_back(s2);
        auto [oa, ea] = a.pc->createPublishOffer(po, pm);
        auto [ob, eb] = b.pc->createSubscribeOffer(so, sm);
        if (!oa || !ob) vf::harnessError("offer: " + ea.message + eb.message);
        a.offer = oa; b.offer = ob;
        auto offA = parseOffer(oa->generate().first), offB = parseOffer(ob->generate().first);
        auto ansA = makeAnswer(offA, false, po.enable_rtx, po.enable_abs_capture_time);
        auto uri = [](const Str& l) { auto q = l.rfind(' '); return l.substr(q + 1); };
        const bool client = rng.chance(0.5);
        ansA.ufrag = offB.ufrag; ansA.pwd = offB.pwd; ansA.fingerprint = offB.fingerprint; ansA.active = client;
        ansA.candidates = {Addr::make("127.0.0.1", relay.port[0])};
        auto ansB = ansA;
        for (size_t i = 0; i < ansA.media.size(); i++) {
            auto& x = ansB.media[i].extmap;
            x.erase(std::remove_if(x.begin(), x.end(), [&](const Str& l) { for (auto& y : offB.media[i].extmap) if (uri(y) == uri(l)) return false; return true; }), x.end());
            ansB.media[i].rids.clear();
        }
        if (!simulcast) for (size_t i = 0; i < ansA.media.size(); i++) ansA.media[i].extmap = ansB.media[i].extmap;
        ansB.weSend = true; ansB.active = !client;
        ansB.ufrag = offA.ufrag; ansB.pwd = offA.pwd; ansB.fingerprint = offA.fingerprint;
        ansB.candidates = {Addr::make("127.0.0.1", relay.port[1])};
        for (size_t i = 0; i < ansB.media.size(); i++) { ansB.media[i].ssrc = offA.media[i].ssrc; ansB.media[i].rtxSsrc = ansB.media[i].rtxPt ? offA.media[i].rtx : 0; }
        for (auto& m : ansA.media) if (!m.application) { relay.mainPts.insert(static_cast<uint8_t>(m.pt)); if (m.kind == "audio") relay.audioPts.insert(static_cast<uint8_t>(m.pt)); }
        textA = ansA.text(); textB = ansB.text();
        relay.start();
    }
    void startOne(Side& s) {
        auto [an, e] = s.publish ? s.pc->parsePublishAnswer(s.offer, s.publish ? textA : textB, nullptr) : s.pc->parseSubscribeAnswer(s.offer, textB, nullptr);
        if (e.isError()) vf::harnessError("parse: " + e.message);
        s.answer = an;
        auto e1 = s.pc->setOffer(s.offer), e2 = s.pc->setAnswer(an);
        if (e1.isError() || e2.isError()) rep("start-refused", s.name + ": " + e1.message + e2.message);
    }
    bool waitConnected(int64_t limitMs) {
        const auto t0 = now();
        while (now() - t0 < limitMs * 1000) { if (a.connected() && b.connected() && (!data || (a.isOpen("one") && b.isOpen("one") && a.isOpen("two") && b.isOpen("two")))) return true; if (a.over() || b.over()) return false; msleep(2); }
        return false;
    }
};

// What application threads do until told to stop
struct Stress {
    std::atomic<bool> stop{false};
    std::vector<std::thread> th;
    std::atomic<uint64_t> video{0}, audio{0}; // accepted while the session was steady
    std::mutex m;
    std::map<Str, std::vector<Str>> sent[2][2]; // [from][channel][thread] -> accepted messages in order
    bool count = false;
    void run(Pair& p, Side& s, int id, uint64_t seed, int64_t pause) {
        th.emplace_back([this, &p, &s, id, seed, pause] {
            vf::Rng r(seed);
            uint64_t n = 0;
            std::shared_ptr<srtc::Track> video_, audio_;
            const int from = s.publish ? 0 : 1;
            int64_t pts = 0;
            const Str tag = Str(s.publish ? "P" : "S") + std::to_string(id) + ":";
            while (!stop) {
                s.apiCalls++;
                switch (r.below(15)) {
                case 0: for (auto& t : s.pc->getTrackList()) { if (t->getMediaType() == srtc::MediaType::Video) video_ = t; else audio_ = t; } break;
                case 1: (void)s.pc->getMediaList(); break;
                case 2: (void)s.pc->getOffer(); (void)s.pc->getAnswer(); break;
                case 3: (void)s.pc->getDataChannelMaxMessageSize(); break;
                case 4: s.listeners(static_cast<int>(r.below(7))); break;
                case 5: case 6: {
                    auto t = video_;
                    if (s.publish && t) {
                        auto d = r.bytes(50 + r.below(1500)); d[0] &= 0xFE; if (r.chance(0.2)) d[0] |= 1;
                        if (!s.pc->publishVideoFrame(t, pts += 1000, srtc::ByteBuffer(d.data(), d.size())).isError()) video++;
                    } else if (t) (void)s.pc->requestPictureLossIndicator(t);
                    break; }
                case 7: case 8: if (s.publish && audio_) { auto d = r.bytes(20 + r.below(200)); if (!s.pc->publishAudioFrame(audio_, pts += 1000, srtc::ByteBuffer(d.data(), d.size())).isError()) audio++; } break;
                case 9: if (s.publish && video_ && p.simulcast && video_->isSimulcast()) { auto l = *video_->getSimulcastLayer(); l.kilobits_per_second = static_cast<uint32_t>(100 + r.below(900)); (void)s.pc->updateVideoSimulcastLayer(video_, l); } break;
                case 10: if (s.publish && video_ && r.chance(0.1)) { std::vector<srtc::ByteBuffer> csd; csd.emplace_back(reinterpret_cast<const uint8_t*>("\0\0\0\1abc"), 7); if (!p.simulcast) (void)0; (void)csd; } break;
                default:
                    if (p.data) {
                        const int ch = static_cast<int>(r.below(2));
                        Str msg = tag + std::to_string(n++) + ":" + Str(r.below(r.chance(0.1) ? 4000 : 60), 'x');
                        const Str label = ch ? "two" : "one";
                        Str copy = msg;
                        auto e = r.chance(0.5) ? s.pc->sendDataChannelText(label, std::move(copy)) : s.pc->sendDataChannelBinary(label, srtc::ByteBuffer(reinterpret_cast<const uint8_t*>(msg.data()), msg.size()));
                        if (count) { if (e.isError()) rep("send-refused", "message on an open channel refused: " + e.message); else { std::lock_guard l(m); sent[from][ch][tag].push_back(msg); } }
                    }
                }
                usleep_(static_cast<int64_t>(r.below(static_cast<uint64_t>(pause))));
            }
        });
    }
    void join() { stop = true; for (auto& t : th) t.join(); th.clear(); }
};

void finish(Pair& p, Side& s, const char* suite) {
    vf::count("api_calls", s.apiCalls); vf::count("calls_from_callbacks", s.fromCallbacks);
    vf::count("frames_received", s.frames); vf::count("stats_received", s.stats); vf::count("state_changes", s.changes);
    vf::count(Str(suite) + "_sides");
    Str h;
    CS prev = CS::Inactive;
    for (auto x : s.states) {
        const bool ok = prev == CS::Inactive ? x == CS::Connecting : prev == CS::Connecting ? x != CS::Connecting && x != CS::Inactive : prev == CS::Connected ? x != CS::Connected && x != CS::Inactive : false;
        if (!ok) rep("state-order", s.name + ": state " + std::to_string(static_cast<int>(prev)) + " followed by " + std::to_string(static_cast<int>(x)));
        prev = x;
        h += std::to_string(static_cast<int>(x)) + ",";
    }
    vf::sig(Str(suite) + s.name + h + (p.simulcast ? "s" : "") + (p.data ? "d" : "") + std::to_string(s.fromCallbacks > 0) + std::to_string(std::min<uint64_t>(s.apiCalls / 200, 5)) + std::to_string(std::min<uint64_t>(s.frames / 50, 5)));
}
void closers(Side& s, int n, vf::Rng& r) {
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) { const auto d = static_cast<int64_t>(r.below(3000)); th.emplace_back([&s, d] { usleep_(d); s.close(); }); }
    for (auto& t : th) t.join();
    vf::count("concurrent_closes", static_cast<uint64_t>(n));
}

// A session that lives undisturbed while threads use it: every accepted call has its effect
void session(vf::Rng rng, int64_t) {
    vf::wallLimit(150); vf::cpuLimit(600);
    const bool sc = rng.chance(0.3);
    auto p = std::make_unique<Pair>(rng.fork(), sc, rng.chance(0.7));
    if (rng.chance(0.5)) p->a.callInside = p->b.callInside = true;
    p->startOne(p->a); p->startOne(p->b);
    if (!p->waitConnected(20000)) { vf::count("not_connected"); p->a.close(); p->b.close(); return; }
    msleep(20);
    Stress st; st.count = true;
    const auto ch0 = p->a.changes.load(), ch1 = p->b.changes.load();
    const int n = 1 + static_cast<int>(rng.below(3));
    for (int i = 0; i < n; i++) { st.run(*p, p->a, i, rng.next(), 12000); st.run(*p, p->b, i, rng.next(), 12000); }
    const bool isLong = rng.chance(vf::opt.thorough ? 0.3 : 0.06);
    if (isLong) { msleep(5500); vf::count("long_sessions"); }
    msleep(static_cast<int64_t>(200 + rng.below(600)));
    st.join();
    // the traffic ends; everything accepted must come out
    auto steady = [&] { return p->a.changes == ch0 && p->b.changes == ch1; };
    Str missing;
    const auto t0 = now();
    bool done = false, more = false;
    uint64_t relayDropped = 0;
    while (!done && now() - t0 < 20 * sec && steady()) {
        msleep(5);
        done = true; missing.clear();
        for (int from = 0; from < 2; from++) for (int ch = 0; ch < 2; ch++) {
            Side& to = from == 0 ? p->b : p->a;
            size_t want = 0;
            for (auto& [t, l] : st.sent[from][ch]) want += l.size();
            std::lock_guard l(to.m);
            if (to.got[ch].size() < want) { done = false; missing = to.name + " got " + std::to_string(to.got[ch].size()) + " of " + std::to_string(want) + " messages"; }
        }
        std::lock_guard l(p->relay.m);
        uint64_t frames = 0, packets = 0; // a packet the relay's socket dropped may have ended a frame
        for (auto& [ssrc, f] : p->relay.flows) { const auto lost = f.hi - f.lo + 1 - f.seqs.size(); if (f.audio) packets += f.seqs.size() + lost; else frames += f.markers + lost; }
        if (frames < st.video || packets < st.audio) { done = false; missing = std::to_string(st.video) + " video and " + std::to_string(st.audio) + " audio frames accepted, " + std::to_string(frames) + " and " + std::to_string(packets) + " sent"; }
        relayDropped = 0;
        for (auto& [ssrc, f] : p->relay.flows) relayDropped += f.hi - f.lo + 1 - f.seqs.size();
        if (done && relayDropped == 0 && (frames > st.video || packets > st.audio)) { missing = std::to_string(st.video) + " video and " + std::to_string(st.audio) + " audio frames accepted, " + std::to_string(frames) + " and " + std::to_string(packets) + " sent"; more = true; }
    }
    if (!steady()) vf::count("disturbed");
    else {
        if (!done) rep("accepted-call-lost", missing);
        if (more) rep("sent-more-than-published", missing);
        for (int from = 0; from < 2; from++) for (int ch = 0; ch < 2; ch++) {
            Side& to = from == 0 ? p->b : p->a;
            std::map<Str, std::vector<Str>> per;
            std::lock_guard l(to.m);
            for (auto& x : to.got[ch]) per[x.substr(0, x.find(':') + 1)].push_back(x);
            for (auto& [t, l2] : st.sent[from][ch]) {
                if (done && per[t] != l2) rep("message-order", "messages of one thread arrive changed, repeated or out of order: " + std::to_string(per[t].size()) + " for " + std::to_string(l2.size()));
                vf::count("messages_checked", l2.size());
            }
        }
        vf::count("frames_checked", st.video + st.audio);
        vf::count("steady_sessions");
    }
    Stress again; // calls go on while it is being closed
    for (int i = 0; i < 2; i++) { again.run(*p, p->a, i, rng.next(), 300); again.run(*p, p->b, i, rng.next(), 300); }
    usleep_(static_cast<int64_t>(rng.below(5000)));
    std::thread other([&] { for (int i = 0; i < 2; i++) p->b.close(); });
    closers(p->a, 1 + static_cast<int>(rng.below(3)), rng);
    other.join();
    usleep_(static_cast<int64_t>(rng.below(3000)));
    again.join();
    finish(*p, p->a, "session"); finish(*p, p->b, "session");
}
// Closing, from several threads, at any moment of connecting
void early(vf::Rng rng, int64_t) {
    vf::wallLimit(150); vf::cpuLimit(600);
    auto p = std::make_unique<Pair>(rng.fork(), rng.chance(0.3), rng.chance(0.7));
    p->a.callInside = p->b.callInside = rng.chance(0.5);
    if (rng.chance(0.2)) (rng.chance(0.5) ? p->a : p->b).closeInside = true;
    Stress st;
    const bool before = rng.chance(0.7);
    auto go = [&] { for (int i = 0; i < 2; i++) { st.run(*p, p->a, i, rng.next(), 500); st.run(*p, p->b, i, rng.next(), 500); } };
    if (before) go();
    if (rng.chance(0.5)) { std::thread t([&] { p->startOne(p->a); }); p->startOne(p->b); t.join(); } else { p->startOne(p->a); p->startOne(p->b); }
    if (!before) go();
    const bool one = rng.chance(0.4);
    if (one && rng.chance(0.7)) (void)p->waitConnected(3000);
    usleep_(static_cast<int64_t>(rng.below(rng.chance(0.5) ? 30000 : 300000)));
    if (one) { // only one side closes, the other ends by itself
        closers(p->a, 1 + static_cast<int>(rng.below(3)), rng);
        const auto t0 = now();
        while (!p->b.over() && now() - t0 < 300 * ms) msleep(2);
        if (p->b.over()) { vf::count("ended_by_peer"); for (int i = 0; i < 20; i++) { (void)p->b.pc->getTrackList(); usleep_(100); } }
        closers(p->b, 1, rng);
    } else {
        std::thread t([&p, d = static_cast<int64_t>(rng.below(3000))] { usleep_(d); p->b.close(); });
        closers(p->a, 1 + static_cast<int>(rng.below(3)), rng);
        t.join();
    }
    st.join();
    vf::count(p->a.states.size() > 1 ? "closed_connected" : "closed_connecting");
    finish(*p, p->a, "early"); finish(*p, p->b, "early");
}
// The path goes down for so long that the session is given up and restored, while threads use it
void restore(vf::Rng rng, int64_t) {
    vf::wallLimit(150); vf::cpuLimit(600);
    auto p = std::make_unique<Pair>(rng.fork(), rng.chance(0.3), rng.chance(0.7));
    p->a.callInside = p->b.callInside = rng.chance(0.5);
    p->startOne(p->a); p->startOne(p->b);
    if (!p->waitConnected(20000)) { vf::count("not_connected"); p->a.close(); p->b.close(); return; }
    Stress st;
    for (int i = 0; i < 2; i++) { st.run(*p, p->a, i, rng.next(), 8000); st.run(*p, p->b, i, rng.next(), 8000); }
    msleep(static_cast<int64_t>(rng.below(300)));
    p->relay.down = true;
    auto t0 = now();
    while (now() - t0 < 9 * sec && p->a.state == static_cast<int>(CS::Connected)) msleep(5);
    if (p->a.state == static_cast<int>(CS::Connecting)) vf::count("interrupted");
    p->relay.down = false;
    t0 = now();
    while (now() - t0 < 3 * sec && !p->a.connected()) msleep(5);
    if (p->a.connected()) vf::count("restored");
    msleep(static_cast<int64_t>(rng.below(200)));
    std::thread t([&] { p->b.close(); });
    closers(p->a, 2, rng);
    t.join();
    st.join();
    finish(*p, p->a, "restore"); finish(*p, p->b, "restore");
}
// Many connections made, started and destroyed by different threads
void many(vf::Rng rng, int64_t) {
    vf::wallLimit(150); vf::cpuLimit(600);
    std::vector<std::thread> th;
    std::vector<std::unique_ptr<Pair>> pairs(4);
    for (int i = 0; i < 4; i++) {
        th.emplace_back([&, i, seed = rng.next()] {
            vf::Rng r(seed);
            pairs[static_cast<size_t>(i)] = std::make_unique<Pair>(r.fork(), r.chance(0.3), r.chance(0.7));
            auto& p = *pairs[static_cast<size_t>(i)];
            p.startOne(p.a); p.startOne(p.b);
            if (r.chance(0.7)) (void)p.waitConnected(static_cast<int64_t>(r.below(500)));
            if (r.chance(0.5)) { p.a.close(); p.b.close(); p.a.close(); }
            else { p.a.pc.reset(); p.a.closeReturned = true; p.b.pc.reset(); p.b.closeReturned = true; }
        });
    }
    for (auto& t : th) t.join();
    for (auto& p : pairs) { finish(*p, p->a, "many"); finish(*p, p->b, "many"); }
}
} // namespace

int main(int argc, char** argv) {
    srtc::setLogLevel(SRTC_LOG_E + 1);
    if (getenv("VF_LOG")) srtc::setLogLevel(0);
    return vf::runMain(argc, argv, "a connection pair on real threads with its states, shape, amount of concurrent calls and of media received", {{"session", 5, session}, {"early", 8, early}, {"many", 2, many}, {"restore", 1, restore}});
}
