// C12/C13: data-channel sessions over a hostile datagram path, in virtual time.
// usage: c12_c13_sctp c12|c13 [framework options]
#include "glue.h"
#include "refsctp.h"
#include "vclock.h"
#include "vrandom.h"
#include "sctp_session.h"
#include "srtc/data_channel_message.h"
#include "srtc/logging.h"
#include "srtc/scheduler.h"
#include "srtc/sctp_session_listener.h"
#include <algorithm>
#include <deque>

using namespace srtc;
using Bytes = std::vector<uint8_t>;
static bool g_c13 = false;

namespace {
struct Msg { bool text; Bytes data; };

// Random-device values for which the session's initial TSN is just below the wrap (uniform 1..2^32-2, second draw).
const std::vector<uint32_t> kWrapSeeds = {2180022, 5113050, 5927148, 6850264, 14966136, 16060893, 20675268, 21946421, 23330562, 30066990, 48849748, 50075540, 54459199, 65203768, 74255178, 70622952, 90988154, 94819494};

struct Net {
    vf::Rng rng;
    double loss = 0, dup = 0, far = 0;
    int64_t base = 5000, jitter = 0, now = 0;
    struct Item { int to; Bytes data; };
    std::multimap<int64_t, Item> q;
    int run[2] = {0, 0};
    std::map<uint8_t, int> lostHandshake[2];
    uint64_t sent[2] = {0, 0};
    std::vector<Bytes> seen[2]; // some genuine packets towards each side
    explicit Net(vf::Rng r) : rng(r) {}
    void push(int to, const Bytes& d) {
        sent[to]++;
        if (seen[to].size() < 40) seen[to].push_back(d); else seen[to][rng.below(40)] = d;
        // a session gives up its handshake after 8 repetitions: at most 3 of each handshake packet are lost
        uint8_t type = d.size() > 12 ? d[12] : 0;
        bool handshake = type == 1 || type == 2 || type == 10 || type == 11;
        if (rng.chance(loss) && run[to] < 4 && (!handshake || lostHandshake[to][type]++ < 3)) { run[to]++; vf::count("datagrams_lost"); return; }
        run[to] = 0;
        int n = rng.chance(dup) ? 2 : 1;
        if (n == 2) vf::count("datagrams_duplicated");
        for (int i = 0; i < n; i++) {
            int64_t t = now + base + (jitter ? rng.range(0, jitter) : 0);
            if (rng.chance(far)) { t += rng.range(20000, 700000); vf::count("datagrams_delayed"); }
            q.insert({t, {to, d}});
        }
    }
};

struct World;
struct RealEnd : sctp::SctpSessionListener {
    World& w; int side;
    std::shared_ptr<LoopScheduler> sched;
    std::unique_ptr<sctp::SctpSession> session;
    std::map<std::string, int> opens, closes;
    std::map<std::string, std::deque<Msg>> expect;     // what the other side sent to us, per label
    std::map<std::string, std::vector<Msg>> expectAny; // unordered channels
    uint64_t callbacks = 0, delivered = 0;
    ~RealEnd() { session.reset(); }
    RealEnd(World& ww, int s) : w(ww), side(s), sched(std::make_shared<LoopScheduler>()) {}
    void onSctpSendPacket(const ByteBuffer& p) override;
    void onSctpDataChannelOpen(const std::string& l) override;
    void onSctpDataChannelText(const std::string& l, const std::string& t) override { got(l, {true, Bytes(t.begin(), t.end())}); }
    void onSctpDataChannelBinary(const std::string& l, const ByteBuffer& d) override { got(l, {false, glue::bytes(d)}); }
    void onSctpDataChannelClose(const std::string& l) override;
    void got(const std::string& l, const Msg& m);
};

std::string desc(const Msg& m) { return std::string(m.text ? "text" : "binary") + " of " + std::to_string(m.data.size()) + " bytes (" + std::to_string(vf::hash64(m.data.data(), m.data.size()) % 100000) + ")"; }
bool same(const Msg& a, const Msg& b) { return a.text == b.text && a.data == b.data; }

void judge(std::deque<Msg>& exp, const Msg& m, const std::string& who) {
    if (!exp.empty() && same(exp.front(), m)) { exp.pop_front(); return; }
    for (size_t i = 1; i < exp.size(); i++)
        if (same(exp[i], m)) vf::fail("message-out-of-order", who + " received " + desc(m) + " before " + std::to_string(i) + " messages sent earlier");
    if (exp.empty()) vf::fail("message-not-sent-or-twice", who + " received " + desc(m) + " although everything sent was already delivered");
    vf::fail("message-altered-or-twice", who + " received " + desc(m) + " where " + desc(exp.front()) + " is next");
}

struct World : refsctp::Events {
    vf::Rng rng;
    Net net;
    int64_t now = 0;
    std::unique_ptr<RealEnd> real[2];
    std::unique_ptr<refsctp::Peer> ref; // side 1 when set
    std::map<std::string, std::deque<Msg>> refExpect; // label -> messages the real side sent to the reference peer
    std::map<uint16_t, std::string> refLabel;         // streams by label, both directions
    std::map<std::string, uint16_t> refStream;
    std::map<std::string, int> refOpens;
    std::set<std::string> refAccepted;
    uint64_t refDelivered = 0;
    uint64_t sigh = 0;
    World(vf::Rng r) : rng(r.fork()), net(r.fork()) {}
    // reference peer events
    void onSend(const refsctp::Bytes& p) override { net.push(0, p); }
    void onOpen(const std::string& label, uint16_t stream) override { refLabel[stream] = label; refStream[label] = stream; refOpens[label]++; }
    void onAccepted(uint16_t stream) override { refAccepted.insert(refLabel[stream]); }
    void onMessage(uint16_t stream, bool text, const refsctp::Bytes& m) override {
        refDelivered++;
        vf::count("messages_delivered");
        judge(refExpect[refLabel[stream]], {text, m}, "reference peer on '" + refLabel[stream] + "'");
    }
    void onBad(const std::string& what) override { vf::fail("protocol", "the session's packets break the protocol: " + what); }

    void advance(int64_t t) { now = t; net.now = t; vclock::setUs(t); }
    int64_t nextTime() {
        int64_t t = INT64_MAX;
        if (!net.q.empty()) t = std::min(t, net.q.begin()->first);
        for (auto& r : real) if (r) {
            int ms = r->sched->getTimeoutMillis(1 << 30);
            if (ms < (1 << 30)) t = std::min(t, now + std::max<int64_t>(1000, static_cast<int64_t>(ms) * 1000));
        }
        if (ref) t = std::min(t, std::max(now + 1, ref->next()));
        return t;
    }
    uint64_t steps = 0;
    void step(int64_t limit) {
        int64_t t = std::min(nextTime(), limit);
        advance(std::max(t, now));
        while (!net.q.empty() && net.q.begin()->first <= now) {
            auto it = net.q.begin();
            Net::Item item = std::move(it->second);
            net.q.erase(it);
            if (real[item.to]) real[item.to]->session->onReceiveData(glue::buf(item.data));
            else ref->receive(item.data, now);
            vf::count("datagrams_delivered");
            if (++steps < 400) sigh = vf::hash64(&item.to, sizeof item.to, sigh * 31 + item.data.size());
        }
        for (auto& r : real) if (r) r->sched->run();
        if (ref) ref->tick(now);
    }
};

void RealEnd::onSctpSendPacket(const ByteBuffer& p) {
    Bytes b = glue::bytes(p);
    std::string why;
    auto q = refsctp::parse(b, why);
    if (!q) vf::fail("protocol", "packet of " + std::to_string(b.size()) + " bytes emitted is not well formed: " + why + ": " + vf::hex(b));
    VF_CHECK(b.size() <= 1200 || q->chunks[0].type == 3 || q->chunks[0].type == 10, "packet-size", "packet of " << b.size() << " bytes");
    if (vf::opt.verbose) for (auto& c : q->chunks) fprintf(stderr, "%lld side %d sends type %d tag %x: %s\n", (long long)w.now, side, c.type, q->tag, vf::hex(c.body).c_str());
    w.net.push(1 - side, b);
}
void RealEnd::onSctpDataChannelOpen(const std::string& l) {
    callbacks++;
    opens[l]++;
    vf::count("opens_announced");
    if (vf::opt.verbose) fprintf(stderr, "%lld side %d open '%s'\n", (long long)w.now, side, l.c_str());
    VF_CHECK(opens[l] == 1, "opened-twice", "side " << side << ": channel '" << l << "' announced open " << opens[l] << " times");
}
void RealEnd::onSctpDataChannelClose(const std::string& l) {
    callbacks++;
    closes[l]++;
    vf::count("closes_announced");
    // may be called from the session's destructor, must not throw
    if (!opens.count(l)) vf::report("closed-never-opened", "side " + std::to_string(side) + ": channel '" + l + "' announced closed, it was never announced open");
    if (closes[l] != 1) vf::report("closed-twice", "side " + std::to_string(side) + ": channel '" + l + "' announced closed " + std::to_string(closes[l]) + " times");
}
void RealEnd::got(const std::string& l, const Msg& m) {
    callbacks++;
    delivered++;
    vf::count("messages_delivered");
    VF_CHECK(opens.count(l), "message-before-open", "side " << side << ": message on '" << l << "' before it was announced open");
    VF_CHECK(!closes.count(l), "message-after-close", "side " << side << ": message on '" << l << "' after it was announced closed");
    if (expectAny.count(l)) {
        auto& v = expectAny[l];
        for (size_t i = 0; i < v.size(); i++) if (same(v[i], m)) { v.erase(v.begin() + static_cast<long>(i)); return; }
        vf::fail("message-altered-or-twice", "side " + std::to_string(side) + " received " + desc(m) + " on unordered '" + l + "', not among those outstanding");
    }
    judge(expect[l], m, "side " + std::to_string(side) + " on '" + l + "'");
}

size_t pickSize(vf::Rng& rng, size_t max, bool big) {
    size_t n;
    switch (rng.below(8)) {
    case 0: n = 0; break;
    case 1: n = 1 + rng.below(8); break;
    case 2: n = 1090 + rng.below(25); break;                       // around one fragment
    case 3: n = (1 + rng.below(6)) * 1100 + rng.below(3) - 1; break; // around fragment multiples
    case 4: n = max ? max - std::min<size_t>(max, rng.below(2)) : 20000; break;
    case 5: n = big ? rng.below(200000) : rng.below(20000); break;
    default: n = rng.below(400);
    }
    if (max) n = std::min(n, max);
    if (!big) n = std::min<size_t>(n, 30000);
    return n;
}
Msg makeMsg(vf::Rng& rng, size_t n) {
    Msg m{rng.chance(0.5), rng.bytes(n)};
    return m;
}
DataChannelMessage toMessage(const std::string& label, const Msg& m) {
    if (m.text) return DataChannelMessage::makeText(label, std::string(m.data.begin(), m.data.end()));
    return DataChannelMessage::makeBinary(label, m.data.empty() ? ByteBuffer() : ByteBuffer(m.data.data(), m.data.size()));
}

// A packet that does not belong to the association: must change nothing.
void injectForeign(World& w, int to, uint16_t lport, uint16_t rport) {
    auto& e = *w.real[to];
    auto& rng = w.rng;
    if (w.net.seen[to].empty()) return;
    Bytes b = w.net.seen[to][rng.below(w.net.seen[to].size())];
    std::string why;
    auto p = refsctp::parse(b, why);
    if (!p) return;
    const bool init = p->chunks[0].type == 1;
    unsigned kind = static_cast<unsigned>(rng.below(7));
    switch (kind) {
    case 0: { auto o = p->src; while (p->src == o) p->src = static_cast<uint16_t>(rng.below(65536)); b = refsctp::build(*p); break; }
    case 1: { auto o = p->dst; while (p->dst == o) p->dst = static_cast<uint16_t>(rng.below(65536)); b = refsctp::build(*p); break; }
    case 2: { auto o = p->tag; while (p->tag == o) p->tag = rng.chance(0.3) && !init ? 0 : rng.chance(0.5) ? o ^ (1u << rng.below(32)) : static_cast<uint32_t>(rng.next()); b = refsctp::build(*p); break; }
    case 3: b[rng.below(b.size())] ^= static_cast<uint8_t>(1u << rng.below(8)); break;   // damaged, checksum wrong
    case 4: b[8 + rng.below(4)] ^= static_cast<uint8_t>(1 + rng.below(255)); break;      // checksum wrong
    case 5: if (b.size() > 13) b.resize(rng.below(b.size() - 1)); break;                 // cut short
    case 6: { // an INIT may carry tag 0, nothing may ride along with it
        refsctp::Packet q{rport, lport, 0, {}};
        refsctp::Chunk c{1, 0, {}};
        refsctp::p32(c.body, static_cast<uint32_t>(rng.next()) | 1); refsctp::p32(c.body, 100000); refsctp::p16(c.body, 10); refsctp::p16(c.body, 10); refsctp::p32(c.body, static_cast<uint32_t>(rng.next()));
        q.chunks.push_back(c);
        for (auto& x : p->chunks) q.chunks.push_back(x);
        if (init) return;
        b = refsctp::build(q);
        break;
    }
    }
    auto cb = e.callbacks;
    auto s = w.net.sent[1 - to];
    e.session->onReceiveData(glue::buf(b));
    static const char* names[] = {"source port", "destination port", "verification tag", "damage", "checksum", "truncation", "chunks bundled with INIT"};
    VF_CHECK(e.callbacks == cb, "foreign-packet-delivered", "a packet with wrong " << names[kind] << " reached the listener");
    VF_CHECK(w.net.sent[1 - to] == s, "foreign-packet-answered", "a packet with wrong " << names[kind] << " (first chunk type " << int(p->chunks[0].type) << ") was acted upon");
    vf::count("foreign_packets");
    vf::sig(vf::hash64(&kind, sizeof kind) * 31 + p->chunks[0].type);
}

void refuse(World& w, int side, const std::string& label, const Msg& m, const char* why) {
    auto s = w.net.sent[1 - side];
    w.real[side]->session->send(toMessage(label, m));
    VF_CHECK(w.net.sent[1 - side] == s, "refused-message-sent", "a message " << why << " was sent");
    vf::count("refused_messages");
}

void netParams(World& w, vf::Rng& rng, int style) {
    auto& n = w.net;
    n.base = rng.range(500, 60000);
    switch (style) {
    case 0: break;
    case 1: n.loss = rng.unit() * 0.15; break;
    case 2: n.jitter = rng.range(1000, 80000); break;
    case 3: n.dup = rng.unit() * 0.4; break;
    default:
        n.loss = rng.unit() * 0.3;
        n.dup = rng.unit() * 0.2;
        n.jitter = rng.range(0, 80000);
        n.far = rng.unit() * 0.1;
    }
}

void runCase(vf::Rng& rng, bool withRef) {
    vclock::setUs(0);
    vrand::seed(rng.next());
    if (rng.chance(0.5)) vrand::forced.push_back(rng.pick(kWrapSeeds)); // the first session's TSN wraps early
    World w(rng);
    int style = static_cast<int>(rng.below(7));
    netParams(w, rng, style);
    w.advance(rng.range(0, 1000000000));
    const uint16_t pa = rng.chance(0.5) ? 5000 : static_cast<uint16_t>(1 + rng.below(65535)), pb = rng.chance(0.5) ? 5000 : static_cast<uint16_t>(1 + rng.below(65535));
    const bool bActive = rng.chance(0.5);
    const uint32_t max = rng.pickOf<uint32_t>({0, 0, 262144, 65536, 65535, 1100, 1101, 5000, 100});
    const bool big = rng.chance(vf::opt.thorough ? 0.1 : 0.04);
    // labels, all different
    std::vector<std::string> la, lb;
    unsigned na = rng.below(4), nb = rng.below(withRef ? 4 : 3);
    if (na + nb == 0) na = 1;
    for (unsigned i = 0; i < na; i++) la.push_back("a" + std::to_string(i) + std::string(rng.chance(0.2) ? rng.below(200) : 0, 'x'));
    for (unsigned i = 0; i < nb; i++) lb.push_back("b" + std::to_string(i));
    if (rng.chance(0.1) && !la.empty()) la[0] = "";
    std::set<std::string> unorderedLabels;

    // isSetupActive tells the session that the other side is the DTLS client
    w.real[0] = std::make_unique<RealEnd>(w, 0);
    w.real[0]->session = std::make_unique<sctp::SctpSession>(w.real[0]->sched, w.real[0].get(), pa, pb, max, bActive, la);
    if (withRef) {
        w.ref = std::make_unique<refsctp::Peer>(w, rng.fork(), pb, pa, rng.chance(0.6));
        w.ref->peerParity = bActive ? 1 : 0;
        w.ref->rwnd = rng.pickOf<uint32_t>({131072, 131072, 65536, 20000, 3000, 1200});
    } else {
        w.real[1] = std::make_unique<RealEnd>(w, 1);
        w.real[1]->session = std::make_unique<sctp::SctpSession>(w.real[1]->sched, w.real[1].get(), pb, pa, max, !bActive, lb);
    }
    uint64_t accepted = 0, chunks = 0;
    auto trySend = [&](int side, const std::string& label) {
        auto& e = *w.real[side];
        Msg m = makeMsg(rng, pickSize(rng, max, big));
        bool open = e.session->isChannelOpen(label);
        VF_CHECK(open == (e.opens.count(label) && !e.closes.count(label)), "open-state", "isChannelOpen('" << label << "') is " << open << ", announced " << e.opens.count(label) << "/" << e.closes.count(label));
        if (!open) { refuse(w, side, label, m, "on a channel that is not open"); return; }
        if (withRef) w.refExpect[label].push_back(m); else w.real[1 - side]->expect[label].push_back(m);
        e.session->send(toMessage(label, m));
        accepted++; chunks += 1 + m.data.size() / 1100;
        vf::count("messages_sent");
    };
    // handshake
    if (rng.chance(0.3)) w.step(w.now + rng.range(0, 300000));
    if (g_c13 || rng.chance(0.2)) refuse(w, 0, la.empty() ? "b0" : la[0], makeMsg(rng, 10), "before negotiation");
    w.real[0]->session->start();
    int64_t startB = w.now + (rng.chance(0.5) ? 0 : rng.range(0, 2000000)); // the other side may begin later
    if (withRef) startB = std::min(startB, w.now + 1000000);
    bool startedB = false;
    int64_t nextSend = w.now, nextForeign = w.now, nextHb = w.now + rng.range(0, 3000000);
    unsigned nmsg = big ? 4 : static_cast<unsigned>(rng.below(60));
    int64_t gap = rng.pickOf<int64_t>({0, 300, 5000, 50000, 200000});
    bool burst = rng.chance(0.3);
    unsigned refOpened = 0;
    int64_t refOpenAt = w.now + rng.range(0, 3000000);
    std::set<std::string> closedByRef;
    int64_t cutoff = w.now + 30000000; // losses may go on this long
    int64_t lossEnd = 0, deadline = 0;
    unsigned sendsLeft = nmsg;
    uint64_t iterations = 0;
    const uint32_t smallWindow = w.ref && w.ref->rwnd < 131072 ? w.ref->rwnd : 0;
    while (true) {
        if (++iterations > 3000000) vf::harnessError("world does not settle");
        if (!startedB && w.now >= startB) { startedB = true; if (withRef) w.ref->start(w.now); else w.real[1]->session->start(); }
        // application
        if (sendsLeft && w.now >= nextSend) {
            unsigned k = burst ? 1 + static_cast<unsigned>(rng.below(12)) : 1;
            bool any = false;
            for (; k && sendsLeft; k--) {
                std::vector<std::pair<int, std::string>> open;
                for (int s = 0; s < 2; s++) if (w.real[s]) for (auto& [l, n] : w.real[s]->opens) if (!w.real[s]->closes.count(l)) open.push_back({s, l});
                if (withRef && w.ref->established) for (auto& [l, st] : w.refStream) if (!closedByRef.count(l)) open.push_back({2, l});
                if (open.empty()) break;
                auto [s, l] = rng.pick(open);
                if (s < 2) trySend(s, l);
                else {
                    Msg m = makeMsg(rng, pickSize(rng, 0, big));
                    if (m.data.size() > 60000) m.data.resize(60000);
                    if (unorderedLabels.count(l)) w.real[0]->expectAny[l].push_back(m); else w.real[0]->expect[l].push_back(m);
                    w.ref->message(w.refStream[l], m.text, m.data, rng.pickOf<size_t>({1100, 1024, 500, 16, 1}) > 16 ? rng.pickOf<size_t>({1100, 1024, 500}) : std::max<size_t>(16, m.data.size() / 20));
                    w.ref->pump(w.now);
                    accepted++; chunks += 21 + m.data.size() / 500;
                    vf::count("messages_sent");
                }
                sendsLeft--; any = true;
            }
            if (max && rng.chance(0.1)) for (auto& [l, n] : w.real[0]->opens) { refuse(w, 0, l, makeMsg(rng, max + 1 + rng.below(3000)), "over the maximum size"); break; }
            if (rng.chance(0.1)) refuse(w, 0, "no such label", makeMsg(rng, rng.below(100)), "on an unknown label");
            nextSend = w.now + (any ? rng.range(0, gap) : 100000);
        }
        if (withRef && w.ref->established && refOpened < nb && w.now >= refOpenAt) {
            uint16_t stream = static_cast<uint16_t>((bActive ? 0 : 1) + 2 * refOpened);
            if (rng.chance(0.1)) stream = static_cast<uint16_t>(stream + 2 * rng.below(100) * nb);
            while (w.refLabel.count(stream)) stream = static_cast<uint16_t>(stream + 2);
            auto& l = lb[refOpened++];
            bool un = rng.chance(0.3);
            if (un) { unorderedLabels.insert(l); w.real[0]->expectAny[l]; }
            w.refLabel[stream] = l; w.refStream[l] = stream;
            w.ref->open(stream, l, un, rng.chance(0.3) ? "proto" : "");
            w.ref->pump(w.now);
            refOpenAt = w.now + rng.range(0, 500000);
        }
        if (withRef && w.ref->established && w.now >= nextHb) { if (rng.chance(0.5)) w.ref->heartbeat(); nextHb = w.now + rng.range(100000, 3000000); }
        if (g_c13 && w.now >= nextForeign) {
            for (int s = 0; s < 2; s++) if (w.real[s] && rng.chance(0.7)) injectForeign(w, s, s ? pb : pa, s ? pa : pb);
            nextForeign = w.now + rng.range(0, 150000);
        }
        // settled?
        bool allOpen = true;
        for (auto& l : la) allOpen = allOpen && w.real[0]->opens.count(l) && (withRef ? w.refOpens.count(l) : w.real[1]->opens.count(l));
        for (auto& l : lb) allOpen = allOpen && w.real[0]->opens.count(l) && (withRef ? w.refAccepted.count(l) : w.real[1]->opens.count(l));
        bool pending = false;
        for (int s = 0; s < 2; s++) if (w.real[s]) { for (auto& [l, q] : w.real[s]->expect) if (!q.empty()) pending = true; for (auto& [l, q] : w.real[s]->expectAny) if (!q.empty()) pending = true; }
        for (auto& [l, q] : w.refExpect) if (!q.empty()) pending = true;
        if (allOpen && !sendsLeft && !lossEnd) lossEnd = w.now;
        if (!lossEnd && w.now > cutoff) { lossEnd = w.now; sendsLeft = 0; }
        if (lossEnd && !deadline) {
            if (rng.chance(0.7)) { w.net.loss = 0; w.net.dup = 0; w.net.far = 0; }
            else { w.net.loss = std::min(w.net.loss, 0.05); }
            deadline = w.now + 60000000 + static_cast<int64_t>(chunks) * 1200000 + (smallWindow ? 60000000 : 0);
        }
        if (lossEnd && allOpen && !pending) break;
        if (deadline && w.now > deadline) {
            std::ostringstream os;
            os << "after " << (w.now - lossEnd) / 1000000 << " s on a working path: ";
            if (!allOpen) { os << "not every channel is open;"; vf::fail("channel-never-opens", os.str()); }
            for (int s = 0; s < 2; s++) if (w.real[s]) for (auto& [l, q] : w.real[s]->expect) if (!q.empty()) os << " side " << s << " '" << l << "' lacks " << q.size() << ", next " << desc(q.front()) << ";";
            for (auto& [l, q] : w.refExpect) if (!q.empty()) os << " reference peer '" << l << "' lacks " << q.size() << ", next " << desc(q.front()) << ";";
            vf::fail("message-never-delivered", os.str());
        }
        // a later wake-up for the application
        int64_t limit = w.now + 200000;
        if (sendsLeft) limit = std::min(limit, std::max(w.now, nextSend));
        if (g_c13) limit = std::min(limit, std::max(w.now, nextForeign));
        w.step(limit);
    }
    // nothing more may surface
    int64_t quiet = w.now + 3000000;
    while (w.now < quiet) w.step(std::min(quiet, w.now + 100000));
    if (withRef) VF_CHECK(w.ref->heartbeats.empty() || w.ref->hbAcked > 0 || w.net.loss > 0 || style != 0, "heartbeat-unanswered", "none of " << w.ref->heartbeats.size() << " heartbeats was answered");
    for (auto& l : la) {
        if (withRef) VF_CHECK(w.refOpens[l] == 1, "opened-twice", "'" << l << "' opened " << w.refOpens[l] << " times at the reference peer");
        // parity is checked by the reference peer; with two sessions the labels and stream numbers would collide
    }
    // closing by the peer
    if (withRef && rng.chance(0.7)) {
        w.net.loss = g_c13 ? 0.2 : 0; w.net.dup = 0.3;
        std::vector<uint16_t> streams;
        for (auto& [l, st] : w.refStream) if (rng.chance(0.6)) { streams.push_back(st); closedByRef.insert(l); }
        if (!streams.empty()) {
            w.ref->reconfPending.insert(77);
            for (int i = 0; i < 40 && (w.ref->reconfPending.count(77) || i < 2); i++) {
                w.ref->send({w.ref->resetChunk(77, streams)});
                int64_t t = w.now + 300000;
                while (w.now < t) w.step(t);
            }
            VF_CHECK(!w.ref->reconfPending.count(77), "reset-unanswered", "the peer's stream reset was never answered");
            for (auto& l : closedByRef) {
                VF_CHECK(w.real[0]->closes[l] == 1, "close-not-announced", "'" << l << "' was reset by the peer, announced closed " << w.real[0]->closes[l] << " times");
                VF_CHECK(!w.real[0]->session->isChannelOpen(l), "open-after-close", "'" << l << "' still open after the peer closed it");
                refuse(w, 0, l, makeMsg(rng, 10), "on a closed channel");
            }
            vf::count("resets");
        }
        // the others still work
        w.net.loss = 0; w.net.dup = 0; w.net.far = 0;
        uint64_t before = chunks;
        for (auto& [l, n] : w.real[0]->opens) if (!w.real[0]->closes.count(l)) trySend(0, l);
        int64_t t = w.now + 10000000 + static_cast<int64_t>(chunks - before) * 1200000;
        auto left = [&] { for (auto& [l, q] : w.refExpect) if (!q.empty()) return true; return false; };
        while (w.now < t && left()) w.step(std::min(t, w.now + 100000));
        for (auto& [l, q] : w.refExpect) VF_CHECK(q.empty(), "message-never-delivered", "'" << l << "' no longer delivers after another channel was closed");
    }
    // the session ends: every open channel is announced closed, once
    for (int s = 0; s < 2; s++) if (w.real[s]) {
        w.real[s]->session.reset();
        for (auto& [l, n] : w.real[s]->opens) VF_CHECK(w.real[s]->closes[l] == 1, "close-not-announced", "side " << s << ": '" << l << "' announced closed " << w.real[s]->closes[l] << " times at the end of the session");
    }
    vf::sig(w.sigh ^ accepted);
    vf::count("sessions");
    if (style >= 4) vf::count("hostile_sessions");
    if (max) vf::count("limited_sessions");
    vf::sample(std::string(withRef ? "reference peer" : "two sessions") + ": " + std::to_string(la.size() + lb.size()) + " channels, " + std::to_string(accepted) + " messages, loss " + std::to_string(w.net.loss) + ", " + std::to_string(w.steps) + " datagrams");
}
// More messages on one channel than there are stream sequence numbers, in both directions.
void longCase(vf::Rng& rng) {
    vf::cpuLimit(300);
    vclock::setUs(0);
    vrand::seed(rng.next());
    World w(rng);
    w.net.base = 2000;
    w.net.dup = 0.02;
    w.net.jitter = 1500;
    w.net.loss = 0.0002;
    w.advance(1000000);
    const bool act = rng.chance(0.5);
    for (int s = 0; s < 2; s++) {
        w.real[s] = std::make_unique<RealEnd>(w, s);
        w.real[s]->session = std::make_unique<sctp::SctpSession>(w.real[s]->sched, w.real[s].get(), 5000, 5000, 0, s ? !act : act, s ? std::vector<std::string>{} : std::vector<std::string>{"long"});
    }
    for (int s = 0; s < 2; s++) w.real[s]->session->start();
    uint64_t left[2] = {66500 + rng.below(1000), rng.below(2000)};
    int64_t end = 0, limit = w.now + 3000ll * 1000000;
    while (true) {
        for (int s = 0; s < 2; s++) if (left[s] && w.real[s]->opens.count("long")) {
            auto& e = w.real[1 - s]->expect["long"];
            for (unsigned k = 0; k < 40 && left[s] && e.size() < 400; k++, left[s]--) {
                Msg m = makeMsg(rng, rng.below(12));
                e.push_back(m);
                w.real[s]->session->send(toMessage("long", m));
                vf::count("messages_sent");
            }
        }
        w.step(w.now + 2000);
        bool pending = left[0] || left[1] || !w.real[0]->expect["long"].empty() || !w.real[1]->expect["long"].empty();
        if (!pending && !end) end = w.now + 2000000;
        if (end && w.now >= end) break;
        VF_CHECK(w.now < limit, "message-never-delivered", "of a long run, " << left[0] + w.real[1]->expect["long"].size() << " and " << left[1] + w.real[0]->expect["long"].size() << " messages were not delivered");
    }
    vf::count("long_sessions");
    vf::sig(w.sigh ^ 77);
}
} // namespace

// The reassembly buffer on its own: messages interleave, fragments of each arrive in order, late ones come again.
static void bufferCase(vf::Rng& rng) {
    sctp::DataChannelReceiveBuffer buf;
    const bool unordered = rng.chance(0.3);
    uint16_t ssn = 0;
    uint8_t x = 7;
    // move on to a chosen sequence number
    unsigned skip = rng.chance(0.5) ? static_cast<unsigned>(rng.below(50)) : 65536 - static_cast<unsigned>(rng.below(60));
    if (unordered) skip = 0;
    for (unsigned i = 0; i < skip; i++, ssn++) {
        if (rng.chance(0.5)) buf.consumeSsn(ssn);
        else if (buf.receive(ssn, 3, false, 53, &x, 1).size() != 1) vf::fail("message-never-delivered", "a complete message with sequence number " + std::to_string(ssn) + " was not delivered at once");
    }
    buf.consumeSsn(static_cast<uint16_t>(ssn + 1 + rng.below(1000))); // not the next one: no effect
    struct M { uint16_t ssn; uint32_t ppid; Bytes data; std::vector<Bytes> frags; size_t next = 0; };
    std::vector<M> ms;
    unsigned n = 1 + static_cast<unsigned>(rng.below(60));
    for (unsigned i = 0; i < n; i++) {
        M m;
        m.ssn = static_cast<uint16_t>(ssn + i);
        m.ppid = rng.chance(0.5) ? 51 : 53;
        unsigned k = 1 + static_cast<unsigned>(rng.below(rng.chance(0.5) ? 1 : 6));
        for (unsigned j = 0; j < k; j++) { m.frags.push_back(rng.bytes(1 + rng.below(30))); m.data.insert(m.data.end(), m.frags.back().begin(), m.frags.back().end()); }
        ms.push_back(m);
    }
    size_t lo = 0, done = 0;
    std::set<uint16_t> out;
    const size_t window = 1 + rng.below(20);
    uint64_t order = 0;
    while (done < n) {
        size_t i = lo + rng.below(std::min<size_t>(window, n - lo));
        auto& m = ms[i];
        std::list<sctp::DataChannelReceiveBuffer::Message> got;
        if (m.next == m.frags.size()) {
            if (!unordered && out.count(m.ssn) && rng.chance(0.5)) { // comes again after delivery: ignored
                got = buf.receive(m.ssn, 3, false, m.ppid, m.data.data(), m.data.size());
                VF_CHECK(got.empty(), "message-altered-or-twice", "sequence number " << m.ssn << " delivered twice");
                vf::count("buffer_repeats");
            }
        } else {
            auto& f = m.frags[m.next];
            uint8_t flags = static_cast<uint8_t>((m.next == 0 ? 2 : 0) | (m.next + 1 == m.frags.size() ? 1 : 0));
            m.next++;
            order = order * 31 + i;
            got = buf.receive(m.ssn, static_cast<uint8_t>(flags | (unordered ? 4 : 0)), unordered, m.ppid, f.data(), f.size());
            if (unordered && (flags & 1)) VF_CHECK(got.size() == 1, "message-never-delivered", "a complete unordered message was not delivered at once");
        }
        for (auto& g : got) {
            M& w = unordered ? m : ms[done];
            VF_CHECK(done < n && w.next == w.frags.size() && g.ppid == w.ppid && glue::bytes(g.data) == w.data, "message-altered-or-twice", "the buffer returned something other than the message with sequence number " << w.ssn);
            out.insert(w.ssn);
            done++;
        }
        // everything complete at the head must be out
        if (!unordered && done < n) VF_CHECK(ms[done].next < ms[done].frags.size(), "message-never-delivered", "the message with sequence number " << ms[done].ssn << " is complete, all before it are delivered, it is not");
        while (lo < n && ms[lo].next == ms[lo].frags.size() && (unordered || lo < done) && rng.chance(0.8)) lo++;
        if (lo >= n) { VF_CHECK(done == n, "message-never-delivered", "the buffer holds complete messages back"); break; }
    }
    vf::count("buffer_messages", n);
    vf::sig(order * 2 + unordered);
}
static bool longTurn(int64_t i) { return !g_c13 && i % 4001 < 3; }
int main(int argc, char** argv) {
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) {
        if (!strcmp(argv[i], "c13")) { g_c13 = true; continue; }
        if (!strcmp(argv[i], "c12")) continue;
        a.push_back(argv[i]);
    }
    setLogLevel(SRTC_LOG_Z);
    return vf::runMain(static_cast<int>(a.size()), a.data(), "one situation = a distinct sequence of datagram arrivals (first 400) with its number of messages, or a kind of foreign packet by the chunk it carries",
                       {{"pair", 1, [](vf::Rng& r, int64_t i) { if (longTurn(i)) longCase(r); else runCase(r, false); }}, {"ref", 1, [](vf::Rng& r, int64_t i) { if (longTurn(i)) longCase(r); else if (!g_c13 && i % 9 == 4) bufferCase(r); else runCase(r, true); }}});
}
