// Memory held by a connection (C25): live heap bytes allocated by its network thread, sampled while a peer or an unauthenticated sender
// keeps sending (or withholding) one kind of traffic for a long time.
#include "session.h"
#include "../harness/hostile.h"
#include "../harness/refsctp.h"
#include "srtc/logging.h"
#include "srtc/packetizer.h"
#include <list>
#include <mutex>
#include <sanitizer/allocator_interface.h>
#include <unordered_map>

using namespace sim;

namespace {
// ---------------------------------------------------------------- accounting
thread_local bool inHook = false;
std::mutex heapMu;
std::unordered_map<const volatile void*, size_t>* heap = nullptr;
int64_t live = 0, peak = 0; uint64_t made = 0;
void onMalloc(const volatile void* p, size_t n) {
    if (inHook || !heap || !(onWorker ? harnessDepth == 0 : libraryDepth > 0)) return;
    inHook = true;
    { std::lock_guard l(heapMu); (*heap)[p] = n; live += static_cast<int64_t>(n); peak = std::max(peak, live); made++; }
    inHook = false;
}
void onFree(const volatile void* p) {
    if (inHook || !heap || !p) return;
    inHook = true;
    { std::lock_guard l(heapMu); auto i = heap->find(p); if (i != heap->end()) { live -= static_cast<int64_t>(i->second); heap->erase(i); } }
    inHook = false;
}
void heapReset() { inHook = true; heap->clear(); live = peak = 0; made = 0; inHook = false; }

// ---------------------------------------------------------------- a data channel peer that can stop cooperating
struct Sctp : refsctp::Events {
    Session& s; refsctp::Peer ref; bool started = false, frozen = false;
    std::shared_ptr<int> life = std::make_shared<int>(0);
    std::set<uint16_t> streams; Bytes last;
    Sctp(Session& x, vf::Rng r, bool initiates, uint16_t remotePort) : s(x), ref(*this, r, static_cast<uint16_t>(x.answer.sctpPort), remotePort, initiates) {
        ref.peerParity = s.s.client ? 1 : 0;
        ref.strictParity = false;
        s.peer->onData = [this](const Bytes& b) { if (frozen) return; last = b; ref.receive(b, now()); };
        s.peer->onConnected = [this] { if (!started) { started = true; tick(); } };
    }
    void tick() { if (!frozen) { ref.start(now()); ref.tick(now()); } after(5 * ms, [this, w = std::weak_ptr<int>(life)] { if (!w.expired()) tick(); }); }
    void onSend(const Bytes& p) override { s.peer->sendData(p); }
    void onOpen(const Str&, uint16_t st) override { streams.insert(st); }
    void onAccepted(uint16_t) override {}
    void onBad(const Str&) override {}
    void onMessage(uint16_t, bool, const Bytes&) override {}
    uint32_t tsn = 0;
    refsctp::Chunk data(uint32_t t, unsigned flags, uint16_t stream, uint16_t ssn, uint32_t ppid, const Bytes& p) {
        refsctp::Chunk c{0, static_cast<uint8_t>(flags), {}};
        put32(c.body, t); put16(c.body, stream); put16(c.body, ssn); put32(c.body, ppid);
        c.body.insert(c.body.end(), p.begin(), p.end());
        return c;
    }
    void raw(const std::vector<refsctp::Chunk>& cs) { s.peer->sendData(refsctp::build({static_cast<uint16_t>(s.answer.sctpPort), ref.remote, ref.peerTag, cs})); }
};
uint16_t offerPort(const Str& offer) { for (auto& l : lines(offer)) if (l.rfind("a=sctp-port:", 0) == 0) return static_cast<uint16_t>(atoi(l.c_str() + 12)); vf::harnessError("no sctp-port in the offer"); return 0; }

enum class Kind { Any, Sub, Pub, Data };
struct Ctx {
    Session& s; vf::Rng& r; Sctp* d;
    std::vector<uint8_t> ext{1, 2, 3, 4, 5, 6, 7, 14, 15};
    uint32_t ssrc = 0, rtxSsrc = 0, aSsrc = 0; unsigned pt = 0, rtxPt = 0, aPt = 0; Str kind;
    std::vector<Bytes> corpus;
    hostile::RtcpWorld rw;
    uint32_t ext32 = 0; uint64_t n = 0; int64_t began = now();
    std::vector<uint32_t> local;
    int variant = 0;
    uint32_t ts() const { return static_cast<uint32_t>((now() - began) * 9 / 100); }
    void inject(const Bytes& b) { if (!b.empty()) s.wire->inject(b); }
    void rtp(uint32_t sc, unsigned p, bool m, uint32_t idx, uint32_t t, const Bytes& pay) {
        Bytes b{0x80, static_cast<uint8_t>(p | (m ? 0x80 : 0))};
        put16(b, idx & 0xFFFF); put32(b, t); put32(b, sc);
        b.insert(b.end(), pay.begin(), pay.end());
        if (b[1] >= 192 && b[1] <= 223) return;
        s.peer->sendRtp(b, idx >> 16);
    }
    Bytes frag(bool start) { // a fragment that never ends
        Bytes f;
        switch (s.s.videoCodec[0]) {
        case ref::C::H264: f = {0x7C, static_cast<uint8_t>(start ? 0x85 : 0x05)}; break;
        case ref::C::H265: f = {0x62, 0x01, static_cast<uint8_t>(start ? 0x93 : 0x13)}; break;
        case ref::C::VP8: f = {static_cast<uint8_t>(start ? 0x10 : 0x00), 0x00}; break;
        case ref::C::VP9: f = {static_cast<uint8_t>(start ? 0x08 : 0x00)}; break;
        default: f = {static_cast<uint8_t>(start ? 0x50 : 0xD0), 0x30}; break;
        }
        auto x = r.bytes(1000); f.insert(f.end(), x.begin(), x.end());
        return f;
    }
};
struct Vector { const char* name; Kind kind; int perStage; int64_t gap; int64_t slack; std::function<void(Ctx&)> fn; bool media = false; int when = 0; }; // when: 1 before DTLS, 3 before ICE, 2 after the network is gone

std::vector<Vector> vectors() {
    const int64_t K = 128 * 1024;
    std::vector<Vector> v;
    auto add = [&](const char* n, Kind k, int per, int64_t gap, std::function<void(Ctx&)> fn, bool media = false, int64_t slack = 0) { v.push_back({n, k, per, gap, slack ? slack : K, std::move(fn), media}); };
    // ---- without keys
    add("forged-rtp", Kind::Any, 6000, 900, [](Ctx& c) { Bytes b{0x80, static_cast<uint8_t>(c.r.below(128))}; if (b[1] >= 64 && b[1] <= 95) b[1] = 96; auto x = c.r.bytes(40 + c.r.below(60)); b.insert(b.end(), x.begin(), x.end()); c.inject(b); }, true);
    add("forged-rtcp", Kind::Any, 6000, 900, [](Ctx& c) { Bytes b{0x80, static_cast<uint8_t>(200 + c.r.below(8)), 0, 6}; auto x = c.r.bytes(40 + c.r.below(60)); b.insert(b.end(), x.begin(), x.end()); c.inject(b); }, true);
    add("junk-dtls", Kind::Any, 6000, 900, [](Ctx& c) {
        Bytes b{static_cast<uint8_t>(20 + c.r.below(c.variant ? 4 : 44)), 0xFE, c.r.chance(0.9) ? uint8_t(0xFD) : uint8_t(0xFF)};
        put16(b, c.r.pickOf<uint32_t>({0, 0, 1, 1, 2}));
        auto q = c.r.bytes(6); q[0] = q[1] = 0; b.insert(b.end(), q.begin(), q.end());
        size_t n = c.r.below(900);
        put16(b, static_cast<uint32_t>(n)); auto x = c.r.bytes(n);
        if (b[0] == 22 && n > 12) { x[0] = c.r.pickOf<uint8_t>({0, 1, 2, 11, 12, 14, 16, 20}); x[1] = 0; x[2] = 8; x[6] = 0; x[9] = 0; x[10] = static_cast<uint8_t>((n - 12) >> 8); x[11] = static_cast<uint8_t>(n - 12); x[4] = 0; x[5] = static_cast<uint8_t>(c.r.below(16)); }
        b.insert(b.end(), x.begin(), x.end());
        c.inject(b); }, true);
    add("junk-stun", Kind::Any, 6000, 900, [](Ctx& c) {
        auto tx = c.r.bytes(12);
        stun5389::Builder b(c.r.pickOf<uint16_t>({stun5389::Request, stun5389::Indication, stun5389::Success, stun5389::Error, static_cast<uint16_t>(c.r.below(0x4000))}), tx);
        if (c.r.chance(0.5)) b.text(stun5389::Username, c.s.peer->rufrag + ":" + c.s.peer->token(c.r.below(300)));
        if (c.r.chance(0.5)) b.integrity(c.s.peer->token(10));
        if (c.r.chance(0.7)) b.fingerprint();
        c.inject(b.b); }, true);
    add("junk", Kind::Any, 6000, 900, [](Ctx& c) { c.inject(c.r.bytes(c.r.chance(0.1) ? c.r.below(3) : 1 + c.r.below(1400))); }, true);
    add("forged-from-anywhere", Kind::Any, 6000, 900, [](Ctx& c) { Bytes b = c.r.bytes(20 + c.r.below(100)); b[0] = c.r.pickOf<uint8_t>({0x80, 0x16, 0x17, 0x00}); c.s.wire->injectFrom(Addr::make("10." + std::to_string(c.r.below(250)) + "." + std::to_string(c.r.below(250)) + "." + std::to_string(1 + c.r.below(250)), static_cast<uint16_t>(1024 + c.r.below(60000))), b); }, true);
    // ---- ICE with credentials, and withheld answers
    add("binding-requests", Kind::Any, 5000, 900, [](Ctx& c) { c.s.wire->inject(c.s.peer->request(c.r.chance(0.8))); if (c.s.peer->pendingTx.size() > 50) c.s.peer->pendingTx.erase(c.s.peer->pendingTx.begin()); }, true);
    add("unanswered-requests", Kind::Any, 400, 1 * sec, [](Ctx& c) { c.s.wire->toPeer.drop = [&c](const Bytes& b) { return stun5389::looksLike(b) && c.n++ % 3 != 0; }; if (c.s.peer->seenTx.size() > 1000) c.s.peer->seenTx.clear(); }, false, 6000);
    add("idle", Kind::Any, 400, 1 * sec, [](Ctx& c) { if (c.s.peer->seenTx.size() > 1000) c.s.peer->seenTx.clear(); }, false, 6000);
    // ---- media from the authenticated peer
    add("endless-fragments", Kind::Sub, 6000, 900, [](Ctx& c) { bool st = c.variant ? c.n % 50 == 0 : c.n == 0; c.n++; c.rtp(c.ssrc, c.pt, false, c.ext32++, c.variant == 2 ? 1234 : c.ts(), c.frag(st)); });
    add("single-frame", Kind::Sub, 6000, 900, [](Ctx& c) { c.rtp(c.ssrc, c.pt, false, c.ext32++, 77777, c.frag(c.n++ == 0)); });
    add("no-start", Kind::Sub, 6000, 900, [](Ctx& c) { c.rtp(c.ssrc, c.pt, c.variant && c.r.chance(0.1), c.ext32++, c.ts(), c.frag(false)); });
    add("every-other", Kind::Sub, 6000, 900, [](Ctx& c) { c.ext32 += 1 + static_cast<uint32_t>(c.r.below(c.variant ? 40 : 2)) + 1; c.rtp(c.ssrc, c.pt, c.r.chance(0.3), c.ext32, c.ts(), c.frag(c.r.chance(0.3))); });
    add("random-sequence", Kind::Sub, 6000, 900, [](Ctx& c) { c.ext32 += 1; uint32_t i = c.ext32 + static_cast<uint32_t>(c.r.below(c.variant ? 30000 : 3000)); c.rtp(c.ssrc, c.pt, c.r.chance(0.5), i, c.variant == 2 ? static_cast<uint32_t>(c.r.next()) : c.ts(), c.r.bytes(600)); });
    add("hostile-payloads", Kind::Sub, 6000, 900, [](Ctx& c) { auto p = hostile::payload(c.r, c.s.s.videoCodec[0], c.corpus); c.corpus.push_back(p); if (c.corpus.size() > 50) c.corpus.erase(c.corpus.begin()); if (p.size() > 1200) p.resize(1200); c.rtp(c.ssrc, c.pt, c.r.chance(0.3), c.ext32++, c.ts(), p); });
    add("new-ssrcs", Kind::Sub, 8000, 700, [](Ctx& c) { c.rtp(static_cast<uint32_t>(c.r.next()), c.variant == 2 ? static_cast<unsigned>(c.r.below(64)) : c.variant ? c.pt : c.aPt ? c.aPt : c.pt, c.r.chance(0.5), 1 + static_cast<uint32_t>(c.r.below(60000)), c.ts(), c.r.bytes(30)); }, true);
    add("rtx", Kind::Sub, 6000, 900, [](Ctx& c) { Bytes p; put16(p, static_cast<uint32_t>(c.r.next()) & 0xFFFF); auto f = c.frag(c.r.chance(0.3)); p.insert(p.end(), f.begin(), f.end()); c.rtp(c.rtxSsrc ? c.rtxSsrc : c.ssrc, c.rtxSsrc ? c.rtxPt : c.pt, c.r.chance(0.3), c.ext32++, c.variant ? c.ts() : static_cast<uint32_t>(c.r.next()), p); });
    add("extensions", Kind::Sub, 6000, 900, [](Ctx& c) { auto b = hostile::rtp(c.r, c.ssrc, c.pt, c.r.chance(0.3), static_cast<uint16_t>(c.ext32), c.ts(), c.r.bytes(c.r.below(100)), 0.7, c.ext); if (b.size() >= 12 && !(b[1] >= 192 && b[1] <= 223)) c.s.peer->sendRtp(b, c.ext32 >> 16); c.ext32++; });
    add("good-media", Kind::Sub, 5000, 20 * ms, [](Ctx& c) { if (c.r.chance(0.1)) { c.s.seq++; if (!c.s.seq) c.s.roc++; } c.s.tickMedia(); });
    // ---- control packets from the authenticated peer
    add("sender-reports", Kind::Any, 8000, 700, [](Ctx& c) { Bytes b; put32(b, static_cast<uint32_t>(c.r.next())); for (int i = 0; i < 4; i++) put32(b, static_cast<uint32_t>(c.r.next())); uint32_t sc = c.variant == 2 && !c.rw.ssrcs.empty() ? c.r.pick(c.rw.ssrcs) : static_cast<uint32_t>(c.r.next()); c.s.peer->sendRtcp(makeRtcp(0, 200, sc, b)); }, true);
    add("reference-times", Kind::Any, 8000, 700, [](Ctx& c) { Bytes b{4, 0, 0, 2}; put32(b, static_cast<uint32_t>(c.r.next())); put32(b, static_cast<uint32_t>(c.r.next())); uint32_t sc = c.variant == 2 && !c.rw.ssrcs.empty() ? c.r.pick(c.rw.ssrcs) : static_cast<uint32_t>(c.r.next()); c.s.peer->sendRtcp(makeRtcp(0, 207, sc, b)); }, true);
    add("receiver-reports", Kind::Any, 8000, 700, [](Ctx& c) { Bytes b; put32(b, !c.rw.ssrcs.empty() && c.r.chance(0.5) ? c.r.pick(c.rw.ssrcs) : static_cast<uint32_t>(c.r.next())); for (int i = 0; i < 5; i++) put32(b, static_cast<uint32_t>(c.r.next())); c.s.peer->sendRtcp(makeRtcp(1, 201, static_cast<uint32_t>(c.r.next()), b)); }, true);
    add("hostile-rtcp", Kind::Any, 5000, 900, [](Ctx& c) { auto b = hostile::rtcp(c.r, c.rw); if (b.size() < 8) return; b[0] |= 0x80; if (b[1] < 192 || b[1] > 223) b[1] = 201; c.s.peer->sendRtcp(b); }, true);
    add("nacks", Kind::Pub, 3000, 2000, [](Ctx& c) { Bytes b; put32(b, c.local.empty() ? 1 : c.r.pick(c.local)); for (int i = 0; i < 20; i++) { put16(b, c.r.chance(0.7) ? c.rw.seqs.empty() ? 0 : c.r.pick(c.rw.seqs) : static_cast<uint32_t>(c.r.next()) & 0xFFFF); put16(b, static_cast<uint32_t>(c.r.next()) & 0xFFFF); } c.s.peer->sendRtcp(makeRtcp(1, 205, 1, b)); }, true);
    add("feedback", Kind::Pub, 5000, 1000, [](Ctx& c) { Bytes b; put32(b, c.local.empty() ? 1 : c.local[0]); auto x = hostile::twccBody(c.r, c.rw); b.insert(b.end(), x.begin(), x.end()); if (b.size() > 1200) b.resize(1200); c.s.peer->sendRtcp(makeRtcp(15, 205, 1, b)); }, true);
    add("no-feedback", Kind::Pub, 4000, 20 * ms, [](Ctx& c) { c.s.tickMedia(); });
    // ---- data channel peer
    auto stream = [](Ctx& c) { return c.variant && !c.d->streams.empty() ? *c.d->streams.begin() : static_cast<uint16_t>(c.r.below(1000)); };
    add("sctp-gap", Kind::Data, 5000, 900, [=](Ctx& c) { c.n++; c.d->raw({c.d->data(c.d->tsn + 1 + static_cast<uint32_t>(c.n), 3, stream(c), static_cast<uint16_t>(c.n), 53, c.r.bytes(900))}); });
    add("sctp-sparse", Kind::Data, 5000, 900, [=](Ctx& c) { c.n++; c.d->raw({c.d->data(c.d->tsn + 2 * static_cast<uint32_t>(c.n) + (c.variant == 2 ? static_cast<uint32_t>(c.r.next()) : 0u), 3, stream(c), static_cast<uint16_t>(c.n), 51, c.r.bytes(c.r.chance(0.5) ? 4 : 900))}); });
    add("sctp-endless-message", Kind::Data, 5000, 900, [=](Ctx& c) { uint32_t i = static_cast<uint32_t>(c.n++); c.d->raw({c.d->data(c.d->tsn + i, i == 0 ? 2 : 0, *c.d->streams.begin(), static_cast<uint16_t>(1 + c.variant), 53, c.r.bytes(1000))}); });
    add("sctp-never-ended", Kind::Data, 5000, 900, [=](Ctx& c) { uint32_t i = static_cast<uint32_t>(c.n++); c.d->raw({c.d->data(c.d->tsn + i, 2u | (c.variant == 2 ? 4u : 0u), stream(c), static_cast<uint16_t>(i), 53, c.r.bytes(1000))}); });
    add("sctp-middles", Kind::Data, 5000, 900, [=](Ctx& c) { uint32_t i = static_cast<uint32_t>(c.n++); c.d->raw({c.d->data(c.d->tsn + i, c.variant == 2 ? 4 : c.r.pickOf<unsigned>({0, 0, 2}), stream(c), static_cast<uint16_t>(c.r.below(4)), 53, c.r.bytes(800))}); });
    add("sctp-ssn-gap", Kind::Data, 5000, 900, [=](Ctx& c) { uint32_t i = static_cast<uint32_t>(c.n++); c.d->raw({c.d->data(c.d->tsn + i, 3, stream(c), static_cast<uint16_t>(7 + i * 3), 53, c.r.bytes(800))}); });
    add("dcep-opens", Kind::Data, 4000, 1000, [=](Ctx& c) { uint32_t i = static_cast<uint32_t>(c.n++); Bytes o{3, 0, 1, 0, 0, 0, 0, 0}; auto l = c.s.peer->token(c.r.below(300)); put16(o, static_cast<uint32_t>(l.size())); put16(o, 0); o.insert(o.end(), l.begin(), l.end()); uint16_t st = static_cast<uint16_t>((c.s.s.client ? 0 : 1) + 2 * (i % 400)); c.d->raw({c.d->data(c.d->tsn + i, 3, st, static_cast<uint16_t>(i / 400), 50, o)}); });
    add("dcep-open-close", Kind::Data, 4000, 1000, [=](Ctx& c) {
        uint32_t i = static_cast<uint32_t>(c.n++);
        uint16_t st = static_cast<uint16_t>((c.s.s.client ? 0 : 1) + 2 * (50 + i % 20));
        if (i % 40 < 20) { Bytes o{3, 0, 1, 0, 0, 0, 0, 0, 0, 4, 0, 0, 'l', 'a', 'b', 'l'}; c.d->raw({c.d->data(c.d->tsn + i - i / 40 * 20, 3, st, 0, 50, o)}); }
        else { refsctp::Chunk ch{130, 0, {}}; put16(ch.body, 13); put16(ch.body, 18); put32(ch.body, i); put32(ch.body, 0); put32(ch.body, c.d->tsn + i); put16(ch.body, st); ch.body.push_back(0); ch.body.push_back(0); c.d->raw({ch}); } });
    add("sctp-control", Kind::Data, 5000, 900, [=](Ctx& c) {
        std::vector<refsctp::Chunk> cs;
        for (size_t k = 1 + c.r.below(3); k > 0; k--) { uint8_t t = c.r.pickOf<uint8_t>({4, 4, 5, 7, 8, 9, 10, 11, 3, 130, 192, 0x40, static_cast<uint8_t>(c.r.next())}); if (t == 6 || t == 14 || t == 0) t = 4; refsctp::Chunk ch{t, 0, c.r.bytes(c.r.below(300))}; if (t == 4) { ch.body.clear(); put16(ch.body, 1); put16(ch.body, 44); auto x = c.r.bytes(40); ch.body.insert(ch.body.end(), x.begin(), x.end()); } cs.push_back(ch); }
        c.d->raw(cs); });
    add("sctp-inits", Kind::Data, 4000, 900, [=](Ctx& c) { refsctp::Chunk ch{1, 0, {}}; put32(ch.body, static_cast<uint32_t>(c.r.next()) | 1); put32(ch.body, 100000); put16(ch.body, 10); put16(ch.body, 10); put32(ch.body, static_cast<uint32_t>(c.r.next())); c.s.peer->sendData(refsctp::build({static_cast<uint16_t>(c.s.answer.sctpPort), c.d->ref.remote, 0, {ch}})); });
    add("sctp-reset-requests", Kind::Data, 5000, 900, [=](Ctx& c) { refsctp::Chunk ch{130, 0, {}}; put16(ch.body, 13); put16(ch.body, 20); put32(ch.body, c.variant ? static_cast<uint32_t>(c.n++) : static_cast<uint32_t>(c.r.next())); put32(ch.body, 0); put32(ch.body, c.d->tsn + 100000); put16(ch.body, static_cast<uint32_t>(c.r.below(1000))); put16(ch.body, 1); c.d->raw({ch}); });
    add("sctp-messages", Kind::Data, 4000, 2000, [=](Ctx& c) { if (c.d->streams.empty()) return; c.d->ref.message(*c.d->streams.begin(), false, c.r.bytes(c.r.below(3000)), 1100); c.d->ref.pump(now()); c.s.pc->dc.clear(); });
    add("dtls-records", Kind::Data, 5000, 900, [=](Ctx& c) { c.s.peer->sendData(c.r.bytes(1 + c.r.below(1200))); });
    // ---- before the handshake, and after the end
    std::vector<Vector> early;
    for (auto& x : v) for (auto n : {"forged-rtp", "forged-rtcp", "junk-dtls", "junk-stun", "junk", "forged-from-anywhere", "binding-requests"}) if (Str(x.name) == n) { Vector e = x; e.when = 1; e.perStage = 2000; e.gap = 200; e.media = false; static std::list<Str> names; names.push_back(Str("early-") + n); e.name = names.back().c_str(); early.push_back(e); }
    for (size_t i = 0, n = early.size(); i < n; i++) { Vector e = early[i]; e.when = 3; static std::list<Str> names; names.push_back(Str("un") + e.name); e.name = names.back().c_str(); early.push_back(e); }
    v.insert(v.end(), early.begin(), early.end());
    add("early-dtls-next-epoch", Kind::Any, 2000, 200, [](Ctx& c) { Bytes b{c.r.pickOf<uint8_t>({23, 23, 22, 20}), 0xFE, 0xFD, 0, 1, 0, 0}; put32(b, static_cast<uint32_t>(c.n++)); size_t n = 20 + c.r.below(900); put16(b, static_cast<uint32_t>(n)); auto x = c.r.bytes(n); b.insert(b.end(), x.begin(), x.end()); c.inject(b); });
    v.back().when = 1;
    add("publish-after-failure", Kind::Pub, 4000, 20 * ms, [](Ctx& c) { c.s.tickMedia(); });
    v.back().when = 2;
    return v;
}

void memoryCase(vf::Rng& r, int64_t index) {
    static const auto all = vectors();
    static const char* only = getenv("VF_VECTOR");
    size_t which = static_cast<size_t>(index % static_cast<int64_t>(all.size()));
    if (which == 0 && vf::opt.verbose) printf("%zu vectors\n", all.size());
    if (only) for (size_t i = 0; i < all.size(); i++) if (Str(all[i].name) == only) which = i;
    const Vector& v = all[which];
    Setup st = randomSetup(r);
    st.dead = 0; st.liveAt = 0;
    if (v.kind == Kind::Sub) { st.publish = false; st.video = true; st.audio = true; }
    if (v.kind == Kind::Pub) { st.publish = true; st.video = true; }
    if (v.kind == Kind::Data) st.datachannel = true;
    sim::failed = false;
    sim::reset(r.next());
    heapReset();
    vf::wallLimit(600);
    vf::cpuLimit(600);
    vf::note(Str(v.name) + " " + st.text());
    Session s(st, r.fork());
    s.pc->keepFrames = false;
    s.peer->judgeUndecodable = false;
    s.wire->toPeer.delay = s.wire->toPc.delay = 5 * ms;
    std::unique_ptr<Sctp> d;
    if (st.datachannel) d = std::make_unique<Sctp>(s, r.fork(), r.chance(0.6), offerPort(s.pc->offer->generate().first));
    auto e = s.start();
    if (!e.empty()) vf::harnessError("setup refused: " + e);
    if (v.when & 1) { s.peer->answerDtls = false; s.peer->answerStun = v.when == 1; }
    else if (!runWhile([&] { return !s.pc->connected() || !s.peer->handshakeDone; }, 6 * sec)) { SIM_CHECK("C25", false, "not-connected", s.pc->history()); s.pc->destroy(); throw vf::CaseFailed(); }
    runFor(v.when == 3 ? 50 * ms : 500 * ms);
    Ctx c{s, r, d.get()};
    c.variant = static_cast<int>(r.below(3));
    for (auto& m : s.answer.media) { if (m.ssrc) c.rw.ssrcs.push_back(m.ssrc); if (m.kind == "video") { c.ssrc = m.ssrc; c.rtxSsrc = m.rtxSsrc; c.pt = m.pt; c.rtxPt = m.rtxPt; } if (m.kind == "audio") { c.aSsrc = m.ssrc; c.aPt = m.pt; } }
    if (!c.ssrc) { c.ssrc = c.aSsrc; c.pt = c.aPt; }
    for (auto& m : s.offer.media) for (auto& p : m.ssrcs) { c.local.push_back(p.first); c.rw.ssrcs.push_back(p.first); }
    unsigned twccId = 0;
    for (auto& m : s.answer.media) for (auto& x : m.extmap) if (x.find("transport-wide") != Str::npos) twccId = static_cast<unsigned>(atoi(x.c_str() + 9));
    s.peer->onRtp = [&](const Bytes& p, const Bytes&, uint64_t) {
        glue::Rtp x; Str err;
        if (!glue::parseRtp(p, x, err)) return;
        if (twccId) if (auto* el = x.element(static_cast<uint8_t>(twccId)); el && el->size() >= 2) c.rw.twcc = be16(el->data());
        c.rw.seqs.push_back(x.seq);
        if (c.rw.seqs.size() > 200) c.rw.seqs.erase(c.rw.seqs.begin(), c.rw.seqs.begin() + 100);
        if (s.peer->reader) { s.peer->reader->mon.rtp.clear(); s.peer->reader->mon.rtcp.clear(); }
    };
    if (v.kind == Kind::Data) {
        if (!runWhile([&] { return !d->ref.established || d->streams.empty(); }, 10 * sec)) { SIM_CHECK("C25", false, "no-association", s.pc->history()); s.pc->destroy(); throw vf::CaseFailed(); }
        runFor(300 * ms);
        d->tsn = d->ref.nextTsn;
        d->frozen = Str(v.name) != "sctp-messages" && r.chance(0.5);
    }
    const bool media = v.media && r.chance(0.5);
    if (media) s.flow(20 * ms);
    if (v.when == 2) {
        s.wire->toPeer.up = s.wire->toPc.up = false;
        if (!runWhile([&] { return !s.pc->final(); }, 30 * sec)) { SIM_CHECK("C25", false, "not-failed", s.pc->history()); s.pc->destroy(); throw vf::CaseFailed(); }
    }
    auto over = [&] { return v.when != 2 && s.pc->final(); };
    const int64_t scale = vf::opt.thorough ? 2 : 1;
    std::vector<int64_t> samples{live};
    uint64_t bytesBefore = made;
    int64_t worst = 0;
    auto stage = [&] {
        peak = live;
        int64_t t = now();
        for (int64_t i = 0; i < v.perStage * scale && !over(); i++) {
            v.fn(c);
            t += v.gap;
            if (i % 4 == 3 || v.gap >= 5 * ms) runUntil(std::max(now(), t));
        }
        runFor(400 * ms);
        s.pc->pubStats.clear(); s.pc->subStats.clear(); s.pc->srs.clear(); s.pc->dc.clear();
        if (over()) return;
        samples.push_back(live);
        worst = std::max(worst, peak);
        vf::count("stages");
    };
    for (int i = 0; i < 6 && !over(); i++) stage();
    auto grown = [&](size_t a, size_t b) { return samples[b] - samples[a]; };
    auto text = [&] { std::ostringstream o; for (auto x : samples) o << x << " "; return o.str(); };
    if (getenv("VF_TRACE")) printf("%s v%d %s: %s peak %ld\n", v.name, c.variant, st.text().c_str(), text().c_str(), static_cast<long>(worst));
    if (v.when & 1) { // not for long
        if (samples.size() > 2) { SIM_CHECK("C25", grown(1, samples.size() - 1) <= v.slack, "grows:" + Str(v.name), "held bytes keep growing before the handshake: " << text()); vf::count("early_runs"); }
    } else if (samples.size() > 6 && grown(3, 6) > v.slack) { // a large but bounded structure may still be filling
        for (int i = 0; i < 12 && !over(); i++) stage();
        SIM_CHECK("C25", samples.size() <= 18 || grown(12, 18) <= v.slack, "grows:" + Str(v.name), "held bytes keep growing, after each stage of " << v.perStage * scale << " sends: " << text());
        vf::count("long_runs");
    }
    const int64_t bound = 48 << 20;
    SIM_CHECK("C25", worst <= bound, "large:" + Str(v.name), "held " << worst << " bytes, stages: " << text());
    vf::count("allocations", made - bytesBefore);
    vf::count(Str("vector:") + v.name);
    if (!s.pc->final()) vf::count("still_up");
    vf::sig(Str(v.name) + std::to_string(c.variant) + st.text());
    s.peer->onRtp = nullptr; s.peer->onData = nullptr; s.peer->onConnected = nullptr;
    s.wire->toPeer.drop = nullptr;
    s.pc->destroy();
    // what the connection held is given back
    runFor(10 * ms);
    SIM_CHECK("C25", live <= 65536, "kept", live << " bytes made by the network thread survive the connection");
    if (sim::failed) throw vf::CaseFailed();
}
} // namespace

int main(int argc, char** argv) {
    srtc::setLogLevel(getenv("VF_LOG") ? SRTC_LOG_V : SRTC_LOG_Z);
    sim::prop = "C25";
    heap = new std::unordered_map<const volatile void*, size_t>();
    heap->reserve(1 << 20);
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) if (strcmp(argv[i], "c25") != 0) a.push_back(argv[i]);
    return vf::runMain(static_cast<int>(a.size()), a.data(), "one situation = a kind of traffic with a variant and a session configuration", {{"flood", 1, [](vf::Rng& r, int64_t i) { memoryCase(r, i); }}});
}
