// C02: hostile RTP from an authenticated sender through packet parsing, the jitter buffer and the depacketizers.
#include "glue.h"
#include "hostile.h"
#include "vclock.h"
#include "srtc/codec_av1.h"
#include "srtc/depacketizer.h"
#include "srtc/extension_map.h"
#include "srtc/jitter_buffer.h"
#include "srtc/logging.h"
#include "srtc/packetizer.h"
#include "srtc/util.h"
using namespace srtc;
using glue::Bytes; using ref::C;

namespace {
struct Sent { ref::Frame f; std::vector<Bytes> params; bool tail; int64_t at; bool got = false; };

void mediaCase(C c, vf::Rng& rng, bool wild) {
    vclock::ns = 0;
    const uint32_t ssrc = 0x01020304, rtxSsrc = 0x0A0B0C0D; const uint8_t pt = 96, rtxPt = 97;
    const bool rtx = rng.chance(0.5), nack = rng.chance(0.8);
    auto media = std::make_shared<Media>("0", c == C::Opus ? MediaType::Audio : MediaType::Video);
    const std::vector<uint8_t> extIds = {1, 2, 3, 4, 14, 15, 16};
    auto track = glue::makeTrack(c, Direction::Subscribe, ssrc, pt, rtx ? rtxSsrc : 0, rtx ? rtxPt : 0, nack, media);
    auto pub = glue::makeTrack(c, Direction::Publish, ssrc, pt);
    auto pk = Packetizer::make(pub).first;
    auto dep = Depacketizer::make(track).first;
    const int length = static_cast<int>(rng.range(20, 300));
    JitterBuffer jb(track, dep, 4096, std::chrono::milliseconds(length), std::chrono::milliseconds(rng.pickOf({6, 10})));
    const uint32_t clock = c == C::Opus ? 48000 : 90000, step = c == C::Opus ? 960 : 3000;
    const int64_t stepUs = c == C::Opus ? 20000 : 33333;
    uint16_t seq = static_cast<uint16_t>(rng.chance(0.4) ? 65536 - rng.below(60) : rng.next());
    uint64_t ts = rng.chance(0.3) ? (1ull << 32) - rng.below(clock * 2) : rng.below(1ull << 32);
    int64_t now = rng.range(0, 1000000);
    vclock::setUs(now);
    ref::Gen gen(c, rng.fork());
    gen.paramsInFrame = true; gen.av1Ext = rng.chance(0.3);
    std::map<uint32_t, Sent> sent; // by timestamp
    std::vector<Bytes> corpus;
    uint64_t h = 0;
    auto pump = [&](int64_t until) {
        for (;;) {
            vclock::setUs(now);
            int t = jb.getTimeoutMillis(50);
            (void)jb.processNack();
            for (auto& fr : jb.processDeque()) {
                vf::count("frames_out");
                if (wild) continue;
                auto it = sent.find(static_cast<uint32_t>(fr->rtp_timestamp_ext));
                if (it == sent.end()) { vf::count("hostile_frames_out"); continue; }
                std::string err;
                VF_CHECK(!it->second.got, "twice", "a genuine frame came out twice");
                it->second.got = true;
                VF_CHECK(ref::sameFrame(it->second.f, it->second.params, glue::bytes(fr->data), err), "corrupted", ref::cname(c) << ": a well-formed frame was altered by malformed packets before it: " << err);
                vf::count("genuine_frames_out");
            }
            if (now >= until) return;
            int64_t d = t < 0 ? 1000 : std::max<int64_t>(t * 1000, 500);
            now = std::min(until, now + d);
        }
    };
    auto input = [&](const Bytes& b) {
        vf::note(std::string(ref::cname(c)) + " packet " + vf::hex(b, 96));
        auto p = RtpPacket::fromUdpPacket(track, glue::buf(b));
        if (!p) { vf::count("packets_refused"); return; }
        jb.consume(p);
        vf::count("packets_taken");
    };
    auto genuine = [&](bool key, bool tail) {
        size_t size = c == C::Opus ? 1 + rng.below(200) : 1 + rng.below(rng.chance(0.3) ? 6000 : 900);
        auto f = gen.next(c == C::Opus ? false : key, size);
        auto list = pk->generate({}, 16, now, glue::buf(f.data));
        sent[static_cast<uint32_t>(ts)] = Sent{f, [&] { std::vector<Bytes> p; for (auto* x : {&gen.vps, &gen.sps, &gen.pps}) if (!x->empty()) p.push_back(*x); return p; }(), tail, now};
        for (auto& p : list) {
            auto pay = glue::bytes(p->getPayload());
            if (corpus.size() < 200) corpus.push_back(pay); else corpus[rng.below(200)] = pay;
            input(hostile::rtp(rng, ssrc, pt, p->getMarker(), seq++, static_cast<uint32_t>(ts), pay, 0, {}));
        }
    };
    auto advance = [&] { pump(now + stepUs); ts += step; };
    // something well-formed to begin with, usually
    if (rng.chance(0.8)) for (int64_t n = rng.range(1, 4); n > 0; n--) { genuine(n == 1 || rng.chance(0.5), false); advance(); }
    for (int64_t n = rng.range(5, 60); n > 0; n--) {
        if (rng.chance(0.25)) { genuine(rng.chance(0.2), false); advance(); continue; }
        for (int64_t k = rng.chance(0.6) ? 1 : rng.range(2, 8); k > 0; k--) {
            auto pay = hostile::payload(rng, c, corpus);
            h = vf::hash64(pay.data(), std::min<size_t>(pay.size(), 4), h);
            bool r = rtx && rng.chance(0.2);
            uint16_t s = seq++; uint32_t t = static_cast<uint32_t>(ts);
            bool m = k == 1 ? rng.chance(0.8) : rng.chance(0.1);
            if (wild) {
                if (rng.chance(0.15)) s = static_cast<uint16_t>(s + rng.pickOf<int64_t>({1, -1, 500, -500, 1023, 1024, -1024, 2000, 32767, 32768, -32768, rng.range(-70000, 70000)}));
                if (rng.chance(0.15)) t = static_cast<uint32_t>(t + rng.pickOf<int64_t>({1, -1, 3000, -3000, 90000, -90000, 1ll << 31, (1ll << 31) - 1, -(1ll << 31), rng.range(-(1ll << 32), 1ll << 32)}));
                if (rng.chance(0.1)) seq = s;
                if (rng.chance(0.05)) ts = t;
            }
            if (r) { Bytes w; if (!wild || rng.chance(0.9)) hostile::p16(w, s); if (wild && rng.chance(0.1)) w.resize(rng.below(w.size() + 1)); hostile::app(w, pay); pay = w; }
            auto b = hostile::rtp(rng, r ? rtxSsrc : ssrc, r ? rtxPt : pt, m, r ? static_cast<uint16_t>(rng.next()) : s, t, pay, r && !wild ? 0 : 0.1, extIds); // a broken extension would change the original sequence number
            if (rng.chance(0.05)) continue; // lost
            input(b);
            vf::count("hostile_packets");
            if (rng.chance(0.1)) pump(now + rng.range(0, 3000));
        }
        if (rng.chance(0.9)) advance(); else { pump(now + rng.range(0, wild ? 3000000 : 200000)); ts += step; }
    }
    // Then the sender behaves again
    if (!wild) {
        const int64_t n = rng.range(3, 15);
        for (int64_t i = 0; i < n; i++) { genuine(i == 0 || rng.chance(0.1), true); advance(); }
        pump(now + 1000 * (length + 1000));
        for (auto& s : sent) if (s.second.tail) { VF_CHECK(s.second.got, "not-resumed", ref::cname(c) << ": a well-formed frame sent after the malformed packets was not delivered"); vf::count("resumed_frames"); }
    } else pump(now + 1000000);
    vf::sig(h);
}
} // namespace

int main(int argc, char** argv) {
    setLogLevel(getenv("VF_LOG") ? SRTC_LOG_V : SRTC_LOG_Z);
    auto any = [](vf::Rng& r) { return r.pickOf({C::H264, C::H265, C::VP8, C::VP9, C::AV1, C::Opus}); };
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) if (strcmp(argv[i], "c02") != 0) a.push_back(argv[i]);
    return vf::runMain(static_cast<int>(a.size()), a.data(), "one situation = a distinct sequence of hostile payload beginnings",
                       {{"resume", 3, [=](vf::Rng& r, int64_t) { mediaCase(any(r), r, false); }}, {"wild", 1, [=](vf::Rng& r, int64_t) { mediaCase(any(r), r, true); }}});
}
