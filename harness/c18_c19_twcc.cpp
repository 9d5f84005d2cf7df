// C18: the transport-wide feedback a subscriber writes, read back by an independent decoder and compared with what arrived.
// C19: the statistics a publisher derives from feedback written by an independent encoder.
// usage: c18_c19_twcc c18|c19 [framework options]
#include "glue.h"
#include "vclock.h"
#include "srtc/byte_buffer.h"
#include "srtc/extension_map.h"
#include "srtc/logging.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtp_extension_source_twcc.h"
#include "srtc/rtp_responder_twcc.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/scheduler.h"
#include "srtc/srtc.h"
#include "srtc/twcc_publish.h"
#include "srtc/twcc_subscribe.h"
#include <algorithm>
#include <cmath>
#include <deque>
using namespace srtc;
using glue::Bytes;

namespace {
std::shared_ptr<Track> twccTrack(bool audio, Direction d, uint32_t ssrc, uint8_t extId, bool other) {
    ExtensionMap m;
    if (other) { m.add(static_cast<uint8_t>(extId == 1 ? 2 : 1), RtpStandardExtensions::kExtSdesMid); }
    m.add(extId, RtpStandardExtensions::kExtGoogleTWCC);
    auto media = std::make_shared<Media>(audio ? "0" : "1", audio ? MediaType::Audio : MediaType::Video, m);
    return glue::makeTrack(audio ? ref::C::Opus : ref::C::VP8, d, ssrc, 100, 0, 0, true, media);
}

// ---------------------------------------------------------------- independent decoder
struct Status { uint8_t symbol; bool received; int64_t timeUs; };
struct Feedback { uint16_t base = 0; uint32_t ref = 0; uint8_t fb = 0; std::vector<Status> st; bool runs = false, small = false, large = false, negative = false; };
std::string decode(const Bytes& b, Feedback& f) {
    if (b.size() < 8) return "shorter than its fixed part";
    auto u16 = [&](size_t i) { return static_cast<uint16_t>(b[i] << 8 | b[i + 1]); };
    f.base = u16(0);
    size_t n = u16(2), i = 8;
    f.ref = static_cast<uint32_t>(b[4]) << 16 | b[5] << 8 | b[6];
    f.fb = b[7];
    if (n == 0) return "reports no packets";
    std::vector<uint8_t> sym;
    while (sym.size() < n) {
        if (i + 2 > b.size()) return "the chunks end early";
        uint16_t c = u16(i); i += 2;
        if (!(c & 0x8000)) {
            size_t run = c & 0x1FFF;
            if (run == 0 || sym.size() + run > n) return "a run length of " + std::to_string(run) + " with " + std::to_string(n - sym.size()) + " packets left";
            sym.insert(sym.end(), run, (c >> 13) & 3);
            f.runs = true;
        } else if (!(c & 0x4000)) {
            for (int k = 13; k >= 0; k--) { uint8_t s = (c >> k) & 1; if (sym.size() < n) sym.push_back(s); else if (s) return "symbols past the packet count"; }
            f.small = true;
        } else {
            for (int k = 12; k >= 0; k -= 2) { uint8_t s = (c >> k) & 3; if (sym.size() < n) sym.push_back(s); else if (s) return "symbols past the packet count"; }
            f.large = true;
        }
    }
    int64_t t = static_cast<int64_t>(f.ref) * 64000;
    for (uint8_t s : sym) {
        Status x{s, false, 0};
        if (s == 3) return "a reserved symbol";
        if (s == 1) { if (i + 1 > b.size()) return "the deltas end early"; t += 250 * b[i++]; }
        if (s == 2) { if (i + 2 > b.size()) return "the deltas end early"; int16_t d = static_cast<int16_t>(u16(i)); if (d < 0) f.negative = true; t += 250 * d; i += 2; }
        if (s) { x.received = true; x.timeUs = t; }
        f.st.push_back(x);
    }
    if (i != b.size()) return std::to_string(b.size() - i) + " bytes left over";
    return "";
}

// ---------------------------------------------------------------- C18
struct Arr { std::vector<int64_t> times; };
constexpr int64_t kRefWrap = (1ll << 24) * 64000;

void c18(vf::Rng& rng, bool jumps, bool direct) {
    vf::cpuLimit(20);
    vclock::setUs(rng.range(0, 1) ? 0 : rng.range(0, 86400ll * 1000000));
    const uint8_t extId = static_cast<uint8_t>(rng.range(1, 14));
    const uint32_t ssrc = static_cast<uint32_t>(rng.next());
    auto track = twccTrack(rng.chance(0.5), Direction::Subscribe, ssrc, extId, rng.chance(0.5));
    std::shared_ptr<RtpResponderTWCC> resp;
    std::unique_ptr<twcc::SubscribePacketHistory> hist;
    const int64_t base = vclock::kSteadyBase / 1000 + vclock::us();
    if (direct) hist = std::make_unique<twcc::SubscribePacketHistory>(base);
    else resp = std::make_shared<RtpResponderTWCC>();

    // arrivals are generated on the fly: next sequence, network reordering by holding packets back
    const bool flood = !jumps && rng.chance(0.02); // reports that exceed one message
    const int profile = flood ? 0 : static_cast<int>(rng.below(6));
    const double loss = rng.pickOf({0.0, 0.0, 0.02, 0.2, 0.6}), dup = rng.pickOf({0.0, 0.0, 0.05}), reorder = rng.pickOf({0.0, 0.05, 0.3});
    const int total = flood ? 5000 : static_cast<int>(rng.range(20, rng.chance(0.1) ? 6000 : 700));
    uint64_t seq = 65536 * 4 + (rng.chance(0.5) ? 65536 - rng.below(300) : rng.below(65536));
    std::map<uint64_t, Arr> arrived;
    std::deque<std::pair<uint64_t, int>> held; // sequence, arrivals until it gets through
    std::set<uint64_t> fresh;                  // arrived since the last feedback
    bool any = false, haveFb = false, gapAllowed = false;
    uint64_t prevEnd = 0, maxArrived = 0, minFresh = 0;
    uint8_t expectFb = 0;
    uint64_t lossRun = 0;
    int sinceReset = 0;                        // in the jumping mode: arrivals since the last jump
    int64_t lastSave = 0;
    std::vector<uint64_t> tail;
    uint64_t shape = 0;

    auto arrive = [&](uint64_t s) {
        // stays within what the implementation keeps: far-away stragglers count as lost
        if (any && s + 400 < maxArrived) { vf::count("stragglers_dropped"); return; }
        const int64_t now = vclock::kSteadyBase / 1000 + vclock::us();
        if (direct) hist->saveIncomingPacket(static_cast<uint16_t>(s), now);
        else {
            RtpExtensionBuilder eb;
            if (rng.chance(0.3)) eb.addStringValue(static_cast<uint8_t>(extId == 1 ? 2 : 1), "1");
            eb.addU16Value(extId, static_cast<uint16_t>(s));
            ByteBuffer pl = glue::buf(Bytes{1, 2, 3});
            resp->onMediaPacket(std::make_shared<RtpPacket>(track, false, 0, static_cast<uint16_t>(s), 0, 0, eb.build(), std::move(pl)));
        }
        // after a long silence and a big step the implementation starts over
        if (any && now - lastSave >= 2000000 && s > maxArrived + 256) { fresh.clear(); gapAllowed = true; vf::count("idle_restarts"); }
        arrived[s].times.push_back(now - base);
        if (fresh.empty() || s < minFresh) minFresh = s;
        fresh.insert(s);
        maxArrived = any ? std::max(maxArrived, s) : s;
        any = true; lastSave = now; sinceReset++;
        if (jumps) { tail.push_back(s); if (tail.size() > 64) tail.erase(tail.begin()); }
        vf::count("packets_arrived");
    };
    std::set<uint64_t> reportedReceived; int64_t lastGen = 0;
    auto feedback = [&]() {
        std::vector<Bytes> msgs;
        const int64_t now = vclock::kSteadyBase / 1000 + vclock::us();
        if (direct) {
            if (!hist->isTimeToGenerate(now)) return;
            for (auto& m : hist->generate(now)) msgs.push_back(glue::bytes(m));
        } else {
            for (auto& p : resp->run(track)) {
                VF_CHECK(p->getPayloadId() == 205 && p->getRC() == 15, "fb-type", "feedback is sent as RTCP type " << int(p->getPayloadId()) << " format " << int(p->getRC()));
                Bytes b = glue::bytes(p->getPayload());
                VF_CHECK(b.size() >= 4, "fb-short", "feedback without a media source");
                uint32_t ms = static_cast<uint32_t>(b[0]) << 24 | b[1] << 16 | b[2] << 8 | b[3];
                VF_CHECK(ms == ssrc, "fb-ssrc", "the feedback's media source is " << ms << ", the track's is " << ssrc);
                Bytes wire = glue::bytes(p->generate());
                VF_CHECK(wire.size() % 4 == 0 && wire.size() == 4u * ((wire[2] << 8 | wire[3]) + 1u), "fb-rtcp-length", "the RTCP length field disagrees with the packet");
                msgs.push_back(Bytes(b.begin() + 4, b.end()));
            }
        }
        if (msgs.size() > 1) vf::count("split_reports");
        if (msgs.empty() && lastGen && now - lastGen < 100000) return;
        lastGen = now;
        std::set<uint64_t> seen;
        for (auto& m : msgs) {
            Feedback f;
            std::string e = decode(m, f);
            VF_CHECK(e.empty(), "malformed", "feedback " << e << ": " << vf::hex(m, 200));
            VF_CHECK(m.size() <= 1150, "fb-size", "a feedback message of " << m.size() << " bytes");
            vf::count("feedback_messages"); if (f.negative) vf::count("negative_deltas"); if (f.runs) vf::count("loss_runs"); if (f.large) vf::count("large_deltas");
            if (haveFb) VF_CHECK(f.fb == expectFb, "fb-count", "feedback count " << int(f.fb) << " after " << int(static_cast<uint8_t>(expectFb - 1)));
            expectFb = static_cast<uint8_t>(f.fb + 1);
            // unwrap the base near the end of the previous report
            uint64_t ref = haveFb ? prevEnd : minFresh;
            uint64_t b = ref + static_cast<int16_t>(static_cast<uint16_t>(f.base - static_cast<uint16_t>(ref)));
            if (!jumps) {
                if (gapAllowed) gapAllowed = false; else if (haveFb) VF_CHECK(b <= prevEnd, "gap", "feedback starts at " << b << " while the previous one ended before " << prevEnd << ": " << (b - prevEnd) << " packets are not covered");
                else VF_CHECK(b <= minFresh, "gap-first", "the first feedback starts at " << b << ", a packet with " << minFresh << " has arrived");
                VF_CHECK(b + f.st.size() <= maxArrived + 1, "beyond", "feedback covers up to " << b + f.st.size() - 1 << ", the highest arrived is " << maxArrived);
            }
            for (size_t i = 0; i < f.st.size(); i++) {
                uint64_t s = b + i;
                auto it = arrived.find(s);
                std::vector<int64_t> times;
                if (it != arrived.end()) times = it->second.times;
                if (jumps) for (int k = -8; k <= 8; k++) { // the unwrapping above is ambiguous across jumps
                    auto o = arrived.find(s + static_cast<int64_t>(k) * 65536);
                    if (o == arrived.end() || k == 0) continue;
                    if (it == arrived.end()) it = o;
                    times.insert(times.end(), o->second.times.begin(), o->second.times.end());
                    reportedReceived.insert(o->first);
                }
                vf::count("statuses");
                if (!f.st[i].received) {
                    if (!jumps) VF_CHECK(it == arrived.end(), "false-loss", "packet " << s << " is reported as not received, it arrived at " << it->second.times[0] << " us");
                    continue;
                }
                VF_CHECK(it != arrived.end(), "false-receipt", "packet " << s << " is reported as received, it never arrived");
                int64_t best = INT64_MAX;
                for (int64_t t : times) {
                    int64_t d = (f.st[i].timeUs - t) % kRefWrap;
                    if (d > kRefWrap / 2) d -= kRefWrap;
                    if (d < -kRefWrap / 2) d += kRefWrap;
                    if (std::llabs(d) < std::llabs(best)) best = d;
                }
                VF_CHECK(std::llabs(best) <= 250, "time", "packet " << s << " arrived at " << it->second.times[0] << " us, reported " << best << " us off");
                vf::count("times_checked");
                seen.insert(it->first);
                reportedReceived.insert(it->first);
            }
            prevEnd = b + f.st.size();
            haveFb = true;
            shape = vf::hash64(m.data() + 8, std::min<size_t>(m.size() - 8, 24), shape);
        }
        if (!jumps) for (uint64_t s : fresh) VF_CHECK(seen.count(s), "unreported", "packet " << s << " arrived since the last feedback and is not in this one");
        if (!msgs.empty() || !jumps) fresh.clear();
        vf::sig(shape);
    };

    const int burst = static_cast<int>(rng.range(1, 40));
    int pendingSince = 0;
    const int pendingMax = flood ? 1500 : 400;
    const int jumpAt = jumps ? static_cast<int>(rng.range(5, total)) : -1;
    int jumpsLeft = jumps ? static_cast<int>(rng.range(1, 4)) : 0;
    const int extra = jumps ? 2600 : 0; // packets up to 2048 behind count as late, not as a restart
    for (int i = 0; i < total + extra; i++) {
        int64_t dt;
        const bool quiet = jumps && i >= total; // after the jumps: plain delivery has to be reported again
        switch (quiet ? 1 : profile) {
            case 0: dt = rng.range(0, 600); break;
            case 1: dt = rng.range(0, 8000); break;
            case 2: dt = i % burst ? rng.range(0, 100) : rng.range(0, 80000); break;
            case 3: dt = rng.chance(0.02) ? rng.range(1000000, 12000000) : rng.range(0, 20000); break;
            case 4: dt = rng.chance(0.05) ? rng.pickOf({63750ll, 64000ll, 63999ll, 8191750ll, 8192000ll, 8191999ll, 60000000ll, 250ll, 249ll, 31750ll, 63751ll}) : rng.range(0, 1500); break;
            default: dt = rng.chance(0.3) ? rng.range(60000, 70000) : rng.range(0, 500); break;
        }
        // the receiver's loop runs at least every 100 ms unless it is stalled
        const bool stalled = flood || rng.chance(profile >= 3 ? 0.7 : 0.1);
        const int64_t target = vclock::us() + dt;
        if (!stalled) while (vclock::us() < target) {
            vclock::setUs(std::min<int64_t>(target, vclock::us() + rng.range(20000, 100000)));
            if (vclock::us() < target) { feedback(); pendingSince = 0; }
        }
        vclock::setUs(target);
        if (jumpsLeft > 0 && i >= jumpAt && !quiet && rng.chance(0.05)) {
            int64_t j = rng.pickOf({600ll, 2047ll, 2048ll, 2049ll, 5000ll, 16000ll, 20000ll, -600ll, -3000ll, -20000ll}) + rng.range(-3, 3);
            seq += j; jumpsLeft--; held.clear(); sinceReset = 0; maxArrived = 0; any = false; vf::count("jumps");
        }
        // time to let held packets go
        if (!quiet && lossRun == 0 && rng.chance(0.004)) lossRun = rng.range(1, 300);
        bool lost = !quiet && (rng.chance(loss) || lossRun > 0);
        if (lossRun > 0) lossRun--;
        if (any && seq > maxArrived + 450) { lost = false; lossRun = 0; }
        if (!lost) {
            if (!quiet && rng.chance(reorder) && !(any && seq > maxArrived + 450)) held.push_back({seq, static_cast<int>(rng.range(1, 30))});
            else { arrive(seq); if (rng.chance(dup)) arrive(seq); }
        } else vf::count("packets_lost");
        seq++;
        for (auto it = held.begin(); it != held.end();) {
            if (--it->second <= 0) { vf::count("reordered"); arrive(it->first); it = held.erase(it); } else ++it;
        }
        pendingSince++;
        if ((!flood && rng.chance(0.1)) || pendingSince > pendingMax) { feedback(); if (pendingSince > pendingMax) { vclock::setUs(vclock::us() + 100000); feedback(); } pendingSince = 0; }
    }
    vclock::setUs(vclock::us() + 200000);
    feedback();
    if (!jumps) { VF_CHECK(fresh.empty(), "final", "packets stay unreported"); for (auto& a : arrived) VF_CHECK(reportedReceived.count(a.first), "never-reported", "packet " << a.first << " was never reported"); }
    else {
        for (uint64_t s : tail) VF_CHECK(reportedReceived.count(s), "no-resume", "packet " << s << ", long after the last jump, was never reported");
        vf::count("resumed");
    }
}

// ---------------------------------------------------------------- C19
// an encoder with its own choice of chunks, as other implementations make
struct Sym { bool received; int64_t tick; }; // arrival in 250 us ticks
Bytes encode(vf::Rng& rng, uint16_t base, const std::vector<Sym>& v, uint32_t fb, double wide, uint32_t* refOut = nullptr, bool* ok = nullptr) {
    Bytes out;
    auto w16 = [&](Bytes& o, uint16_t x) { o.push_back(x >> 8); o.push_back(x & 255); };
    w16(out, base); w16(out, static_cast<uint16_t>(v.size()));
    int64_t firstTick = 0;
    for (auto& s : v) if (s.received) { firstTick = s.tick; break; }
    int64_t ref = firstTick / 256; // 64 ms units
    if (refOut) *refOut = static_cast<uint32_t>(ref);
    out.push_back((ref >> 16) & 255); out.push_back((ref >> 8) & 255); out.push_back(ref & 255); out.push_back(static_cast<uint8_t>(fb));
    std::vector<int> sym; Bytes deltas;
    int64_t t = ref * 256;
    if (ok) *ok = true;
    for (auto& s : v) {
        if (!s.received) { sym.push_back(0); continue; }
        int64_t d = s.tick - t;
        if (d >= 0 && d <= 255 && !rng.chance(wide)) { sym.push_back(1); deltas.push_back(static_cast<uint8_t>(d)); }
        else { if (d < -32768 || d > 32767) { if (ok) *ok = false; d = std::clamp<int64_t>(d, -32768, 32767); } sym.push_back(2); w16(deltas, static_cast<uint16_t>(d)); }
        t = s.tick;
    }
    for (size_t i = 0; i < sym.size();) {
        size_t run = 1;
        while (i + run < sym.size() && sym[i + run] == sym[i] && run < 8191) run++;
        bool two = false;
        for (size_t k = i; k < std::min(i + 14, sym.size()); k++) two |= sym[k] == 2;
        if (run >= 15 || rng.chance(0.15)) { if (rng.chance(0.1)) run = 1 + rng.below(run); w16(out, static_cast<uint16_t>(sym[i] << 13 | run)); i += run; }
        else if (!two && rng.chance(0.8)) { uint16_t c = 0x8000; for (int k = 0; k < 14; k++) if (i + k < sym.size() && sym[i + k]) c |= 1 << (13 - k); w16(out, c); i += 14; }
        else { uint16_t c = 0xC000; for (int k = 0; k < 7; k++) if (i + k < sym.size()) c |= sym[i + k] << (12 - 2 * k); w16(out, c); i += 7; }
    }
    out.insert(out.end(), deltas.begin(), deltas.end());
    if (rng.chance(0.5)) while (out.size() % 4) out.push_back(0);
    return out;
}

struct Sent { uint16_t seq; int64_t sentUs; int64_t arrTick; bool lost; size_t payload, padding; bool acked = false; };

void c19(vf::Rng& rng, int mode) { // 0 steady, 1 constant loss, 2 late correction, 3 hostile
    vf::cpuLimit(30);
    vclock::setUs(rng.range(0, 3600ll * 1000000));
    auto sched = std::make_shared<LoopScheduler>();
    const uint8_t extId = static_cast<uint8_t>(rng.range(1, 14));
    auto video = twccTrack(false, Direction::Publish, 0x1111, extId, rng.chance(0.5));
    auto audio = twccTrack(true, Direction::Publish, 0x2222, extId, rng.chance(0.5));
    const bool withAudio = rng.chance(0.4);
    auto src = std::make_shared<RtpExtensionSourceTWCC>(sched);
    const bool probes = mode != 3 ? rng.chance(0.4) : rng.chance(0.7);
    if (probes) src->onPeerConnected();
    const int pps = static_cast<int>(rng.chance(0.3) ? rng.range(12, 80) : rng.range(80, 900));
    const size_t size = rng.range(200, 1100);
    const double loss = mode == 1 ? rng.pickOf({0.02, 0.1, 0.3}) : mode == 3 ? 0.1 : mode == 0 && rng.chance(0.3) ? 0 : 0;
    const int64_t delay = rng.range(2000, 200000), jitter = rng.pickOf({0ll, 1000ll, 5000ll, 20000ll});
    const int seconds = static_cast<int>(pps < 80 ? rng.range(30, 40) : mode == 3 ? rng.range(2, 14) : probes ? 20 : rng.range(6, 12));
    // the receiver's clock: any offset, often about to wrap its 24 bits or to cross the sign bit of a 32-bit quantity
    const int64_t wrapTicks = (1ll << 24) * 256;
    int64_t clockOff = rng.pickOf({int64_t(0), wrapTicks - static_cast<int64_t>(rng.below(10 * 4000)), wrapTicks / 2 - static_cast<int64_t>(rng.below(10 * 4000)), static_cast<int64_t>(rng.below(wrapTicks))});
    std::deque<Sent> all; // everything sent, oldest first
    uint64_t sentCount = 0, firstIndex = 0; // all[0] has index firstIndex
    uint8_t fb = static_cast<uint8_t>(rng.next());
    const int64_t t0 = vclock::us();
    int64_t nextFb = t0 + 100000, nextStats = t0 + 1000000;
    size_t reportFrom = 0;      // index of the first packet the next feedback covers
    std::vector<Bytes> old;
    const double wide = rng.pickOf({0.0, 0.02, 0.02, 0.5, 1.0}); // share of two-byte deltas where one byte would do
    double carry = 0;
    int64_t last = t0;
    float lastActual = 0; bool haveActual = false;
    bool startLate = mode == 2;
    (void)startLate;
    uint64_t padSum = 0;
    // sequence number start: the source starts at 1; advance it over a wrap sometimes
    int warm = rng.chance(0.2) ? 0 : 0;
    (void)warm;

    vf::note("pps " + std::to_string(pps) + " size " + std::to_string(size) + " loss " + std::to_string(loss) + " delay " + std::to_string(delay) + " jitter " + std::to_string(jitter) + " audio " + std::to_string(withAudio) + " probes " + std::to_string(probes));
    auto give = [&](const Bytes& b) {
        ByteBuffer bb = glue::buf(b);
        ByteReader r(bb);
        src->onReceivedRtcpPacket(0x1111, r);
        vf::count("feedback_given");
    };
    auto stats = [&]() {
        PublishConnectionStats s{};
        src->updatePublishConnectionStats(s);
        VF_CHECK(std::isfinite(s.packets_lost_percent) && s.packets_lost_percent >= 0 && s.packets_lost_percent <= 100, "loss-range", "packet loss of " << s.packets_lost_percent << " %");
        VF_CHECK(std::isfinite(s.bandwidth_actual_kbit_per_second) && s.bandwidth_actual_kbit_per_second >= 0, "bw-range", "actual bandwidth " << s.bandwidth_actual_kbit_per_second);
        VF_CHECK(std::isfinite(s.bandwidth_suggested_kbit_per_second) && s.bandwidth_suggested_kbit_per_second >= 0, "bw-suggested-range", "suggested bandwidth " << s.bandwidth_suggested_kbit_per_second);
        vf::count("stats_read");
        return s;
    };
    auto pacing = [&](const PublishConnectionStats& s) {
        ByteBuffer pl = glue::buf(rng.bytes(rng.range(1, 1200)));
        size_t n = pl.size();
        auto pkt = std::make_shared<RtpPacket>(video, false, 0, 1, 0, 0, std::move(pl));
        size_t k = rng.range(1, 60);
        std::vector<std::shared_ptr<RtpPacket>> list(k, pkt);
        const float scale = static_cast<float>(rng.pickOf({1.0, 0.5, 0.25, 0.01}));
        const unsigned def = static_cast<unsigned>(rng.range(10, 60));
        unsigned ms = src->getPacingSpreadMillis(list, scale, def);
        VF_CHECK(ms == def || (ms >= 12 && ms <= 53), "pacing-range", "a frame is spread over " << ms << " ms");
        const double bps = s.bandwidth_actual_kbit_per_second * 1024.0;
        if (bps > 10100) {
            double want = std::clamp(1000.0 * n * k / (bps * scale / 8), 16.0, 66.6) * 0.8;
            VF_CHECK(std::fabs(want - ms) <= 1.5, "pacing-value", "a frame of " << n * k << " bytes at " << bps << " bit/s (scale " << scale << ") is spread over " << ms << " ms instead of about " << want);
            vf::count("pacing_checked");
        } else if (bps > 0 && bps < 9900) VF_CHECK(ms == def, "pacing-default", "spread " << ms << " ms at a bandwidth of " << bps << " bit/s, the default is " << def);
    };

    const int64_t end = t0 + seconds * 1000000ll;
    const int64_t step = 1000000 / pps;
    while (vclock::us() < end) {
        int64_t nextSend = last + step + (mode == 3 ? rng.range(0, step) : 0);
        int64_t now = std::min({nextSend, nextFb, nextStats});
        vclock::setUs(now);
        sched->run();
        if (now == nextSend) {
            last = now;
            const bool isAudio = withAudio && rng.chance(0.2);
            const auto& track = isAudio ? audio : video;
            size_t pay = isAudio ? 120 : size;
            uint8_t pad = isAudio ? src->getPadding(track, pay) : pay < 300 ? 0 : src->getPadding(track, pay);
            RtpExtensionBuilder eb;
            src->addExtension(eb, track, false, 0);
            ByteBuffer pl = glue::buf(Bytes(pay, 7));
            auto pkt = std::make_shared<RtpPacket>(track, false, 0, static_cast<uint16_t>(sentCount), 0, pad, eb.build(), std::move(pl));
            src->onBeforeGeneratingRtpPacket(pkt);
            auto seq = src->getFeedbackSeq(pkt);
            VF_CHECK(seq.has_value(), "no-seq", "a packet goes out without its transport sequence number");
            const uint8_t want = 1;
            (void)want;
            if (!all.empty()) VF_CHECK(*seq == static_cast<uint16_t>(all.back().seq + 1), "seq-step", "transport sequence number " << *seq << " after " << all.back().seq);
            src->onBeforeSendingRtpPacket(pkt, 12 + 8 + pay + pad, 12 + 8 + pay + pad + 16);
            bool l = rng.chance(loss);
            int64_t at = now + delay + (jitter ? rng.range(0, jitter) : 0);
            all.push_back({*seq, now, clockOff + (at - t0) / 250, l, pay, pad});
            sentCount++; padSum += pad;
            vf::count("packets_sent"); if (pad) vf::count("probe_packets");
            if (all.size() > 6000) { all.pop_front(); firstIndex++; }
            if (mode == 3 && rng.chance(0.01)) src->onPacketWasNacked(pkt);
        }
        if (now == nextFb) {
            nextFb += 100000;
            // covers everything up to the newest packet that has arrived
            size_t from = reportFrom > firstIndex ? reportFrom - firstIndex : 0, hi = from;
            const int64_t nowTick = clockOff + (now - t0) / 250;
            for (size_t i = from; i < all.size(); i++) if (!all[i].lost && all[i].arrTick <= nowTick) hi = i + 1;
            if (hi > from) {
                auto build = [&](size_t a, size_t b, bool pretend) {
                    std::vector<Sym> v;
                    for (size_t i = a; i < b; i++) v.push_back({!all[i].lost && all[i].arrTick <= nowTick && !(pretend && i + 1 < b && (i % 5) == 2), all[i].arrTick});
                    // the format has 24 bits of reference time
                    return encode(rng, all[a].seq, v, fb++, wide);
                };
                // large gaps cannot be expressed: keep each message short
                if (mode == 2) {
                    // a first report says "not received" for some, a later one corrects it
                    give(build(from, hi, true));
                    if (rng.chance(0.5)) { PublishConnectionStats s = stats(); (void)s; }
                    give(build(from, hi, false));
                } else {
                    Bytes b = build(from, hi, false);
                    if (mode == 3) {
                        Bytes m = b;
                        int what = static_cast<int>(rng.below(9));
                        if (what == 0) for (int k = static_cast<int>(rng.range(1, 8)); k > 0; k--) m[rng.below(m.size())] = static_cast<uint8_t>(rng.next());
                        else if (what == 1) m.resize(rng.below(m.size() + 1));
                        else if (what == 2) { m = rng.bytes(rng.range(0, 60)); }
                        else if (what == 3) { auto x = rng.bytes(rng.range(1, 40)); m.insert(m.end(), x.begin(), x.end()); }
                        else if (what == 4) { m[4] = static_cast<uint8_t>(rng.next()); m[5] = static_cast<uint8_t>(rng.next()); m[6] = static_cast<uint8_t>(rng.next()); }
                        else if (what == 5) { uint16_t nb = static_cast<uint16_t>(rng.next()); m[0] = nb >> 8; m[1] = nb & 255; }
                        else if (what == 6 && !old.empty()) m = rng.pick(old);
                        else if (what == 7) { m.resize(8); m[2] = 0xFF; m[3] = 0xFF; for (int k = 0; k < 9; k++) { m.push_back(static_cast<uint8_t>((rng.below(4) << 5) | 0x1F)); m.push_back(0xFF); } auto x = rng.bytes(rng.range(0, 3000)); m.insert(m.end(), x.begin(), x.end()); }
                        if (rng.chance(0.7)) give(m); // else this one is lost
                        if (rng.chance(0.2)) give(b);
                        vf::count("hostile_feedback");
                        old.push_back(b); if (old.size() > 20) old.erase(old.begin());
                    } else {
                        if (hi - from > 1 && rng.chance(0.15)) { // split in two
                            size_t mid = from + 1 + rng.below(hi - from - 1);
                            give(build(from, mid, false)); give(build(mid, hi, false));
                        } else give(b);
                        if (rng.chance(0.05)) { give(b); vf::count("duplicate_feedback"); }
                        if (!old.empty() && rng.chance(0.05)) { give(rng.pick(old)); vf::count("stale_feedback"); }
                        old.push_back(b); if (old.size() > 5) old.erase(old.begin());
                    }
                }
                // packets that were reordered past the newest stay "not received yet": report them again next time
                size_t keep = hi;
                for (size_t i = from; i < hi; i++) if (!all[i].lost && all[i].arrTick > nowTick) { keep = i; break; }
                reportFrom = firstIndex + keep;
            }
        }
        if (now == nextStats) {
            nextStats += 500000;
            auto s = stats();
            pacing(s);
            const double age = (now - t0) / 1e6;
            const int64_t window = std::max<int64_t>(2000000, 45 * 1000000ll / pps);
            if (mode != 3 && age >= 4 + 2 * window / 1e6) {
                if (pps < 80) vf::count("slow_flow_checks");
                // a packet missing from one feedback and acknowledged by the next may show up for an instant (and fades from the average)
                if (mode != 1) VF_CHECK(s.packets_lost_percent <= (mode == 2 || jitter > step ? 4.0 : 0.0), "phantom-loss", "loss of " << s.packets_lost_percent << " % while every packet was acknowledged");
                // what the receiver got, over the last two seconds it reported about
                double bits = 0, n = 0, lost = 0, tot = 0; int64_t lo = INT64_MAX, hiT = 0; double bitsPad = 0;
                int64_t cut = now - delay - jitter - 200000;
                for (auto& p : all) if (p.sentUs <= cut && p.sentUs > cut - window) { tot++; if (!p.lost) { bits += 8.0 * p.payload; bitsPad += 8.0 * (p.payload + p.padding); n++; lo = std::min(lo, p.arrTick); hiT = std::max(hiT, p.arrTick); } else lost++; }
                double secs = (hiT - lo) * 250e-6;
                if (n >= 35 && secs > 1) {
                    double want = bits / secs / 1024, got = s.bandwidth_actual_kbit_per_second;
                    const double tol = mode == 1 ? (pps < 80 ? 3.0 : 1.8) : pps < 80 ? 1.4 : 1.25; // small samples vary
                    VF_CHECK(got > want / tol && got < want * tol, "bw-actual", "actual bandwidth " << got << " kbit/s, the receiver got " << want << " kbit/s");
                    double sug = s.bandwidth_suggested_kbit_per_second;
                    double wantPad = (8.0 * (size + 120)) * pps / 1024 * 1.3;
                    VF_CHECK(sug >= got * 0.89 && sug <= std::max(got * 1.01, wantPad), "bw-suggested", "suggested bandwidth " << sug << " kbit/s with an actual one of " << got << " and at most " << wantPad << " sent");
                    vf::count("bandwidth_checked");
                    if (sug > got * 1.001) vf::count("probe_suggestions");
                    vf::sig(vf::hash64(&got, sizeof got));
                }
                if (mode == 1 && age >= 6 && sentCount > 600) {
                    // the share over the packets the history keeps
                    double L = 0, T = 0;
                    size_t k = all.size() > 2047 ? all.size() - 2047 : 0;
                    for (size_t i = k; i < all.size(); i++) { T++; if (all[i].lost) L++; }
                    double pct = 100 * L / T;
                    VF_CHECK(std::fabs(pct - s.packets_lost_percent) < 3 + pct * 0.35, "loss-value", "loss of " << s.packets_lost_percent << " %, " << pct << " % of the packets were lost");
                    vf::count("loss_checked");
                }
            }
        }
    }
    (void)carry; (void)lastActual; (void)haveActual; (void)padSum;
    if (mode == 3) vf::sig(vf::hash64(&sentCount, 8));
}
} // namespace

int main(int argc, char** argv) {
    setLogLevel(SRTC_LOG_Z);
    bool is19 = false, only = false;
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) {
        if (!strcmp(argv[i], "c19")) is19 = true;
        else if (!strcmp(argv[i], "c02")) is19 = only = true;
        else if (strcmp(argv[i], "c18") != 0) a.push_back(argv[i]);
    }
    std::vector<vf::Suite> s18 = {
        {"responder", 4, [](vf::Rng& r, int64_t) { c18(r, false, false); }},
        {"history", 4, [](vf::Rng& r, int64_t) { c18(r, false, true); }},
        {"jumps", 2, [](vf::Rng& r, int64_t) { c18(r, true, true); }},
    };
    std::vector<vf::Suite> s19 = {
        {"steady", 4, [](vf::Rng& r, int64_t) { c19(r, 0); }},
        {"lossy", 3, [](vf::Rng& r, int64_t) { c19(r, 1); }},
        {"corrected", 2, [](vf::Rng& r, int64_t) { c19(r, 2); }},
        {"hostile", 4, [](vf::Rng& r, int64_t) { c19(r, 3); }},
    };
    if (only) s19 = {s19[3]};
    return vf::runMain(static_cast<int>(a.size()), a.data(),
                       is19 ? "one situation = a distinct measured bandwidth or hostile session" : "one situation = a distinct sequence of feedback messages (chunks and deltas)", is19 ? s19 : s18);
}
