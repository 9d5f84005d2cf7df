// C16 (and the receiving half of C17): the jitter buffer under a simulated network and a virtual clock.
// usage: c16_jitter c16|c17nack [framework options]
#include "glue.h"
#include "vclock.h"
#include "srtc/depacketizer.h"
#include "srtc/jitter_buffer.h"
#include "srtc/logging.h"
#include "srtc/pool_allocator.h"
#include "srtc/util.h"
#include <algorithm>
#include <queue>
#include <set>
using namespace srtc;
using glue::Bytes;

namespace {
bool g_nackProperty = false; // report violations of C17 instead of C16

// Packets carry {frame, index, count, flags}; the depacketizer glues a frame's packets back together.
struct MockDepacketizer : Depacketizer {
    bool av1like;
    int resets = 0;
    MockDepacketizer(const std::shared_ptr<Track>& t, bool a) : Depacketizer(t), av1like(a) {}
    PacketKind getPacketKind(const ByteBuffer& p, bool marker) const override {
        const uint8_t* d = p.data();
        bool first = d[4] == 0 && d[5] == 0, last = d[4] == d[6] - 1;
        if (av1like) first = d[7] & 1; // "could start a frame"
        (void)last;
        if (first) return marker ? PacketKind::Standalone : PacketKind::Start;
        return marker ? PacketKind::End : PacketKind::Middle;
    }
    void reset() override { resets++; }
    void extract(std::vector<ByteBuffer>& out, const std::vector<const JitterBufferItem*>& l) override {
        out.clear();
        ByteBuffer b; ByteWriter w(b);
        for (auto i : l) { w.writeU16(static_cast<uint16_t>(i->seq_ext)); w.write(i->payload); }
        out.push_back(std::move(b));
    }
};
constexpr size_t kRec = 10; // bytes per packet in an extracted frame

struct P { int64_t frame; int idx; uint64_t seq; int64_t arr = -1; bool arrivedOnce = false; bool rawStart = false; };
struct F { int64_t first; int n; uint64_t seq0; uint64_t ts; int64_t sendUs; int64_t complete = -1; int64_t lastDue = -1; int got = 0; bool released = false; bool mustRelease = true; int64_t releasedAt = -1; };
struct Ev { int64_t at; int order; uint64_t seq; bool rtx; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.at != b.at ? a.at > b.at : a.order > b.order; } };

enum Mode { Lossless, Lossy, Jumps };

void run(vf::Rng& rng, Mode mode) {
    vclock::ns = 0;
    const bool av1like = rng.chance(0.4), audio = !av1like && rng.chance(0.2), useNack = rng.chance(0.75);
    const size_t capacity = audio ? 1024 : rng.pickOf({1024, 2048, 4096});
    const int lengthMs = static_cast<int>(rng.range(20, 300)), nackDelay = rng.pickOf({6, 10});
    const uint32_t ssrc = 0x1111, rtxSsrc = 0x2222; const uint8_t pt = 100, rtxPt = 101;
    const bool rtx = useNack && rng.chance(0.7);
    auto track = glue::makeTrack(audio ? ref::C::Opus : ref::C::VP8, Direction::Subscribe, ssrc, pt, rtx ? rtxSsrc : 0, rtx ? rtxPt : 0, useNack);
    auto dep = std::make_shared<MockDepacketizer>(track, av1like);
    auto jb = std::make_unique<JitterBuffer>(track, dep, capacity, std::chrono::milliseconds(lengthMs), std::chrono::milliseconds(nackDelay));
    const uint32_t clock = audio ? 48000 : 90000;

    // what the sender sends
    const int64_t startUs = rng.range(0, 5000000);
    uint64_t seq = 65536 + (rng.chance(0.5) ? 65536 - rng.below(400) : rng.below(65536));
    uint64_t ts = (1ull << 32) + (rng.chance(0.4) ? (1ull << 32) - rng.below(clock * 8) : rng.below(1ull << 32));
    const int nframes = static_cast<int>(mode == Jumps ? rng.range(300, 500) : rng.range(40, rng.chance(0.3) ? 500 : 150));
    const int maxPkts = audio ? 1 : static_cast<int>(rng.range(1, rng.chance(0.2) ? 60 : 8));
    std::vector<F> frames; std::vector<P> pkts; std::map<uint64_t, size_t> bySeq;
    std::priority_queue<Ev, std::vector<Ev>, EvCmp> q;
    int order = 0;
    const int64_t baseDelay = rng.range(1000, 100000);
    const int64_t jitterUs = mode == Jumps && rng.chance(0.7) ? rng.range(0, 900) : mode == Lossless ? rng.range(0, std::max<int64_t>(1, (lengthMs - 3) * 1000 / 2)) : rng.range(0, lengthMs * 1500);
    const double loss = mode == Lossless ? 0 : rng.pickOf({0.0, 0.01, 0.05, 0.2, 0.5}), dup = rng.pickOf({0.0, 0.02, 0.2});
    const int64_t rtt = rng.range(2000, 250000);
    // loss bursts
    int64_t burstUntil = -1;
    int64_t now = startUs;
    const int64_t frameUs = audio ? 20000 : mode == Jumps ? 33333 : rng.pickOf({16667, 33333, 40000, 100000});
    int64_t lastJumpUs = -1;        // after this instant delivery has to resume
    int disturbances = 0;
    // packets of the network are not older than this after a jump (keeps stale packets from before a jump out of it)
    for (int i = 0; i < nframes; i++) {
        if (mode == Jumps && i > 5 && disturbances < 3 && i < nframes - 230 && rng.chance(0.02)) {
            int kind = static_cast<int>(rng.below(4));
            disturbances++;
            if (kind == 0) seq += rng.range(1, 16000);                     // sequence jump (or everything in between lost)
            if (kind == 1) { int64_t p = rng.range(100, 8000) * 1000; now += p; ts += p * clock / 1000000; }  // pause
            if (kind == 2) { int64_t p = rng.range(100, 8000) * 1000; now += p; ts += p * clock / 1000000; seq += rng.range(1, 12000); }
            if (kind == 3) { seq += capacity / 4 - 2 + rng.below(5); }
            lastJumpUs = now;
        }
        if (mode != Lossless && rng.chance(0.01)) burstUntil = now + rng.range(10, 600) * 1000;
        F f; f.first = static_cast<int64_t>(pkts.size()); f.n = static_cast<int>(rng.range(1, maxPkts)); f.seq0 = seq; f.ts = ts; f.sendUs = now;
        bool lostWhole = mode != Lossless && rng.chance(loss / 4);
        for (int k = 0; k < f.n; k++) {
            P p; p.frame = i; p.idx = k; p.seq = seq++; p.rawStart = k == 0 || (av1like && rng.chance(0.3));
            bySeq[p.seq] = pkts.size();
            int64_t sent = now + (rng.chance(0.5) ? 0 : k * rng.range(0, 300));
            bool lost = lostWhole || now < burstUntil || rng.chance(loss);
            if (!lost) {
                q.push({sent + baseDelay + rng.range(0, jitterUs), order++, p.seq, false});
                if (rng.chance(dup)) q.push({sent + baseDelay + rng.range(0, jitterUs * 2) + (rng.chance(0.1) ? rng.range(0, 2500000) : 0), order++, p.seq, rtx && rng.chance(0.4)});
            }
            pkts.push_back(p);
        }
        frames.push_back(f);
        now += frameUs; ts += static_cast<uint64_t>(frameUs) * clock / 1000000 + (rng.chance(0.05) ? rng.below(clock / 100) : 0);
    }
    const int64_t sendEnd = now;
    vf::note("mode=" + std::to_string(mode) + " av1like=" + std::to_string(av1like) + " nack=" + std::to_string(useNack) + " rtx=" + std::to_string(rtx) +
             " cap=" + std::to_string(capacity) + " len=" + std::to_string(lengthMs) + " frames=" + std::to_string(nframes) + " maxPkts=" + std::to_string(maxPkts) +
             " loss=" + std::to_string(loss) + " dup=" + std::to_string(dup) + " jitterUs=" + std::to_string(jitterUs));

    bool haveBase = false; int64_t baseUs = 0; uint64_t baseTs = 0;
    auto dueOf = [&](const F& f) -> int64_t { return baseUs + static_cast<int64_t>((static_cast<__int128>(f.ts) - baseTs) * 1000000 / clock) + lengthMs * 1000ll; };
    int64_t lastReleased = -1; int64_t lastReleaseUs = -1;
    std::set<uint64_t> requested;
    uint64_t maxArrived = 0, minArrived = UINT64_MAX; int64_t dueMaxSoFar = INT64_MIN;
    int64_t wake = 0; int64_t released = 0;
    bool disturbed = mode == Jumps; // a gap beyond what the buffer accepts: only order and contents are judged from there on
    uint64_t lowest = 0;            // sequence number after the last released frame
    std::vector<int64_t> releaseTimes;
    uint64_t sigh = vf::hash64(&mode, sizeof mode);

    auto process = [&] {
        auto nacks = jb->processNack();
        uint64_t prev = 0; bool havePrev = false;
        for (auto n : nacks) {
            vf::count("nack_requests");
            // which packet does it mean: the one nearest below the highest that arrived
            uint64_t s = (maxArrived & ~0xFFFFull) | n;
            if (s > maxArrived) s -= 65536;
            if (g_nackProperty) {
                VF_CHECK(useNack, "nack-without-negotiation", "retransmission of " << n << " requested on a track without NACK");
                auto it = bySeq.find(s);
                if (!disturbed) VF_CHECK(it != bySeq.end() && s > minArrived, "nack-of-unsent-packet", "requested " << n << ", which is no packet inside the received range");
                if (it != bySeq.end() && !disturbed) VF_CHECK(!pkts[it->second].arrivedOnce, "nack-of-received-packet", "requested " << n << ", which had been received at " << pkts[it->second].arr << " us, now " << vclock::us());
                bool fresh = requested.insert(s).second;
                VF_CHECK(fresh || disturbed, "nack-repeated", "requested " << n << " twice");
                VF_CHECK(!havePrev || s > prev || disturbed, "nack-order", "request list is not in sequence order");
                prev = s; havePrev = true;
            }
            if (bySeq.count(s) && !rng.chance(loss)) q.push({vclock::us() + rtt + rng.range(0, 3000), order++, s, rtx});
        }
        auto out = jb->processDeque();
        const int64_t t = vclock::us();
        for (auto& fr : out) {
            released++;
            if (g_nackProperty) continue;
            Bytes b = glue::bytes(fr->data);
            VF_CHECK(!b.empty() && b.size() % kRec == 0, "bad-frame", "released frame of " << b.size() << " bytes");
            auto rec = [&](size_t i) { return b.data() + i * kRec; };
            size_t n = b.size() / kRec;
            int64_t fid = static_cast<int64_t>(rec(0)[2]) | rec(0)[3] << 8 | rec(0)[4] << 16;
            VF_CHECK(fid < nframes, "bad-frame", "unknown frame id " << fid);
            F& f = frames[fid];
            int firstIdx = rec(0)[6];
            for (size_t i = 0; i < n; i++) {
                int64_t id = static_cast<int64_t>(rec(i)[2]) | rec(i)[3] << 8 | rec(i)[4] << 16;
                VF_CHECK(id == fid && rec(i)[6] == firstIdx + static_cast<int>(i), "mixed-frame",
                         "released frame mixes packets: frame " << fid << ", position " << i << " holds packet " << int(rec(i)[6]) << " of frame " << id);
            }
            // an AV1-like stream cannot tell that leading packets of a frame are missing
            if (firstIdx != 0) {
                VF_CHECK(av1like && pkts[f.first + firstIdx].rawStart, "incomplete-frame", "frame " << fid << " released from packet " << firstIdx);
                VF_CHECK(disturbed || f.complete < 0 || !f.mustRelease, "incomplete-frame", "frame " << fid << " released without its packet " << firstIdx - 1 << ", although all of it had been received in time");
                vf::count("leading_loss_frames");
            }
            VF_CHECK(firstIdx + static_cast<int>(n) == f.n, "incomplete-frame", "frame " << fid << " of " << f.n << " packets released with packets " << firstIdx << ".." << firstIdx + n - 1);
            VF_CHECK(fid != lastReleased, "frame-repeated", "frame " << fid << " released twice");
            VF_CHECK(fid > lastReleased, "frame-order", "frame " << fid << " released after frame " << lastReleased);
            VF_CHECK(fr->marker, "marker", "complete frame released without its marker");
            VF_CHECK(fr->rtp_timestamp_ext % (1ull << 32) == f.ts % (1ull << 32), "timestamp", "frame " << fid << " released with timestamp " << fr->rtp_timestamp_ext << " instead of " << f.ts);
            VF_CHECK(static_cast<uint16_t>(fr->seq_ext) == static_cast<uint16_t>(f.seq0 + firstIdx), "sequence", "frame " << fid << " released with sequence " << fr->seq_ext);
            VF_CHECK(fr->wait_time_millis >= 0, "wait-time", "negative wait time");
            if (vf::opt.verbose) fprintf(stderr, "%ld: released frame %ld\n", (long)t, (long)fid);
            lastReleased = fid; f.released = true; f.releasedAt = t; lastReleaseUs = t;
            lowest = f.seq0 + f.n;
            if (!disturbed) {
                VF_CHECK(t >= dueOf(f) - 1600, "released-early", "frame " << fid << " released at " << t << " us, due " << dueOf(f));
            }
            releaseTimes.push_back(t);
            vf::count("frames_released");
        }
    };

    int64_t cur = startUs;
    const int64_t endUs = sendEnd + 12000000;
    wake = cur;
    int64_t steps = 0;
    bool lastBusy = false; int busySteps = 0;
    while (cur < endUs) {
        VF_CHECK(++steps < 20000000, "no-progress", "simulation does not advance");
        int64_t next = wake;
        if (!q.empty()) next = std::min(next, std::max(cur, q.top().at));
        if (q.empty() && released + 0 >= 0 && cur > sendEnd + 3000000) break;
        cur = std::max(cur, next);
        vclock::setUs(cur);
        // at most 2 datagrams per wakeup, like a busy socket
        int burst = 0;
        while (!q.empty() && q.top().at <= cur && burst++ < 3) {
            Ev e = q.top(); q.pop();
            P& p = pkts[bySeq[e.seq]]; F& f = frames[p.frame];
            uint8_t d[8] = {static_cast<uint8_t>(p.frame), static_cast<uint8_t>(p.frame >> 8), static_cast<uint8_t>(p.frame >> 16), 0, static_cast<uint8_t>(p.idx), 0, static_cast<uint8_t>(f.n), static_cast<uint8_t>(p.rawStart)};
            bool isRtx = e.rtx && rtx;
            Bytes pl(d, d + 8);
            if (isRtx) { pl.insert(pl.begin(), {static_cast<uint8_t>(p.seq >> 8), static_cast<uint8_t>(p.seq)}); }
            auto pk = std::make_shared<RtpPacket>(track, isRtx ? rtxSsrc : ssrc, isRtx ? rtxPt : pt, p.idx == f.n - 1, 0, isRtx ? static_cast<uint16_t>(order) : static_cast<uint16_t>(p.seq),
                                                  static_cast<uint32_t>(f.ts), 0, RtpExtension(), glue::buf(pl));
            if (vf::opt.verbose) fprintf(stderr, "%ld: consume seq %lu frame %ld idx %d/%d%s ts %lu due %ld\n", (long)cur, (unsigned long)p.seq, (long)p.frame, p.idx, f.n, isRtx ? " rtx" : "", (unsigned long)f.ts, haveBase ? (long)dueOf(f) : -1);
            jb->consume(pk);
            if (g_nackProperty && !p.arrivedOnce) vf::count("arrivals");
            if (!haveBase) { haveBase = true; baseUs = cur; baseTs = f.ts; }
            dueMaxSoFar = std::max(dueMaxSoFar, dueOf(f));
            if (maxArrived && (p.seq + 1 >= maxArrived + capacity / 4 || p.seq > std::max(lowest, minArrived) + capacity * 3 / 4)) { if (!disturbed) vf::count("disturbed_cases"); disturbed = true; lastJumpUs = std::max(lastJumpUs, cur); }
            maxArrived = std::max(maxArrived, p.seq); minArrived = std::min(minArrived, p.seq);
            if (!p.arrivedOnce) {
                p.arrivedOnce = true; p.arr = cur; f.got++;
                if (f.got == f.n) { f.complete = cur; f.lastDue = std::max(dueOf(f), dueMaxSoFar); if (cur > dueOf(f) - 2000) f.mustRelease = false; }
            }
            if (p.seq != 0 && !isRtx && p.seq == maxArrived) sigh = sigh * 3 + 1; else sigh = sigh * 3 + 2;
        }
        process();
        int to = jb->getTimeoutMillis(100);
        to = std::min(100, std::max(0, to));
        if (to == 0) { if (lastBusy) busySteps++; lastBusy = true; } else lastBusy = false;
        // timeout 0 means "again right away": that costs some time
        wake = cur + std::max<int64_t>(to * 1000ll, 50);
        if (!q.empty() && q.top().at <= cur) wake = cur + 20;
    }
    (void)busySteps;
    // completeness
    if (!g_nackProperty) {
        if (!disturbed) {
            int64_t lastCompleteDue = -1; (void)lastCompleteDue;
            for (int i = 0; i < nframes; i++) {
                F& f = frames[i];
                if (f.complete < 0 || !f.mustRelease) continue;
                vf::count("complete_frames");
                VF_CHECK(f.released, "complete-frame-not-released", "frame " << i << " (" << f.n << " packets, all received by " << f.complete << " us) was due at " << dueOf(f) << " us and never released");
                VF_CHECK(f.releasedAt <= f.lastDue + 2500, "released-late", "frame " << i << " complete at " << f.complete << " us, due " << dueOf(f) << " us, all earlier arrivals due by " << f.lastDue << " us, released at " << f.releasedAt << " us");
            }
        } else if (mode == Jumps) {
            // after the last disturbance and the silence limit, complete frames come out again
            if (lastJumpUs > 0 && sendEnd - lastJumpUs > 6500000) {
                int64_t want = 0, got = 0;
                for (int i = 0; i < nframes; i++) {
                    F& f = frames[i];
                    if (f.sendUs > lastJumpUs + 6000000 && f.complete >= 0 && f.complete < f.sendUs + baseDelay + 1000) { want++; got += f.released; }
                }
                if (want >= 3) {
                    vf::count("resume_checks");
                    VF_CHECK(got > 0, "no-resume", want << " frames were complete more than 6 s after the disturbance at " << lastJumpUs << " us and none was released");
                }
            }
        }
        vf::count("packets", pkts.size());
    } else if (useNack && !disturbed) {
        // every missing packet inside the received range is asked for, when its gap was seen in time
        for (auto& f : frames) (void)f;
        int64_t firstDue = haveBase ? baseUs + lengthMs * 1000ll : 0; (void)firstDue;
        // gaps: walk sequence numbers, the gap is seen at the first arrival of any higher number
        std::vector<std::pair<int64_t, uint64_t>> arrivals;
        for (auto& p : pkts) if (p.arrivedOnce) arrivals.push_back({p.arr, p.seq});
        std::sort(arrivals.begin(), arrivals.end());
        uint64_t first = arrivals.empty() ? 0 : arrivals[0].second;
        std::vector<int64_t> firstHigher(pkts.size(), INT64_MAX); // by sequence: earliest arrival of a higher one
        int64_t best = INT64_MAX; int64_t bestDue = INT64_MAX;
        std::vector<int64_t> dueHigher(pkts.size());
        for (size_t i = pkts.size(); i-- > 0;) {
            firstHigher[i] = best; dueHigher[i] = bestDue;
            if (pkts[i].arrivedOnce && pkts[i].arr <= best) { best = pkts[i].arr; }
            if (pkts[i].arrivedOnce) bestDue = std::min(bestDue, dueOf(frames[pkts[i].frame]));
        }
        for (size_t i = 0; i < pkts.size(); i++) {
            auto& p = pkts[i];
            if (p.seq <= first || firstHigher[i] == INT64_MAX) continue;
            int64_t asked = firstHigher[i] + nackDelay * 1000ll;
            int64_t ownDue = dueOf(frames[p.frame]);
            // abandoned not before the frame after it is due
            if (asked + 5000 < std::min(ownDue, dueHigher[i]) && (!p.arrivedOnce || p.arr > asked + 5000)) {
                vf::count("missing_packets");
                VF_CHECK(requested.count(p.seq), "missing-packet-not-requested", "packet " << static_cast<uint16_t>(p.seq) << " of frame " << p.frame << " was missing from " << firstHigher[i]
                         << " us, abandoned not before " << std::min(ownDue, dueHigher[i]) << " us, and was never requested");
            }
        }
    }
    vf::sig(sigh);
    if (vf::opt.only >= 0) vf::sample("released " + std::to_string(released) + " of " + std::to_string(nframes));
    else vf::sample("mode " + std::to_string(mode) + ": " + std::to_string(released) + " of " + std::to_string(nframes) + " frames released, " + std::to_string(order) + " arrivals");
}
} // namespace

// The wire form of a request lists exactly the requested sequence numbers.
static void wireCase(vf::Rng& rng, int64_t) {
    for (int k = 0; k < 50; k++) {
        size_t n = rng.pickOf<size_t>({1, 2, 3, 5, 10, 40, 200});
        uint32_t seq = rng.chance(0.5) ? static_cast<uint32_t>(rng.below(65536)) : 65536 - static_cast<uint32_t>(rng.below(100));
        std::vector<uint16_t> in;
        std::set<uint16_t> want;
        uint64_t span = 0;
        unsigned style = rng.below(4);
        uint64_t h = style;
        while (in.size() < n && span < 30000) {
            in.push_back(static_cast<uint16_t>(seq));
            want.insert(static_cast<uint16_t>(seq));
            uint32_t step = style == 0 ? 1 : style == 1 ? 1 + rng.below(3) : style == 2 ? 14 + rng.below(6) : 1 + rng.below(40);
            seq += step; span += step;
            if (in.size() < 8) h = h * 41 + step;
        }
        std::vector<uint16_t> s(in.size()), b(in.size());
        size_t m = srtc::compressNackList(in, s.data(), b.data());
        VF_CHECK(m <= in.size() && m > 0, "nack-wire-count", m << " entries for " << in.size() << " sequence numbers");
        std::set<uint16_t> got;
        for (size_t i = 0; i < m; i++) {
            auto add = [&](uint16_t v) { VF_CHECK(got.insert(v).second, "nack-wire-twice", "sequence number " << v << " listed twice"); };
            add(s[i]);
            for (int j = 0; j < 16; j++) if (b[i] >> j & 1) add(static_cast<uint16_t>(s[i] + 1 + j));
        }
        for (auto v : want) VF_CHECK(got.count(v), "nack-wire-missing", "sequence number " << v << " requested but not listed, first " << in[0] << " of " << in.size());
        VF_CHECK(got.size() == want.size(), "nack-wire-extra", got.size() << " listed, " << want.size() << " requested");
        vf::count("nack_wire_lists");
        vf::sig(h ^ 0x17171717);
    }
}

int main(int argc, char** argv) {
    std::vector<char*> a;
    for (int i = 0; i < argc; i++) {
        if (!strcmp(argv[i], "c17nack")) { g_nackProperty = true; continue; }
        if (!strcmp(argv[i], "c16")) continue;
        a.push_back(argv[i]);
    }
    setLogLevel(SRTC_LOG_Z);
    std::vector<vf::Suite> suites = {{"lossless", 3, [](vf::Rng& r, int64_t) { run(r, Lossless); }},
                                     {"lossy", 4, [](vf::Rng& r, int64_t) { run(r, Lossy); }},
                                     {"jumps", 3, [](vf::Rng& r, int64_t) { run(r, Jumps); }}};
    if (g_nackProperty) suites.push_back({"wire", 1, wireCase});
    return vf::runMain(static_cast<int>(a.size()), a.data(), "one situation = a distinct sequence of in-order/out-of-order/retransmitted arrivals", suites);
}
