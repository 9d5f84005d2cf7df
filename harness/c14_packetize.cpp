// C14: every packet list a packetizer produces, against independent payload parsers and the size budget.
#include "glue.h"
#include "srtc/packetizer.h"
#include <algorithm>

using namespace ref;
using namespace glue;

namespace {
// Asks for extensions and padding by a rule drawn per case
class TestSource : public srtc::RtpExtensionSource {
public:
    uint8_t id; size_t len; int mode; uint8_t pad; bool keyOnly;
    uint64_t wanted = 0;
    TestSource(uint8_t id_, size_t len_, int mode_, uint8_t pad_) : id(id_), len(len_), mode(mode_), pad(pad_) {}
    uint8_t getPadding(const std::shared_ptr<srtc::Track>&, size_t) override { return pad; }
    bool wants(bool key, unsigned n) const {
        switch (mode) { case 0: return true; case 1: return key; case 2: return n == 0; case 3: return n % 2 == 1; default: return false; }
    }
    bool wantsExtension(const std::shared_ptr<srtc::Track>&, bool key, unsigned n) const override { return wants(key, n); }
    void addExtension(srtc::RtpExtensionBuilder& b, const std::shared_ptr<srtc::Track>&, bool, unsigned) override {
        wanted++;
        Bytes v(len);
        for (size_t i = 0; i < len; i++) v[i] = static_cast<uint8_t>(id * 31 + i + 1);
        b.addBinaryValue(id, glue::buf(v));
    }
};

void packetizeCase(C c, vf::Rng& rng) {
    const uint32_t ssrc = static_cast<uint32_t>(rng.next());
    const uint8_t pt = 96 + rng.below(30);
    auto track = makeTrack(c, srtc::Direction::Publish, ssrc, pt);
    auto made = srtc::Packetizer::make(track);
    VF_CHECK(made.second.isOk() && made.first, "make", "no packetizer for " << cname(c));
    auto pk = made.first;
    // Sometimes start close to the sequence wrap
    uint32_t lastRoll = 0; int lastSeq = -1;
    auto nextOf = [&](uint32_t roll, uint16_t seq) {
        if (lastSeq >= 0) {
            uint16_t want = static_cast<uint16_t>(lastSeq + 1);
            VF_CHECK(seq == want, "sequence", "sequence " << seq << " after " << lastSeq);
            VF_CHECK(roll == lastRoll + (want == 0 ? 1 : 0), "rollover", "rollover " << roll << " at sequence " << seq << ", was " << lastRoll);
        }
        lastSeq = seq; lastRoll = roll;
    };
    if (rng.chance(0.25)) {
        size_t left = rng.below(40);
        for (;;) {
            auto s = track->getRtpPacketSource()->getNextSequence();
            nextOf(s.first, s.second);
            if (s.second == static_cast<uint16_t>(0xFFFF - left)) break;
        }
        vf::count("wrap_cases");
    }
    std::vector<std::shared_ptr<srtc::RtpExtensionSource>> sources;
    std::vector<std::shared_ptr<TestSource>> mine;
    size_t nsrc = c == C::Opus ? rng.below(2) : rng.below(4);
    for (size_t i = 0; i < nsrc; i++) {
        size_t len = rng.chance(0.5) ? rng.pickOf<size_t>({1, 2, 3, 8, 16}) : (c == C::Opus ? 2 : 1 + rng.below(120));
        auto s = std::make_shared<TestSource>(static_cast<uint8_t>(1 + i * 3 + rng.below(3)), len, static_cast<int>(rng.below(5)),
                                              rng.chance(0.3) ? static_cast<uint8_t>(rng.below(256)) : 0);
        mine.push_back(s); sources.push_back(s);
    }
    const size_t overhead = rng.pickOf<size_t>({4, 10, 16, 16, 10});
    const size_t basic = 1200 - 12 - overhead;
    Gen gen(c, rng.fork());
    gen.paramsInFrame = rng.chance(0.6);
    gen.av1Ext = rng.chance(0.4);
    bool haveParams = false;
    if ((c == C::H264 || c == C::H265) && (!gen.paramsInFrame || rng.chance(0.3))) {
        std::vector<srtc::ByteBuffer> csd;
        for (auto& b : gen.csd()) csd.push_back(glue::buf(b));
        pk->setCodecSpecificData(csd);
        haveParams = true;
    }
    int lastPic = -1;
    int64_t pts = static_cast<int64_t>(rng.below(1000000000));
    unsigned frames = 3 + rng.below(6);
    for (unsigned k = 0; k < frames; k++) {
        bool key = k == 0 || rng.chance(0.2);
        if (key && gen.paramsInFrame && rng.chance(0.3)) gen.newParams();
        Frame f;
        auto size = [&]() -> size_t {
            int kind = static_cast<int>(rng.below(10));
            if (kind < 2) return 1 + rng.below(60);
            if (kind < 4) return 1 + rng.below(1500);
            if (kind < 5) return 1 + rng.below(40000);
            // around the split boundaries
            size_t ext = 0;
            for (auto& s : mine) ext += s->len + 2;
            size_t per = basic - (rng.chance(0.5) ? ext : 0) - rng.below(6);
            return std::max<int64_t>(1, static_cast<int64_t>(per * (1 + rng.below(3))) + rng.range(-130, 130));
        };
        if (c == C::Opus) f = gen.next(false, 1 + rng.below(rng.chance(0.1) ? 1100 : 300));
        else {
            std::vector<size_t> sz{size()};
            if (c != C::VP8 && c != C::VP9 && rng.chance(0.5)) { size_t n = rng.below(4); for (size_t i = 0; i < n; i++) sz.push_back(size()); }
            f = gen.next(key, sz);
        }
        std::ostringstream nt;
        nt << cname(c) << " overhead=" << overhead << " frame " << k << (f.key ? " key" : "") << " bytes=" << f.data.size() << " units=" << f.nals.size() + f.obus.size() << " sizes:";
        for (auto& n : f.nals) nt << " " << n.size();
        for (auto& o : f.obus) nt << " " << int(o.type) << ":" << o.payload.size() << (o.ext ? "x" : "");
        for (auto& s : mine) nt << " ext(id=" << int(s->id) << " len=" << s->len << " mode=" << s->mode << " pad=" << int(s->pad) << ")";
        vf::note(nt.str());
        if (k == 1) vf::sample(nt.str());
        auto fb = glue::buf(f.data);
        if (c != C::Opus) {
            bool kf = pk->isKeyFrame(fb);
            VF_CHECK(kf == f.key, "keyframe-detection", "isKeyFrame=" << kf);
        }
        uint64_t wantedBefore = 0; for (auto& s : mine) wantedBefore += s->wanted;
        auto list = pk->generate(sources, overhead, pts, fb);
        pts += 1000 + rng.below(100000);
        VF_CHECK(!list.empty(), "no-packets", "no packet for the frame");
        std::vector<Pkt> pp;
        for (size_t i = 0; i < list.size(); i++) {
            auto& p = list[i];
            auto out = p->generate();
            Rtp r; std::string err;
            VF_CHECK(parseRtp(bytes(out.buf), r, err), "rtp-format", "packet " << i << " is not valid RTP: " << err);
            VF_CHECK(r.ssrc == ssrc && r.pt == pt, "rtp-identity", "ssrc/pt " << r.ssrc << "/" << int(r.pt));
            nextOf(out.rollover, r.seq);
            VF_CHECK(r.ts == list[0]->getTimestamp(), "timestamp", "packets of one frame have different timestamps");
            bool last = i + 1 == list.size();
            if (c != C::Opus) VF_CHECK(r.marker == last, "marker", "marker=" << r.marker << " on packet " << i << " of " << list.size());
            size_t total = out.buf.size() + overhead;
            VF_CHECK(total <= 1200, "too-big", "packet " << i << "/" << list.size() << " takes " << total << " bytes with protection, ext " << r.extData.size() << " pad " << int(r.padSize) << " payload " << r.payload.size());
            VF_CHECK(!r.payload.empty(), "empty-payload", "packet " << i << " has no payload");
            // requested extensions are present, with the right value
            for (auto& s : mine) {
                auto e = r.element(s->id);
                if (s->mode == 0) VF_CHECK(e, "extension-missing", "packet " << i << "/" << list.size() << " lacks extension " << int(s->id));
                if (e) {
                    VF_CHECK(e->size() == s->len && (*e)[0] == static_cast<uint8_t>(s->id * 31 + 1) && e->back() == static_cast<uint8_t>(s->id * 31 + s->len), "extension-value", "extension value damaged");
                    if (s->mode == 4) vf::fail("extension-unwanted", "an extension nobody asked for");
                }
                if (s->mode == 2 && i == 0 && c != C::Opus) VF_CHECK(e, "extension-missing", "first packet lacks extension " << int(s->id));
            }
            pp.push_back({r.payload, r.marker});
        }
        vf::count("packets", list.size());
        std::string err;
        if (c == C::H264 || c == C::H265) {
            std::vector<Bytes> got;
            VF_CHECK(c == C::H264 ? depacketH264(pp, got, err) : depacketH265(pp, got, err), "payload-format", err);
            bool h264 = c == C::H264;
            std::vector<Bytes> want;
            if (f.key && gen.paramsInFrame) haveParams = true;
            bool added = false;
            for (auto& n : f.nals) {
                bool isKey = h264 ? (n[0] & 31) == 5 : ((n[0] >> 1) >= 19 && (n[0] >> 1) <= 21);
                if (h264 ? isParam264(n) : isParam265(n)) continue;
                if (isKey && !added && haveParams) { added = true; if (!h264) want.push_back(gen.vps); want.push_back(gen.sps); want.push_back(gen.pps); }
                want.push_back(n);
            }
            VF_CHECK(got.size() == want.size(), "units", got.size() << " units on the wire, " << want.size() << " in the frame");
            for (size_t i = 0; i < got.size(); i++) VF_CHECK(got[i] == want[i], "unit-bytes", "unit " << i << " differs, " << got[i].size() << " vs " << want[i].size() << " bytes");
        } else if (c == C::VP8) {
            Bytes got;
            VF_CHECK(depacketVP8(pp, got, err), "payload-format", err);
            VF_CHECK(got == f.data, "frame-bytes", "reassembled frame differs");
            for (auto& p : pp) VF_CHECK(!(p.payload[0] & 0x20) , "vp8-discardable", "a packet is marked as a non-reference frame");
        } else if (c == C::VP9) {
            Bytes got; int pic; bool inter;
            VF_CHECK(depacketVP9(pp, got, pic, inter, err), "payload-format", err);
            VF_CHECK(got == f.data, "frame-bytes", "reassembled frame differs");
            VF_CHECK(inter == !f.key, "vp9-inter", "P bit is " << inter);
            if (pic >= 0 && lastPic >= 0) VF_CHECK(pic == ((lastPic + 1) & 0x7FFF), "vp9-picture-id", "picture id " << pic << " after " << lastPic);
            lastPic = pic;
        } else if (c == C::AV1) {
            std::vector<Obu> got; bool ns;
            VF_CHECK(depacketAV1(pp, got, ns, err), "payload-format", err);
            VF_CHECK(got == f.obus, "obus", got.size() << " OBUs on the wire, " << f.obus.size() << " in the frame");
            VF_CHECK(ns == f.key, "av1-new-sequence", "N bit is " << ns);
        } else {
            VF_CHECK(pp.size() == 1 && pp[0].payload == f.data, "frame-bytes", "Opus payload differs");
        }
        vf::count("frames");
        uint64_t h = vf::hash64(cname(c));
        size_t key2[] = {list.size(), f.nals.size(), f.obus.size(), f.data.size(), overhead, mine.size(), f.key};
        vf::sig(vf::hash64(key2, sizeof key2, h));
    }
}
} // namespace

int main(int argc, char** argv) {
    auto mk = [](C c) { return [c](vf::Rng& r, int64_t) { packetizeCase(c, r); }; };
    return vf::runMain(argc, argv,
        "one case = one track, random protection overhead and extension sources, 3-8 frames whose unit sizes are drawn around the split boundaries; "
        "non-trivial/distinct = (codec, packets, units, bytes, overhead, sources, key)",
        {{"h264", 3, mk(C::H264)}, {"h265", 3, mk(C::H265)}, {"vp8", 1, mk(C::VP8)}, {"vp9", 1, mk(C::VP9)}, {"av1", 3, mk(C::AV1)}, {"opus", 1, mk(C::Opus)}});
}
