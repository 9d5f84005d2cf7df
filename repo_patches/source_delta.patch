From 60d7431c35b49cedc39dae3e6a94811f8159d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 001/103] fix: AV1 packetizer counted the OBU extension header
 in the size of continuation fragments

---
 src/packetizer_av1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 28cc0de..ab14fa2 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -165,7 +165,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
             const auto isFirstPacketFromOBU = obuCurrData == parser.currData();
 
             // Calculate and write size = obu_header() + obu_extension_header() + payload size
-            const auto writeSize = (isFirstPacketFromOBU ? 1 : 0) + (isNeedHeaderExtension ? 1 : 0) + writeNow;
+            const auto writeSize = (isFirstPacketFromOBU ? 1 + (isNeedHeaderExtension ? 1 : 0) : 0) + writeNow;
             writer.writeLEB128(static_cast<uint32_t>(writeSize));
 
             if (isFirstPacketFromOBU) {
-- 
2.43.0


From e0de7c4c3bedee6c25ab924343abcd6f070b61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 002/103] fix: AV1 packetizer lost extensions and exceeded the
 packet size when starting another packet

---
 src/packetizer_av1.cpp | 44 ++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index ab14fa2..39efcec 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -125,42 +125,36 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
         const auto isNeedHeaderExtension = temporalId != 0 || spatialId != 0;
 
         while (obuCurrSize > 0) {
-            if (payload.empty()) {
-                extension = buildExtension(track, extensionSourceList, isNewCodedVideoSequence, packetNumber);
-                padding = getPadding(track, extensionSourceList, basicPacketSize);
-                usablePayloadSize = adjustPacketSize(basicPacketSize, padding, extension);
-            }
+            if (!payload.empty() && payload.size() + 100u >= usablePayloadSize) {
+                // Not enough space left in the current packet, finish it
+                const auto [rollover, sequence] = packetSource->getNextSequence();
+                result.push_back(std::make_shared<RtpPacket>(track,
+                                                             false,
+                                                             rollover,
+                                                             sequence,
+                                                             frameTimestamp,
+                                                             padding,
+                                                             std::move(extension),
+                                                             std::move(payload)));
 
-            auto writeNow = std::min<size_t>(obuCurrSize, usablePayloadSize);
-
-            if (!payload.empty()) {
-                const auto payloadSizeSoFar = payload.size();
-                if (payloadSizeSoFar + 100u < usablePayloadSize) {
-                    writeNow = std::min<size_t>(obuCurrSize, usablePayloadSize - payloadSizeSoFar);
-                } else {
-                    const auto [rollover, sequence] = packetSource->getNextSequence();
-                    result.push_back(std::make_shared<RtpPacket>(track,
-                                                                 false,
-                                                                 rollover,
-                                                                 sequence,
-                                                                 frameTimestamp,
-                                                                 padding,
-                                                                 std::move(extension),
-                                                                 std::move(payload)));
-
-                    payload.clear();
-                    packetNumber += 1;
-                }
+                payload.clear();
+                packetNumber += 1;
             }
 
             if (payload.empty()) {
                 // Start a new packet
+                extension = buildExtension(track, extensionSourceList, isNewCodedVideoSequence, packetNumber);
+                padding = getPadding(track, extensionSourceList, basicPacketSize);
+                usablePayloadSize = adjustPacketSize(basicPacketSize, padding, extension);
+
                 // https://aomediacodec.github.io/av1-rtp-spec/#aggregation-header
                 // |Z|Y|0 0|N|-|-|-|
                 writer.writeU8(((isContinuation ? 1 : 0) << 7) | (isNewCodedVideoSequence ? 1 : 0) << 3);
                 isNewCodedVideoSequence = false;
             }
 
+            const auto writeNow = std::min<size_t>(obuCurrSize, usablePayloadSize - payload.size());
+
             // When splitting an OBU across multiple packets, only the first packet has the OBU headers
             const auto isFirstPacketFromOBU = obuCurrData == parser.currData();
 
-- 
2.43.0


From 52a8cd99a0ecf41e83cd3ca92555c0fa5da8fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 003/103] fix: VP8 packetizer marked every inter frame as
 discardable

---
 src/packetizer_vp8.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packetizer_vp8.cpp b/src/packetizer_vp8.cpp
index 1bf4983..f9b5724 100644
--- a/src/packetizer_vp8.cpp
+++ b/src/packetizer_vp8.cpp
@@ -77,7 +77,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerVP8::generate(
         ByteWriter writer(payload);
 
         // |X|R|N|S|R| PID |
-        writer.writeU8(static_cast<uint8_t>((tagFrameType << 5) | ((packetNumber == 0 ? 1 : 0) << 4)));
+        // Inter frames can be used as references, so N is never set
+        writer.writeU8(static_cast<uint8_t>((packetNumber == 0 ? 1 : 0) << 4));
 
         // Payload
         const auto writeNow = std::min(currSize, packetSize);
-- 
2.43.0


From 2742986ac93cc36692592e2508259ec0293cf967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 004/103] fix: header extension values over 255 bytes were
 written in full after a 255 length

---
 src/rtp_extension_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index 51f63f2..d7afa4c 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -28,7 +28,7 @@ void RtpExtensionBuilder::addBinaryValue(uint8_t id, const ByteBuffer& buf)
     const auto len = std::min(static_cast<size_t>(255), buf.size());
     mWriter.writeU8(id);
     mWriter.writeU8(static_cast<uint8_t>(len));
-    mWriter.write(buf);
+    mWriter.write(buf.data(), len);
 }
 
 void RtpExtensionBuilder::addU16Value(uint8_t id, uint16_t value)
-- 
2.43.0


From 15a45df0ce3bc1af0fe0d7d4c9f155e6ce367ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 005/103] fix: RTCP packet without an SSRC made the parser
 allocate a negative size

---
 src/rtcp_packet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rtcp_packet.cpp b/src/rtcp_packet.cpp
index c2d8ba8..4e35b63 100644
--- a/src/rtcp_packet.cpp
+++ b/src/rtcp_packet.cpp
@@ -84,6 +84,12 @@ std::list<std::shared_ptr<RtcpPacket>> RtcpPacket::fromUdpPacket(const srtc::Byt
 			break;
 		}
 
+		if (len < 8) {
+			// No SSRC, for example a BYE without sources
+			ptr += len;
+			continue;
+		}
+
 		// Payload
 		ByteBuffer payload(ptr + 8, len - 8);
 
-- 
2.43.0


From 9a160d42f30c816871fd7726bb1835928e5d6bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 006/103] fix: header extension elements after padding bytes
 were not found

---
 include/srtc/rtp_extension.h |  2 +-
 src/rtp_extension.cpp        | 30 ++++++++++++++----------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/srtc/rtp_extension.h b/include/srtc/rtp_extension.h
index 0fd2eaa..692ee82 100644
--- a/include/srtc/rtp_extension.h
+++ b/include/srtc/rtp_extension.h
@@ -58,7 +58,7 @@ private:
     };
 
     // Walks to the next element, one-byte or two-byte format depending on mId.
-    // Returns false once padding, a reserved id, or truncated data is reached, or if
+    // Returns false once a reserved id, truncated data or the end is reached, or if
     // mId is neither the one-byte indicator nor a recognized two-byte indicator.
     [[nodiscard]] bool nextElement(ByteReader& reader, Element& out) const;
 
diff --git a/src/rtp_extension.cpp b/src/rtp_extension.cpp
index 8f99aab..e965f1e 100644
--- a/src/rtp_extension.cpp
+++ b/src/rtp_extension.cpp
@@ -152,14 +152,13 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     if (mId == kOneByte) {
-        if (reader.remaining() < 1) {
-            return false;
-        }
-
-        const auto value = reader.readU8();
-        if (value == 0) {
-            // Padding
-            return false;
+        uint8_t value = 0;
+        while (value == 0) {
+            // Zeros are padding, there can be more elements after them
+            if (reader.remaining() < 1) {
+                return false;
+            }
+            value = reader.readU8();
         }
 
         const auto id = static_cast<uint8_t>(value >> 4);
@@ -181,14 +180,13 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     // Two-byte format
-    if (reader.remaining() < 2) {
-        return false;
-    }
-
-    const auto id = reader.readU8();
-    if (id == 0) {
-        // Padding
-        return false;
+    uint8_t id = 0;
+    while (id == 0) {
+        // Zeros are padding, there can be more elements after them
+        if (reader.remaining() < 2) {
+            return false;
+        }
+        id = reader.readU8();
     }
 
     const auto len = reader.readU8();
-- 
2.43.0


From 187b05d08313ab6920eb97327853a74598e46037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 007/103] fix: contributing sources of a received RTP packet
 were taken for extension or payload

---
 src/rtp_packet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rtp_packet.cpp b/src/rtp_packet.cpp
index 36a15ec..ee5742e 100644
--- a/src/rtp_packet.cpp
+++ b/src/rtp_packet.cpp
@@ -293,6 +293,13 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
     assert((ssrc == track->getSSRC() && payloadId == track->getPayloadId()) ||
            (ssrc == track->getRtxSSRC() && payloadId == track->getRtxPayloadId()));
 
+    // Contributing sources
+    const auto csrcSize = static_cast<size_t>((header >> 8) & 0x0Fu) * 4u;
+    if (reader.remaining() < csrcSize) {
+        return {};
+    }
+    reader.skip(csrcSize);
+
     RtpExtension extension;
 
     if ((header & (1 << 12)) != 0) {
-- 
2.43.0


From 82be42212da6444e7dd523890197bab5411e5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 008/103] fix: SRTP packets with contributing sources could not
 be unprotected

---
 src/srtp_crypto.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/srtp_crypto.cpp b/src/srtp_crypto.cpp
index 7eef9ea..c6343cc 100644
--- a/src/srtp_crypto.cpp
+++ b/src/srtp_crypto.cpp
@@ -414,21 +414,20 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
     plain.reserve(plainSize);
     const auto plainData = plain.data();
 
-    // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    // The header, including contributing sources, is not encrypted
+    auto headerSize = 4u + 4 + 4 + 4 * ((header >> 8) & 0x0Fu);
     if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
+        if (encryptedSize < headerSize + 4 + digestSize) {
             return false;
         }
 
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
-
-        if (headerSize + digestSize >= encryptedSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    }
+    if (headerSize + digestSize >= encryptedSize) {
+        // The header reaches the end of payload (empty payload) or extends past its end
+        return false;
     }
     std::memcpy(plainData, encryptedData, headerSize);
 
@@ -536,21 +535,20 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
     plain.reserve(plainSize);
     const auto plainData = plain.data();
 
-    // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    // The header, including contributing sources, is not encrypted
+    auto headerSize = 4u + 4 + 4 + 4 * ((header >> 8) & 0x0Fu);
     if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
+        if (encryptedSize < headerSize + 4 + digestSize) {
             return false;
         }
 
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
-
-        if (headerSize + digestSize >= encryptedSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    }
+    if (headerSize + digestSize >= encryptedSize) {
+        // The header reaches the end of payload (empty payload) or extends past its end
+        return false;
     }
 
     std::memcpy(plainData, encryptedData, headerSize);
-- 
2.43.0


From 32ee01c92e2b7606b14470ff4b88815ec56969ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 009/103] fix: SRTP receiver changed its state for forged
 packets and lost track of late ones across a rollover

---
 src/srtp_connection.cpp | 61 +++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 4996866..45fc8ca 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -162,7 +162,6 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
     const ChannelKey key = { ssrc, 0 };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
 
     uint32_t sequenceNumber;
     if (!getControlSequenceNumber(packetData, sequenceNumber)) {
@@ -170,7 +169,8 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    const auto iter = mSrtpInMap.find(key);
+    if (iter != mSrtpInMap.end() && !iter->second.replayProtection->canProceed(sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -188,6 +188,8 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
+    // The packet is authentic, only now can we update our state
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
@@ -206,7 +208,6 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
     const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
 
     uint16_t sequenceNumber;
     if (!getMediaSequenceNumber(packetData, sequenceNumber)) {
@@ -214,28 +215,36 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
-        LOG(SRTC_LOG_E,
-            "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
-            ssrc,
-            sequenceNumber);
-        return false;
-    }
-
-    // Because of jitter, we may cross the rollover back and forth, only count once
-    auto rolloverCount = channelValue.rolloverCount;
-    if (!channelValue.lastSequence16) {
-        channelValue.lastSequence16 = sequenceNumber;
-    } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
-        if (rolloverCount > 0) {
+    // Estimate the packet's rollover count, https://datatracker.ietf.org/doc/html/rfc3711#section-3.3.1
+    uint32_t rolloverCount = 0;
+    auto isNewest = true;
+
+    const auto iter = mSrtpInMap.find(key);
+    if (iter != mSrtpInMap.end()) {
+        const auto& channelValue = iter->second;
+        rolloverCount = channelValue.rolloverCount;
+
+        const auto lastSequence = channelValue.lastSequence16.value();
+        if (lastSequence < 0x8000u && sequenceNumber > lastSequence + 0x8000u) {
+            if (rolloverCount == 0) {
+                LOG(SRTC_LOG_E, "RTP packet from before the first one, ssrc = %" PRIu32 ", seq = %u", ssrc, sequenceNumber);
+                return false;
+            }
             rolloverCount -= 1;
-        }
-    } else {
-        if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            channelValue.rolloverCount += 1;
+            isNewest = false;
+        } else if (lastSequence >= 0x8000u && sequenceNumber < lastSequence - 0x8000u) {
             rolloverCount += 1;
+        } else {
+            isNewest = sequenceNumber > lastSequence;
+        }
+
+        if (!channelValue.replayProtection->canProceed((rolloverCount << 16) | sequenceNumber)) {
+            LOG(SRTC_LOG_E,
+                "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
+                ssrc,
+                sequenceNumber);
+            return false;
         }
-        channelValue.lastSequence16 = sequenceNumber;
     }
 
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
@@ -252,7 +261,13 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    channelValue.replayProtection->set(sequenceNumber);
+    // The packet is authentic, only now can we update our state
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
+    channelValue.replayProtection->set((rolloverCount << 16) | sequenceNumber);
+    if (isNewest) {
+        channelValue.rolloverCount = rolloverCount;
+        channelValue.lastSequence16 = sequenceNumber;
+    }
     return true;
 }
 
-- 
2.43.0


From 773c07e012b3900cdcbf17faeebaa2672aebee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 010/103] fix: SRTP and SRTCP reception stopped for good after
 losing more than 512 packets

---
 include/srtc/replay_protection.h |  1 +
 include/srtc/srtp_connection.h   |  2 +-
 src/replay_protection.cpp        | 15 ++++++++++++++-
 src/srtp_connection.cpp          | 10 ++++++----
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/srtc/replay_protection.h b/include/srtc/replay_protection.h
index b7ddf21..972a7ef 100644
--- a/include/srtc/replay_protection.h
+++ b/include/srtc/replay_protection.h
@@ -9,6 +9,7 @@ class ReplayProtection final
 {
 public:
     ReplayProtection(uint32_t maxPossibleValue, uint32_t size);
+    ReplayProtection(uint32_t maxPossibleValue, uint32_t size, uint32_t maxDistanceForward);
     ~ReplayProtection();
 
     [[nodiscard]] bool canProceed(uint32_t value);
diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 49b9736..35033de 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -80,7 +80,7 @@ private:
 
 	ChannelValue& ensureSrtpChannel(ChannelMap& map,
 									const ChannelKey& key,
-									uint32_t maxPossibleValueForReplayProtection);
+									uint32_t maxDistanceForward);
 
 	bool getControlSequenceNumber(const ByteBuffer& packet, uint32_t& outSequenceNumber) const;
 	bool getMediaSequenceNumber(const ByteBuffer& packet, uint16_t& outSequenceNumber) const;
diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index 88d2e45..c0ab32b 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -44,10 +44,15 @@ namespace srtc
 {
 
 ReplayProtection::ReplayProtection(uint32_t maxPossibleValue, uint32_t size)
+    : ReplayProtection(maxPossibleValue, size, size / 4)
+{
+}
+
+ReplayProtection::ReplayProtection(uint32_t maxPossibleValue, uint32_t size, uint32_t maxDistanceForward)
     : mMaxPossibleValue(maxPossibleValue)
     , mSize(size)
     , mStorageSize((size + 8 - 1) / 8)
-    , mMaxDistanceForward(size / 4)
+    , mMaxDistanceForward(maxDistanceForward)
     , mCurMax(0) // not used until we allocate mStorage
 	, mStorage(nullptr)
 {
@@ -125,6 +130,14 @@ bool ReplayProtection::set(uint32_t value)
 
 void ReplayProtection::setForward(uint32_t value)
 {
+    if (((value - mCurMax) & mMaxPossibleValue) >= mSize) {
+        // Nothing from before is still inside the window
+        std::memset(mStorage, 0, mStorageSize);
+        mCurMax = value;
+        setImpl(mStorage, mStorageSize, mCurMax);
+        return;
+    }
+
     mCurMax = (mCurMax + 1) & mMaxPossibleValue;
     while (mCurMax != value) {
         clearImpl(mStorage, mStorageSize, mCurMax);
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 45fc8ca..049e03c 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -189,7 +189,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
     }
 
     // The packet is authentic, only now can we update our state
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<int32_t>::max());
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
@@ -262,7 +262,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     // The packet is authentic, only now can we update our state
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, 0x8000u);
     channelValue.replayProtection->set((rolloverCount << 16) | sequenceNumber);
     if (isNewest) {
         channelValue.rolloverCount = rolloverCount;
@@ -279,14 +279,16 @@ SrtpConnection::SrtpConnection(const std::shared_ptr<SrtpCrypto>& crypto, unsign
 
 SrtpConnection::ChannelValue& SrtpConnection::ensureSrtpChannel(ChannelMap& map,
                                                                 const ChannelKey& key,
-                                                                uint32_t maxPossibleValueForReplayProtection)
+                                                                uint32_t maxDistanceForward)
 {
     const auto iter = map.find(key);
     if (iter != map.end()) {
         return iter->second;
     }
 
-    auto replayProtection = std::make_unique<ReplayProtection>(maxPossibleValueForReplayProtection, 2048);
+    // Any number of packets can be lost, the packet is authentic no matter how far ahead it is
+    auto replayProtection =
+        std::make_unique<ReplayProtection>(std::numeric_limits<uint32_t>::max(), 2048, maxDistanceForward);
     const auto result = map.insert({ key, ChannelValue{ std::move(replayProtection), 0, {} } });
     return result.first->second;
 }
-- 
2.43.0


From 29d31e044f57e24a156804f1fea4a170991871ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 011/103] fix: SRTP rollover counts and replay protection were
 forgotten when connectivity was restored

---
 src/srtp_connection.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 049e03c..8487ce6 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -113,9 +113,8 @@ SrtpConnection::~SrtpConnection() = default;
 
 void SrtpConnection::onPeerConnected()
 {
-    // We may have missed some packets while not connected, so need to reset replay protection.
-    // Technically we only need this for the incoming map, but let's clear both for consistency.
-    mSrtpInMap.clear();
+    // The keys stay the same when connectivity is restored, so the rollover counts and the replay protection for
+    // incoming packets have to be kept. We may have missed some packets while not connected, and that's fine.
     mSrtpOutMap.clear();
 }
 
-- 
2.43.0


From 4956242d09844bdcdff03c10d4ba6dd73e730d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 012/103] fix: jitter buffer overwrote its oldest packet when
 exactly full

---
 src/jitter_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ad50a7a..5d3832c 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -221,7 +221,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         mMinSeq = seq_ext;
     } else if (seq_ext >= mMaxSeq) {
         // Above max
-        if (seq_ext > mMinSeq + mCapacity) {
+        if (seq_ext >= mMinSeq + mCapacity) {
             LOG(SRTC_LOG_E,
                 "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The new packet SEQ = %" PRIu16
                 " would exceed the capacity, min = %" PRIu16 ", max = %" PRIu16,
-- 
2.43.0


From b01f02264c808ec309c03c6f9a4a17e429ffa51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 013/103] fix: jitter buffer timed packets older than its first
 one centuries ahead

---
 src/jitter_buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 5d3832c..af7febf 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -169,8 +169,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
-    const auto rtp_timestamp_delta = rtp_timestamp_ext - mBaseRtpTimestamp;
-    const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / mTrack->getClockRate());
+    // The first packet to arrive may not have been the first one sent, so this can be negative
+    const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
+    const auto time_delta =
+        std::chrono::milliseconds(1000 * rtp_timestamp_delta / static_cast<int64_t>(mTrack->getClockRate()));
     const auto packet_time = mBaseTime + time_delta;
     const auto when_dequeue = packet_time + mLength;
     const auto when_nack_request = now + mNackDelay;
-- 
2.43.0


From 72444ba9d37fb97ae022428ed4e8668f6ff69e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 014/103] fix: jitter buffer released a frame again when its
 packets arrived twice

---
 include/srtc/jitter_buffer.h | 1 +
 src/jitter_buffer.cpp        | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 8e00cdb..709ed3a 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -91,6 +91,7 @@ private:
     std::vector<ByteBuffer> mTempFrameList;
 
     std::optional<uint64_t> mLastFrameTimeStamp;
+    std::optional<uint64_t> mLastFrameSeq; // of its last packet
 };
 
 } // namespace srtc
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index af7febf..e1d4c2b 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -114,6 +114,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             mLastFrameTimeStamp.value());
         return;
     }
+    if (mLastFrameSeq.has_value() && mLastFrameSeq.value() >= seq_ext) {
+        // Same timestamp, but already released as part of a frame
+        return;
+    }
 
     // Decide what to do
     const auto now = std::chrono::steady_clock::now();
@@ -591,6 +595,7 @@ void JitterBuffer::freeEverything()
     }
 
     mLastFrameTimeStamp.reset();
+    mLastFrameSeq.reset();
 }
 
 JitterBufferItem* JitterBuffer::newItem()
@@ -662,6 +667,7 @@ void JitterBuffer::appendToResult(std::vector<std::shared_ptr<EncodedFrame>>& re
         }
 
         mLastFrameTimeStamp = item->rtp_timestamp_ext;
+        mLastFrameSeq = last->seq_ext;
 
         uint64_t absCaptureTimeNTP = 0u;
         uint64_t absCaptureTimeOffset = 0u;
-- 
2.43.0


From efe60fae381818f56be4758cd5dd4d0c1dbe81fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 015/103] fix: jitter buffer never recovered from a large jump
 of sequence numbers

---
 src/jitter_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index e1d4c2b..57a1f88 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -134,7 +134,6 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             mDepacketizer->reset();
         }
     }
-    mLastPacketTime = now;
 
     if (mItemList == nullptr) {
         // First packet
@@ -273,6 +272,9 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         assert(item);
     }
 
+    // Refused packets do not count, or a jump of sequence numbers would never be recovered from
+    mLastPacketTime = now;
+
     item->when_received = now;
     item->when_dequeue = when_dequeue;
     item->when_nack_request = when_nack_request;
-- 
2.43.0


From ef18951f3527173d22b472721521c3ceba889d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 016/103] fix: a packet arriving more than a second after a
 rollover was extended a whole cycle ahead

---
 include/srtc/extended_value.h |  2 --
 src/extended_value.cpp        | 14 ++------------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/include/srtc/extended_value.h b/include/srtc/extended_value.h
index bf6a06e..6b31edf 100644
--- a/include/srtc/extended_value.h
+++ b/include/srtc/extended_value.h
@@ -1,6 +1,5 @@
 #pragma once
 
-#include <chrono>
 #include <cstdint>
 #include <optional>
 
@@ -21,7 +20,6 @@ public:
 private:
     const uint64_t mRolloverIncrement;
     uint64_t mRolloverValue;
-    std::chrono::steady_clock::time_point mRolloverTime;
     std::optional<T> mLastValue;
 };
 
diff --git a/src/extended_value.cpp b/src/extended_value.cpp
index 58666e1..758c1ff 100644
--- a/src/extended_value.cpp
+++ b/src/extended_value.cpp
@@ -2,13 +2,6 @@
 
 #include <limits>
 
-namespace
-{
-
-constexpr auto mRolloverBack = std::chrono::milliseconds(1000);
-
-}
-
 namespace srtc
 {
 
@@ -27,7 +20,6 @@ uint64_t ExtendedValue<T>::extend(T src)
     // Lazy init
     if (mRolloverValue == 0) {
         mRolloverValue = mRolloverIncrement;
-        mRolloverTime = std::chrono::steady_clock::now();
     }
 
     // Do we even have a previous value?
@@ -43,14 +35,12 @@ uint64_t ExtendedValue<T>::extend(T src)
     if (mLastValue.value() >= max - margin && src <= margin) {
         // Rollover
         mRolloverValue += mRolloverIncrement;
-        mRolloverTime = std::chrono::steady_clock::now();
         mLastValue = src;
         return mRolloverValue | src;
     }
 
-    if (mLastValue.value() <= margin && src >= max - margin &&
-        std::chrono::steady_clock::now() - mRolloverTime <= mRolloverBack) {
-        // We just had a rollover, and the new value wants to go backwards
+    if (mLastValue.value() <= margin && src >= max - margin) {
+        // We had a rollover, and the new value wants to go backwards
         return (mRolloverValue - mRolloverIncrement) | src;
     }
 
-- 
2.43.0


From 2da14c04891fb28ed1863f1edaf0ec79e15dd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 017/103] fix: AV1 frames whose last packet begins with a new
 OBU were dropped

---
 src/jitter_buffer.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 57a1f88..c504e98 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -293,10 +293,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
     item->kind = mDepacketizer->getPacketKind(item->payload, item->marker);
 
     // Some packetizers (I'm looking at you AV1) cannot tell if a packet starts a brand-new frame or is a continuation.
-    // In this case they'll return "Start" packet kind, and we fix things by extending a frame based on the RTP
-    // timestamp.
+    // In this case they'll return "Start" packet kind ("Standalone" for the last packet of a frame), and we fix things by
+    // extending a frame based on the RTP timestamp.
 
-    if (item->kind == PacketKind::Start) {
+    if (item->kind == PacketKind::Start || item->kind == PacketKind::Standalone) {
         if (mMinSeq < item->seq_ext) {
             const auto prev_seq = item->seq_ext - 1;
             const auto prev_index = prev_seq & mCapacityMask;
@@ -305,7 +305,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 
             if (prev_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (prev_item->kind == PacketKind::Start || prev_item->kind == PacketKind::Middle) {
-                    item->kind = PacketKind::Middle;
+                    item->kind = item->kind == PacketKind::Start ? PacketKind::Middle : PacketKind::End;
                 }
             }
         }
@@ -321,6 +321,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             if (next_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (next_item->kind == PacketKind::Start) {
                     next_item->kind = PacketKind::Middle;
+                } else if (next_item->kind == PacketKind::Standalone) {
+                    next_item->kind = PacketKind::End;
                 }
             }
         }
@@ -472,14 +474,11 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
 #ifdef NDEBUG
 #else
                     assert(!mTempPacketList.empty());
-                    assert(mDepacketizer->getPacketKind(mTempPacketList.front()->payload,
-                                                        mTempPacketList.front()->marker) == PacketKind::Start);
+                    assert(mTempPacketList.front()->kind == PacketKind::Start);
                     for (size_t i = 1; i < mTempPacketList.size() - 1; i += 1) {
-                        assert(mDepacketizer->getPacketKind(mTempPacketList[i]->payload, mTempPacketList[i]->marker) ==
-                               PacketKind::Middle);
+                        assert(mTempPacketList[i]->kind == PacketKind::Middle);
                     }
-                    assert(mDepacketizer->getPacketKind(mTempPacketList.back()->payload,
-                                                        mTempPacketList.back()->marker) == PacketKind::End);
+                    assert(mTempPacketList.back()->kind == PacketKind::End);
 #endif
 
                     // Extract, possibly into multiple frames
-- 
2.43.0


From 092d637022fc60f10801fefdb8d2b86ce47b9200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 018/103] fix: a broken frame in the jitter buffer took the
 first packet of the next one with it

---
 src/jitter_buffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index c504e98..84f293b 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -725,8 +725,9 @@ JitterBuffer::SequenceResult JitterBuffer::findMultiPacketSequence(uint64_t& out
             return SequenceResult::Complete;
         }
         if (item->kind != PacketKind::Middle) {
-            deleteItemList(mMinSeq, seq);
-            mMinSeq = seq + 1;
+            // This packet is not a part of the broken sequence, it begins another one
+            deleteItemList(mMinSeq, seq - 1);
+            mMinSeq = seq;
             return SequenceResult::Abandoned;
         }
     }
-- 
2.43.0


From 682b13d63a545774611f8b1d9a73d469a9f4b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 019/103] fix: packets arriving after they were given up
 reopened the jitter buffer's past

---
 include/srtc/jitter_buffer.h |  2 +-
 src/jitter_buffer.cpp        | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 709ed3a..b2be229 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -91,7 +91,7 @@ private:
     std::vector<ByteBuffer> mTempFrameList;
 
     std::optional<uint64_t> mLastFrameTimeStamp;
-    std::optional<uint64_t> mLastFrameSeq; // of its last packet
+    bool mIsDequeueStarted; // packets before mMinSeq have been released or given up
 };
 
 } // namespace srtc
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 84f293b..51fa3c5 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -56,6 +56,7 @@ JitterBuffer::JitterBuffer(const std::shared_ptr<Track>& track,
     , mMaxSeq(0)
     , mBaseTime(std::chrono::steady_clock::time_point::min())
     , mBaseRtpTimestamp(0)
+    , mIsDequeueStarted(false)
 {
     assert((mCapacity & mCapacityMask) == 0 && "capacity should be a power of 2");
 
@@ -114,8 +115,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             mLastFrameTimeStamp.value());
         return;
     }
-    if (mLastFrameSeq.has_value() && mLastFrameSeq.value() >= seq_ext) {
-        // Same timestamp, but already released as part of a frame
+    if (mIsDequeueStarted && seq_ext < mMinSeq) {
+        // Already released as part of a frame, or given up
         return;
     }
 
@@ -435,6 +436,7 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
     }
 
     const auto now = std::chrono::steady_clock::now();
+    const auto startSeq = mMinSeq;
 
     // We add packets on the Max end and consume them from the Min end
     while (mMinSeq < mMaxSeq) {
@@ -536,6 +538,10 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
         }
     }
 
+    if (mMinSeq != startSeq) {
+        mIsDequeueStarted = true;
+    }
+
     return result;
 }
 
@@ -596,7 +602,7 @@ void JitterBuffer::freeEverything()
     }
 
     mLastFrameTimeStamp.reset();
-    mLastFrameSeq.reset();
+    mIsDequeueStarted = false;
 }
 
 JitterBufferItem* JitterBuffer::newItem()
@@ -668,7 +674,6 @@ void JitterBuffer::appendToResult(std::vector<std::shared_ptr<EncodedFrame>>& re
         }
 
         mLastFrameTimeStamp = item->rtp_timestamp_ext;
-        mLastFrameSeq = last->seq_ext;
 
         uint64_t absCaptureTimeNTP = 0u;
         uint64_t absCaptureTimeOffset = 0u;
-- 
2.43.0


From bef38d865034e44025bcba903f5896a3814731ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 020/103] fix: jitter buffer gave up packets of a frame at the
 time of the frame before it

---
 src/jitter_buffer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 51fa3c5..2d7f974 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -6,6 +6,7 @@
 #include "srtc/rtp_std_extensions.h"
 #include "srtc/track.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <cstring>
@@ -198,8 +199,11 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             return;
         }
 
+        // Packets in the gap may belong to the frame after it, and are worth waiting for until then
+        const auto when_gap_abandon = std::max(when_nack_abandon, mItemList[mMinSeq & mCapacityMask]->when_nack_abandon);
+
         for (auto seq_lost = mMinSeq - 1; seq_lost > seq_ext; seq_lost -= 1) {
-            const auto item_lost = newLostItem(when_nack_request, when_nack_abandon, seq_lost);
+            const auto item_lost = newLostItem(when_nack_request, when_gap_abandon, seq_lost);
 
             const auto index = item_lost->seq_ext & mCapacityMask;
             assert(mItemList[index] == nullptr);
-- 
2.43.0


From eb27f6770056abbb121a958fca0b3bcdbaae662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 021/103] fix: a packet arriving after its time held up the
 requests for all missing packets behind it

---
 src/jitter_buffer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 2d7f974..2ad61c5 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -585,8 +585,6 @@ std::vector<uint16_t> JitterBuffer::processNack()
                     static_cast<uint16_t>(mMaxSeq));
 #endif
             }
-        } else if (diff_millis(item->when_nack_abandon, now) <= 0) {
-            break;
         }
     }
 
-- 
2.43.0


From 9f77d2f7f49303ab59da1c2e232c1d0d3b5e367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 022/103] fix: correct a wrong entry in the CRC-32c table

Packets whose bytes selected the entry went out with a checksum no other
SCTP implementation accepts, and valid ones from peers were dropped.
---
 src/sctp/sctp_crc32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_crc32.cpp b/src/sctp/sctp_crc32.cpp
index ad2bb9c..83da459 100644
--- a/src/sctp/sctp_crc32.cpp
+++ b/src/sctp/sctp_crc32.cpp
@@ -165,7 +165,7 @@ const uint32_t crc_tableil8_o48[256] = {
     0xC3D4340C, 0x6695A672, 0x8CBB6601, 0x29FAF47F, 0x5D0A9016, 0xF84B0268, 0x1265C21B, 0xB7245065,
     0x6A638C57, 0xCF221E29, 0x250CDE5A, 0x804D4C24, 0xF4BD284D, 0x51FCBA33, 0xBBD27A40, 0x1E93E83E,
     0x5232B292, 0xF77320EC, 0x1D5DE09F, 0xB81C72E1, 0xCCEC1688, 0x69AD84F6, 0x83834485, 0x26C2D6FB,
-    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x195EC7B9, 0xCB7007CA, 0x6E3195B4,
+    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x215EC7B9, 0xCB7007CA, 0x6E3195B4,
     0x2290CF18, 0x87D15D66, 0x6DFF9D15, 0xC8BE0F6B, 0xBC4E6B02, 0x190FF97C, 0xF321390F, 0x5660AB71,
     0x4C42F79A, 0xE90365E4, 0x032DA597, 0xA66C37E9, 0xD29C5380, 0x77DDC1FE, 0x9DF3018D, 0x38B293F3,
     0x7413C95F, 0xD1525B21, 0x3B7C9B52, 0x9E3D092C, 0xEACD6D45, 0x4F8CFF3B, 0xA5A23F48, 0x00E3AD36,
-- 
2.43.0


From 406851bbb7a6ebd947cecdc012515c59b0de916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 023/103] fix: do not read past the end of a SACK whose gap
 block count is too large

---
 src/sctp/sctp_session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 93387ab..4f08463 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -673,6 +673,10 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     const auto numGapBlocks = r.readU16();
     r.skip(2); // numDupTsns
 
+    if (static_cast<size_t>(numGapBlocks) * 4 > r.remaining()) {
+        return;
+    }
+
     std::vector<std::pair<uint16_t, uint16_t>> gapBlocks;
     gapBlocks.reserve(numGapBlocks);
     for (uint16_t i = 0; i < numGapBlocks; ++i) {
-- 
2.43.0


From 97c89a63988310716e366ddec24c92fa1c91063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 024/103] fix: ignore SCTP packets that are for other ports

---
 src/sctp/sctp_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 4f08463..6dbc65b 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -386,6 +386,11 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         return;
     }
 
+    if (packet->srcPort() != mRemotePort || packet->dstPort() != mLocalPort) {
+        LOG(SRTC_LOG_W, "recv: wrong ports %u -> %u, discarding", packet->srcPort(), packet->dstPort());
+        return;
+    }
+
     // RFC 4960 §8.5: verify verification tag — 0 for INIT, our tag for everything else
     const bool isInit = !packet->chunks().empty() && packet->chunks()[0].type == kChunkInit;
     const uint32_t expectedTag = isInit ? 0 : mInitiateTag;
-- 
2.43.0


From 61a394f16d0c1fe0a9dbbbbf29186304ef24d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 025/103] fix: discard an SCTP INIT that is bundled with other
 chunks

INIT is accepted with a zero verification tag, so chunks bundled with it
were acted upon without the tag being verified.
---
 src/sctp/sctp_session.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 6dbc65b..febc73b 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -402,6 +402,12 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         return;
     }
 
+    // RFC 4960 §6.10: INIT and INIT_ACK are never bundled with other chunks
+    if (isInit && packet->chunks().size() != 1) {
+        LOG(SRTC_LOG_W, "recv: INIT bundled with other chunks, discarding");
+        return;
+    }
+
     for (const auto& chunk : packet->chunks()) {
         switch (chunk.type) {
         case kChunkData:
-- 
2.43.0


From f785ad848c87587de2815a17d08d9f396639dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 026/103] fix: answer SCTP HEARTBEAT chunks

Peers abort an association whose heartbeats are never acknowledged.
---
 src/sctp/sctp_session.cpp | 11 +++++++++++
 src/sctp/sctp_session.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index febc73b..2d7d0e1 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -416,6 +416,9 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         case kChunkSack:
             onReceiveSack(chunk);
             break;
+        case kChunkHeartbeat:
+            onReceiveHeartbeat(chunk);
+            break;
         case kChunkReconfig:
             onReceiveReconfig(chunk);
             break;
@@ -626,6 +629,14 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
     }
 }
 
+void SctpSession::onReceiveHeartbeat(const SctpPacket::Chunk& chunk)
+{
+    // RFC 4960 §8.3: echo the heartbeat information back unchanged
+    SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
+    builder.addChunk(kChunkHeartbeatAck, 0, chunk.data, chunk.size);
+    mListener->onSctpSendPacket(builder.build());
+}
+
 void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
 {
     // RECONFIG chunk body is a sequence of parameters starting at offset 0
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e082d32..4c0995d 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -110,6 +110,7 @@ private:
     void onAssociationEstablished();
     void sendDataChannelOpen(DataChannel& channel);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
+    void onReceiveHeartbeat(const SctpPacket::Chunk& chunk);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
-- 
2.43.0


From 6fa8c9a9a762840a3ee8c1ec363d4b6d6873514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 027/103] fix: do not forget received TSNs when INIT or
 INIT_ACK arrives again

A repeated or late INIT or INIT_ACK moved the cumulative TSN back to its
initial value, so chunks already processed were accepted a second time.
---
 src/sctp/sctp_session.cpp | 20 ++++++++++++++------
 src/sctp/sctp_session.h   |  1 +
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 2d7d0e1..0791eea 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -55,6 +55,7 @@ SctpSession::SctpSession(const std::shared_ptr<RealScheduler>& scheduler,
     , mPeerInStreams(0)
     , mPeerRwnd(0)
     , mCurrentTsn(mInitialTsn)
+    , mHasPeerTsn(false)
     , mPeerCumulativeTsn(0)
     , mHmacKey{}
     , mScheduler(scheduler)
@@ -270,10 +271,13 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     const auto peerOutStreams = r.readU16();
     const auto peerInStreams = r.readU16();
     const auto peerInitialTsn = r.readU32();
-    mPeerRwnd = peerRwnd;
-    mPeerOutStreams = peerOutStreams;
-    mPeerInStreams = peerInStreams;
-    mPeerCumulativeTsn = peerInitialTsn - 1;
+    if (!mHasPeerTsn) {
+        mPeerRwnd = peerRwnd;
+        mPeerOutStreams = peerOutStreams;
+        mPeerInStreams = peerInStreams;
+        mPeerCumulativeTsn = peerInitialTsn - 1;
+        mHasPeerTsn = true;
+    }
 
     // Build State Cookie: kCookieDataSize bytes of fields, then HMAC-SHA1
     // Layout (all big-endian):
@@ -442,7 +446,11 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
                 mPeerRwnd = r.readU32();
                 mPeerOutStreams = r.readU16();
                 mPeerInStreams = r.readU16();
-                mPeerCumulativeTsn = r.readU32() - 1; // peerInitialTsn - 1
+                const auto peerInitialTsn = r.readU32();
+                if (!mHasPeerTsn) {
+                    mPeerCumulativeTsn = peerInitialTsn - 1;
+                    mHasPeerTsn = true;
+                }
 
                 for (const auto& param : chunk.parseParams(16)) {
                     if (param.type == kParamStateCookie) {
@@ -513,7 +521,7 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 {
     // DATA chunk body: TSN(4) + streamId(2) + SSN(2) + PPID(4) + payload
-    if (chunk.size < 12)
+    if (chunk.size < 12 || !mHasPeerTsn)
         return;
 
     ByteReader r(chunk.data, chunk.size);
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 4c0995d..d025d9b 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -96,6 +96,7 @@ private:
     uint16_t mPeerInStreams;                // number of inbound streams the peer supports
     uint32_t mPeerRwnd;                     // peer's receive window
     uint32_t mCurrentTsn;                   // next TSN to use when sending DATA chunks
+    bool mHasPeerTsn;                       // the peer's initial TSN is known
     uint32_t mPeerCumulativeTsn;            // highest consecutive TSN received from peer
     std::set<uint32_t> mPeerOutOfOrderTsns; // received but not yet consecutive
     std::array<uint8_t, 16> mHmacKey;
-- 
2.43.0


From c6a5082410adce03cbb779ebcc2ac2ee05413b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 028/103] fix: count data channel OPEN and ACK messages in the
 stream sequence

The first user message was sent with the stream sequence number already
used by the OPEN or ACK, and a peer that delivers in order discards it.
---
 src/sctp/sctp_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 0791eea..cfea4b6 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -500,7 +500,7 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     ByteWriter cw(chunkBody);
     cw.writeU32(tsn);
     cw.writeU16(channel.streamId);
-    cw.writeU16(0); // SSN = 0 for DCEP (RFC 8832)
+    cw.writeU16(channel.sendSsn++); // an ordered message of the stream like any other
     cw.writeU32(kPpidDcep);
     cw.write(payload);
 
@@ -618,7 +618,7 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         ByteWriter cw(chunkBody);
         cw.writeU32(tsn);
         cw.writeU16(streamId);
-        cw.writeU16(0);
+        cw.writeU16(channel.sendSsn++);
         cw.writeU32(kPpidDcep);
         cw.writeU8(kDcepMsgAck);
 
-- 
2.43.0


From 210ef39f3c13bbe3659618579d97b75d8b109966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 029/103] fix: send and deliver empty data channel messages as
 RFC 8831 defines

An SCTP DATA chunk without user data is a protocol violation that makes
peers abort; an empty message is one zero byte with its own PPID.
---
 src/sctp/sctp_session.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index cfea4b6..f5a3e46 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -169,7 +169,11 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
         mFlightSize += static_cast<uint32_t>(fragSize);
     };
 
-    if (payloadSize <= kMaxFragmentPayload) {
+    if (payloadSize == 0) {
+        // RFC 8831 §6.6: SCTP has no empty messages, a single zero byte stands for one
+        static const uint8_t kEmptyMessage = 0;
+        sendFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), &kEmptyMessage, 1);
+    } else if (payloadSize <= kMaxFragmentPayload) {
         sendFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), payload, payloadSize);
     } else {
         size_t offset = 0;
@@ -565,7 +569,11 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
             const auto messages =
                 channel.receiveBuffer.receive(ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
-                if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
+                if (msg.ppid == kPpidStringEmpty) {
+                    mListener->onSctpDataChannelText(channel.label, "");
+                } else if (msg.ppid == kPpidBinaryEmpty) {
+                    mListener->onSctpDataChannelBinary(channel.label, ByteBuffer());
+                } else if (msg.ppid == kPpidString) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
                     mListener->onSctpDataChannelText(channel.label, text);
                 } else {
-- 
2.43.0


From fddfe26402ef28b32a4f500669f30067eabfd080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 030/103] fix: put data channel messages together in TSN order

Fragments were appended in the order of arrival, so a reordered or
retransmitted fragment corrupted the message, and the marker for an
acknowledged chunk was evicted when more than 1024 were out of order.
---
 src/sctp/sctp_defs.h      |  1 +
 src/sctp/sctp_session.cpp | 65 ++++++++++++++++++++++++---------------
 src/sctp/sctp_session.h   |  9 ++++--
 3 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 736c0bb..77002c9 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -64,6 +64,7 @@ constexpr uint32_t kReconfigResultSuccess = 0x00000000;
 // Session limits
 constexpr uint32_t kInitRwnd    = 131072;   // 128 KB receive window
 constexpr uint16_t kInitStreams = 1024;
+constexpr uint32_t kMaxTsnDistance = 1024;  // how far beyond the cumulative TSN chunks are kept
 
 // Retransmit timers (RFC 4960 defaults)
 constexpr unsigned kMaxInitRetransmits = 8;      // max retransmits for INIT and COOKIE_ECHO
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index f5a3e46..c48141f 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -530,44 +530,55 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 
     ByteReader r(chunk.data, chunk.size);
     const auto peerTSN = r.readU32();
-    const auto streamId = r.readU16();
-    const auto ssn = r.readU16();
-    (void)ssn; // needed for ordered delivery
-    const auto ppid = r.readU32();
 
     // Duplicate detection: TSN already covered by cumulative or seen out-of-order
-    const bool isDuplicate =
-        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderTsns.count(peerTSN) > 0;
-    if (isDuplicate) {
+    const auto distance = static_cast<int32_t>(peerTSN - mPeerCumulativeTsn);
+    if (distance <= 0 || mPeerOutOfOrderChunks.count(peerTSN) > 0) {
         sendSack();
         return;
     }
 
-    if (peerTSN == mPeerCumulativeTsn + 1) {
-        mPeerCumulativeTsn = peerTSN;
-        // Drain any now-consecutive TSNs from the out-of-order set
-        while (true) {
-            auto it = mPeerOutOfOrderTsns.find(mPeerCumulativeTsn + 1);
-            if (it == mPeerOutOfOrderTsns.end())
-                break;
-            mPeerCumulativeTsn++;
-            mPeerOutOfOrderTsns.erase(it);
-        }
-    } else {
-        mPeerOutOfOrderTsns.insert(peerTSN);
-        if (mPeerOutOfOrderTsns.size() > 1024) {
-            mPeerOutOfOrderTsns.erase(mPeerOutOfOrderTsns.begin());
-        }
+    // Too far ahead to keep: not acknowledged, the peer will send it again
+    if (distance > static_cast<int32_t>(kMaxTsnDistance)) {
+        sendSack();
+        return;
+    }
+
+    // Chunks are processed in the order of their TSNs: the fragments of a message have consecutive TSNs
+    // and have to be put together in that order
+    mPeerOutOfOrderChunks.emplace(peerTSN, ReceivedChunk{ chunk.flags, ByteBuffer(chunk.data, chunk.size) });
+
+    std::list<ReceivedChunk> ready;
+    while (true) {
+        auto it = mPeerOutOfOrderChunks.find(mPeerCumulativeTsn + 1);
+        if (it == mPeerOutOfOrderChunks.end())
+            break;
+        mPeerCumulativeTsn++;
+        ready.push_back(std::move(it->second));
+        mPeerOutOfOrderChunks.erase(it);
     }
     sendSack();
 
+    for (const auto& item : ready) {
+        processDataChunk(item.flags, item.body);
+    }
+}
+
+void SctpSession::processDataChunk(uint8_t flags, const ByteBuffer& body)
+{
+    ByteReader r(body.data(), body.size());
+    r.skip(4); // TSN
+    const auto streamId = r.readU16();
+    const auto ssn = r.readU16();
+    const auto ppid = r.readU32();
+
     if (ppid == kPpidString || ppid == kPpidStringEmpty || ppid == kPpidBinary || ppid == kPpidBinaryEmpty) {
         for (auto& channel : mDataChannels) {
             if (channel.streamId != streamId) {
                 continue;
             }
             const auto messages =
-                channel.receiveBuffer.receive(ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
+                channel.receiveBuffer.receive(ssn, flags, channel.unordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
                 if (msg.ppid == kPpidStringEmpty) {
                     mListener->onSctpDataChannelText(channel.label, "");
@@ -801,8 +812,12 @@ void SctpSession::sendSack()
     };
     std::vector<GapBlock> gapBlocks;
 
-    if (!mPeerOutOfOrderTsns.empty()) {
-        std::vector<uint32_t> tsns(mPeerOutOfOrderTsns.begin(), mPeerOutOfOrderTsns.end());
+    if (!mPeerOutOfOrderChunks.empty()) {
+        std::vector<uint32_t> tsns;
+        tsns.reserve(mPeerOutOfOrderChunks.size());
+        for (const auto& item : mPeerOutOfOrderChunks) {
+            tsns.push_back(item.first);
+        }
         std::sort(tsns.begin(), tsns.end(), [this](uint32_t a, uint32_t b) {
             return (uint32_t)(a - mPeerCumulativeTsn) < (uint32_t)(b - mPeerCumulativeTsn);
         });
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index d025d9b..ff99ac6 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -10,7 +10,7 @@
 #include <array>
 #include <cstdint>
 #include <list>
-#include <set>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -98,7 +98,11 @@ private:
     uint32_t mCurrentTsn;                   // next TSN to use when sending DATA chunks
     bool mHasPeerTsn;                       // the peer's initial TSN is known
     uint32_t mPeerCumulativeTsn;            // highest consecutive TSN received from peer
-    std::set<uint32_t> mPeerOutOfOrderTsns; // received but not yet consecutive
+    struct ReceivedChunk {
+        uint8_t flags;
+        ByteBuffer body;
+    };
+    std::map<uint32_t, ReceivedChunk> mPeerOutOfOrderChunks; // received but not yet consecutive, by TSN
     std::array<uint8_t, 16> mHmacKey;
     ByteBuffer mCookieEchoPacket;
     std::weak_ptr<Task> mTaskT1Init;
@@ -111,6 +115,7 @@ private:
     void onAssociationEstablished();
     void sendDataChannelOpen(DataChannel& channel);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
+    void processDataChunk(uint8_t flags, const ByteBuffer& body);
     void onReceiveHeartbeat(const SctpPacket::Chunk& chunk);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
-- 
2.43.0


From dd5a75c0544ed0b45cea897670582b1803e67b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 031/103] fix: do not postpone the retransmission of a lost
 SCTP chunk forever

The timer was restarted when any chunk was acknowledged, so while other
messages kept flowing a lost one was never sent again. Messages waiting
for the peer's window also stayed put when only the window grew.
---
 src/sctp/sctp_session.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index c48141f..807e44e 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -736,7 +736,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
 
     mPeerRwnd = aRwnd;
 
-    bool anyNewlyAcked = false;
+    const uint32_t oldestTsn = mSentChunks.empty() ? 0 : mSentChunks.front().tsn;
 
     // Remove cumulatively ACKed chunks
     auto it = mSentChunks.begin();
@@ -744,7 +744,6 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
         if (static_cast<int32_t>(it->tsn - cumTsn) <= 0) {
             mFlightSize = static_cast<uint32_t>(mFlightSize >= it->payloadSize ? mFlightSize - it->payloadSize : 0);
             it = mSentChunks.erase(it);
-            anyNewlyAcked = true;
         } else {
             ++it;
         }
@@ -759,7 +758,6 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
                 mFlightSize =
                     static_cast<uint32_t>(mFlightSize >= git->payloadSize ? mFlightSize - git->payloadSize : 0);
                 git = mSentChunks.erase(git);
-                anyNewlyAcked = true;
             } else {
                 ++git;
             }
@@ -768,13 +766,12 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
 
     if (mSentChunks.empty()) {
         stopT3Rtx();
-    } else if (anyNewlyAcked) {
-        startT3Rtx(); // restart on progress
+    } else if (mSentChunks.front().tsn != oldestTsn) {
+        startT3Rtx(); // restart when the oldest outstanding chunk was acknowledged (RFC 4960 §6.3.2 R3)
     }
 
-    if (anyNewlyAcked) {
-        transmitPending();
-    }
+    // The window may have opened even if nothing was newly acknowledged
+    transmitPending();
 }
 
 void SctpSession::retransmitOldest()
-- 
2.43.0


From 5c70d922abee04c65026007e41ffa399a3b92a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 032/103] fix: queue data channel messages by fragment and in
 order

A small message overtook larger ones waiting for the peer's window, and a
message larger than that window could never be sent at all.
At most as many TSNs are outstanding as the receiving side keeps.
---
 src/sctp/sctp_session.cpp | 137 ++++++++++++++------------------------
 src/sctp/sctp_session.h   |  11 ++-
 2 files changed, 58 insertions(+), 90 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 807e44e..7ea1b0c 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -118,15 +118,11 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd) {
-        mPendingSend.emplace_back(std::move(message));
-        return;
-    }
-
-    sendMessageNow(*it, std::move(message));
+    enqueueMessage(*it, std::move(message));
+    transmitPending();
 }
 
-void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& message)
+void SctpSession::enqueueMessage(DataChannel& channel, DataChannelMessage&& message)
 {
     std::string textStorage;
     const uint8_t* payload;
@@ -146,35 +142,20 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
 
     const uint16_t ssn = channel.sendSsn++;
     const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
-    const bool wasEmpty = mSentChunks.empty();
 
     constexpr size_t kMaxFragmentPayload = 1100;
 
-    auto sendFragment = [&](uint8_t flags, const uint8_t* fragPayload, size_t fragSize) {
-        const uint32_t tsn = mCurrentTsn++;
-
-        ByteBuffer chunkBody;
-        ByteWriter cw(chunkBody);
-        cw.writeU32(tsn);
-        cw.writeU16(channel.streamId);
-        cw.writeU16(ssn);
-        cw.writeU32(ppid);
-        cw.write(fragPayload, fragSize);
-
-        SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-        builder.addChunk(kChunkData, flags, chunkBody);
-        mListener->onSctpSendPacket(builder.build());
-
-        mSentChunks.push_back(SentChunk{ tsn, flags, fragSize, std::move(chunkBody) });
-        mFlightSize += static_cast<uint32_t>(fragSize);
+    auto enqueueFragment = [&](uint8_t flags, const uint8_t* fragPayload, size_t fragSize) {
+        mPendingChunks.push_back(
+            PendingChunk{ flags, channel.streamId, ssn, ppid, ByteBuffer(fragPayload, fragSize) });
     };
 
     if (payloadSize == 0) {
         // RFC 8831 §6.6: SCTP has no empty messages, a single zero byte stands for one
         static const uint8_t kEmptyMessage = 0;
-        sendFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), &kEmptyMessage, 1);
+        enqueueFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), &kEmptyMessage, 1);
     } else if (payloadSize <= kMaxFragmentPayload) {
-        sendFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), payload, payloadSize);
+        enqueueFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), payload, payloadSize);
     } else {
         size_t offset = 0;
         bool isFirst = true;
@@ -186,35 +167,52 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
                 flags |= kDataFlagB;
             if (isLast)
                 flags |= kDataFlagE;
-            sendFragment(flags, payload + offset, fragSize);
+            enqueueFragment(flags, payload + offset, fragSize);
             offset += fragSize;
             isFirst = false;
         }
     }
-
-    if (wasEmpty) {
-        startT3Rtx();
-    }
 }
 
 void SctpSession::transmitPending()
 {
-    while (!mPendingSend.empty()) {
-        auto& msg = mPendingSend.front();
+    const bool wasEmpty = mSentChunks.empty();
 
-        auto it = std::find_if(
-            mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == msg.label; });
-        if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
-            mPendingSend.pop_front();
-            continue;
+    // The order of the queue is kept, the fragments of a message need consecutive TSNs. With nothing in flight,
+    // one chunk is sent whatever the window is, which also probes a window that has closed (RFC 4960 §6.1 A).
+    while (!mPendingChunks.empty()) {
+        const auto& pending = mPendingChunks.front();
+        const size_t payloadSize = pending.payload.size();
+
+        if (!mSentChunks.empty()) {
+            if (mFlightSize + payloadSize > mPeerRwnd)
+                break;
+            if (mCurrentTsn - mSentChunks.front().tsn >= kMaxTsnDistance)
+                break;
         }
 
-        const size_t payloadSize = msg.kind == DataChannelMessage::Kind::kText ? msg.text.size() : msg.binary.size();
-        if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd)
-            break;
+        const uint32_t tsn = mCurrentTsn++;
+
+        ByteBuffer chunkBody;
+        ByteWriter cw(chunkBody);
+        cw.writeU32(tsn);
+        cw.writeU16(pending.streamId);
+        cw.writeU16(pending.ssn);
+        cw.writeU32(pending.ppid);
+        cw.write(pending.payload);
 
-        sendMessageNow(*it, std::move(msg));
-        mPendingSend.pop_front();
+        SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
+        builder.addChunk(kChunkData, pending.flags, chunkBody);
+        mListener->onSctpSendPacket(builder.build());
+
+        mSentChunks.push_back(SentChunk{ tsn, pending.flags, payloadSize, std::move(chunkBody) });
+        mFlightSize += static_cast<uint32_t>(payloadSize);
+
+        mPendingChunks.pop_front();
+    }
+
+    if (wasEmpty && !mSentChunks.empty()) {
+        startT3Rtx();
     }
 }
 
@@ -496,30 +494,12 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     pw.writeU16(0); // protocol length
     pw.write(reinterpret_cast<const uint8_t*>(channel.label.data()), channel.label.size());
 
-    const bool wasEmpty = mSentChunks.empty();
-    const uint32_t tsn = mCurrentTsn++;
-    const size_t payloadSize = payload.size();
-
-    ByteBuffer chunkBody;
-    ByteWriter cw(chunkBody);
-    cw.writeU32(tsn);
-    cw.writeU16(channel.streamId);
-    cw.writeU16(channel.sendSsn++); // an ordered message of the stream like any other
-    cw.writeU32(kPpidDcep);
-    cw.write(payload);
-
-    SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-    builder.addChunk(kChunkData, kDataFlagComplete, chunkBody);
-    mListener->onSctpSendPacket(builder.build());
-
     channel.state = DataChannelState::kOpening;
 
-    mSentChunks.push_back(SentChunk{ tsn, kDataFlagComplete, payloadSize, std::move(chunkBody) });
-    mFlightSize += static_cast<uint32_t>(payloadSize);
-
-    if (wasEmpty) {
-        startT3Rtx();
-    }
+    // An ordered message of the stream like any other
+    mPendingChunks.push_back(
+        PendingChunk{ kDataFlagComplete, channel.streamId, channel.sendSsn++, kPpidDcep, std::move(payload) });
+    transmitPending();
 }
 
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
@@ -629,28 +609,9 @@ void SctpSession::processDataChunk(uint8_t flags, const ByteBuffer& body)
         channel.receiveBuffer.consumeSsn(ssn);
 
         // Send ACK
-        const bool wasEmpty = mSentChunks.empty();
-        const uint32_t tsn = mCurrentTsn++;
-        constexpr size_t kAckPayloadSize = 1;
-
-        ByteBuffer chunkBody;
-        ByteWriter cw(chunkBody);
-        cw.writeU32(tsn);
-        cw.writeU16(streamId);
-        cw.writeU16(channel.sendSsn++);
-        cw.writeU32(kPpidDcep);
-        cw.writeU8(kDcepMsgAck);
-
-        SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-        builder.addChunk(kChunkData, kDataFlagComplete, chunkBody);
-        mListener->onSctpSendPacket(builder.build());
-
-        mSentChunks.push_back(SentChunk{ tsn, kDataFlagComplete, kAckPayloadSize, std::move(chunkBody) });
-        mFlightSize += kAckPayloadSize;
-
-        if (wasEmpty) {
-            startT3Rtx();
-        }
+        mPendingChunks.push_back(PendingChunk{
+            kDataFlagComplete, streamId, channel.sendSsn++, kPpidDcep, ByteBuffer(&kDcepMsgAck, sizeof(kDcepMsgAck)) });
+        transmitPending();
 
         mListener->onSctpDataChannelOpen(label);
     }
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index ff99ac6..85ea422 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -76,7 +76,14 @@ private:
         ByteBuffer body; // TSN(4) + streamId(2) + ssn(2) + ppid(4) + payload
     };
     std::list<SentChunk> mSentChunks;
-    std::list<DataChannelMessage> mPendingSend;
+    struct PendingChunk {
+        uint8_t flags;
+        uint16_t streamId;
+        uint16_t ssn;
+        uint32_t ppid;
+        ByteBuffer payload;
+    };
+    std::list<PendingChunk> mPendingChunks; // waiting for the peer's window, in the order of sending
     uint32_t mFlightSize = 0;
 
     RandomGenerator<uint32_t> mRandom;
@@ -121,7 +128,7 @@ private:
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
 
-    void sendMessageNow(DataChannel& channel, DataChannelMessage&& message);
+    void enqueueMessage(DataChannel& channel, DataChannelMessage&& message);
     void transmitPending();
     void retransmitOldest();
     void startT3Rtx();
-- 
2.43.0


From 7d045a27e4a36d3802e919b1517128630d102d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 033/103] fix: do not open again the data channels that the
 peer has opened

A peer that completed its side of the handshake first had its channels
announced open a second time.
---
 src/sctp/sctp_session.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 7ea1b0c..9e44d64 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -478,7 +478,10 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
 void SctpSession::onAssociationEstablished()
 {
     for (auto& channel : mDataChannels) {
-        sendDataChannelOpen(channel);
+        // The peer's association may be established before ours, and its channels opened already
+        if (channel.state == DataChannelState::kNone) {
+            sendDataChannelOpen(channel);
+        }
     }
 }
 
-- 
2.43.0


From 650aa37ba549a927175f900437affc1b9506448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 034/103] fix: do not lose messages sent on a channel the peer
 opened early

Until our side of the handshake was complete they were dropped although
the channel had been announced open; they are now queued.
---
 src/sctp/sctp_session.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 9e44d64..676ac67 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -100,10 +100,6 @@ bool SctpSession::isChannelOpen(const std::string& label) const
 
 void SctpSession::send(DataChannelMessage&& message)
 {
-    if (mState != State::Established) {
-        return;
-    }
-
     auto it = std::find_if(
         mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == message.label; });
     if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
@@ -176,6 +172,11 @@ void SctpSession::enqueueMessage(DataChannel& channel, DataChannelMessage&& mess
 
 void SctpSession::transmitPending()
 {
+    if (mState != State::Established) {
+        // A channel can be opened by the peer before our side of the handshake is complete
+        return;
+    }
+
     const bool wasEmpty = mSentChunks.empty();
 
     // The order of the queue is kept, the fragments of a message need consecutive TSNs. With nothing in flight,
@@ -483,6 +484,7 @@ void SctpSession::onAssociationEstablished()
             sendDataChannelOpen(channel);
         }
     }
+    transmitPending();
 }
 
 void SctpSession::sendDataChannelOpen(DataChannel& channel)
-- 
2.43.0


From da929c414785e5e73a499a935531c83f89390ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 035/103] fix: use the peer's verification tag once its cookie
 is accepted

Replies sent before our own INIT was acknowledged carried tag zero and
were discarded by the peer.
---
 src/sctp/sctp_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 676ac67..ae1c42b 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -377,6 +377,11 @@ void SctpSession::onReceiveCookieEcho(const SctpPacket::Chunk& chunk)
     r.skip(12); // localPort, remotePort, ourInitiateTag, ourInitialTsn
     const uint32_t peerInitiateTag = r.readU32();
 
+    // The peer's association is established now, and what we send in reply to it needs its tag
+    if (mPeerTag == 0) {
+        mPeerTag = peerInitiateTag;
+    }
+
     // Send COOKIE_ACK
     SctpPacketBuilder builder(mLocalPort, mRemotePort, peerInitiateTag);
     builder.addChunk(kChunkCookieAck, 0, nullptr, 0);
-- 
2.43.0


From 366d9d15cd260337f08b2fcf0860b5c9b00d8741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 036/103] fix: do not let the truncation of transport feedback
 deltas add up

---
 src/twcc_subscribe.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 3411f98..4586a83 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -34,6 +34,12 @@ constexpr auto kMaxSmallDeltaMicros = 250 * std::numeric_limits<uint8_t>::max();
 constexpr auto kMinLargeDeltaMicros = 250 * std::numeric_limits<int16_t>::min();
 constexpr auto kMaxLargeDeltaMicros = 250 * std::numeric_limits<int16_t>::max();
 
+// Both kinds of deltas are in these units, the remainder is not transmitted
+constexpr auto kDeltaUnits = 250;
+
+// The feedback packet being built doesn't have a reference time yet
+constexpr auto kNoReferenceTime = std::numeric_limits<int64_t>::min();
+
 class Builder
 {
 public:
@@ -391,7 +397,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
     std::list<ByteBuffer> list;
 
     uint16_t count = 0;
-    int64_t curr_time = 0;
+    int64_t curr_time = kNoReferenceTime;
     auto builder = std::make_unique<Builder>();
 
     bool received[14] = {};
@@ -412,7 +418,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             builder->addNotReceivedRun(packet, count);
             advance(count);
         } else {
-            if (curr_time == 0) {
+            if (curr_time == kNoReferenceTime) {
                 curr_time = (packet->received_time_micros / kReferenceTimeUnits) * kReferenceTimeUnits;
                 builder->setReferenceTime(curr_time);
             }
@@ -437,7 +443,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 // a new packet which will use the new time as its reference time
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
-                curr_time = 0;
+                curr_time = kNoReferenceTime;
             }
         }
 
@@ -445,7 +451,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             // Packet size has gotten too large, flush
             list.push_back(builder->generate(mFbCount++));
             builder = std::make_unique<Builder>();
-            curr_time = 0;
+            curr_time = kNoReferenceTime;
         }
     }
 
@@ -551,7 +557,7 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
             // Acceptable small delta
             received[out] = true;
             delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            curr_time += (delta_micros[out] / kDeltaUnits) * kDeltaUnits;
         } else {
             break;
         }
@@ -584,7 +590,7 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
             // Acceptable large delta
             received[out] = true;
             delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            curr_time += (delta_micros[out] / kDeltaUnits) * kDeltaUnits;
         } else {
             break;
         }
-- 
2.43.0


From 568e1c160dbde70d5298ef1b164dac1ba9ff7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 037/103] fix: transport feedback never ends generating after a
 pause of over 8 seconds

---
 src/twcc_subscribe.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 4586a83..f996923 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -438,9 +438,14 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 builder->addLargeDeltaRun(packet, count, received, delta_micros);
                 advance(count);
                 curr_time = packet_time_large;
-            } else if (!builder->empty()) {
+            } else {
                 // The delta is too large even for the large delta encoding (unlikely but can happen), we have to start
                 // a new packet which will use the new time as its reference time
+                if (builder->empty()) {
+                    // The run before that delta is short, which is only possible at the end of a packet
+                    builder->addLargeDeltaRun(packet, count, received, delta_micros);
+                    advance(count);
+                }
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
                 curr_time = kNoReferenceTime;
-- 
2.43.0


From 17ddfc527844310c7b8970c19b826bf0c021011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 038/103] fix: a packet that arrives right at the base time is
 not a lost one

---
 src/twcc_subscribe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index f996923..a64cbc6 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -2,6 +2,7 @@
 #include "srtc/logging.h"
 #include "srtc/twcc_common.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cinttypes>
 #include <cstring>
@@ -239,7 +240,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
     SubscribePacket* packet;
 
     const auto seq_ext = mExtendedValueSeq.extend(seq);
-    const auto now_ext = now - mBaseTimeMicros;
+    const auto now_ext = std::max<int64_t>(now - mBaseTimeMicros, 1); // Zero means not received
 
     if (mPacketList) {
         if (mLastPacketMicros != 0 && now - mLastPacketMicros >= kNoPacketsResetDelayMicros) {
-- 
2.43.0


From 979cabb4a8e4a03cd36b083be88a2cbf0f1b94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 039/103] fix: report every packet exactly as it arrived across
 transport feedback boundaries

---
 include/srtc/twcc_subscribe.h |  6 +++++
 src/twcc_subscribe.cpp        | 41 ++++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/include/srtc/twcc_subscribe.h b/include/srtc/twcc_subscribe.h
index e75321e..144893c 100644
--- a/include/srtc/twcc_subscribe.h
+++ b/include/srtc/twcc_subscribe.h
@@ -8,6 +8,7 @@
 
 #include <cstdint>
 #include <list>
+#include <vector>
 
 namespace srtc::twcc
 {
@@ -35,6 +36,9 @@ private:
     void deleteMinPacket();
     void advance(uint64_t count);
 
+    // When the packet was received, or 0
+    [[nodiscard]] int64_t getReceivedTime(uint64_t seq_ext) const;
+
     SubscribePacket* newPacket();
     void deletePacket(SubscribePacket* packet);
     void freeEverything();
@@ -50,6 +54,8 @@ private:
     ExtendedValue<uint16_t> mExtendedValueSeq;
     PoolAllocator<SubscribePacket> mPacketAllocator;
 
+    std::vector<SubscribePacket> mRecentList;
+
     SubscribePacket** mPacketList;
     uint64_t mMinSeq;
     uint64_t mMaxSeq; // Open interval: [mMinSeq, mMaxSeq)
diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index a64cbc6..c35bd4e 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -222,6 +222,7 @@ SubscribePacketHistory::SubscribePacketHistory(int64_t base_time_micros)
     : mBaseTimeMicros(base_time_micros)
     , mLastPacketMicros(0)
     , mLastGeneratedMicros(0)
+    , mRecentList(kMaxPacketCount, SubscribePacket{ 0, 0 })
     , mPacketList(nullptr)
     , mMinSeq(0)
     , mMaxSeq(0)
@@ -255,24 +256,19 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
 
     mLastPacketMicros = now;
 
-    if (!mPacketList || mMinSeq == mMaxSeq) {
-        if (!mPacketList) {
-            mPacketList = new SubscribePacket*[kMaxPacketCount];
-            std::memset(mPacketList, 0, sizeof(SubscribePacket*) * kMaxPacketCount);
-        }
+    if (!mPacketList) {
+        mPacketList = new SubscribePacket*[kMaxPacketCount];
+        std::memset(mPacketList, 0, sizeof(SubscribePacket*) * kMaxPacketCount);
 
         mMinSeq = seq_ext;
-        mMaxSeq = seq_ext + 1;
-
-        index = static_cast<size_t>(seq_ext & kMaxPacketMask);
-
-        packet = newPacket();
-        packet->seq_ext = seq_ext;
-        packet->received_time_micros = now_ext;
-
-        mPacketList[index] = packet;
-
-        return;
+        mMaxSeq = seq_ext;
+    } else if (mMinSeq == mMaxSeq) {
+        // Everything has been reported. Continue from there so that the packets lost in between get reported too, unless
+        // this is a large jump in either direction.
+        if (seq_ext > mMaxSeq + kMaxPacketCount / 4 || seq_ext + kMaxPacketCount < mMinSeq) {
+            mMinSeq = seq_ext;
+            mMaxSeq = seq_ext;
+        }
     }
 
     if (seq_ext + kMaxPacketCount / 4 < mMinSeq) {
@@ -284,6 +280,8 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
         return;
     }
 
+    mRecentList[static_cast<size_t>(seq_ext & kMaxPacketMask)] = { seq_ext, now_ext };
+
     if (seq_ext > mMaxSeq + kMaxPacketCount / 4) {
         LOG(SRTC_LOG_W,
             "Received seq = %u is too large, min = %u, max = %u",
@@ -305,7 +303,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
             packet = newPacket();
 
             packet->seq_ext = mMaxSeq;
-            packet->received_time_micros = 0;
+            packet->received_time_micros = getReceivedTime(mMaxSeq);
 
             assert(mPacketList[index] == nullptr);
             mPacketList[index] = packet;
@@ -349,7 +347,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
             packet = newPacket();
 
             packet->seq_ext = mMinSeq;
-            packet->received_time_micros = 0;
+            packet->received_time_micros = getReceivedTime(mMinSeq);
 
             assert(mPacketList[index] == nullptr);
             mPacketList[index] = packet;
@@ -496,6 +494,13 @@ void SubscribePacketHistory::advance(uint64_t count)
     }
 }
 
+int64_t SubscribePacketHistory::getReceivedTime(uint64_t seq_ext) const
+{
+    // It may have been received and reported before
+    const auto& recent = mRecentList[static_cast<size_t>(seq_ext & kMaxPacketMask)];
+    return recent.seq_ext == seq_ext ? recent.received_time_micros : 0;
+}
+
 SubscribePacket* SubscribePacketHistory::newPacket()
 {
     return mPacketAllocator.create();
-- 
2.43.0


From f2f8368502f6b7d299833f6814d6d16a514cf515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 040/103] fix: a packet acknowledged by a later feedback is not
 lost

---
 src/rtp_extension_source_twcc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index e2210b3..0972aec 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -274,6 +274,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
             tempList[i].delta_micros = 250 * delta;
             if (ptr) {
                 ptr->reported_status = twcc::kSTATUS_RECEIVED_SMALL_DELTA;
+                ptr->reported_as_not_received = false;
             }
         } else if (symbol == twcc::kSTATUS_RECEIVED_LARGE_DELTA) {
             if (reader.remaining() < 2) {
@@ -285,6 +286,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
             tempList[i].delta_micros = 250 * delta;
             if (ptr) {
                 ptr->reported_status = twcc::kSTATUS_RECEIVED_LARGE_DELTA;
+                ptr->reported_as_not_received = false;
             }
         }
     }
-- 
2.43.0


From 87be2a95f1bced08b89535aca2b85a7a272d6110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 041/103] fix: arrival times are wrong when a feedback covers
 packets no longer in the history

---
 src/rtp_extension_source_twcc.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index 0972aec..74c2f95 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -297,24 +297,19 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
     }
 
     // Resolve time deltas to absolute times
-    twcc::PublishPacket* prev_ptr = nullptr;
+    auto received_time_micros = reference_time_micros;
 
     for (uint16_t i = 0; i < packet_status_count; i += 1) {
         const auto curr_seq = static_cast<uint16_t>(base_seq_number + i);
         const auto curr_ptr = mPacketHistory->get(curr_seq);
 
         if (isReceivedWithTime(tempList[i].status)) {
-            if (curr_ptr) { // Needed only for MSVC compiler
-                if (!prev_ptr) {
-                    curr_ptr->received_time_micros = reference_time_micros + tempList[i].delta_micros;
-                } else {
-                    curr_ptr->received_time_micros = prev_ptr->received_time_micros + tempList[i].delta_micros;
-                }
+            received_time_micros += tempList[i].delta_micros;
 
+            if (curr_ptr) { // Needed only for MSVC compiler
+                curr_ptr->received_time_micros = received_time_micros;
                 curr_ptr->received_time_present = true;
             }
-
-            prev_ptr = curr_ptr;
         }
     }
 
-- 
2.43.0


From 3ff226ee662e051be1a5fd40676d8f2b401367e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 042/103] fix: bandwidth is wrong when the transport feedback's
 reference time wraps

---
 include/srtc/rtp_extension_source_twcc.h |  3 +++
 include/srtc/twcc_publish.h              |  4 ++--
 src/rtp_extension_source_twcc.cpp        | 10 +++++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/srtc/rtp_extension_source_twcc.h b/include/srtc/rtp_extension_source_twcc.h
index 5052e4d..aa856e9 100644
--- a/include/srtc/rtp_extension_source_twcc.h
+++ b/include/srtc/rtp_extension_source_twcc.h
@@ -8,6 +8,7 @@
 #include <cstdint>
 #include <list>
 #include <memory>
+#include <optional>
 
 namespace srtc::twcc
 {
@@ -73,6 +74,8 @@ private:
     };
     FixedTempBuffer<TempPacket> mTempPacketBuffer;
 
+    std::optional<int64_t> mReferenceTime; // Extended from 24 bits
+
     [[nodiscard]] uint8_t getExtensionId(const std::shared_ptr<Track>& track) const;
 
     // Probing
diff --git a/include/srtc/twcc_publish.h b/include/srtc/twcc_publish.h
index 0f40175..63e0f4e 100644
--- a/include/srtc/twcc_publish.h
+++ b/include/srtc/twcc_publish.h
@@ -118,10 +118,10 @@ private:
     LastPacketInfo mLastMaxForBandwidthTrend;
 
     struct ActualItem {
-        uint64_t received_time_micros;
+        int64_t received_time_micros;
         uint16_t payload_size;
 
-        ActualItem(uint64_t received_time_micros, uint16_t payload_size)
+        ActualItem(int64_t received_time_micros, uint16_t payload_size)
             : received_time_micros(received_time_micros)
             , payload_size(payload_size)
         {
diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index 74c2f95..eec7978 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -178,7 +178,15 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
     const auto fb_pkt_count = static_cast<uint8_t>(reference_time_and_fb_pkt_count & 0xFFu);
     (void)fb_pkt_count;
 
-    const auto reference_time_micros = 64 * 1000 * static_cast<int64_t>(reference_time);
+    // The reference time has 24 bits and wraps
+    if (mReferenceTime.has_value()) {
+        const auto diff = (static_cast<uint32_t>(reference_time) - static_cast<uint32_t>(mReferenceTime.value())) << 8;
+        mReferenceTime = mReferenceTime.value() + (static_cast<int32_t>(diff) >> 8);
+    } else {
+        mReferenceTime = reference_time;
+    }
+
+    const auto reference_time_micros = 64 * 1000 * mReferenceTime.value();
 
     const auto tempList = mTempPacketBuffer.ensure(packet_status_count);
 
-- 
2.43.0


From d3549f661b911cd464bb1f8cab72ac983a233534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 043/103] fix: the scheduler thread runs before the scheduler's
 members are constructed

---
 src/scheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7382b1d..7cc0124 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -61,8 +61,10 @@ std::weak_ptr<Task> ThreadScheduler::TaskImpl::update(const std::chrono::millise
 }
 
 ThreadScheduler::ThreadScheduler(const std::string& name)
-    : mThread(&ThreadScheduler::threadFunc, this, name)
 {
+    // Not in the initializer list: the thread uses members that are constructed after mThread
+    std::lock_guard lock(mMutex);
+    mThread = std::thread(&ThreadScheduler::threadFunc, this, name);
 }
 
 ThreadScheduler::~ThreadScheduler()
-- 
2.43.0


From e0c42281c64af82543b1e1d401457425ffe6b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 044/103] fix: cancelling a task of the thread scheduler can
 wait forever

---
 src/scheduler.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7cc0124..008420f 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -75,7 +75,7 @@ ThreadScheduler::~ThreadScheduler()
         std::lock_guard lock(mMutex);
         thread = std::move(mThread);
         mIsQuit = true;
-        mCondVar.notify_one();
+        mCondVar.notify_all();
     }
 
     if (std::this_thread::get_id() == thread.get_id()) {
@@ -98,7 +98,7 @@ std::weak_ptr<Task> ThreadScheduler::submit(const Delay& delay, const char* file
         mTaskQueue.insert(std::upper_bound(mTaskQueue.begin(), mTaskQueue.end(), task, TaskImplLess()), task);
     }
 
-    mCondVar.notify_one();
+    mCondVar.notify_all();
     return task;
 }
 
@@ -126,6 +126,13 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
 
     if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), task); iter != mTaskQueue.end()) {
         mTaskQueue.erase(iter);
+        task->mIsCompleted = true;
+        mCondVar.notify_all();
+        return;
+    }
+
+    if (std::this_thread::get_id() == mThread.get_id()) {
+        // Called from a task, which can't wait for itself
         return;
     }
 
@@ -139,6 +146,7 @@ std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>&
 
     if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), oldTask); iter != mTaskQueue.end()) {
         mTaskQueue.erase(iter);
+        oldTask->mIsCompleted = true;
     }
 
     const auto when = std::chrono::steady_clock::now() + delay;
@@ -147,7 +155,7 @@ std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>&
 
     mTaskQueue.insert(std::upper_bound(mTaskQueue.begin(), mTaskQueue.end(), newTask, TaskImplLess()), newTask);
 
-    mCondVar.notify_one();
+    mCondVar.notify_all();
     return newTask;
 }
 
-- 
2.43.0


From 11a195b684fb3f578fb4b30088ddd75a26ae0b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 045/103] fix: use after free when a task releases its own
 thread scheduler

---
 include/srtc/scheduler.h |  1 +
 src/scheduler.cpp        | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 2b23975..508e8d6 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -126,6 +126,7 @@ private:
 
     std::thread mThread SRTC_GUARDED_BY(mMutex);
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
+    bool* mIsDestroyed = {nullptr}; // Lets the thread know that it was a task that has destroyed us
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
 };
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 008420f..7123a45 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -79,6 +79,8 @@ ThreadScheduler::~ThreadScheduler()
     }
 
     if (std::this_thread::get_id() == thread.get_id()) {
+        // Called from a task
+        *mIsDestroyed = true;
         thread.detach();
     } else {
         thread.join();
@@ -167,6 +169,12 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
 
     std::shared_ptr<TaskImpl> task;
 
+    bool isDestroyed = false;
+    {
+        std::lock_guard lock(mMutex);
+        mIsDestroyed = &isDestroyed;
+    }
+
     while (true) {
 
         {
@@ -218,6 +226,10 @@ void ThreadScheduler::threadFunc([[maybe_unused]] const std::string name)
 
         if (task) {
             task->mFunc();
+
+            if (isDestroyed) {
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From 12db956cf2d84dd61d66043fc3ec5dc81921d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 046/103] fix: destroying a scheduler scope deadlocks with its
 running task

---
 src/scheduler.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7123a45..6619519 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -407,15 +407,25 @@ ScopedScheduler::ScopedScheduler(const std::shared_ptr<RealScheduler>& scheduler
 
 ScopedScheduler::~ScopedScheduler()
 {
-    std::lock_guard lock(mMutex);
+    // Cancelling may have to wait for a running task, and that task can be using this object
+    while (true) {
+        std::list<std::shared_ptr<TaskImpl>> list;
 
-    for (const auto& iter : mSubmitted) {
-        if (const auto task = iter->mTask.lock()) {
-            task->cancel();
+        {
+            std::lock_guard lock(mMutex);
+            list.swap(mSubmitted);
         }
-    }
 
-    mSubmitted.clear();
+        if (list.empty()) {
+            break;
+        }
+
+        for (const auto& iter : list) {
+            if (const auto task = iter->mTask.lock()) {
+                task->cancel();
+            }
+        }
+    }
 }
 
 std::weak_ptr<Task> ScopedScheduler::submit(const Delay& delay, const char* file, int line, const Func& func)
-- 
2.43.0


From 09138a087d5040c017c6e5ab0f426185207bc42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 047/103] fix: generating the same SDP offer again keeps its
 SSRCs

---
 include/srtc/sdp_offer.h |  3 +++
 src/sdp_offer.cpp        | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/srtc/sdp_offer.h b/include/srtc/sdp_offer.h
index 9a655cc..0021534 100644
--- a/include/srtc/sdp_offer.h
+++ b/include/srtc/sdp_offer.h
@@ -119,6 +119,8 @@ public:
     [[nodiscard]] std::shared_ptr<RtcpPacketSource> getControlPacketSource() const;
 
 private:
+    [[nodiscard]] std::pair<std::string, Error> generateImpl();
+
     std::string generateRandomUUID();
     std::string generateRandomString(size_t len);
 
@@ -160,6 +162,7 @@ private:
         }
     };
 
+    std::string mGenerated;
     std::vector<MediaLineGenerated> mMediaLineGeneratedList;
     std::shared_ptr<RtcpPacketSource> mControlPacketSource;
 };
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 1ff2196..27f2cbc 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -78,6 +78,24 @@ const SdpOffer::Config& SdpOffer::getConfig() const
 }
 
 std::pair<std::string, Error> SdpOffer::generate()
+{
+    // The SSRCs are chosen when the offer is generated, it's been sent to the peer if called again
+    if (!mGenerated.empty()) {
+        return { mGenerated, Error::OK };
+    }
+
+    mMediaLineGeneratedList.clear();
+    mControlPacketSource.reset();
+
+    auto result = generateImpl();
+    if (result.second.isOk()) {
+        mGenerated = result.first;
+    }
+
+    return result;
+}
+
+std::pair<std::string, Error> SdpOffer::generateImpl()
 {
     const bool hasMedia = !mMediaLineList.empty();
     const bool hasData = !mConfig.data_channels.empty();
-- 
2.43.0


From b84f8c41144117a2d4190ac2c02c09a3e4adc197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 048/103] fix: an offer with more codecs than payload types is
 an error

---
 src/sdp_offer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 27f2cbc..0add7f3 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -47,6 +47,9 @@ std::string list_to_string(size_t start, size_t end)
     return ss.str();
 }
 
+constexpr uint32_t kFirstPayloadId = 96;
+constexpr uint32_t kLastPayloadId = 127;
+
 constexpr uint16_t kSctpPort = 5000;
 constexpr uint32_t kSctpMaxMessageSize = 262144;
 
@@ -129,7 +132,7 @@ std::pair<std::string, Error> SdpOffer::generateImpl()
         }
     }
 
-    uint32_t payloadId = 96;
+    uint32_t payloadId = kFirstPayloadId;
 
     // Media lines
     for (const auto& mediaLine : mMediaLineList) {
@@ -154,6 +157,11 @@ std::pair<std::string, Error> SdpOffer::generateImpl()
             }
         }
 
+        const auto payloadCount = codecList.size() * (mConfig.enable_rtx ? 2u : 1u);
+        if (payloadCount > kLastPayloadId + 1u - payloadId) {
+            return { "", { Error::Code::InvalidData, "Too many codecs, not enough payload types" } };
+        }
+
         mMediaLineGeneratedList.emplace_back(mediaLine.id, mediaLine.mediaType);
         auto& mediaLineGenerated = mMediaLineGeneratedList.back();
         mediaLineGenerated.mediaType = mediaLine.mediaType;
-- 
2.43.0


From 9b11907763b2e61033bacf2684d1f5c7c7c73dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 049/103] fix: offer audio retransmissions with the clock rate
 of the audio

---
 src/sdp_offer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 0add7f3..1bf4002 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -225,7 +225,8 @@ std::pair<std::string, Error> SdpOffer::generateImpl()
 
             if (mConfig.enable_rtx) {
                 const auto payloadIdRtx = payloadId + 1;
-                ss << "a=rtpmap:" << payloadIdRtx << " rtx/90000" << std::endl;
+                ss << "a=rtpmap:" << payloadIdRtx << " rtx/" << (mediaLine.mediaType == MediaType::Audio ? 48000 : 90000)
+                   << std::endl;
                 ss << "a=fmtp:" << payloadIdRtx << " apt=" << payloadId << std::endl;
 
                 payloadId += 2;
-- 
2.43.0


From ec6492a80fa6cdb4a2fdc849c164f80817f239a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 050/103] fix: offers with ambiguous or malformed media ids,
 layers and cnames are errors

---
 src/peer_connection.cpp | 88 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index a7769df..afc8eaf 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstring>
 
 #define LOG(level, ...) srtc::log(level, "PeerConnection", __VA_ARGS__)
 
@@ -29,6 +30,73 @@ std::once_flag gInitFlag;
 constexpr auto kReportsInterval = std::chrono::seconds(5);
 constexpr auto kConnectionStatsInterval = std::chrono::seconds(5);
 constexpr auto kJitterBufferSize = 4096;
+constexpr size_t kMaxSimulcastLayers = 4;
+
+// RFC 4566 token
+bool isToken(const std::string& value)
+{
+    return !value.empty() && std::all_of(value.begin(), value.end(), [](char ch) {
+        return ch > 0x20 && ch < 0x7f && std::strchr("\"(),/:;<=>?@[\\]", ch) == nullptr;
+    });
+}
+
+// RFC 8851 restriction identifier
+bool isRestrictionId(const std::string& value)
+{
+    return !value.empty() && std::all_of(value.begin(), value.end(), [](char ch) {
+        return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '-' ||
+               ch == '_';
+    });
+}
+
+srtc::Error validateCname(const std::string& cname)
+{
+    if (std::any_of(cname.begin(), cname.end(), [](char ch) { return ch >= 0 && (ch <= 0x20 || ch == 0x7f); })) {
+        return { srtc::Error::Code::InvalidData, "The cname cannot have spaces or control characters" };
+    }
+
+    return srtc::Error::OK;
+}
+
+srtc::Error validateLayerList(srtc::MediaType mediaType, const std::vector<srtc::SimulcastLayer>& layerList)
+{
+    if (layerList.empty()) {
+        return srtc::Error::OK;
+    }
+    if (mediaType != srtc::MediaType::Video) {
+        return { srtc::Error::Code::InvalidData, "Only video media can have simulcast layers" };
+    }
+    if (layerList.size() > kMaxSimulcastLayers) {
+        return { srtc::Error::Code::InvalidData, "Too many simulcast layers" };
+    }
+
+    for (auto iter = layerList.begin(); iter != layerList.end(); ++iter) {
+        if (!isRestrictionId(iter->name)) {
+            return { srtc::Error::Code::InvalidData, "A simulcast layer's name is not valid" };
+        }
+        if (std::any_of(layerList.begin(), iter, [iter](const auto& other) { return other.name == iter->name; })) {
+            return { srtc::Error::Code::InvalidData, "Simulcast layers must have different names" };
+        }
+    }
+
+    return srtc::Error::OK;
+}
+
+template <typename T>
+srtc::Error validateMediaIds(const std::vector<T>& mediaList, const srtc::DataChannelConfig& dataChannelConfig)
+{
+    for (auto iter = mediaList.begin(); iter != mediaList.end(); ++iter) {
+        if (std::any_of(
+                mediaList.begin(), iter, [iter](const auto& other) { return other.media_id == iter->media_id; })) {
+            return { srtc::Error::Code::InvalidData, "Media items must have different ids" };
+        }
+        if (iter->media_id == "datachannel" && !dataChannelConfig.data_channels.empty()) {
+            return { srtc::Error::Code::InvalidData, "The media id is used by data channels" };
+        }
+    }
+
+    return srtc::Error::OK;
+}
 
 template <typename T>
 srtc::Error validateMediaItem(const T& mediaItem)
@@ -36,6 +104,9 @@ srtc::Error validateMediaItem(const T& mediaItem)
     if (mediaItem.media_id.empty()) {
         return { srtc::Error::Code::InvalidData, "The media id cannot be empty" };
     }
+    if (!isToken(mediaItem.media_id)) {
+        return { srtc::Error::Code::InvalidData, "The media id has invalid characters" };
+    }
 
     for (const auto& codec : mediaItem.codec_list) {
         if (mediaItem.media_type == srtc::MediaType::Audio) {
@@ -85,6 +156,13 @@ std::pair<std::shared_ptr<SdpOffer>, Error> PeerConnection::createPublishOffer(c
         return { {}, { Error::Code::InvalidData, "The peer connection's direction is not publish" } };
     }
 
+    if (const auto error = validateCname(pubConfig.cname); error.isError()) {
+        return { {}, error };
+    }
+    if (const auto error = validateMediaIds(mediaConfig.media_list, pubConfig.data_channel_config); error.isError()) {
+        return { {}, error };
+    }
+
     SdpOffer::Config config;
     config.cname = pubConfig.cname;
     config.data_channels = pubConfig.data_channel_config.data_channels;
@@ -102,6 +180,9 @@ std::pair<std::shared_ptr<SdpOffer>, Error> PeerConnection::createPublishOffer(c
         if (const auto error = validateMediaItem(pubMediaItem); error.isError()) {
             return { {}, error };
         }
+        if (const auto error = validateLayerList(pubMediaItem.media_type, pubMediaItem.layer_list); error.isError()) {
+            return { {}, error };
+        }
 
         mediaLine.id = pubMediaItem.media_id;
         mediaLine.mediaType = pubMediaItem.media_type;
@@ -131,6 +212,13 @@ std::pair<std::shared_ptr<SdpOffer>, Error> PeerConnection::createSubscribeOffer
         return { {}, { Error::Code::InvalidData, "The peer connection's direction is not subscribe" } };
     }
 
+    if (const auto error = validateCname(subConfig.cname); error.isError()) {
+        return { {}, error };
+    }
+    if (const auto error = validateMediaIds(mediaConfig.media_list, subConfig.data_channel_config); error.isError()) {
+        return { {}, error };
+    }
+
     SdpOffer::Config config;
     config.cname = subConfig.cname;
     config.enable_abs_capture_time = subConfig.enable_abs_capture_time;
-- 
2.43.0


From 7d3318f94de6779a9218b96d155bf4bb4bcc2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 051/103] fix: an offer without a configured cname has a random
 one

---
 src/sdp_offer.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 1bf4002..d0c6502 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -107,6 +107,9 @@ std::pair<std::string, Error> SdpOffer::generateImpl()
         return { "", { Error::Code::InvalidData, "No video, audio, or data channels configured" } };
     }
 
+    // The cname cannot be empty in the offer
+    const auto cname = mConfig.cname.empty() ? generateRandomString(16) : mConfig.cname;
+
     std::stringstream ss;
 
     ss << "v=0" << std::endl;
@@ -250,14 +253,14 @@ std::pair<std::string, Error> SdpOffer::generateImpl()
                 mControlPacketSource = std::make_shared<RtcpPacketSource>(mediaLineGenerated.ssrc);
             }
 
-            ss << "a=ssrc:" << mediaLineGenerated.ssrc << " cname:" << mConfig.cname << std::endl;
-            ss << "a=ssrc:" << mediaLineGenerated.ssrc << " msid:" << mConfig.cname << " " << msid << std::endl;
+            ss << "a=ssrc:" << mediaLineGenerated.ssrc << " cname:" << cname << std::endl;
+            ss << "a=ssrc:" << mediaLineGenerated.ssrc << " msid:" << cname << " " << msid << std::endl;
 
             if (mConfig.enable_rtx) {
                 mediaLineGenerated.rtx = 1 + mRandomGenerator.next();
 
-                ss << "a=ssrc:" << mediaLineGenerated.rtx << " cname:" << mConfig.cname << std::endl;
-                ss << "a=ssrc:" << mediaLineGenerated.rtx << " msid:" << mConfig.cname << " " << msid << std::endl;
+                ss << "a=ssrc:" << mediaLineGenerated.rtx << " cname:" << cname << std::endl;
+                ss << "a=ssrc:" << mediaLineGenerated.rtx << " msid:" << cname << " " << msid << std::endl;
 
                 // https://groups.google.com/g/discuss-webrtc/c/0OVDV6I3SRo
                 ss << "a=ssrc-group:FID " << mediaLineGenerated.ssrc << " " << mediaLineGenerated.rtx << std::endl;
@@ -302,8 +305,8 @@ std::pair<std::string, Error> SdpOffer::generateImpl()
                 auto& layerGenerated = mediaLineGenerated.layer.back();
                 layerGenerated.ssrc = 1 + mRandomGenerator.next();
 
-                ss << "a=ssrc:" << layerGenerated.ssrc << " cname:" << mConfig.cname << std::endl;
-                ss << "a=ssrc:" << layerGenerated.ssrc << " msid:" << mConfig.cname << " " << msid << std::endl;
+                ss << "a=ssrc:" << layerGenerated.ssrc << " cname:" << cname << std::endl;
+                ss << "a=ssrc:" << layerGenerated.ssrc << " msid:" << cname << " " << msid << std::endl;
 
                 if (!mControlPacketSource) {
                     mControlPacketSource = std::make_shared<RtcpPacketSource>(layerGenerated.ssrc);
@@ -312,8 +315,8 @@ std::pair<std::string, Error> SdpOffer::generateImpl()
                 if (mConfig.enable_rtx) {
                     layerGenerated.rtx = 1 + mRandomGenerator.next();
 
-                    ss << "a=ssrc:" << layerGenerated.rtx << " cname:" << mConfig.cname << std::endl;
-                    ss << "a=ssrc:" << layerGenerated.rtx << " msid:" << mConfig.cname << " " << msid << std::endl;
+                    ss << "a=ssrc:" << layerGenerated.rtx << " cname:" << cname << std::endl;
+                    ss << "a=ssrc:" << layerGenerated.rtx << " msid:" << cname << " " << msid << std::endl;
 
                     ss << "a=ssrc-group:FID " << layerGenerated.ssrc << " " << layerGenerated.rtx << std::endl;
                 }
-- 
2.43.0


From 332f8568eedf32a8931b76a1ba711d168e9d0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 052/103] fix: parse the numbers of an SDP answer strictly

---
 src/sdp_answer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 36903e3..8f8c363 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -8,6 +8,7 @@
 #include "srtc/x509_hash.h"
 
 #include <algorithm>
+#include <charconv>
 #include <sstream>
 #include <unordered_map>
 #include <vector>
@@ -101,10 +102,12 @@ void parse_map(const std::string& line, std::unordered_map<std::string, std::str
 
 std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
 {
-    char* endptr = nullptr;
-    const auto l = std::strtoul(s.c_str(), &endptr, radix);
-    if (endptr == s.c_str() + s.size()) {
-        return static_cast<uint32_t>(l);
+    // The whole string, without leading spaces, signs or prefixes, and it has to fit
+    uint32_t value = 0;
+    const auto end = s.data() + s.size();
+    const auto [ptr, ec] = std::from_chars(s.data(), end, value, radix);
+    if (ec == std::errc() && ptr == end) {
+        return value;
     }
     return {};
 }
@@ -675,7 +678,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
             if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
-                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65536u) {
+                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
                     const auto& addrStr = props[3];
-- 
2.43.0


From 359512f6651cdace844512fb4407120b710f0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 053/103] fix: codec names, candidate transports and hash names
 of an SDP answer are not case sensitive

---
 src/sdp_answer.cpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 8f8c363..f2a32fa 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -112,21 +112,35 @@ std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
     return {};
 }
 
-std::optional<srtc::Codec> parse_codec(const std::string& s)
+std::string to_lower(const std::string& s)
 {
-    if (s == "VP8") {
+    std::string result = s;
+    for (auto& ch : result) {
+        if (ch >= 'A' && ch <= 'Z') {
+            ch = static_cast<char>(ch - 'A' + 'a');
+        }
+    }
+    return result;
+}
+
+std::optional<srtc::Codec> parse_codec(const std::string& name)
+{
+    // The names are not case sensitive
+    const auto s = to_lower(name);
+
+    if (s == "vp8") {
         return srtc::Codec::VP8;
     }
-    if (s == "VP9") {
+    if (s == "vp9") {
         return srtc::Codec::VP9;
     }
-    if (s == "H264") {
+    if (s == "h264") {
         return srtc::Codec::H264;
     }
-    if (s == "H265") {
+    if (s == "h265") {
         return srtc::Codec::H265;
     }
-    if (s == "AV1") {
+    if (s == "av1") {
         return srtc::Codec::AV1;
     }
     if (s == "opus") {
@@ -534,9 +548,9 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         }
     } else if (key == "fingerprint") {
         if (props.size() == 1) {
-            certHashAlg = value;
-            if (certHashAlg == "sha-256") {
-                // TODO - for now
+            // TODO - for now
+            if (to_lower(value) == "sha-256") {
+                certHashAlg = "sha-256";
                 certHashBin = hex_to_bin(props[0]);
                 certHashHex = props[0];
             }
@@ -677,7 +691,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
     } else if (key == "candidate") {
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
-            if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
+            if (props[0] == "1" && to_lower(props[1]) == "udp" && props[5] == "typ" && props[6] == "host") {
                 if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
-- 
2.43.0


From 730b7512125e21981d15abb8d52c9bc7e4804a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 054/103] fix: an SDP answer without credentials or fingerprint
 is an error

---
 src/sdp_answer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index f2a32fa..1df649d 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -434,6 +434,12 @@ std::pair<std::shared_ptr<SdpAnswer>, Error> SdpAnswerParser::parse(const std::s
         return { {}, error };
     }
 
+    if (iceUFrag.empty() || icePassword.empty()) {
+        return { {}, { Error::Code::InvalidData, "The ICE credentials are required" } };
+    }
+    if (certHashBin.size() != 32) {
+        return { {}, { Error::Code::InvalidData, "A valid sha-256 fingerprint is required" } };
+    }
     if (hasMedia && !isRtcpMux) {
         return { {}, { Error::Code::InvalidData, "The rtcp-mux extension is required" } };
     }
-- 
2.43.0


From 59c88215916f5ea87d7c64153f7c4e8b84c110ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 055/103] fix: candidates with an IPv6 address that has a
 dotted tail

---
 src/sdp_answer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 1df649d..d48c0e5 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -703,7 +703,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
 
                     const auto& addrStr = props[3];
 
-                    if (addrStr.find('.') != std::string::npos) {
+                    if (addrStr.find(':') == std::string::npos) {
                         if (inet_pton(AF_INET, addrStr.c_str(), &host.addr.sin_ipv4.sin_addr) > 0) {
 
                             host.addr.ss.ss_family = AF_INET;
@@ -715,7 +715,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
                                 hostList.push_back(host);
                             }
                         }
-                    } else if (addrStr.find(':') != std::string::npos) {
+                    } else {
                         if (inet_pton(AF_INET6, addrStr.c_str(), &host.addr.sin_ipv6.sin6_addr) > 0) {
 
                             host.addr.ss.ss_family = AF_INET6;
-- 
2.43.0


From efc530961328a608348f348ca506604bd9d2673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 056/103] fix: "nack pli" in an SDP answer does not mean "nack"

---
 src/sdp_answer.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index d48c0e5..4ab07d7 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -664,13 +664,10 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
             const auto payloadIdValue = static_cast<uint8_t>(payloadId.value());
             const auto payloadState = mediaState.getPayloadState(payloadIdValue);
             if (payloadState) {
-                for (size_t i = 0u; i < props.size(); i += 1) {
-                    const auto& token = props[i];
-                    if (token == "nack") {
-                        payloadState->hasNack = true;
-                    } else if (token == "pli") {
-                        payloadState->hasPli = true;
-                    }
+                if (props.size() == 1 && props[0] == "nack") {
+                    payloadState->hasNack = true;
+                } else if (props.size() == 2 && props[0] == "nack" && props[1] == "pli") {
+                    payloadState->hasPli = true;
                 }
             }
         }
-- 
2.43.0


From 25468cad545d90f4542357344d8f40fbcb61b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 057/103] fix: the order of attributes in a media section of an
 SDP answer, and spaces in fmtp, do not matter

---
 src/sdp_answer.cpp | 57 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 4ab07d7..0ab4df8 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -179,6 +179,7 @@ struct ParsePayloadState {
     std::shared_ptr<srtc::Track::CodecOptions> codecOptions;
     uint32_t clockRate = { 0 };
     uint8_t rtxPayloadId = { 0 };
+    uint8_t aptPayloadId = { 0 };
     bool hasNack = { false };
     bool hasPli = { false };
 };
@@ -188,6 +189,7 @@ struct ParseMediaState {
     std::string mediaId;
     srtc::ExtensionMap extensionMap;
     std::vector<std::string> ridList;
+    std::vector<std::string> simulcastRidList;
     std::vector<srtc::Track::SimulcastLayer> layerList;
 
     size_t payloadStateSize = { 0u };
@@ -203,6 +205,8 @@ struct ParseMediaState {
 
     void setPayloadList(const std::vector<uint8_t>& list);
 
+    void resolveRtx();
+
     [[nodiscard]] ParsePayloadState* getPayloadState(uint8_t payloadId) const;
 
     [[nodiscard]] std::shared_ptr<srtc::Media> createMedia() const;
@@ -221,6 +225,7 @@ void ParseMediaState::clear()
     mediaId.clear();
     extensionMap.clear();
     ridList.clear();
+    simulcastRidList.clear();
     layerList.clear();
     payloadStateSize = 0;
     payloadStateList.reset();
@@ -235,6 +240,11 @@ void ParseMediaState::addSimulcastLayer(const std::vector<srtc::SimulcastLayer>&
     for (size_t i = 0; i < offerLayerList.size(); i += 1) {
         const auto& layer = offerLayerList[i];
         if (layer.name == ridName) {
+            if (std::any_of(layerList.begin(), layerList.end(), [ridName](const srtc::Track::SimulcastLayer& other) {
+                    return other.name == ridName;
+                })) {
+                break;
+            }
             layerList.push_back({
                 {
                     ridName,
@@ -259,6 +269,18 @@ void ParseMediaState::setPayloadList(const std::vector<uint8_t>& list)
     }
 }
 
+void ParseMediaState::resolveRtx()
+{
+    for (size_t i = 0u; i < payloadStateSize; i += 1) {
+        const auto& rtxState = payloadStateList[i];
+        if (rtxState.codec == srtc::Codec::Rtx && rtxState.aptPayloadId != 0) {
+            if (const auto mediaState = getPayloadState(rtxState.aptPayloadId)) {
+                mediaState->rtxPayloadId = rtxState.payloadId;
+            }
+        }
+    }
+}
+
 ParsePayloadState* ParseMediaState::getPayloadState(uint8_t payloadId) const
 {
     for (size_t i = 0u; i < payloadStateSize; i += 1) {
@@ -605,22 +627,25 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=fmtp:100 level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42001f
         if (const auto payloadId = parse_u32(value);
             payloadId.has_value() && is_valid_payload_id(payloadId.value()) && isInMediaSection) {
-            if (props.size() == 1) {
+            if (!props.empty()) {
                 const auto payloadIdValue = static_cast<uint8_t>(payloadId.value());
 
+                // There can be spaces between parameters
+                std::string params;
+                for (const auto& prop : props) {
+                    params += prop;
+                }
+
                 std::unordered_map<std::string, std::string> map;
-                parse_map(props[0], map);
+                parse_map(params, map);
 
                 if (const auto iter1 = map.find("apt"); iter1 != map.end()) {
+                    // Resolved when we have seen all lines, rtpmap can be after fmtp
                     const auto payloadState = mediaState.getPayloadState(payloadIdValue);
-                    if (payloadState && payloadState->codec == Codec::Rtx) {
+                    if (payloadState) {
                         if (const auto referencedPayloadId = parse_u32(iter1->second);
                             referencedPayloadId.has_value() && is_valid_payload_id(referencedPayloadId.value())) {
-                            const auto referencedPayloadIdValue = static_cast<uint8_t>(referencedPayloadId.value());
-                            const auto referencedPayloadState = mediaState.getPayloadState(referencedPayloadIdValue);
-                            if (referencedPayloadState) {
-                                referencedPayloadState->rtxPayloadId = payloadIdValue;
-                            }
+                            payloadState->aptPayloadId = static_cast<uint8_t>(referencedPayloadId.value());
                         }
                     }
                 }
@@ -682,13 +707,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=simulcast recv low;mid;hi
         if (isInMediaSection && mediaState.mediaType.value() == MediaType::Video) {
             if (value == "recv" && props.size() == 1) {
-                const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId);
-                if (offerLayerList.has_value() && !offerLayerList->empty()) {
-                    const auto ridList = split_list(props[0]);
-                    for (const auto& ridName : ridList) {
-                        mediaState.addSimulcastLayer(offerLayerList.value(), ridName);
-                    }
-                }
+                mediaState.simulcastRidList = split_list(props[0]);
             }
         }
     } else if (key == "candidate") {
@@ -774,6 +793,14 @@ Error SdpAnswerParser::flush_m()
             return { Error::Code::InvalidData, "Media id cannot be empty" };
         }
 
+        mediaState.resolveRtx();
+
+        if (const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId)) {
+            for (const auto& ridName : mediaState.simulcastRidList) {
+                mediaState.addSimulcastLayer(offerLayerList.value(), ridName);
+            }
+        }
+
         if (direction == Direction::Publish) {
             const auto publishSSRC = offer->getMediaSSRC(mediaState.mediaId);
 
-- 
2.43.0


From 100026dec6b178a0fbc9808a003d948c6fb8e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 058/103] fix: an SDP answer cannot have media and codecs which
 were not offered

---
 include/srtc/sdp_offer.h |  3 +++
 src/sdp_answer.cpp       | 29 ++++++++++++++++++++++++++++-
 src/sdp_offer.cpp        | 21 +++++++++++++++++++++
 3 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/include/srtc/sdp_offer.h b/include/srtc/sdp_offer.h
index 0021534..6674759 100644
--- a/include/srtc/sdp_offer.h
+++ b/include/srtc/sdp_offer.h
@@ -112,6 +112,9 @@ public:
     [[nodiscard]] std::pair<uint32_t, uint32_t> getVideoSimulastSSRC(const std::string& mediaId,
                                                                      const std::string& rid) const;
 
+    [[nodiscard]] bool hasMedia(const std::string& mediaId, MediaType mediaType) const;
+    [[nodiscard]] bool hasMediaCodec(const std::string& mediaId, Codec codec) const;
+
     [[nodiscard]] bool hasDataChannel() const;
     [[nodiscard]] uint16_t getSctpPort() const;
     [[nodiscard]] uint32_t getSctpMaxMessageSize() const;
diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 0ab4df8..406edb1 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -205,6 +205,8 @@ struct ParseMediaState {
 
     void setPayloadList(const std::vector<uint8_t>& list);
 
+    void removeNotOffered(const std::shared_ptr<srtc::SdpOffer>& offer);
+
     void resolveRtx();
 
     [[nodiscard]] ParsePayloadState* getPayloadState(uint8_t payloadId) const;
@@ -269,6 +271,21 @@ void ParseMediaState::setPayloadList(const std::vector<uint8_t>& list)
     }
 }
 
+void ParseMediaState::removeNotOffered(const std::shared_ptr<srtc::SdpOffer>& offer)
+{
+    for (size_t i = 0u; i < payloadStateSize; i += 1) {
+        auto& payloadState = payloadStateList[i];
+        if (payloadState.codec.has_value()) {
+            const auto codec = payloadState.codec.value();
+            const auto offered =
+                codec == srtc::Codec::Rtx ? offer->getConfig().enable_rtx : offer->hasMediaCodec(mediaId, codec);
+            if (!offered) {
+                payloadState.codec.reset();
+            }
+        }
+    }
+}
+
 void ParseMediaState::resolveRtx()
 {
     for (size_t i = 0u; i < payloadStateSize; i += 1) {
@@ -527,7 +544,7 @@ Error SdpAnswerParser::parseLine_m(const std::string& key,
     if (key == "application") {
         if (props.size() >= 2 && props[1] == "UDP/DTLS/SCTP") {
             isInApplicationSection = true;
-            hasDataChannel = true;
+            hasDataChannel = offer->hasDataChannel();
         }
         return Error::OK;
     }
@@ -793,6 +810,16 @@ Error SdpAnswerParser::flush_m()
             return { Error::Code::InvalidData, "Media id cannot be empty" };
         }
 
+        if (!offer->hasMedia(mediaState.mediaId, mediaState.mediaType.value())) {
+            return { Error::Code::InvalidData, "The media was not offered" };
+        }
+        if (std::any_of(mediaList.begin(), mediaList.end(), [this](const std::shared_ptr<Media>& media) {
+                return media->getId() == mediaState.mediaId;
+            })) {
+            return { Error::Code::InvalidData, "The media id is not unique" };
+        }
+
+        mediaState.removeNotOffered(offer);
         mediaState.resolveRtx();
 
         if (const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId)) {
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index d0c6502..84bc5f0 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <sstream>
@@ -399,6 +400,26 @@ std::pair<uint32_t, uint32_t> SdpOffer::getVideoSimulastSSRC(const std::string&
     return {};
 }
 
+bool SdpOffer::hasMedia(const std::string& mediaId, MediaType mediaType) const
+{
+    return std::any_of(mMediaLineList.begin(), mMediaLineList.end(), [&](const MediaLine& mediaLine) {
+        return mediaLine.id == mediaId && mediaLine.mediaType == mediaType;
+    });
+}
+
+bool SdpOffer::hasMediaCodec(const std::string& mediaId, Codec codec) const
+{
+    for (const auto& mediaLine : mMediaLineList) {
+        if (mediaLine.id == mediaId) {
+            return std::any_of(mediaLine.codec_list.begin(),
+                               mediaLine.codec_list.end(),
+                               [codec](const MediaCodec& mediaCodec) { return mediaCodec.codec == codec; });
+        }
+    }
+
+    return false;
+}
+
 bool SdpOffer::hasDataChannel() const
 {
     return !mConfig.data_channels.empty();
-- 
2.43.0


From 861b9a60911ea815aca5f544eedac4c92f77c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 059/103] fix: media sections rejected by an SDP answer have no
 tracks

---
 src/sdp_answer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 406edb1..53ac24c 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -540,6 +540,11 @@ Error SdpAnswerParser::parseLine_m(const std::string& key,
     isInApplicationSection = false;
     isInMediaSection = false;
 
+    // Zero port means that the section was rejected
+    if (!props.empty() && props[0] == "0") {
+        return Error::OK;
+    }
+
     // "m=application 9 UDP/DTLS/SCTP webrtc-datachannel"
     if (key == "application") {
         if (props.size() >= 2 && props[1] == "UDP/DTLS/SCTP") {
-- 
2.43.0


From 7026bb656e12582f4579e04a5bcc4b5baf35be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 060/103] fix: a track of an offered but not accepted simulcast
 has an SSRC

---
 src/sdp_offer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 84bc5f0..e40c4f1 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -374,6 +374,10 @@ std::pair<uint32_t, uint32_t> SdpOffer::getMediaSSRC(const std::string& mediaId)
 {
     for (const auto& mediaItem : mMediaLineGeneratedList) {
         if (mediaItem.mediaId == mediaId) {
+            if (!mediaItem.layer.empty()) {
+                // Simulcast was offered but not accepted
+                return { mediaItem.layer.front().ssrc, mediaItem.layer.front().rtx };
+            }
             return { mediaItem.ssrc, mediaItem.rtx };
         }
     }
-- 
2.43.0


From 5f16a40fd200c8291f888f2b5e376bfa8e9a6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 061/103] fix: the default and the unlimited max-message-size
 of an SDP answer

---
 src/sdp_answer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 53ac24c..f3a61c6 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <charconv>
+#include <limits>
 #include <sstream>
 #include <unordered_map>
 #include <vector>
@@ -432,7 +433,7 @@ private:
     bool isInApplicationSection = false;
     bool hasDataChannel = false;
     uint16_t sctpPort = 5000;
-    uint32_t maxSctpMessageSize = 262144;
+    uint32_t maxSctpMessageSize = 65536; // RFC 8841 default
 
     std::vector<std::shared_ptr<Media>> mediaList;
     std::vector<std::shared_ptr<Track>> trackList;
@@ -797,7 +798,8 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
     } else if (key == "max-message-size") {
         if (isInApplicationSection) {
             if (const auto size = parse_u32(value); size.has_value()) {
-                maxSctpMessageSize = size.value();
+                // Zero means there is no limit
+                maxSctpMessageSize = size.value() != 0 ? size.value() : std::numeric_limits<uint32_t>::max();
             }
         }
     }
-- 
2.43.0


From 1bc22b7937b06f3e2d9ae6ef084199db4e1dc215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 062/103] fix: a malformed fingerprint in an SDP answer is an
 error

---
 src/sdp_answer.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index f3a61c6..1e10ee8 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -24,6 +24,7 @@
 #endif
 
 #include <cassert>
+#include <cctype>
 
 namespace
 {
@@ -113,6 +114,17 @@ std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
     return {};
 }
 
+bool is_valid_fingerprint(const std::string& s)
+{
+    // Pairs of hexadecimal digits separated by colons
+    for (size_t i = 0; i < s.size(); i += 1) {
+        if (i % 3 == 2 ? s[i] != ':' : !std::isxdigit(static_cast<unsigned char>(s[i]))) {
+            return false;
+        }
+    }
+    return s.size() % 3 == 2;
+}
+
 std::string to_lower(const std::string& s)
 {
     std::string result = s;
@@ -601,6 +613,9 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         if (props.size() == 1) {
             // TODO - for now
             if (to_lower(value) == "sha-256") {
+                if (!is_valid_fingerprint(props[0])) {
+                    return { Error::Code::InvalidData, "Invalid certificate fingerprint" };
+                }
                 certHashAlg = "sha-256";
                 certHashBin = hex_to_bin(props[0]);
                 certHashHex = props[0];
-- 
2.43.0


From f8a68ca7919b636fe118616e805194b2441dcdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 063/103] fix: a valid priority in STUN requests, without
 integer overflow

---
 src/peer_candidate.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 322bac8..7c56d03 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -83,9 +83,9 @@ constexpr auto kConnectRepeatIncrement = std::chrono::milliseconds(100);
 constexpr auto kMaxRecentEnough = std::chrono::milliseconds(5 * 1000);
 
 // https://datatracker.ietf.org/doc/html/rfc5245#section-4.1.2.1
-uint32_t make_stun_priority(int type_preference, int local_preference, uint8_t component_id)
+uint32_t make_stun_priority(uint32_t type_preference, uint32_t local_preference, uint8_t component_id)
 {
-    return (1 << 24) * type_preference + (1 << 8) * local_preference + (256 - component_id);
+    return (1u << 24) * type_preference + (1u << 8) * local_preference + (256u - component_id);
 }
 
 stun::StunMessage make_stun_message_binding_request(const std::shared_ptr<srtc::IceAgent>& agent,
@@ -102,7 +102,8 @@ stun::StunMessage make_stun_message_binding_request(const std::shared_ptr<srtc::
         stun_message_append_flag(&msg, stun::STUN_ATTRIBUTE_USE_CANDIDATE);
     }
 
-    const uint32_t priority = make_stun_priority(200, 10, 1);
+    // The type preference is at most 126, peer reflexive candidates use 110
+    const uint32_t priority = make_stun_priority(110, 10, 1);
     stun::stun_message_append32(&msg, stun::STUN_ATTRIBUTE_PRIORITY, priority);
 
     // https://datatracker.ietf.org/doc/html/rfc5245#section-7.1.2.3
-- 
2.43.0


From dd15be1ea018d80220f0d12173cfa6e9f920eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 064/103] fix: send keep-alive requests while connected

Nothing ever started the keep-alive timer, so a connection without incoming
media went back to connecting every five seconds although the peer answered.
---
 src/peer_candidate.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 7c56d03..9116c53 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1638,6 +1638,11 @@ void PeerCandidate::onReceivedFromRemote()
 
     if (!mIsConnected) {
         mIsConnected = true;
+
+        // Keep checking that the connection is alive even when no media flows
+        mLastSendTime = mLastReceiveTime;
+        updateKeepAliveTimeout();
+
         emitOnDtlsConnected();
     }
 }
@@ -1684,6 +1689,7 @@ void PeerCandidate::updateConnectionLostTimeout()
 void PeerCandidate::onConnectionLostTimeout()
 {
     Task::cancelHelper(mTaskConnectionLostTimeout);
+    Task::cancelHelper(mTaskKeepAliveTimeout);
 
     mIsConnected = false;
 
@@ -1736,6 +1742,8 @@ void PeerCandidate::onKeepAliveTimeout()
 
     LOG(SRTC_LOG_V, "Sending a keep alive STUN request #%u", mUniqueId);
 
+    mLastSendTime = now;
+
     const auto request = make_stun_message_binding_request(
         mIceAgent, mIceMessageBuffer.get(), kIceMessageBufferSize, mOffer, mAnswer, false);
     addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&request) });
-- 
2.43.0


From dd568385c75d7098c8794cff3d0b30175101b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 065/103] fix: retransmit DTLS handshake messages

DTLSv1_handle_timeout() was never called, so a single lost handshake datagram
of ours made the connection fail.
---
 src/peer_candidate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 9116c53..743dc14 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -799,6 +799,9 @@ void PeerCandidate::run()
                 SSL_do_handshake(mDtlsSsl);
             }
         }
+    } else if (mDtlsState == DtlsState::Activating) {
+        // Send the last handshake flight again if it's time
+        DTLSv1_handle_timeout(mDtlsSsl);
     }
 
     // TWCC
-- 
2.43.0


From 566ad7644e99cd549d11370bf3c08781e54e631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 066/103] fix: repeat connection restore requests

The request to restore a lost connection was repeated only after the connect
timeout, so a peer which came back in between was never noticed.
---
 src/peer_candidate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 743dc14..c04a0ff 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -74,6 +74,7 @@ constexpr auto kIceMessageBufferSize = 2048;
 
 constexpr auto kConnectTimeout = std::chrono::milliseconds(5000);
 constexpr auto kConnectionLostTimeout = std::chrono::milliseconds(5000);
+constexpr auto kConnectionRestorePeriod = std::chrono::milliseconds(500);
 constexpr auto kExpireStunPeriod = std::chrono::milliseconds(1000);
 constexpr auto kExpireStunTimeout = std::chrono::milliseconds(5000);
 constexpr auto kKeepAliveCheckTimeout = std::chrono::milliseconds(1000);
@@ -1721,7 +1722,7 @@ void PeerCandidate::sendConnectionRestoreRequest()
 
     Task::cancelHelper(mTaskConnectionRestoreTimeout);
     mTaskConnectionRestoreTimeout =
-        mScheduler.submit(kConnectTimeout, __FILE__, __LINE__, [this] { sendConnectionRestoreRequest(); });
+        mScheduler.submit(kConnectionRestorePeriod, __FILE__, __LINE__, [this] { sendConnectionRestoreRequest(); });
 }
 
 void PeerCandidate::updateKeepAliveTimeout()
-- 
2.43.0


From d7c604b7bd3853092689076fc797743b4b0f8051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 067/103] fix: don't crash when subscribing to data channels
 only

There are no tracks then to send transport-wide feedback with.
---
 src/peer_candidate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index c04a0ff..3513293 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -806,7 +806,7 @@ void PeerCandidate::run()
     }
 
     // TWCC
-    if (mResponderTWCC) {
+    if (mResponderTWCC && !mTrackList.empty()) {
         const auto track = mTrackList.front();
         const auto list = mResponderTWCC->run(track);
         if (!list.empty()) {
-- 
2.43.0


From cc0020dbf9741074f8530fb22886bdac16bfb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 068/103] fix: don't crash sending reports for data channels
 only

An offer without media has no control packet source.
---
 src/peer_candidate.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 3513293..a72ec1b 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -348,7 +348,8 @@ void PeerCandidate::sendPublishReports()
         }
     }
 
-    if (mDirection == Direction::Publish && !mOutstandingReceiverReferenceTimeReportQueue.empty()) {
+    if (mDirection == Direction::Publish && mControlPacketSource &&
+        !mOutstandingReceiverReferenceTimeReportQueue.empty()) {
         // XR - DLRR if we have received RTRR's
         // https://datatracker.ietf.org/doc/html/rfc3611#section-4.5
 
@@ -393,6 +394,11 @@ void PeerCandidate::sendPublishReports()
 void PeerCandidate::sendSubscribeReports()
 {
     const auto source = mControlPacketSource;
+    if (!source) {
+        // There is no media
+        return;
+    }
+
     std::vector<std::shared_ptr<RtcpPacket>> packetList;
 
     if (mDirection == Direction::Subscribe) {
-- 
2.43.0


From 7f3eddb4fb4c5d960bb67c1fafe3398382d3cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 069/103] fix: verify STUN responses before forgetting their
 transactions

A forged response with a known transaction id made the genuine one that
followed unknown, and updated the round trip time.
---
 src/peer_candidate.cpp | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index a72ec1b..5cc1153 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -906,34 +906,35 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
         uint8_t id[STUN_MESSAGE_TRANS_ID_LEN];
         stun::stun_message_id(&incomingMessage, id);
 
+        if (errorCode != 0 || !mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
+            LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+            return;
+        }
+
         float rtt = 0.0f;
         if (mIceAgent->forgetTransaction(id, rtt)) {
             LOG(SRTC_LOG_V, "Removed old STUN transaction ID for binding request, rtt = %.2f", rtt);
 
             mIceRttFilter.update(rtt);
 
-            if (errorCode == 0 && mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
-                if (mSentUseCandidate) {
-                    // Keep-alive
-                    LOG(SRTC_LOG_V, "STUN keep-alive response verification succeeded");
+            if (mSentUseCandidate) {
+                // Keep-alive
+                LOG(SRTC_LOG_V, "STUN keep-alive response verification succeeded");
 
-                    if (mDtlsState == DtlsState::Completed) {
-                        // We are connected again
-                        onReceivedFromRemote();
-                    }
-                } else {
-                    // Initial connection
-                    LOG(SRTC_LOG_V, "STUN binding response verification succeeded, sending use candidate request");
+                if (mDtlsState == DtlsState::Completed) {
+                    // We are connected again
+                    onReceivedFromRemote();
+                }
+            } else {
+                // Initial connection
+                LOG(SRTC_LOG_V, "STUN binding response verification succeeded, sending use candidate request");
 
-                    mSentUseCandidate = true;
+                mSentUseCandidate = true;
 
-                    emitOnIceConnected();
-                    sendStunBindingResponse(0);
+                emitOnIceConnected();
+                sendStunBindingResponse(0);
 
-                    mDtlsState = DtlsState::Activating;
-                }
-            } else {
-                LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+                mDtlsState = DtlsState::Activating;
             }
         }
     }
-- 
2.43.0


From 9b0e55d7aa92d711feadab3334090c5280d0f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 070/103] fix: check the lengths inside STUN messages before
 parsing them

The message length and the attribute lengths were taken as they came,
and a datagram which claimed more than it had made us read past its end.
---
 src/peer_candidate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 5cc1153..615bb13 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -150,7 +150,9 @@ bool is_stun_message(const srtc::ByteBuffer& buf)
             std::memcpy(cookie, buf.data() + 4, 4);
 
             if (std::memcmp(&magic, cookie, 4) == 0) {
-                return true;
+                // The message and all of its attributes have to fit exactly
+                return stun::stun_message_validate_buffer_length(data, buf.size(), true) ==
+                       static_cast<int>(buf.size());
             }
         }
     }
-- 
2.43.0


From 0b44d378f12fe6a3a73b785e81022da13efd2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 071/103] fix: let the STUN method hold any value found in a
 message

The enumeration had no fixed type, so storing a method it doesn't list,
which comes straight from the network, was undefined.
---
 src/stun/stunmessage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stunmessage.h b/src/stun/stunmessage.h
index 77896e7..5044648 100644
--- a/src/stun/stunmessage.h
+++ b/src/stun/stunmessage.h
@@ -125,7 +125,7 @@ typedef enum
  * a STUN message, as defined by various RFCs
  */
 /* Message methods */
-typedef enum
+typedef enum : uint16_t
 {
   STUN_BINDING=0x001,    /* RFC5389 */
   STUN_SHARED_SECRET=0x002,  /* old RFC3489 */
-- 
2.43.0


From b5660d620e79bcbb7db55aad5d52b5f4a9a4c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 072/103] fix: RTP timestamps no longer drift from the
 presentation times

Each frame's increment was truncated and accumulated, up to one tick was lost
per frame. The timestamp is now calculated from the first frame.
---
 include/srtc/rtp_time_source.h | 2 ++
 src/rtp_time_source.cpp        | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/srtc/rtp_time_source.h b/include/srtc/rtp_time_source.h
index 4d74a8e..4f934bf 100644
--- a/include/srtc/rtp_time_source.h
+++ b/include/srtc/rtp_time_source.h
@@ -22,6 +22,8 @@ private:
     RandomGenerator<uint32_t> mRandom;
     const uint32_t mClockRate;
 
+    int64_t mBasePts;
+    uint32_t mBaseRtp;
     std::optional<int64_t> mCurrPts;
     std::chrono::steady_clock::time_point mCurrTime;
     uint32_t mCurrRtp;
diff --git a/src/rtp_time_source.cpp b/src/rtp_time_source.cpp
index 5158bfe..9069fcc 100644
--- a/src/rtp_time_source.cpp
+++ b/src/rtp_time_source.cpp
@@ -7,6 +7,8 @@ namespace srtc
 RtpTimeSource::RtpTimeSource(uint32_t clockRate)
     : mRandom(0, std::numeric_limits<int32_t>::max())
     , mClockRate(clockRate)
+    , mBasePts(0)
+    , mBaseRtp(0)
     , mCurrTime(std::chrono::steady_clock::now())
     , mCurrRtp(mRandom.next())
 {
@@ -17,6 +19,8 @@ RtpTimeSource::~RtpTimeSource() = default;
 uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
 {
     if (!mCurrPts.has_value()) {
+        mBasePts = pts;
+        mBaseRtp = mCurrRtp;
         mCurrPts = pts;
     }
 
@@ -26,7 +30,10 @@ uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
         return mCurrRtp;
     }
 
-    mCurrRtp += static_cast<uint32_t>(elapsed_usec * mClockRate / 1000000);
+    // Always from the base, so that rounding errors do not add up
+    const auto since_base_usec = pts - mBasePts;
+    mCurrRtp = mBaseRtp + static_cast<uint32_t>(since_base_usec / 1000000 * mClockRate +
+                                                since_base_usec % 1000000 * mClockRate / 1000000);
     mCurrPts = pts;
     mCurrTime = std::chrono::steady_clock::now();
 
-- 
2.43.0


From 215c9bbac638a6cddf8e3a1e37fd2536341ed757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 073/103] fix: SRTCP indices are never used twice with an SSRC

Sender reports and DLRR reports have the SSRC of the same track but each had a
sequence of its own, and the PLI and NACK messages of all tracks share an SSRC
with a sequence per track: the same key, salt and index protected different
packets, and receivers drop the second one as replayed. The index is now kept
by SSRC.
---
 include/srtc/peer_candidate.h |  9 ++++-----
 include/srtc/track.h          |  3 ---
 src/peer_candidate.cpp        | 37 ++++++++++++-----------------------
 src/peer_connection.cpp       |  2 --
 src/track.cpp                 |  7 -------
 5 files changed, 17 insertions(+), 41 deletions(-)

diff --git a/include/srtc/peer_candidate.h b/include/srtc/peer_candidate.h
index 31a1288..fc3a832 100644
--- a/include/srtc/peer_candidate.h
+++ b/include/srtc/peer_candidate.h
@@ -14,6 +14,7 @@
 #include <list>
 #include <memory>
 #include <mutex>
+#include <unordered_map>
 #include <vector>
 
 struct ssl_st;
@@ -36,7 +37,6 @@ class IceAgent;
 class SendRtpHistory;
 class SrtpConnection;
 class RtcpPacket;
-class RtcpPacketMulti;
 class EventLoop;
 class RtpExtensionSourceSimulcast;
 class RtpExtensionSourceTWCC;
@@ -127,10 +127,8 @@ private:
 
     void forgetExpiredStunRequests();
 
-    void sendRtcpPacket(const std::shared_ptr<Track>& track, const std::shared_ptr<RtcpPacket>& packet);
-    void sendRtcpPacket(const std::shared_ptr<RtcpPacketSource>& source, const std::shared_ptr<RtcpPacket>& packet);
-    void sendRtcpPacket(const std::shared_ptr<RtcpPacketSource>& source,
-                        const std::shared_ptr<RtcpPacketMulti>& packet);
+    void sendRtcpPacket(const std::shared_ptr<RtcpPacket>& packet);
+    void sendRtcpPacket(uint32_t ssrc, const ByteBuffer& packetData);
 
     [[nodiscard]] std::shared_ptr<Track> findReceiveTrack(uint32_t ssrc) const;
     [[nodiscard]] std::shared_ptr<Track> findReceiveTrack(ByteBuffer& packet) const;
@@ -165,6 +163,7 @@ private:
     mutable std::chrono::steady_clock::time_point mPrevStatsTime = {};
 
     std::shared_ptr<SrtpConnection> mSrtpConnection;
+    std::unordered_map<uint32_t, std::shared_ptr<RtcpPacketSource>> mRtcpPacketSourceMap; // by SSRC
     std::shared_ptr<SendPacer> mSendPacer;
     std::shared_ptr<sctp::SctpSession> mSctpSession;
 
diff --git a/include/srtc/track.h b/include/srtc/track.h
index 3f01001..c1be119 100644
--- a/include/srtc/track.h
+++ b/include/srtc/track.h
@@ -9,7 +9,6 @@
 namespace srtc
 {
 
-class RtcpPacketSource;
 class RtpTimeSource;
 class RtpPacketSource;
 class Media;
@@ -66,7 +65,6 @@ public:
     [[nodiscard]] uint32_t getSSRC() const;
     [[nodiscard]] uint32_t getRtxSSRC() const;
 
-    [[nodiscard]] std::shared_ptr<RtcpPacketSource> getRtcpPacketSource() const;
     [[nodiscard]] std::shared_ptr<RtpTimeSource> getRtpTimeSource() const;
     [[nodiscard]] std::shared_ptr<RtpPacketSource> getRtpPacketSource() const;
     [[nodiscard]] std::shared_ptr<RtpPacketSource> getRtxPacketSource() const;
@@ -86,7 +84,6 @@ private:
     const uint32_t mClockRate;
     const bool mHasNack;
     const bool mHasPli;
-    const std::shared_ptr<RtcpPacketSource> mRtcpPacketSource;
     const std::shared_ptr<RtpTimeSource> mRtpTimeSource;
     const std::shared_ptr<RtpPacketSource> mRtpPacketSource;
     const std::shared_ptr<RtpPacketSource> mRtxPacketSource;
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 615bb13..bd67f46 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -342,7 +342,7 @@ void PeerCandidate::sendPublishReports()
 
                     const auto packet =
                         std::make_shared<RtcpPacket>(ssrc, 0, RtcpPacket::kSenderReport, std::move(payload));
-                    sendRtcpPacket(track, packet);
+                    sendRtcpPacket(packet);
 
                     mSenderReportsHistory->save(ssrc, ntp);
                 }
@@ -387,7 +387,7 @@ void PeerCandidate::sendPublishReports()
         const auto source = mControlPacketSource;
         const auto packet =
             std::make_shared<RtcpPacket>(source->getSSRC(), 0, RtcpPacket::kExtendedReport, std::move(payload));
-        sendRtcpPacket(source, packet);
+        sendRtcpPacket(packet);
 
         mOutstandingReceiverReferenceTimeReportQueue.erase(mOutstandingReceiverReferenceTimeReportQueue.begin(), iter);
     }
@@ -473,7 +473,7 @@ void PeerCandidate::sendSubscribeReports()
 
     if (!packetList.empty()) {
         const auto multi = std::make_shared<RtcpPacketMulti>(packetList);
-        sendRtcpPacket(source, multi);
+        sendRtcpPacket(source->getSSRC(), multi->generate());
     }
 }
 
@@ -504,7 +504,7 @@ void PeerCandidate::sendPictureLossIndicator(const std::shared_ptr<Track>& track
         w.writeU32(ssrc);
 
         const auto packet = std::make_shared<RtcpPacket>(0, 1, RtcpPacket::kPayloadSpecific, std::move(payload));
-        sendRtcpPacket(track, packet);
+        sendRtcpPacket(packet);
     }
 }
 
@@ -547,7 +547,7 @@ void PeerCandidate::sendNacks(const std::shared_ptr<Track>& track, const std::ve
             blp);
 
         const auto packet = std::make_shared<RtcpPacket>(0, 1, RtcpPacket::kFeedback, std::move(payload));
-        sendRtcpPacket(track, packet);
+        sendRtcpPacket(packet);
     }
 }
 
@@ -819,7 +819,7 @@ void PeerCandidate::run()
         const auto list = mResponderTWCC->run(track);
         if (!list.empty()) {
             for (const auto& packet : list) {
-                sendRtcpPacket(track, packet);
+                sendRtcpPacket(packet);
             }
         }
     }
@@ -1408,30 +1408,19 @@ void PeerCandidate::forgetExpiredStunRequests()
         mScheduler.submit(kExpireStunPeriod, __FILE__, __LINE__, [this] { forgetExpiredStunRequests(); });
 }
 
-void PeerCandidate::sendRtcpPacket(const std::shared_ptr<Track>& track, const std::shared_ptr<RtcpPacket>& packet)
+void PeerCandidate::sendRtcpPacket(const std::shared_ptr<RtcpPacket>& packet)
 {
-    const auto source = track->getRtcpPacketSource();
-    sendRtcpPacket(source, packet);
+    sendRtcpPacket(packet->getSSRC(), packet->generate());
 }
 
-void PeerCandidate::sendRtcpPacket(const std::shared_ptr<RtcpPacketSource>& source,
-                                   const std::shared_ptr<RtcpPacket>& packet)
+void PeerCandidate::sendRtcpPacket(uint32_t ssrc, const ByteBuffer& packetData)
 {
     if (mSrtpConnection) {
-        const auto packetData = packet->generate();
-
-        if (mSrtpConnection->protectSendControl(packetData, source->getNextSequence(), mProtectedBuf)) {
-            const auto w = mSocket->send(mProtectedBuf.data(), mProtectedBuf.size());
-            LOG(SRTC_LOG_V, "Sent %zu bytes of RTCP", w);
+        // An index must never be used twice with the same SSRC, whichever track or report the packet belongs to
+        auto& source = mRtcpPacketSourceMap[ssrc];
+        if (!source) {
+            source = std::make_shared<RtcpPacketSource>(ssrc);
         }
-    }
-}
-
-void PeerCandidate::sendRtcpPacket(const std::shared_ptr<RtcpPacketSource>& source,
-                                   const std::shared_ptr<RtcpPacketMulti>& packet)
-{
-    if (mSrtpConnection) {
-        const auto packetData = packet->generate();
 
         if (mSrtpConnection->protectSendControl(packetData, source->getNextSequence(), mProtectedBuf)) {
             const auto w = mSocket->send(mProtectedBuf.data(), mProtectedBuf.size());
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index afc8eaf..67629a3 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -8,7 +8,6 @@
 #include "srtc/media.h"
 #include "srtc/packetizer.h"
 #include "srtc/peer_candidate.h"
-#include "srtc/rtcp_packet_source.h"
 #include "srtc/sdp_answer.h"
 #include "srtc/srtc.h"
 #include "srtc/srtp_connection.h"
@@ -956,7 +955,6 @@ void PeerConnection::onCandidateIceConnected(PeerCandidate* candidate)
 
         trackItem->getRtpPacketSource()->clear();
         trackItem->getRtxPacketSource()->clear();
-        trackItem->getRtcpPacketSource()->clear();
     }
 
     Task::cancelHelper(mTaskReports);
diff --git a/src/track.cpp b/src/track.cpp
index 6e02317..bd0d0c9 100644
--- a/src/track.cpp
+++ b/src/track.cpp
@@ -1,7 +1,6 @@
 #include "srtc/track.h"
 
 #include "srtc/media.h"
-#include "srtc/rtcp_packet_source.h"
 #include "srtc/rtp_packet_source.h"
 #include "srtc/rtp_time_source.h"
 #include "srtc/track_stats.h"
@@ -35,7 +34,6 @@ Track::Track(const std::shared_ptr<Media>& media,
     , mClockRate(clockRate)
     , mHasNack(hasNack)
     , mHasPli(hasPli)
-    , mRtcpPacketSource(std::make_shared<RtcpPacketSource>(mSSRC))
     , mRtpTimeSource(std::make_shared<RtpTimeSource>(clockRate))
     , mRtpPacketSource(std::make_shared<RtpPacketSource>(mSSRC, mPayloadId))
     , mRtxPacketSource(std::make_shared<RtpPacketSource>(mRtxSSRC, mRtxPayloadId))
@@ -113,11 +111,6 @@ uint32_t Track::getRtxSSRC() const
     return mRtxSSRC;
 }
 
-std::shared_ptr<RtcpPacketSource> Track::getRtcpPacketSource() const
-{
-    return mRtcpPacketSource;
-}
-
 std::shared_ptr<RtpPacketSource> Track::getRtpPacketSource() const
 {
     return mRtpPacketSource;
-- 
2.43.0


From bc12d2680466aaa131e1b1428d0888d8879b30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 074/103] fix: sender reports count the packets and payload
 octets of their SSRC

They counted retransmissions on the RTX SSRC as well, and headers, padding and
authentication tags as payload.
---
 include/srtc/track_stats.h |  7 +++++++
 src/peer_candidate.cpp     |  7 +++++--
 src/send_pacer.cpp         |  1 +
 src/track_stats.cpp        | 20 ++++++++++++++++++++
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/srtc/track_stats.h b/include/srtc/track_stats.h
index d0bbcfc..756a000 100644
--- a/include/srtc/track_stats.h
+++ b/include/srtc/track_stats.h
@@ -21,9 +21,14 @@ public:
     [[nodiscard]] size_t getSentPackets() const;
     [[nodiscard]] size_t getSentBytes() const;
 
+    // Without retransmissions on the RTX SSRC, and without headers, padding and protection: for sender reports
+    [[nodiscard]] size_t getSentMediaPackets() const;
+    [[nodiscard]] size_t getSentMediaPayloadBytes() const;
+
     void incrementSentFrames(size_t increment);
     void incrementSentPackets(size_t increment);
     void incrementSentBytes(size_t increment);
+    void incrementSentMedia(size_t payloadSize);
 
     [[nodiscard]] size_t getReceivedFrames() const;
 	[[nodiscard]] size_t getReceivedPackets() const;
@@ -45,6 +50,8 @@ private:
     size_t mSentFrames;
     size_t mSentPackets;
     size_t mSentBytes;
+    size_t mSentMediaPackets;
+    size_t mSentMediaPayloadBytes;
     size_t mReceivedFrames;
     size_t mReceivedPackets;
     size_t mReceivedBytes;
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index bd67f46..f365f16 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -337,8 +337,8 @@ void PeerCandidate::sendPublishReports()
                     w.writeU32(ntp.fraction);
                     w.writeU32(rtpTime);
 
-                    w.writeU32(static_cast<uint32_t>(stats->getSentPackets()));
-                    w.writeU32(static_cast<uint32_t>(stats->getSentBytes()));
+                    w.writeU32(static_cast<uint32_t>(stats->getSentMediaPackets()));
+                    w.writeU32(static_cast<uint32_t>(stats->getSentMediaPayloadBytes()));
 
                     const auto packet =
                         std::make_shared<RtcpPacket>(ssrc, 0, RtcpPacket::kSenderReport, std::move(payload));
@@ -1330,6 +1330,9 @@ void PeerCandidate::onReceivedControlMessage_NACK(uint32_t ssrc, ByteReader& rtc
                     const auto stats = packet->getTrack()->getStats();
                     stats->incrementSentPackets(1);
                     stats->incrementSentBytes(mProtectedBuf.size());
+                    if (track->getRtxPayloadId() == 0) {
+                        stats->incrementSentMedia(packet->getPayloadSize());
+                    }
                 } else {
                     LOG(SRTC_LOG_E, "Error protecting packet for re-sending");
                 }
diff --git a/src/send_pacer.cpp b/src/send_pacer.cpp
index 0a88df6..ee4208d 100644
--- a/src/send_pacer.cpp
+++ b/src/send_pacer.cpp
@@ -159,6 +159,7 @@ void SendPacer::sendImpl(const std::shared_ptr<RtpPacket>& packet)
 
         stats->incrementSentPackets(1);
         stats->incrementSentBytes(protectedData.size());
+        stats->incrementSentMedia(packet->getPayloadSize());
 
         // Record in TWCC
         if (mTWCC) {
diff --git a/src/track_stats.cpp b/src/track_stats.cpp
index 6e704fc..e4bec48 100644
--- a/src/track_stats.cpp
+++ b/src/track_stats.cpp
@@ -7,6 +7,8 @@ TrackStats::TrackStats()
     : mSentFrames(0)
     , mSentPackets(0)
     , mSentBytes(0)
+    , mSentMediaPackets(0)
+    , mSentMediaPayloadBytes(0)
     , mReceivedFrames(0)
     , mReceivedPackets(0)
     , mReceivedBytes(0)
@@ -21,6 +23,8 @@ void TrackStats::clear()
     mSentFrames = 0;
     mSentPackets = 0;
     mSentBytes = 0;
+    mSentMediaPackets = 0;
+    mSentMediaPayloadBytes = 0;
     mReceivedFrames = 0;
     mReceivedPackets = 0;
     mReceivedBytes = 0;
@@ -42,6 +46,16 @@ size_t TrackStats::getSentBytes() const
     return mSentBytes;
 }
 
+size_t TrackStats::getSentMediaPackets() const
+{
+    return mSentMediaPackets;
+}
+
+size_t TrackStats::getSentMediaPayloadBytes() const
+{
+    return mSentMediaPayloadBytes;
+}
+
 void TrackStats::incrementSentFrames(size_t increment)
 {
     mSentFrames += increment;
@@ -57,6 +71,12 @@ void TrackStats::incrementSentBytes(size_t increment)
     mSentBytes += increment;
 }
 
+void TrackStats::incrementSentMedia(size_t payloadSize)
+{
+    mSentMediaPackets += 1;
+    mSentMediaPayloadBytes += payloadSize;
+}
+
 size_t TrackStats::getReceivedFrames() const
 {
     return mReceivedFrames;
-- 
2.43.0


From b1e2402b474ab001c9af7921ff4277c7bfdbb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 075/103] fix: the round trip time from control reports is not
 doubled

The time since the report was sent, less the delay the peer states, is the
whole round trip already.
---
 src/receiver_reference_time_reports_history.cpp | 4 ++--
 src/sender_reports_history.cpp                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/receiver_reference_time_reports_history.cpp b/src/receiver_reference_time_reports_history.cpp
index e0c757b..f0c570d 100644
--- a/src/receiver_reference_time_reports_history.cpp
+++ b/src/receiver_reference_time_reports_history.cpp
@@ -43,8 +43,8 @@ std::optional<float> ReceiverReferenceTimeReportsHistory::calculateRtt(uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // From our sending the report to our receiving the response, less the delay at the other side
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
diff --git a/src/sender_reports_history.cpp b/src/sender_reports_history.cpp
index fa784b6..993d5cf 100644
--- a/src/sender_reports_history.cpp
+++ b/src/sender_reports_history.cpp
@@ -41,8 +41,8 @@ std::optional<float> SenderReportsHistory::calculateRtt(uint32_t ssrc, uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // From our sending the report to our receiving the response, less the delay at the other side
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
-- 
2.43.0


From 1e6213b430c26a7b2728d20ad43db5136098be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 076/103] fix: simulcast layers are labelled with those
 extensions the peer accepted

Without any one of the media id, the stream id and the layer allocation the
other two were not sent either, so that a receiver could not tell the layers
apart.
---
 src/rtp_extension_source_simulcast.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rtp_extension_source_simulcast.cpp b/src/rtp_extension_source_simulcast.cpp
index d931cf8..c02a0f5 100644
--- a/src/rtp_extension_source_simulcast.cpp
+++ b/src/rtp_extension_source_simulcast.cpp
@@ -41,7 +41,7 @@ bool RtpExtensionSourceSimulcast::shouldAdd(const std::shared_ptr<Track>& track,
         mCurExtStreamId = extensionMap.findByName(RtpStandardExtensions::kExtSdesRtpStreamId);
         mCurExtGoogleVLA = extensionMap.findByName(RtpStandardExtensions::kExtGoogleVLA);
 
-        if (mCurExtMediaId > 0 && mCurExtStreamId > 0 && mCurExtGoogleVLA > 0) {
+        if (mCurExtMediaId > 0 || mCurExtStreamId > 0 || mCurExtGoogleVLA > 0) {
             const auto stats = track->getStats();
             return stats->getSentPackets() < 100 || packetizer->isKeyFrame(frame);
         }
@@ -77,7 +77,7 @@ bool RtpExtensionSourceSimulcast::wantsExtension([[maybe_unused]] const std::sha
                                                  [[maybe_unused]] bool isKeyFrame,
                                                  [[maybe_unused]] unsigned int packetNumber) const
 {
-    return !mCurGoogleVLA.empty();
+    return !mCurLayerName.empty();
 }
 
 void RtpExtensionSourceSimulcast::addExtension(RtpExtensionBuilder& builder,
@@ -85,9 +85,16 @@ void RtpExtensionSourceSimulcast::addExtension(RtpExtensionBuilder& builder,
                                                [[maybe_unused]] bool isKeyFrame,
                                                [[maybe_unused]] unsigned int packetNumber)
 {
-    builder.addStringValue(mCurExtMediaId, mCurMediaId);
-    builder.addStringValue(mCurExtStreamId, mCurLayerName);
-    builder.addBinaryValue(mCurExtGoogleVLA, mCurGoogleVLA);
+    // Those which the peer accepted
+    if (mCurExtMediaId > 0) {
+        builder.addStringValue(mCurExtMediaId, mCurMediaId);
+    }
+    if (mCurExtStreamId > 0) {
+        builder.addStringValue(mCurExtStreamId, mCurLayerName);
+    }
+    if (mCurExtGoogleVLA > 0) {
+        builder.addBinaryValue(mCurExtGoogleVLA, mCurGoogleVLA);
+    }
 }
 
 void RtpExtensionSourceSimulcast::updateForRtx(RtpExtensionBuilder& builder, const std::shared_ptr<Track>& track) const
-- 
2.43.0


From ca6d4a3c618c697110bb89b8914fc31d65774669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 077/103] fix: AV1 frames which start with other than frame
 OBUs are received whole

---
 src/depacketizer_av1.cpp | 41 ++--------------------------------------
 1 file changed, 2 insertions(+), 39 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 58274a0..e18705d 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -176,46 +176,9 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
         // |Z|Y|WW|N|-|-|-|
         const auto packetHeader = reader.readU8();
         const auto valueZ = (packetHeader & (1 << 7)) != 0;
-        if (valueZ) {
-            return false;
-        }
-
-        const auto valueW = (packetHeader >> 4) & 0x03u;
-        auto obuIndex = 0u;
-
-        while (reader.remaining() >= 1) {
-            // Size unless it's the last OBU and we are told there is no size
-            size_t obuSize;
-            if (valueW != 0 && obuIndex == valueW - 1) {
-                obuSize = reader.remaining();
-            } else {
-                obuSize = reader.readLEB128();
-            }
 
-            if (reader.remaining() >= 1 && obuSize >= 1) {
-                // https://aomediacodec.github.io/av1-spec/#obu-header-syntax
-                const auto obuHeader = reader.readU8();
-                const auto obuType = static_cast<uint8_t>((obuHeader >> 3) & 0x0Fu);
-
-                if (obuType == av1::ObuType::SequenceHeader) {
-                    return true;
-                }
-                if (av1::isFrameObuType(obuType)) {
-                    return true;
-                }
-
-                obuSize -= 1;
-            }
-
-            if (valueW != 0 && obuIndex == valueW - 1) {
-                // Reached the last one
-                break;
-            }
-
-            // Advance
-            reader.skip(obuSize);
-            obuIndex += 1;
-        }
+        // A temporal unit can start with any type of OBU, including metadata
+        return !valueZ;
     }
 
     return false;
-- 
2.43.0


From 024cbe5272affb8cda7e08ea7a9ec4dc4f80b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 078/103] fix: only the first AV1 OBU of a packet continues the
 one before it

---
 src/depacketizer_av1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index e18705d..74bb910 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -125,8 +125,8 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                 }
 
                 if (reader.remaining() >= obuSize && obuSize > 0) {
-                    if (!valueZ) {
-                        // Start of a new OBU
+                    if (!valueZ || obuIndex > 0) {
+                        // Start of a new OBU, Z applies to the first one in the packet
                         bufferedObu.flushTo(w);
 
                         const auto obuHeader = reader.readU8();
-- 
2.43.0


From 41996fd268da3e0cefe7c71e1313f7582fba819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 079/103] fix: AV1 OBU of one byte that announces an extension
 is not read past its end

---
 src/depacketizer_av1.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 74bb910..bd26496 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -135,7 +135,13 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                         const auto obuHasExtension = (obuHeader >> 2) & 0x01;
 
                         bufferedObu.setHeader(obuHeader);
-                        if (obuHasExtension && reader.remaining() >= 1) {
+                        if (obuHasExtension) {
+                            if (obuSize == 0) {
+                                // Malformed, there is no extension byte
+                                bufferedObu.setHeader(0);
+                                break;
+                            }
+
                             const auto obuExtension = reader.readU8();
                             obuSize -= 1;
 
-- 
2.43.0


From 87d8e440b6dbc743194c80c1e598cdecd716e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 080/103] fix: an AV1 frame whose first packets are lost is not
 passed on without them

---
 include/srtc/depacketizer_av1.h |  5 +++++
 src/depacketizer_av1.cpp        | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/srtc/depacketizer_av1.h b/include/srtc/depacketizer_av1.h
index 607cb9a..9cbbaf6 100644
--- a/include/srtc/depacketizer_av1.h
+++ b/include/srtc/depacketizer_av1.h
@@ -2,6 +2,8 @@
 
 #include "srtc/depacketizer_video.h"
 
+#include <optional>
+
 namespace srtc
 {
 
@@ -20,6 +22,9 @@ protected:
 
 private:
     bool mSeenNewSequence;
+    std::optional<uint64_t> mLastSeq; // last packet of the last frame
+
+    [[nodiscard]] bool isFrameStartMissing(const JitterBufferItem* first) const;
 
     void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& frame);
 };
diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index bd26496..5c44802 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -87,12 +87,21 @@ DepacketizerAV1::~DepacketizerAV1() = default;
 void DepacketizerAV1::reset()
 {
     mSeenNewSequence = false;
+    mLastSeq.reset();
 }
 
 void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<const JitterBufferItem*>& packetList)
 {
     out.clear();
 
+    const auto startMissing = isFrameStartMissing(packetList.front());
+    mLastSeq = packetList.back()->seq_ext;
+
+    if (startMissing) {
+        LOG(SRTC_LOG_V, "Not emitting a frame which may have lost its first packets");
+        return;
+    }
+
     ByteBuffer buf;
     ByteWriter w(buf);
 
@@ -173,6 +182,16 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
     }
 }
 
+// A packet which does not continue an OBU can still be from the middle of a frame, unless it starts a new coded video
+// sequence or the packet before it ended another frame
+bool DepacketizerAV1::isFrameStartMissing(const JitterBufferItem* first) const
+{
+    const auto valueN = !first->payload.empty() && (first->payload.data()[0] & (1 << 3)) != 0;
+    const auto contiguous = mLastSeq.has_value() && mLastSeq.value() + 1 == first->seq_ext;
+
+    return !valueN && !contiguous;
+}
+
 bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
 {
     ByteReader reader(payload);
-- 
2.43.0


From 92ff3b4104f7d1aae5d2dc31396ad0c5a33656a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 081/103] fix: H264 and H265 frames which start with a
 delimiter or SEI are received

Their packets were not taken for the start of a frame, and the slices after
them not for its continuation, which lost such frames.
---
 include/srtc/codec_h264.h | 1 +
 include/srtc/codec_h265.h | 3 +++
 src/depacketizer_h264.cpp | 4 ++++
 src/depacketizer_h265.cpp | 6 ++++++
 4 files changed, 14 insertions(+)

diff --git a/include/srtc/codec_h264.h b/include/srtc/codec_h264.h
index cf6e883..a363a06 100644
--- a/include/srtc/codec_h264.h
+++ b/include/srtc/codec_h264.h
@@ -24,6 +24,7 @@ static constexpr uint8_t KeyFrame = 5;
 static constexpr uint8_t SEI = 6;
 static constexpr uint8_t SPS = 7;
 static constexpr uint8_t PPS = 8;
+static constexpr uint8_t AUD = 9;
 }; // namespace NaluType
 
 class NaluParser
diff --git a/include/srtc/codec_h265.h b/include/srtc/codec_h265.h
index 4c72931..9c23179 100644
--- a/include/srtc/codec_h265.h
+++ b/include/srtc/codec_h265.h
@@ -22,6 +22,9 @@ static constexpr uint8_t KeyFrame21 = 21; // CRA_NUT
 static constexpr uint8_t VPS = 32;
 static constexpr uint8_t SPS = 33;
 static constexpr uint8_t PPS = 34;
+
+static constexpr uint8_t AUD = 35;
+static constexpr uint8_t SEIPrefix = 39;
 }; // namespace NaluType
 
 //////////
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 211449b..2e8df0d 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -25,6 +25,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with SPS
         return true;
     }
+    if (naluType == srtc::h264::NaluType::AUD || naluType == srtc::h264::NaluType::SEI) {
+        // These come before the slices of a frame, and before the SPS too
+        return true;
+    }
     if (naluType == srtc::h264::NaluType::NonKeyFrame && size > 0) {
         // Non-key frames start first_mb_in_slice == 0
         if (srtc::h264::isSliceFrameStart(data, size)) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0e677c3..52e9425 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -26,6 +26,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with VPS
         return true;
     }
+    if (naluType == srtc::h265::NaluType::AUD || naluType == srtc::h265::NaluType::SEIPrefix) {
+        // These come before the slices of a frame, and before the VPS too
+        return true;
+    }
     if (!srtc::h265::isKeyFrameNalu(naluType) && srtc::h265::isSliceNalu(naluType) && size > 0) {
         // Non-key frames start with an indicator bit
         if (srtc::h265::isSliceFrameStart(data, size)) {
@@ -136,6 +140,8 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
                     if (size > 2 && isFrameStartImpl(static_cast<uint8_t>(apNaluType), apData + 2, size - 2)) {
                         return true;
                     }
+
+                    reader.skip(size);
                 } else {
                     break;
                 }
-- 
2.43.0


From b14cfcc07684f587a779e91882f95aded8d8aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 082/103] fix: H264 and H265 fragments without a start are
 ignored and not a crash

---
 src/depacketizer_h264.cpp | 5 ++++-
 src/depacketizer_h265.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 2e8df0d..0861f0d 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -105,12 +105,15 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU8(static_cast<uint8_t>(nri | fuNaluType));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (reader.remaining() > 0 && fu_wrt) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 52e9425..6da8e1b 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -105,12 +105,15 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU16(static_cast<uint16_t>((fuType << 9) | (layerId << 3) | temporalId));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (reader.remaining() > 0 && fu_wrt) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
-- 
2.43.0


From 39bdcf59a42c991cd9b246d2675e54879825e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:24 +0000
Subject: [PATCH 083/103] fix: H264 and H265 frames whose last packet is an
 aggregate are received as one

Each unit of an aggregate with the marker was taken for a frame. The last unit
of an H264 frame can also be a single byte (end of sequence).
---
 include/srtc/depacketizer_h264.h |  2 +-
 include/srtc/depacketizer_h265.h |  2 +-
 src/depacketizer_h264.cpp        | 30 +++++++++++++++++++-----------
 src/depacketizer_h265.cpp        | 28 ++++++++++++++++++----------
 4 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/include/srtc/depacketizer_h264.h b/include/srtc/depacketizer_h264.h
index c20ce6a..3912714 100644
--- a/include/srtc/depacketizer_h264.h
+++ b/include/srtc/depacketizer_h264.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    bool extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/include/srtc/depacketizer_h265.h b/include/srtc/depacketizer_h265.h
index 941f89c..2617dd0 100644
--- a/include/srtc/depacketizer_h265.h
+++ b/include/srtc/depacketizer_h265.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    bool extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 0861f0d..5191189 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -68,10 +68,12 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
     std::unique_ptr<ByteBuffer> fu_buf;
     std::unique_ptr<ByteWriter> fu_wrt;
 
+    auto skip = false;
+
     for (const auto packet : packetList) {
         ByteReader reader(packet->payload);
 
-        if (reader.remaining() > 1) {
+        if (reader.remaining() >= 1) {
             const auto indicator = reader.readU8();
 
             // https://datatracker.ietf.org/doc/html/rfc6184#section-5.4
@@ -85,7 +87,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size > 0) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        skip |= !extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -110,7 +112,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        skip |= !extractImpl(packet, std::move(*fu_buf));
 
                         fu_wrt.reset();
                         fu_buf.reset();
@@ -118,8 +120,17 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                 }
             } else if (type < 23) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
-                extractImpl(out, packet, packet->payload.copy());
+                skip |= !extractImpl(packet, packet->payload.copy());
+            }
+        }
+
+        if (packet->marker) {
+            if (!skip && !mFrameBuffer.empty()) {
+                out.push_back(std::move(mFrameBuffer));
             }
+
+            mFrameBuffer.clear();
+            skip = false;
         }
     }
 }
@@ -182,10 +193,10 @@ bool DepacketizerH264::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+bool DepacketizerH264::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return true;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -203,7 +214,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h264::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -217,10 +228,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
+    return true;
 }
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 6da8e1b..0b67669 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -69,6 +69,8 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
     std::unique_ptr<ByteBuffer> fu_buf;
     std::unique_ptr<ByteWriter> fu_wrt;
 
+    auto skip = false;
+
     for (const auto packet : packetList) {
         ByteReader reader(packet->payload);
         if (reader.remaining() >= 2) {
@@ -84,7 +86,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size >= 2) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        skip |= !extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -110,7 +112,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        skip |= !extractImpl(packet, std::move(*fu_buf));
 
                         fu_wrt.reset();
                         fu_buf.reset();
@@ -118,8 +120,17 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                 }
             } else if (type <= 40) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.1
-                extractImpl(out, packet, packet->payload.copy());
+                skip |= !extractImpl(packet, packet->payload.copy());
+            }
+        }
+
+        if (packet->marker) {
+            if (!skip && !mFrameBuffer.empty()) {
+                out.push_back(std::move(mFrameBuffer));
             }
+
+            mFrameBuffer.clear();
+            skip = false;
         }
     }
 }
@@ -179,10 +190,10 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+bool DepacketizerH265::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return true;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -203,7 +214,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h265::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -217,10 +228,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
+    return true;
 }
 
 } // namespace srtc
\ No newline at end of file
-- 
2.43.0


From a09205e80ff2927d977fda3b7e1d4a8ad314f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:23 +0000
Subject: [PATCH 084/103] fix: receiver reports carry the highest sequence
 number received

It counted one cycle too many, followed retransmissions (which have numbers of
their own) and late packets, and outlived the connection.
---
 include/srtc/track_stats.h |  3 +--
 src/peer_connection.cpp    |  5 ++++-
 src/track_stats.cpp        | 19 +++++++++++++------
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/srtc/track_stats.h b/include/srtc/track_stats.h
index 756a000..257b9b8 100644
--- a/include/srtc/track_stats.h
+++ b/include/srtc/track_stats.h
@@ -4,7 +4,6 @@
 #include <optional>
 
 #include "srtc/sender_report.h"
-#include "srtc/extended_value.h"
 
 namespace srtc
 {
@@ -56,7 +55,7 @@ private:
     size_t mReceivedPackets;
     size_t mReceivedBytes;
     size_t mReceivedPacketsLost;
-	ExtendedValue<uint16_t> mReceivedHighestSeq;
+	std::optional<uint64_t> mReceivedHighestSeq;
 	std::optional<SenderReport> mReceivedSenderReport;
 };
 
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 67629a3..b4fe6c6 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -1058,7 +1058,10 @@ void PeerConnection::onCandidateReceivedMediaPacket([[maybe_unused]] PeerCandida
         const auto track = packet->getTrack();
 
         const auto stats = track->getStats();
-        stats->setHighestReceivedSeq(packet->getSequence());
+        if (packet->getSSRC() == track->getSSRC()) {
+            // Retransmissions have sequence numbers of their own
+            stats->setHighestReceivedSeq(packet->getSequence());
+        }
 
         for (const auto& trackEntry : mTrackEntryList) {
             if (trackEntry.track == track) {
diff --git a/src/track_stats.cpp b/src/track_stats.cpp
index e4bec48..6628961 100644
--- a/src/track_stats.cpp
+++ b/src/track_stats.cpp
@@ -29,6 +29,8 @@ void TrackStats::clear()
     mReceivedPackets = 0;
     mReceivedBytes = 0;
     mReceivedPacketsLost = 0;
+    mReceivedHighestSeq.reset();
+    mReceivedSenderReport.reset();
 }
 
 size_t TrackStats::getSentFrames() const
@@ -99,16 +101,21 @@ size_t TrackStats::getReceivedPacketsLost() const
 
 void TrackStats::setHighestReceivedSeq(uint16_t seq)
 {
-    (void)mReceivedHighestSeq.extend(seq);
+    if (!mReceivedHighestSeq.has_value()) {
+        mReceivedHighestSeq = seq;
+        return;
+    }
+
+    // The count of cycles starts at 0, and packets which come late do not take the value back
+    const auto delta = static_cast<int16_t>(seq - static_cast<uint16_t>(mReceivedHighestSeq.value()));
+    if (delta > 0) {
+        mReceivedHighestSeq = mReceivedHighestSeq.value() + delta;
+    }
 }
 
 uint64_t TrackStats::getReceivedHighestSeqEx() const
 {
-    const auto value = mReceivedHighestSeq.get();
-    if (value.has_value()) {
-        return value.value();
-    }
-    return 0;
+    return mReceivedHighestSeq.value_or(0);
 }
 
 void TrackStats::incrementReceivedFrames(size_t increment)
-- 
2.43.0


From 06be83a7d1fc2215473a2b0ce75d5da69512c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 085/103] fix: malformed exp-Golomb codes no longer cause an
 oversized shift

---
 src/bit_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bit_reader.cpp b/src/bit_reader.cpp
index 872ecf1..1418546 100644
--- a/src/bit_reader.cpp
+++ b/src/bit_reader.cpp
@@ -37,7 +37,11 @@ uint32_t BitReader::readUnsignedExpGolomb()
 
     // Read remaining bits
     uint32_t remainingBits = readBits(leadingZeros);
-    return (1 << leadingZeros) - 1 + remainingBits;
+    if (leadingZeros >= 32) {
+        // Too large for the type, the value is not meaningful
+        return UINT32_MAX;
+    }
+    return (1u << leadingZeros) - 1 + remainingBits;
 }
 
 } // namespace srtc
-- 
2.43.0


From a4203079b0680ee2e28d3abe721408b2ddc895a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:37 +0000
Subject: [PATCH 086/103] fix: incoming RTCP and payload type zero RTP of one
 SSRC no longer share state

---
 include/srtc/srtp_connection.h | 1 +
 src/srtp_connection.cpp        | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 35033de..363936c 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -76,6 +76,7 @@ private:
 	using ChannelMap = std::unordered_map<ChannelKey, ChannelValue, hash_channel_key, equal_to_channel_key>;
 
 	ChannelMap mSrtpInMap;
+	ChannelMap mSrtcpInMap;
 	ChannelMap mSrtpOutMap;
 
 	ChannelValue& ensureSrtpChannel(ChannelMap& map,
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 8487ce6..e3d27c9 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -168,8 +168,8 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    const auto iter = mSrtpInMap.find(key);
-    if (iter != mSrtpInMap.end() && !iter->second.replayProtection->canProceed(sequenceNumber)) {
+    const auto iter = mSrtcpInMap.find(key);
+    if (iter != mSrtcpInMap.end() && !iter->second.replayProtection->canProceed(sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -188,7 +188,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
     }
 
     // The packet is authentic, only now can we update our state
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<int32_t>::max());
+    auto& channelValue = ensureSrtpChannel(mSrtcpInMap, key, std::numeric_limits<int32_t>::max());
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
-- 
2.43.0


From e91b76e58d0eae3ddf56c43cf540819d5ee6ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 087/103] fix: all DTLS records of a datagram are read

---
 include/srtc/peer_candidate.h |  1 +
 src/peer_candidate.cpp        | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/srtc/peer_candidate.h b/include/srtc/peer_candidate.h
index fc3a832..bb4f757 100644
--- a/include/srtc/peer_candidate.h
+++ b/include/srtc/peer_candidate.h
@@ -111,6 +111,7 @@ private:
 
     void onReceivedStunMessage(const Socket::ReceivedData& data);
     void onReceivedDtlsMessage(ByteBuffer&& buf);
+    void readDtlsData();
     void onReceivedRtcMessage(ByteBuffer&& buf);
 
     void onReceivedControlPacket(const std::shared_ptr<RtcpPacket>& packet);
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index f365f16..fdb6d2c 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1009,6 +1009,9 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
                         if (mSctpSession) {
                             mSctpSession->start();
                         }
+
+                        // The datagram can have data after the handshake
+                        readDtlsData();
                     } else {
                         // Error, failed to initialize SRTP
                         LOG(SRTC_LOG_E,
@@ -1043,6 +1046,16 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
             freeDTLS();
         }
     } else if (mDtlsState == DtlsState::Completed) {
+        readDtlsData();
+    }
+}
+
+void PeerCandidate::readDtlsData()
+{
+    // A datagram can have more than one record
+    while (true) {
+        ERR_clear_error();
+
         uint8_t tmp[4096];
         const auto r = SSL_read(mDtlsSsl, tmp, sizeof(tmp));
 
@@ -1061,6 +1074,7 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
                     emitOnDtlsDisconnected({ Error::Code::InvalidData, "DTLS connection lost unexpectedly" });
                 }
             }
+            return;
         }
     }
 }
-- 
2.43.0


From f14f229c2a39748b12d9b15f5c04af665164a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 088/103] fix: media and tracks are cleared under the mutex
 when the network thread ends

---
 src/peer_connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index b4fe6c6..de0bb11 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -801,8 +801,12 @@ void PeerConnection::networkThreadWorkerFunc()
     mConnectingCandidateList.clear();
     mSelectedCandidate.reset();
 
-    mMediaEntryList.clear();
-    mTrackEntryList.clear();
+    {
+        // Other threads may still be publishing or listing tracks
+        std::lock_guard lock(mMutex);
+        mMediaEntryList.clear();
+        mTrackEntryList.clear();
+    }
 
     // We are all done
     setConnectionState(ConnectionState::Closed);
-- 
2.43.0


From c69ac81ab0cf5e57f938b228a738a20b50906a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 089/103] fix: the data channel message limit is read under the
 mutex

---
 src/peer_connection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index de0bb11..355149c 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -600,6 +600,7 @@ Error PeerConnection::requestPictureLossIndicator(const std::shared_ptr<Track>&
 
 uint32_t PeerConnection::getDataChannelMaxMessageSize() const
 {
+    std::lock_guard lock(mMutex);
     return mDataChannelMaxMessageSize;
 }
 
-- 
2.43.0


From 355960d25da0284bad9b0d6d15f149bc60736668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 090/103] fix: concurrent close() calls all wait for the
 network thread, and it may be called from a listener

---
 include/srtc/peer_connection.h |  2 ++
 src/peer_connection.cpp        | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/srtc/peer_connection.h b/include/srtc/peer_connection.h
index 567a55f..599d890 100644
--- a/include/srtc/peer_connection.h
+++ b/include/srtc/peer_connection.h
@@ -147,6 +147,8 @@ private:
     bool mIsStarted SRTC_GUARDED_BY(mMutex) = { false };
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = { false };
     std::thread mThread SRTC_GUARDED_BY(mMutex);
+    std::thread::id mThreadId SRTC_GUARDED_BY(mMutex);
+    std::mutex mCloseMutex;
 
     // Event loop
     const std::shared_ptr<EventLoop> mEventLoop;
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 355149c..c281d8d 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -357,6 +357,7 @@ Error PeerConnection::setAnswer(const std::shared_ptr<SdpAnswer>& answer)
 
         // The network thread
         mThread = std::thread(&PeerConnection::networkThreadWorkerFunc, this);
+        mThreadId = mThread.get_id();
     }
 
     return Error::OK;
@@ -648,18 +649,30 @@ void PeerConnection::setDataChannelListener(const std::shared_ptr<DataChannelLis
 
 void PeerConnection::close()
 {
-    std::thread waitForThread;
-
     {
         std::lock_guard lock(mMutex);
 
         if (mIsStarted) {
             mIsQuit = true;
             mEventLoop->interrupt();
-            waitForThread = std::move(mThread);
+
+            if (mThreadId == std::this_thread::get_id()) {
+                // Called from a listener, the network thread can't wait for itself
+                return;
+            }
         }
     }
 
+    // If another thread is already closing, we wait until it's done
+    std::lock_guard closeLock(mCloseMutex);
+
+    std::thread waitForThread;
+
+    {
+        std::lock_guard lock(mMutex);
+        waitForThread = std::move(mThread);
+    }
+
     if (waitForThread.joinable()) {
         waitForThread.join();
     }
-- 
2.43.0


From 0dae0c26dcd86949ada8df299809f5bd74ad2742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 091/103] fix: no SRTP state is kept for media sources that
 belong to no track

---
 src/peer_candidate.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index fdb6d2c..9c5d979 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1094,19 +1094,19 @@ void PeerCandidate::onReceivedRtcMessage(ByteBuffer&& buf)
                 }
             }
         } else {
-            if (mSrtpConnection->unprotectReceiveMedia(buf, output)) {
+            // Unprotecting keeps state for each source, so only for the ones we know
+            const auto track = findReceiveTrack(buf);
+            if (track && mSrtpConnection->unprotectReceiveMedia(buf, output)) {
                 LOG(SRTC_LOG_V, "RTP unprotect: size = %zd", output.size());
 
-                if (const auto track = findReceiveTrack(output)) {
-                    const auto packet = RtpPacket::fromUdpPacket(track, output);
-                    if (packet) {
-                        const auto stats = track->getStats();
+                const auto packet = RtpPacket::fromUdpPacket(track, output);
+                if (packet) {
+                    const auto stats = track->getStats();
 
-                        stats->incrementReceivedPackets(1);
-                        stats->incrementReceivedBytes(buf.size());
+                    stats->incrementReceivedPackets(1);
+                    stats->incrementReceivedBytes(buf.size());
 
-                        onReceivedMediaPacket(packet);
-                    }
+                    onReceivedMediaPacket(packet);
                 }
             }
         }
-- 
2.43.0


From 64fa8f46674c1ba064528c463d345364afd6d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 092/103] fix: the number of sources of incoming RTCP packets
 is limited

---
 src/srtp_connection.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index e3d27c9..69d6407 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -30,6 +30,14 @@
 
 #define LOG(level, ...) srtc::log(level, "SrtpConnection", __VA_ARGS__)
 
+namespace
+{
+
+// Each has its own replay protection state, which we cannot forget without accepting its packets again
+constexpr auto kMaxReceiveControlSources = 4096u;
+
+} // namespace
+
 namespace srtc
 {
 
@@ -174,6 +182,11 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
+    if (iter == mSrtcpInMap.end() && mSrtcpInMap.size() >= kMaxReceiveControlSources) {
+        LOG(SRTC_LOG_E, "Too many sources of incoming RTCP packets, ignoring ssrc = %" PRIu32, ssrc);
+        return false;
+    }
+
     if (!mCrypto->unprotectReceiveControl(packetData, output)) {
         LOG(SRTC_LOG_E, "Error decrypting control");
         return false;
-- 
2.43.0


From 5d72c410566d04883a84b7123abf3d24123db9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 093/103] fix: a data channel is not opened twice on the same
 stream

---
 src/sctp/sctp_session.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index ae1c42b..2d2c962 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -614,6 +614,16 @@ void SctpSession::processDataChunk(uint8_t flags, const ByteBuffer& body)
         }
         const auto label = r.readString(labelLen);
 
+        // RFC 8832 §6: the stream must not be in use
+        const auto used = std::find_if(mDataChannels.begin(), mDataChannels.end(), [streamId](const DataChannel& ch) {
+            return ch.streamId == streamId && ch.state != DataChannelState::kNone;
+        });
+        if (used != mDataChannels.end()) {
+            used->receiveBuffer.consumeSsn(ssn);
+            LOG(SRTC_LOG_W, "Data channel open for stream %" PRIu16 " which is already in use", streamId);
+            return;
+        }
+
         auto& channel = mDataChannels.emplace_back(label, streamId, unordered);
         channel.state = DataChannelState::kOpen;
         channel.receiveBuffer.consumeSsn(ssn);
-- 
2.43.0


From 092e0508572ea278130480ac222cc6245e537d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 094/103] fix: the size of incomplete incoming data channel
 messages is limited

---
 src/sctp/data_channel_receive_buffer.cpp | 43 +++++++++++++++++++++---
 src/sctp/data_channel_receive_buffer.h   |  4 +++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/sctp/data_channel_receive_buffer.cpp b/src/sctp/data_channel_receive_buffer.cpp
index 904dca1..3ea5458 100644
--- a/src/sctp/data_channel_receive_buffer.cpp
+++ b/src/sctp/data_channel_receive_buffer.cpp
@@ -1,9 +1,25 @@
 #include "data_channel_receive_buffer.h"
 #include "sctp_defs.h"
 
+namespace
+{
+
+// What can wait for the rest of its message or for earlier messages. The largest message that we announce
+// in the SDP offer is 256 KB.
+constexpr size_t kMaxPendingSize = 1024 * 1024;
+constexpr size_t kMaxPendingMessages = 2048;
+
+} // namespace
+
 namespace srtc::sctp
 {
 
+void DataChannelReceiveBuffer::release(PendingMessage& pending)
+{
+    mPendingSize -= pending.payload.size();
+    std::vector<uint8_t>().swap(pending.payload);
+}
+
 void DataChannelReceiveBuffer::consumeSsn(uint16_t ssn)
 {
     if (ssn == mNextSsn) {
@@ -26,19 +42,34 @@ std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::receive(
     }
 
     // Accumulate fragment into the pending entry for this SSN.
+    if (mPending.size() >= kMaxPendingMessages && ssn != mNextSsn && mPending.count(ssn) == 0) {
+        if (!unordered || !isFirst || !isLast)
+            return out;
+    }
     auto& pending = mPending[ssn];
     if (isFirst) {
         pending.ppid = ppid;
-        pending.payload.clear();
+        pending.discarded = false;
+        release(pending);
+    }
+    if (!pending.discarded && mPendingSize + size > kMaxPendingSize) {
+        // The peer exceeds our limits, this message is skipped
+        pending.discarded = true;
+        release(pending);
+    }
+    if (!pending.discarded) {
+        pending.payload.insert(pending.payload.end(), data, data + size);
+        mPendingSize += size;
     }
-    pending.payload.insert(pending.payload.end(), data, data + size);
     if (isLast) {
         pending.complete = true;
     }
 
     if (unordered) {
         if (pending.complete) {
-            out.push_back({ pending.ppid, ByteBuffer(pending.payload.data(), pending.payload.size()) });
+            if (!pending.discarded)
+                out.push_back({ pending.ppid, ByteBuffer(pending.payload.data(), pending.payload.size()) });
+            release(pending);
             mPending.erase(ssn);
         }
         return out;
@@ -49,8 +80,10 @@ std::list<DataChannelReceiveBuffer::Message> DataChannelReceiveBuffer::receive(
         auto it = mPending.find(mNextSsn);
         if (it == mPending.end() || !it->second.complete)
             break;
-        const auto& p = it->second;
-        out.push_back({ p.ppid, ByteBuffer(p.payload.data(), p.payload.size()) });
+        auto& p = it->second;
+        if (!p.discarded)
+            out.push_back({ p.ppid, ByteBuffer(p.payload.data(), p.payload.size()) });
+        release(p);
         mPending.erase(it);
         mNextSsn++;
     }
diff --git a/src/sctp/data_channel_receive_buffer.h b/src/sctp/data_channel_receive_buffer.h
index 17ab35d..d6084ef 100644
--- a/src/sctp/data_channel_receive_buffer.h
+++ b/src/sctp/data_channel_receive_buffer.h
@@ -34,10 +34,14 @@ private:
         uint32_t ppid = 0;
         std::vector<uint8_t> payload;
         bool complete = false;
+        bool discarded = false;
     };
 
+    void release(PendingMessage& pending);
+
     uint16_t mNextSsn = 0;
     std::map<uint16_t, PendingMessage> mPending;
+    size_t mPendingSize = 0; // payload bytes in mPending
 };
 
 } // namespace srtc::sctp
-- 
2.43.0


From f0f3eb5bfa7b8323cccc3afa37255315ab03fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:32 +0000
Subject: [PATCH 095/103] fix: chunks waiting to be sent are discarded when
 their data channel is closed

---
 src/sctp/sctp_session.cpp | 21 +++++++++++++++++++++
 src/sctp/sctp_session.h   |  1 +
 2 files changed, 22 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 2d2c962..b4f7506 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -217,6 +217,26 @@ void SctpSession::transmitPending()
     }
 }
 
+void SctpSession::discardPending(uint16_t streamId)
+{
+    // The channel is closed, there is nobody to receive its messages. One that is partly sent has to be completed.
+    bool isPartlySent = true;
+    for (auto it = mPendingChunks.begin(); it != mPendingChunks.end();) {
+        if (it->streamId != streamId) {
+            ++it;
+            continue;
+        }
+        if ((it->flags & kDataFlagB) != 0) {
+            isPartlySent = false;
+        }
+        if (isPartlySent) {
+            ++it;
+        } else {
+            it = mPendingChunks.erase(it);
+        }
+    }
+}
+
 void SctpSession::sendInit(unsigned iteration)
 {
     if (iteration > kMaxInitRetransmits) {
@@ -671,6 +691,7 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
                 if (it->streamId == streamId) {
                     mListener->onSctpDataChannelClose(it->label);
                     mDataChannels.erase(it);
+                    discardPending(streamId);
                     break;
                 }
             }
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 85ea422..32270e3 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -130,6 +130,7 @@ private:
 
     void enqueueMessage(DataChannel& channel, DataChannelMessage&& message);
     void transmitPending();
+    void discardPending(uint16_t streamId);
     void retransmitOldest();
     void startT3Rtx();
     void stopT3Rtx();
-- 
2.43.0


From 1488ecf8918a7fa63155c6a1ebed04ac4bb79fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:38 +0000
Subject: [PATCH 096/103] fix: media writers save all frames and stop their
 thread before finishing the file

---
 tools/media_writer.cpp      | 28 +++++++++++++++++-----------
 tools/media_writer.h        |  4 ++++
 tools/media_writer_av1.cpp  |  2 ++
 tools/media_writer_h26x.cpp |  2 ++
 tools/media_writer_ogg.cpp  |  2 ++
 tools/media_writer_vp8.cpp  |  2 ++
 tools/media_writer_vp9.cpp  |  2 ++
 7 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/tools/media_writer.cpp b/tools/media_writer.cpp
index 344fc99..4b62287 100644
--- a/tools/media_writer.cpp
+++ b/tools/media_writer.cpp
@@ -9,6 +9,16 @@ MediaWriter::MediaWriter(const std::string& filename)
 }
 
 MediaWriter::~MediaWriter()
+{
+    stop();
+}
+
+void MediaWriter::start()
+{
+    mThread = std::thread(&MediaWriter::threadFunc, this);
+}
+
+void MediaWriter::stop()
 {
     {
         std::lock_guard lock(mMutex);
@@ -16,12 +26,9 @@ MediaWriter::~MediaWriter()
         mCond.notify_one();
     }
 
-    mThread.join();
-}
-
-void MediaWriter::start()
-{
-    mThread = std::thread(&MediaWriter::threadFunc, this);
+    if (mThread.joinable()) {
+        mThread.join();
+    }
 }
 
 void MediaWriter::send(const std::shared_ptr<srtc::EncodedFrame>& frame)
@@ -69,13 +76,12 @@ void MediaWriter::threadFunc()
             std::unique_lock lock(mMutex);
             mCond.wait(lock, [this] { return mQuit || !mQueue.empty(); });
 
-            if (mQuit) {
+            if (mQueue.empty()) {
                 break;
             }
-            if (!mQueue.empty()) {
-                frame = mQueue.front();
-                mQueue.pop_front();
-            }
+
+            frame = mQueue.front();
+            mQueue.pop_front();
         }
 
         if (frame) {
diff --git a/tools/media_writer.h b/tools/media_writer.h
index c4051d5..d435349 100644
--- a/tools/media_writer.h
+++ b/tools/media_writer.h
@@ -25,6 +25,10 @@ public:
 	void send(const std::shared_ptr<srtc::EncodedFrame>& frame);
 
 protected:
+    // Writes all frames which are still in the queue and stops the thread. Derived classes have to call this before
+    // finishing their output, the thread calls their write()
+    void stop();
+
     void checkExtension(const std::initializer_list<const char*>& expected);
 
 private:
diff --git a/tools/media_writer_av1.cpp b/tools/media_writer_av1.cpp
index c02e2c3..e2bc1ae 100644
--- a/tools/media_writer_av1.cpp
+++ b/tools/media_writer_av1.cpp
@@ -19,6 +19,8 @@ MediaWriterAV1::MediaWriterAV1(const std::string& filename, const std::shared_pt
 
 MediaWriterAV1::~MediaWriterAV1()
 {
+    stop();
+
     if (!mFrameList.empty()) {
         uint16_t frameWidth = 1920;
         uint16_t frameHeight = 1080;
diff --git a/tools/media_writer_h26x.cpp b/tools/media_writer_h26x.cpp
index ab59647..9581e57 100644
--- a/tools/media_writer_h26x.cpp
+++ b/tools/media_writer_h26x.cpp
@@ -14,6 +14,8 @@ MediaWriterH26x::MediaWriterH26x(const std::string& filename, const std::shared_
 
 MediaWriterH26x::~MediaWriterH26x()
 {
+    stop();
+
     if (mFile) {
         fclose(mFile);
         mFile = nullptr;
diff --git a/tools/media_writer_ogg.cpp b/tools/media_writer_ogg.cpp
index d37045f..67f4ace 100644
--- a/tools/media_writer_ogg.cpp
+++ b/tools/media_writer_ogg.cpp
@@ -18,6 +18,8 @@ MediaWriterOgg::MediaWriterOgg(const std::string& filename, const std::shared_pt
 
 MediaWriterOgg::~MediaWriterOgg()
 {
+    stop();
+
     if (mFile) {
         while (ogg_stream_flush(&m_os, &m_og)) {
             fwrite(m_og.header, 1, m_og.header_len, mFile);
diff --git a/tools/media_writer_vp8.cpp b/tools/media_writer_vp8.cpp
index 8c48035..21bbffd 100644
--- a/tools/media_writer_vp8.cpp
+++ b/tools/media_writer_vp8.cpp
@@ -17,6 +17,8 @@ MediaWriterVP8::MediaWriterVP8(const std::string& filename, const std::shared_pt
 
 MediaWriterVP8::~MediaWriterVP8()
 {
+    stop();
+
     if (!mFrameList.empty()) {
         uint16_t frameWidth = 1920;
         uint16_t frameHeight = 1080;
diff --git a/tools/media_writer_vp9.cpp b/tools/media_writer_vp9.cpp
index 659a150..79ed57e 100644
--- a/tools/media_writer_vp9.cpp
+++ b/tools/media_writer_vp9.cpp
@@ -16,6 +16,8 @@ MediaWriterVP9::MediaWriterVP9(const std::string& filename, const std::shared_pt
 
 MediaWriterVP9::~MediaWriterVP9()
 {
+    stop();
+
     if (!mFrameList.empty()) {
         uint16_t frameWidth = 1920;
         uint16_t frameHeight = 1080;
-- 
2.43.0


From 3b8538bf25bbe68ac8cc87b3d5a710cbbe73cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:38 +0000
Subject: [PATCH 097/103] fix: webm element sizes are never written as the
 reserved unknown size value

---
 tools/media_writer_webm.cpp | 44 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/tools/media_writer_webm.cpp b/tools/media_writer_webm.cpp
index 50c2ac7..a0dfbdb 100644
--- a/tools/media_writer_webm.cpp
+++ b/tools/media_writer_webm.cpp
@@ -8,20 +8,21 @@ namespace
 // Helper to write variable-length EBML integer to ByteBuffer
 void writeVarIntToBuffer(srtc::ByteWriter& writer, uint64_t value)
 {
+    // All bits set to one are reserved and mean an unknown size
     int width = 1;
-    if (value > 127)
+    if (value > 126)
         width = 2;
-    if (value > 16383)
+    if (value > 16382)
         width = 3;
-    if (value > 2097151)
+    if (value > 2097150)
         width = 4;
-    if (value > 268435455)
+    if (value > 268435454)
         width = 5;
-    if (value > 34359738367ULL)
+    if (value > 34359738366ULL)
         width = 6;
-    if (value > 4398046511103ULL)
+    if (value > 4398046511102ULL)
         width = 7;
-    if (value > 562949953421311ULL)
+    if (value > 562949953421310ULL)
         width = 8;
 
     uint8_t first_byte = (1 << (8 - width)) | ((value >> ((width - 1) * 8)) & ((1 << (8 - width)) - 1));
@@ -343,19 +344,20 @@ void MediaWriterWebm::writeVarInt(FILE* file, uint64_t value)
 
 int MediaWriterWebm::getVarIntWidth(uint64_t value)
 {
-    if (value <= 127)
-        return 1; // 2^7 - 1
-    if (value <= 16383)
-        return 2; // 2^14 - 1
-    if (value <= 2097151)
-        return 3; // 2^21 - 1
-    if (value <= 268435455)
-        return 4; // 2^28 - 1
-    if (value <= 34359738367ULL)
-        return 5; // 2^35 - 1
-    if (value <= 4398046511103ULL)
-        return 6; // 2^42 - 1
-    if (value <= 562949953421311ULL)
-        return 7; // 2^49 - 1
+    // All bits set to one are reserved and mean an unknown size
+    if (value <= 126)
+        return 1; // 2^7 - 2
+    if (value <= 16382)
+        return 2; // 2^14 - 2
+    if (value <= 2097150)
+        return 3; // 2^21 - 2
+    if (value <= 268435454)
+        return 4; // 2^28 - 2
+    if (value <= 34359738366ULL)
+        return 5; // 2^35 - 2
+    if (value <= 4398046511102ULL)
+        return 6; // 2^42 - 2
+    if (value <= 562949953421310ULL)
+        return 7; // 2^49 - 2
     return 8;
 }
-- 
2.43.0


From eb6b4c7e1946e1cf1df7ba8cab397a7743dddead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:38 +0000
Subject: [PATCH 098/103] fix: ogg files have the mandatory OpusTags header,
 end of packet positions and an end of stream

---
 tools/media_writer_ogg.cpp | 99 ++++++++++++++++++++++++++++++++++----
 tools/media_writer_ogg.h   |  6 +++
 2 files changed, 96 insertions(+), 9 deletions(-)

diff --git a/tools/media_writer_ogg.cpp b/tools/media_writer_ogg.cpp
index 67f4ace..d84d7b0 100644
--- a/tools/media_writer_ogg.cpp
+++ b/tools/media_writer_ogg.cpp
@@ -1,5 +1,41 @@
 #include "media_writer_ogg.h"
 
+namespace
+{
+
+// https://datatracker.ietf.org/doc/html/rfc6716#section-3.1
+uint32_t getOpusSampleCount(const srtc::ByteBuffer& packet)
+{
+    if (packet.empty()) {
+        return 0;
+    }
+
+    const auto toc = packet.data()[0];
+    const auto config = toc >> 3;
+
+    uint32_t frameSize; // at 48 kHz
+    if (config < 12) {
+        static constexpr uint32_t kSilk[] = { 480, 960, 1920, 2880 };
+        frameSize = kSilk[config & 3];
+    } else if (config < 16) {
+        frameSize = (config & 1) ? 960 : 480;
+    } else {
+        frameSize = 120 << (config & 3);
+    }
+
+    switch (toc & 3) {
+    case 0:
+        return frameSize;
+    case 1:
+    case 2:
+        return frameSize * 2;
+    default:
+        return packet.size() > 1 ? frameSize * (packet.data()[1] & 0x3F) : 0;
+    }
+}
+
+} // namespace
+
 MediaWriterOgg::MediaWriterOgg(const std::string& filename, const std::shared_ptr<srtc::Track>& track)
     : MediaWriter(filename)
     , mTrack(track)
@@ -21,6 +57,8 @@ MediaWriterOgg::~MediaWriterOgg()
     stop();
 
     if (mFile) {
+        writePendingFrame(true);
+
         while (ogg_stream_flush(&m_os, &m_og)) {
             fwrite(m_og.header, 1, m_og.header_len, mFile);
             fwrite(m_og.body, 1, m_og.body_len, mFile);
@@ -90,22 +128,67 @@ void MediaWriterOgg::write(const std::shared_ptr<srtc::EncodedFrame>& frame)
 
         ogg_stream_packetin(&m_os, &m_op);
 
-        // Write header pages
-        while (ogg_stream_pageout(&m_os, &m_og)) {
-            fwrite(m_og.header, 1, m_og.header_len, mFile);
-            fwrite(m_og.body, 1, m_og.body_len, mFile);
+        // The header is alone on its page
+        while (ogg_stream_flush(&m_os, &m_og)) {
+            writePage();
+        }
+
+        // https://datatracker.ietf.org/doc/html/rfc7845#section-5.2
+        unsigned char comment_header[20] = {
+            'O', 'p', 'u', 's', 'T', 'a', 'g', 's', // "OpusTags"
+            4,   0,   0,   0,                       // vendor string length (little endian)
+            's', 'r', 't', 'c',                     // vendor string
+            0,   0,   0,   0                        // comment count
+        };
+
+        m_op.packet = comment_header;
+        m_op.bytes = sizeof(comment_header);
+        m_op.b_o_s = 0;
+        m_op.e_o_s = 0;
+        m_op.granulepos = 0;
+        m_op.packetno = 1;
+
+        ogg_stream_packetin(&m_os, &m_op);
+
+        // Audio starts on a new page
+        while (ogg_stream_flush(&m_os, &m_og)) {
+            writePage();
         }
 
         fflush(mFile);
 
-        m_packetno = 1;
+        m_packetno = 2;
+    }
+
+    if (!frame->data.empty()) {
+        writePendingFrame(false);
+        m_pendingFrame = frame;
     }
+}
+
+void MediaWriterOgg::writePage()
+{
+    fwrite(m_og.header, 1, m_og.header_len, mFile);
+    fwrite(m_og.body, 1, m_og.body_len, mFile);
+}
+
+void MediaWriterOgg::writePendingFrame(bool isLast)
+{
+    if (!m_pendingFrame) {
+        return;
+    }
+
+    const auto frame = std::move(m_pendingFrame);
+    m_pendingFrame.reset();
+
+    // The position is that of the end of the packet, and always in samples at 48 kHz
+    m_granulepos += getOpusSampleCount(frame->data);
 
     // Write the packet
     m_op.packet = frame->data.data();
     m_op.bytes = static_cast<long>(frame->data.size());
     m_op.b_o_s = 0;
-    m_op.e_o_s = 0;
+    m_op.e_o_s = isLast ? 1 : 0;
     m_op.granulepos = m_granulepos;
     m_op.packetno = m_packetno;
 
@@ -114,14 +197,12 @@ void MediaWriterOgg::write(const std::shared_ptr<srtc::EncodedFrame>& frame)
     m_outPacketCount += 1;
 
     while (ogg_stream_pageout(&m_os, &m_og)) {
-        fwrite(m_og.header, 1, m_og.header_len, mFile);
-        fwrite(m_og.body, 1, m_og.body_len, mFile);
+        writePage();
 
         m_outPageCount += 1;
         m_outByteCount += m_og.header_len;
         m_outByteCount += m_og.body_len;
     }
 
-    m_granulepos += options->minptime * mTrack->getClockRate() / 1000;
     m_packetno += 1;
 }
diff --git a/tools/media_writer_ogg.h b/tools/media_writer_ogg.h
index d9ae452..449a59f 100644
--- a/tools/media_writer_ogg.h
+++ b/tools/media_writer_ogg.h
@@ -26,6 +26,12 @@ private:
 	ogg_int64_t m_packetno;
 	ogg_int64_t m_granulepos;
 
+	// The last packet needs an end of stream flag, so we keep one until we know
+	std::shared_ptr<srtc::EncodedFrame> m_pendingFrame;
+
+	void writePage();
+	void writePendingFrame(bool isLast);
+
 	size_t m_outPacketCount;
 	size_t m_outPageCount;
 	size_t m_outByteCount;
-- 
2.43.0


From 1392fbb94e769dabdae2abe051ce3a9122cb8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:38 +0000
Subject: [PATCH 099/103] fix: reading a truncated or malformed webm file never
 reads past its end, all size lengths are supported

---
 tools/media_reader_webm.cpp | 48 +++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/tools/media_reader_webm.cpp b/tools/media_reader_webm.cpp
index f27078b..dc928bb 100644
--- a/tools/media_reader_webm.cpp
+++ b/tools/media_reader_webm.cpp
@@ -1,5 +1,6 @@
 #include "media_reader_webm.h"
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <cstring>
@@ -37,6 +38,11 @@ void WebmReader::readBlockHeader(uint32_t& id, uint64_t& size)
     // Read the ID
     id = readID();
     size = readVInt();
+
+    if (remaining() < size) {
+        std::cout << "*** A webm block extends past the end of the one it is in" << std::endl;
+        exit(1);
+    }
 }
 
 void WebmReader::skip(uint64_t size)
@@ -51,16 +57,22 @@ void WebmReader::skip(uint64_t size)
 
 uint32_t WebmReader::readUInt(uint64_t size)
 {
-    if (size > 4 || remaining() < size) {
+    if (size > 8 || remaining() < size) {
         std::cout << "*** Attempt to read a uint of invalid size from a webm block" << std::endl;
         exit(1);
     }
 
-    uint8_t b[4] = {};
-    std::memcpy(b + 4 - size, mData + mPos, size);
-    mPos += size;
+    uint64_t value = 0;
+    for (uint64_t i = 0; i < size; i += 1) {
+        value = (value << 8) | mData[mPos++];
+    }
+
+    if (value > UINT32_MAX) {
+        std::cout << "*** Attempt to read a uint which is too large from a webm block" << std::endl;
+        exit(1);
+    }
 
-    return (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3];
+    return static_cast<uint32_t>(value);
 }
 
 std::string WebmReader::readString(uint64_t size)
@@ -177,17 +189,18 @@ uint64_t WebmReader::readVIntImpl(bool remove_marker)
         const auto id_byte_2 = mData[mPos++];
         const auto id_byte_3 = mData[mPos++];
         return (id_byte_0 << 24) | (id_byte_1 << 16) | (id_byte_2 << 8) | id_byte_3;
-    } else if ((id_byte_0 & 0xFF) == 0x01) {
-        // Eight byte
-        if (remaining() < 7) {
-            std::cout << "*** Attempt to read an eight byte value past end of webm block" << std::endl;
-            exit(1);
+    } else if (remove_marker && id_byte_0 != 0) {
+        // Five to eight bytes
+        size_t length = 5;
+        while ((id_byte_0 & (0x80 >> (length - 1))) == 0) {
+            length += 1;
         }
-        if (remove_marker) {
-            id_byte_0 &= ~0xFF;
+        if (remaining() < length - 1) {
+            std::cout << "*** Attempt to read a five to eight byte value past end of webm block" << std::endl;
+            exit(1);
         }
-        uint64_t value = id_byte_0;
-        for (size_t i = 0; i < 7; i += 1) {
+        uint64_t value = id_byte_0 & ~(0x80 >> (length - 1));
+        for (size_t i = 1; i < length; i += 1) {
             value = (value << 8) | mData[mPos++];
         }
         return value;
@@ -452,7 +465,12 @@ void WebmLoader::parseSimpleBlock(const uint8_t* data, uint64_t size, uint32_t c
     mAllFrameCount += 1;
 
     LoadedFrame loaded_frame = {};
-    loaded_frame.pts_usec = (static_cast<int64_t>(cluster_timecode) + frame_offset) * mTimecodeScaleNS / 1000;
+    const auto frame_timecode = static_cast<int64_t>(cluster_timecode) + frame_offset;
+    if (frame_timecode > INT64_MAX / std::max<int64_t>(mTimecodeScaleNS, 1)) {
+        std::cout << "*** The time of a webm frame is too large" << std::endl;
+        exit(1);
+    }
+    loaded_frame.pts_usec = frame_timecode * static_cast<int64_t>(mTimecodeScaleNS) / 1000;
     loaded_frame.frame = { frame_data, frame_size };
 
     mLoadedMedia.frame_list.push_back(std::move(loaded_frame));
-- 
2.43.0


From 70d217216c693a9d4b911e57dfd6d35dda52bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 100/103] fix: NAL unit parsers do not read past the end of
 inputs of less than four bytes

---
 src/codec_h264.cpp | 4 ++--
 src/codec_h265.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec_h264.cpp b/src/codec_h264.cpp
index ecf365a..8cfcd61 100644
--- a/src/codec_h264.cpp
+++ b/src/codec_h264.cpp
@@ -6,7 +6,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (end - pos > 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -15,7 +15,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (end - pos > 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
diff --git a/src/codec_h265.cpp b/src/codec_h265.cpp
index 06eb67f..d003ee4 100644
--- a/src/codec_h265.cpp
+++ b/src/codec_h265.cpp
@@ -5,7 +5,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (end - pos > 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -14,7 +14,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (end - pos > 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
-- 
2.43.0


From 56eee4100c6371fdf5159576d7ced86f0bc8b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 101/103] fix: an OBU which extends past the end of its input
 by less than its size field is malformed

---
 src/codec_av1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec_av1.cpp b/src/codec_av1.cpp
index 78cb2cf..73420c9 100644
--- a/src/codec_av1.cpp
+++ b/src/codec_av1.cpp
@@ -132,7 +132,7 @@ void ObuParser::parseImpl(const uint8_t* data, size_t size)
     size_t payload_size = size;
     if (has_size) {
         const auto leb128_size = read_leb128(&data, &size);
-        if (leb128_size > payload_size) {
+        if (leb128_size > size) {
             return;
         }
         payload_size = leb128_size;
-- 
2.43.0


From f0c40dbc7766a650ffc678389acd080913bdbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 102/103] fix: H.264 and H.265 file readers give each key frame
 its own parameter sets, and know key frames with SEI or AUD

---
 tools/media_reader_h264.cpp | 27 ++++++++++---------------
 tools/media_reader_h265.cpp | 40 ++++++++++++++++++++++++-------------
 2 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/tools/media_reader_h264.cpp b/tools/media_reader_h264.cpp
index d7fb396..efba512 100644
--- a/tools/media_reader_h264.cpp
+++ b/tools/media_reader_h264.cpp
@@ -1,6 +1,5 @@
 #include "media_reader_h264.h"
 #include "srtc/codec_h264.h"
-#include "srtc/bit_reader.h"
 
 #include <iomanip>
 #include <iostream>
@@ -27,7 +26,7 @@ LoadedMedia MediaReaderH264::loadMedia(bool print_info) const
 
     srtc::ByteBuffer sps, pps;
     srtc::ByteBuffer frame;
-    uint8_t frame_nalu_type = {};
+    std::vector<srtc::ByteBuffer> frame_csd;
 
     for (srtc::h264::NaluParser parser(data); parser; parser.next()) {
         const auto nalu_type = parser.currType();
@@ -48,17 +47,19 @@ LoadedMedia MediaReaderH264::loadMedia(bool print_info) const
                     loaded_frame.pts_usec = pts_usec;
                     pts_usec += 1000 * 40; // 25 fps
 
-                    if (frame_nalu_type == srtc::h264::NaluType::KeyFrame) {
-                        loaded_frame.csd.push_back(sps.copy());
-                        loaded_frame.csd.push_back(pps.copy());
-                    }
-
+                    loaded_frame.csd = std::move(frame_csd);
                     loaded_frame.frame = std::move(frame);
                     loaded_media.frame_list.push_back(std::move(loaded_frame));
                     frame.clear();
                 }
+
+                // Parameter sets can change before the next frame
+                frame_csd.clear();
+                if (nalu_type == srtc::h264::NaluType::KeyFrame) {
+                    frame_csd.push_back(sps.copy());
+                    frame_csd.push_back(pps.copy());
+                }
             }
-            frame_nalu_type = parser.currType();
             frame.append(parser.currNalu(), parser.currNaluSize());
             break;
         }
@@ -68,11 +69,7 @@ LoadedMedia MediaReaderH264::loadMedia(bool print_info) const
         LoadedFrame loaded_frame = {};
         loaded_frame.pts_usec = pts_usec;
 
-        if (frame_nalu_type == srtc::h264::NaluType::KeyFrame) {
-            loaded_frame.csd.push_back(sps.copy());
-            loaded_frame.csd.push_back(pps.copy());
-        }
-
+        loaded_frame.csd = std::move(frame_csd);
         loaded_frame.frame = std::move(frame);
         loaded_media.frame_list.push_back(std::move(loaded_frame));
         frame.clear();
@@ -105,9 +102,7 @@ void MediaReaderH264::printInfo(const srtc::ByteBuffer& data) const
         case srtc::h264::NaluType::KeyFrame:
         case srtc::h264::NaluType::NonKeyFrame:
             frame_nalu_count += 1;
-            srtc::BitReader br = { parser.currData() + 1, parser.currDataSize() - 1 };
-            const auto first_mb_in_slice = br.readUnsignedExpGolomb();
-            if (first_mb_in_slice == 0) {
+            if (srtc::h264::isFrameStart(parser.currData(), parser.currDataSize())) {
                 all_frame_count += 1;
                 if (parser.currType() == srtc::h264::NaluType::KeyFrame) {
                     key_frame_count += 1;
diff --git a/tools/media_reader_h265.cpp b/tools/media_reader_h265.cpp
index fcf24c4..c512045 100644
--- a/tools/media_reader_h265.cpp
+++ b/tools/media_reader_h265.cpp
@@ -26,7 +26,8 @@ LoadedMedia MediaReaderH265::loadMedia(bool print_info) const
 
     srtc::ByteBuffer vps, sps, pps;
     srtc::ByteBuffer frame;
-    uint8_t frame_nalu_type = {};
+    srtc::ByteBuffer prefix;
+    std::vector<srtc::ByteBuffer> frame_csd;
 
     for (srtc::h265::NaluParser parser(data); parser; parser.next()) {
         const auto nalu_type = parser.currType();
@@ -41,24 +42,40 @@ LoadedMedia MediaReaderH265::loadMedia(bool print_info) const
             pps.assign(parser.currNalu(), parser.currNaluSize());
             break;
         default:
+            if (nalu_type >= 32) {
+                // https://datatracker.ietf.org/doc/html/rfc7798#section-1.1.4
+                const auto is_suffix = (nalu_type >= 36 && nalu_type <= 38) || nalu_type == 40 ||
+                                       (nalu_type >= 45 && nalu_type <= 47) || nalu_type >= 56;
+                if (!is_suffix) {
+                    // Belongs to the slices which follow
+                    prefix.append(parser.currNalu(), parser.currNaluSize());
+                } else if (!frame.empty()) {
+                    frame.append(parser.currNalu(), parser.currNaluSize());
+                }
+                break;
+            }
             if (srtc::h265::isFrameStart(parser.currData(), parser.currDataSize())) {
                 if (!frame.empty()) {
                     LoadedFrame loaded_frame = {};
                     loaded_frame.pts_usec = pts_usec;
                     pts_usec += 1000 * 40; // 25 fps
 
-                    if (srtc::h265::isKeyFrameNalu(frame_nalu_type)) {
-                        loaded_frame.csd.push_back(vps.copy());
-                        loaded_frame.csd.push_back(sps.copy());
-                        loaded_frame.csd.push_back(pps.copy());
-                    }
-
+                    loaded_frame.csd = std::move(frame_csd);
                     loaded_frame.frame = std::move(frame);
                     loaded_media.frame_list.push_back(std::move(loaded_frame));
                     frame.clear();
                 }
+
+                // Parameter sets can change before the next frame
+                frame_csd.clear();
+                if (srtc::h265::isKeyFrameNalu(nalu_type)) {
+                    frame_csd.push_back(vps.copy());
+                    frame_csd.push_back(sps.copy());
+                    frame_csd.push_back(pps.copy());
+                }
             }
-            frame_nalu_type = parser.currType();
+            frame.append(prefix.data(), prefix.size());
+            prefix.clear();
             frame.append(parser.currNalu(), parser.currNaluSize());
             break;
         }
@@ -68,12 +85,7 @@ LoadedMedia MediaReaderH265::loadMedia(bool print_info) const
         LoadedFrame loaded_frame = {};
         loaded_frame.pts_usec = pts_usec;
 
-        if (srtc::h265::isKeyFrameNalu(frame_nalu_type)) {
-            loaded_frame.csd.push_back(vps.copy());
-            loaded_frame.csd.push_back(sps.copy());
-            loaded_frame.csd.push_back(pps.copy());
-        }
-
+        loaded_frame.csd = std::move(frame_csd);
         loaded_frame.frame = std::move(frame);
         loaded_media.frame_list.push_back(std::move(loaded_frame));
         frame.clear();
-- 
2.43.0


From cc2761eff9a90359c72c79fc906944ac763d6a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:03 +0000
Subject: [PATCH 103/103] fix: dimensions of VP9 profile 2 and 3 key frames

---
 src/codec_vp9.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec_vp9.cpp b/src/codec_vp9.cpp
index 23a894a..e6b982c 100644
--- a/src/codec_vp9.cpp
+++ b/src/codec_vp9.cpp
@@ -231,6 +231,9 @@ bool extractDimensions(const uint8_t* data, size_t size, uint16_t& width, uint16
     }
 
     // color_config()
+    if (profile >= 2) {
+        reader.readBit(); // ten_or_twelve_bit
+    }
     const auto color_space = reader.readBits(3);
     if (color_space != 7) {
         reader.readBit(); // color_range
-- 
2.43.0

