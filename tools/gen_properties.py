#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Unauthenticated datagrams cannot corrupt, crash or hang the endpoint",
  "Whatever bytes arrive on the UDP socket, in any connection state and from any sender, the endpoint performs no out-of-bounds or use-after-free access, no undefined arithmetic, does not abort and keeps making progress. Datagrams that are not valid STUN, DTLS or SRTP/SRTCP from the authenticated peer are ignored: they never surface in any listener and never end or disturb an established session.",
  ["inputs", "histories"], "every datagram (any length and content, including mutated copies of genuine STUN, DTLS, SRTP, SRTCP) and every connection state it can arrive in",
  "No existing test feeds the socket path at all; STUN parsing, the demultiplexer and the ICE agent are never executed by the 39 tests, and a sampled input cannot cover the input space.",
  ["src/peer_candidate.cpp", "src/stun/stunmessage.cpp", "src/ice_agent.cpp", "src/rtp_packet.cpp", "src/rtcp_packet.cpp", "src/socket.cpp", "src/byte_buffer.cpp"],
  [("demultiplexing by first byte", "PeerCandidate::run / receiveFromSocket"), ("STUN attribute walk", "stun_message_find and friends"), ("bounds-checked reader", "ByteReader")],
  ["ASan/UBSan reports", "process exit", "listener callbacks"])

p("C02", "Authenticated peer input cannot corrupt, crash or hang the endpoint",
  "Whatever a fully authenticated peer sends inside RTP payloads, RTP header extensions, RTCP, SCTP, DCEP or transport-wide feedback packets, the endpoint performs no out-of-bounds or use-after-free access, no undefined arithmetic, does not abort and always finishes processing the packet. Malformed input is dropped; well-formed input that follows it is still processed.",
  ["inputs", "histories"], "every packet content at each protocol layer, in every order and mixed with well-formed traffic",
  "The tests only feed a handful of well-formed vectors to a few parsers; no depacketizer, RTCP parser or SCTP session is ever given malformed input.",
  ["src/depacketizer_h264.cpp", "src/depacketizer_h265.cpp", "src/depacketizer_vp8.cpp", "src/depacketizer_vp9.cpp", "src/depacketizer_av1.cpp", "src/depacketizer_opus.cpp", "src/jitter_buffer.cpp", "src/sctp/sctp_session.cpp", "src/sctp/sctp_packet.cpp", "src/twcc_publish.cpp", "src/rtcp_packet.cpp", "src/rtp_extension.cpp", "src/codec_h264.cpp", "src/codec_h265.cpp", "src/codec_vp9.cpp", "src/codec_av1.cpp"],
  [("payload parsing", "Depacketizer*::extract / getPacketKind"), ("chunk walk", "SctpSession::onReceiveData"), ("feedback parsing", "RtpExtensionSourceTWCC::onReceivedRtcpPacket")],
  ["ASan/UBSan reports", "per-input time limit", "results of well-formed traffic"])

p("C03", "Received media is exactly what was published, once and in order",
  "Every encoded frame a subscriber's listener receives for a track carries exactly the bytes of a frame (or, for codecs that deliver one, a NAL/temporal unit of it) that the publisher published on that track, with codec framing normalised. Each is delivered at most once, in publication order, with its own timestamp, however the network loses, duplicates, reorders, delays or corrupts datagrams.",
  ["inputs", "fault_sequences", "schedules"], "every frame size, structure and codec (H264, H265, VP8, VP9, AV1, Opus), every sequence-number and timestamp start value, and every loss/duplication/reorder/delay/corruption sequence on the path",
  "The tests packetize a few H264 frames in isolation; nothing runs packetizer, SRTP, network faults, jitter buffer and depacketizer together.",
  ["src/peer_connection.cpp", "src/peer_candidate.cpp", "src/jitter_buffer.cpp", "src/packetizer_video.cpp", "src/depacketizer_video.cpp", "src/srtp_connection.cpp"],
  [("frame assembly", "JitterBuffer::processDeque / findMultiPacketSequence"), ("payload extraction", "Depacketizer*::extract")],
  ["SubscribeEncodedFrameListener callbacks compared with a log of publish calls"])

p("C04", "Media arrives completely unless loss exceeds what recovery can repair",
  "On a path that loses nothing (whatever the reordering within the jitter-buffer length, or duplication) every frame published while connected is delivered once decoding can start. Packets lost and repairable by retransmission within the jitter-buffer length are recovered so their frames are still delivered, and after any longer loss delivery resumes with later complete frames instead of stalling.",
  ["fault_sequences", "schedules", "inputs"], "every loss pattern, reorder depth, sequence-number wrap and length of outage",
  "Recovery is a closed loop over two endpoints and time (NACK delay, RTX, jitter length); no test has two endpoints or time.",
  ["src/jitter_buffer.cpp", "src/peer_connection.cpp", "src/peer_candidate.cpp", "src/srtp_connection.cpp", "src/replay_protection.cpp"],
  [("loss detection and NACK", "JitterBuffer::processNack"), ("retransmission", "PeerCandidate::onReceivedControlMessage_NACK")],
  ["delivered frame log versus published log and the simulated network's loss log"])

p("C05", "SRTP and SRTCP output is standard, encrypted and never reuses a keystream",
  "For every negotiated profile, media and control packets sent are exactly what RFC 3711/7714 prescribe for the exported keys, so any conforming receiver recovers the original packet, through sequence-number rollovers. Payload bytes never leave unencrypted, every packet carries a valid authentication tag, and no two different packets are ever protected with the same key and packet index.",
  ["inputs", "histories", "configurations"], "every profile, key, packet shape (padding, extension, any payload size) and long packet histories crossing sequence rollovers and retransmissions",
  "The tests check a few recorded vectors; they cannot cover rollover histories, every packet shape, or index uniqueness across a session.",
  ["src/srtp_crypto.cpp", "src/srtp_connection.cpp", "src/srtp_util.cpp", "src/srtp_hmac_sha1.cpp", "src/rtp_packet_source.cpp", "src/rtcp_packet_source.cpp"],
  [("protect", "SrtpCrypto::protectSendMedia / protectSendControl"), ("key derivation", "KeyDerivation"), ("index assignment", "RtpPacketSource::getNextSequence")],
  ["protected packets compared with an independent OpenSSL-based implementation"])

p("C06", "Forged, tampered or replayed SRTP/SRTCP is rejected and leaves no trace",
  "A media or control packet is accepted only if it is bit-for-bit one the peer protected with the session keys, and each such packet is accepted at most once. Rejected packets change nothing: genuine packets that arrive in order or modestly reordered before and after them are accepted exactly as if the rejected ones had never arrived, across sequence rollovers and reconnections.",
  ["inputs", "histories"], "every packet with a non-empty payload, every tampering of every byte, every truncation, every replay distance and every interleaving of forged with genuine packets",
  "Tests decrypt recorded packets and exercise the replay window with a few values; they never interleave forged packets with a genuine stream.",
  ["src/srtp_connection.cpp", "src/srtp_crypto.cpp", "src/replay_protection.cpp"],
  [("authentication before state update", "SrtpConnection::unprotectReceiveMedia / unprotectReceiveControl"), ("replay window", "ReplayProtection")],
  ["accept/reject result and plaintext for each packet, against a reference model"])

p("C07", "Only the holder of the negotiated ICE credentials can drive connectivity",
  "A STUN binding request is answered, and counts towards selecting or keeping a path, only if it carries a valid fingerprint, the username built from both negotiated fragments and message integrity under the local password; a response counts only if it matches an outstanding transaction and verifies under the remote password. Requests and responses the endpoint sends are themselves well formed: correct transaction id, mapped address, integrity and fingerprint, so that a standard peer accepts them.",
  ["inputs", "histories"], "every STUN message, with each attribute missing, altered, reordered or duplicated, and every order of arrival",
  "No test executes any STUN or ICE code.",
  ["src/ice_agent.cpp", "src/peer_candidate.cpp", "src/stun/stunmessage.cpp", "src/stun/stunhmac.cpp", "src/stun/stuncrc32.cpp"],
  [("verification", "IceAgent::verifyRequestMessage / verifyResponseMessage"), ("message building", "IceAgent::initRequest / initResponse / finishMessage")],
  ["datagrams emitted and connection state in response to each STUN message; an independent STUN encoder/verifier"])

p("C08", "No session without the peer certificate pinned by the SDP answer",
  "If the certificate a peer presents in DTLS does not hash to the fingerprint in the SDP answer, or the peer presents none, the connection never becomes connected, never delivers or sends media or data-channel content to it, and ends as failed. With the right certificate, DTLS runs in the role the answer negotiated and SRTP uses the exporter keys for that role.",
  ["inputs", "configurations", "histories"], "every certificate, fingerprint value, setup role, order of handshake records and handshake loss",
  "No test performs a DTLS handshake.",
  ["src/peer_candidate.cpp", "src/x509_certificate.cpp", "src/x509_hash.cpp", "src/srtp_connection.cpp"],
  [("fingerprint comparison", "PeerCandidate::run DTLS completion"), ("exporter keying", "SrtpConnection::create")],
  ["connection states and traffic, with a scripted peer holding the right or a wrong certificate"])

p("C09", "Connection states follow one legal lifecycle, and close() is final",
  "State notifications follow the lifecycle: connecting, then alternating connected and connecting, ending in failed or closed at most once; consecutive notifications differ and nothing follows a final state. After close() returns, or the connection object is destroyed, no listener is called again, and close() returns promptly from any state and may be repeated.",
  ["schedules", "histories", "fault_sequences"], "every timing of answers, path failure, recovery, DTLS failure, remote shutdown and close(), including close() racing with any of them",
  "No test creates a connection; the states depend on schedules and network events.",
  ["src/peer_connection.cpp", "src/peer_candidate.cpp"],
  [("state transitions", "PeerConnection::setConnectionState"), ("shutdown", "PeerConnection::close / networkThreadWorkerFunc")],
  ["ConnectionStateListener and all other listener callbacks with timestamps"])

p("C10", "Working paths connect and stay up; dead paths are noticed and can recover",
  "If any one remote candidate in the answer is reachable and answers correctly, the connection becomes connected despite a lossy path and other dead candidates, and it stays connected without spurious interruption as long as the peer keeps responding, even when no media flows. If the peer falls silent the connection reports connecting within a few seconds, resumes connected if the peer returns, and reports failed if it never connects or never returns.",
  ["fault_sequences", "configurations", "schedules"], "every set of candidates, handshake loss pattern, idle period and outage length",
  "Needs time, two endpoints and a network; none of the tests has any.",
  ["src/peer_connection.cpp", "src/peer_candidate.cpp", "src/ice_agent.cpp"],
  [("timeouts", "PeerCandidate::onConnectionLostTimeout / sendConnectionRestoreRequest / keep-alive"), ("candidate selection", "PeerConnection::onCandidateIceConnected / onCandidateFailedToConnect")],
  ["connection states in virtual time against the simulated path's true condition"])

p("C11", "The public API is safe to call from any threads at any time",
  "Concurrent calls to the connection's public methods, including close() and destruction after calls return, while the network thread is running, never race on memory, use freed objects, lose an accepted call's effect through a race, or deadlock.",
  ["schedules"], "every interleaving of API calls from several application threads with the network thread and with close()",
  "The tests are single threaded and create no connection.",
  ["src/peer_connection.cpp", "src/scheduler.cpp", "src/event_loop_linux.cpp", "src/logging.cpp"],
  [("locking", "PeerConnection mMutex / mListenerMutex"), ("queue hand-over", "networkThreadWorkerFunc")],
  ["ThreadSanitizer and AddressSanitizer reports, watchdog"])

p("C12", "Data-channel messages arrive intact, once, in order, and all of them",
  "Every text or binary message accepted for sending on an open data channel is delivered to the peer's listener for the same label exactly once, unchanged (empty messages included), with its kind preserved, and in the order sent on that channel. This holds for every message size up to the negotiated maximum, whatever the network loses, duplicates, reorders or delays, as long as the session stays up.",
  ["inputs", "fault_sequences", "schedules"], "every message size from 0 to the limit, interleaving across channels and directions, sequence-number start value, and every datagram loss/duplication/reorder sequence with eventual delivery",
  "One class (the receive buffer) is tested with a few fragments; the SCTP session, retransmission and flow control are never run.",
  ["src/sctp/sctp_session.cpp", "src/sctp/data_channel_receive_buffer.cpp", "src/sctp/sctp_packet.cpp", "src/peer_connection.cpp"],
  [("reassembly", "DataChannelReceiveBuffer"), ("acknowledgement and retransmission", "SctpSession::onReceiveSack / onReceiveDataChunk")],
  ["messages accepted by send versus messages delivered at the other endpoint"])

p("C13", "Data channels open once per label, respect limits and reject foreign packets",
  "Each configured label is announced open exactly once per session on the side that opens it and on the remote side, over streams whose parity matches the DTLS role, and closes are announced at most once. Messages over the negotiated maximum, on unknown labels, or before negotiation are refused with an error and send nothing, and SCTP packets with a wrong port, checksum or verification tag change nothing.",
  ["inputs", "histories", "fault_sequences"], "every label set, handshake loss/duplication pattern, size around the limit, and forged SCTP packet",
  "No test runs a data-channel handshake.",
  ["src/sctp/sctp_session.cpp", "src/sctp/sctp_packet.cpp", "src/sctp/sctp_crc32.cpp", "src/peer_connection.cpp", "src/sdp_answer.cpp"],
  [("DCEP open", "SctpSession DCEP handling"), ("packet acceptance", "SctpPacket::parse / verification tag check")],
  ["open/close callbacks, returned errors, emitted SCTP packets"])

p("C14", "Packetized media is standard, fits the MTU and reassembles to the frame",
  "For every frame and codec, the RTP packets produced follow the codec's RTP payload format, so an independent depacketizer recovers exactly the frame's NAL units, OBUs or bytes in order; packets of a frame share one timestamp, use consecutive sequence numbers, and exactly the last carries the marker (for Opus, every packet is one frame), and they carry the header extensions requested for them. No packet's RTP payload plus extensions and protection overhead exceeds the configured maximum of 1200 bytes.",
  ["inputs", "configurations"], "every frame content and size including unit sizes around each split boundary, all extension combinations and codec-specific data",
  "Three H264 tests check one frame each; boundary sizes, other codecs and extensions are not reached.",
  ["src/packetizer_h264.cpp", "src/packetizer_h265.cpp", "src/packetizer_vp8.cpp", "src/packetizer_vp9.cpp", "src/packetizer_av1.cpp", "src/packetizer_opus.cpp", "src/packetizer_video.cpp", "src/packetizer.cpp"],
  [("fragmentation", "Packetizer*::generate"), ("size budget", "adjustPacketSize / getBasicPacketSize")],
  ["RtpPacket list per frame, decoded by an independent reference depacketizer"])

p("C15", "RTP, RTCP and header-extension encoding round-trips and parses any sender",
  "Serialising an RTP packet, an RTX packet or an RTCP packet and parsing it back yields the same header fields, payload and extension values, and the bytes equal the standard encoding. Standard packets from other senders, including those with padding, contributing sources, one- or two-byte extension elements and compound RTCP, parse to the same fields and payload an independent parser finds; inconsistent ones are rejected.",
  ["inputs"], "every combination of header fields, padding, extension ids/sizes/formats and payload sizes",
  "The tests cover a few packets of each kind.",
  ["src/rtp_packet.cpp", "src/rtcp_packet.cpp", "src/rtp_extension.cpp", "src/rtp_extension_builder.cpp", "src/byte_buffer.cpp"],
  [("serialise", "RtpPacket::generate / generateRtx / RtcpPacket::generate"), ("parse", "RtpPacket::fromUdpPacket / RtcpPacket::fromUdpPacket / RtpExtension::find*")],
  ["fields and bytes against an independent encoder and parser"])

p("C16", "The jitter buffer releases frames in order, on time, and bounds its state",
  "Frames leave the jitter buffer strictly in sequence order without repetition; a complete frame whose predecessors were delivered or are overdue is released, and a gap is waited for no less than the configured length and is not waited for indefinitely. Memory held is bounded by the capacity, and after sequence jumps, wraps or long pauses it keeps releasing later complete frames.",
  ["inputs", "histories", "schedules"], "every packet arrival order and time, sequence and timestamp start value, wrap, jump, duplicate and pause",
  "The jitter buffer has no test.",
  ["src/jitter_buffer.cpp", "src/extended_value.cpp", "src/pool_allocator.cpp"],
  [("insertion window", "JitterBuffer::consume"), ("release", "JitterBuffer::processDeque"), ("deadlines", "JitterBuffer::getTimeoutMillis")],
  ["frames returned by processDeque against a reference model in virtual time"])

p("C17", "Lost packets are asked for precisely and resent faithfully",
  "A retransmission request names only packets that are missing and, until abandoned, every missing packet in the window, and its wire form lists exactly the requested sequence numbers. On a valid request for a recently sent packet the sender resends that very packet (as RTX with the original sequence number in front, or verbatim when RTX is not negotiated) exactly as requested, and never anything for packets it did not send.",
  ["inputs", "histories", "fault_sequences"], "every set of missing sequence numbers (including across the wrap), every request content and every history length",
  "One test covers a compressed list of a few numbers; there is no test of the request/resend loop.",
  ["src/jitter_buffer.cpp", "src/util.cpp", "src/peer_candidate.cpp", "src/send_rtp_history.cpp", "src/rtp_packet.cpp"],
  [("request", "JitterBuffer::processNack / compressNackList"), ("history", "SendRtpHistory"), ("resend", "PeerCandidate::onReceivedControlMessage_NACK")],
  ["RTCP NACK and RTX packets against the set of packets sent and lost"])

p("C18", "Transport-wide feedback tells the truth about every packet's arrival",
  "The transport-wide congestion feedback a subscriber produces is well formed, covers transport sequence numbers without gaps between consecutive feedback packets, reports a packet as received if and only if it had arrived, and gives its arrival time to within the format's resolution. Producing feedback always terminates, whatever the arrival times and losses.",
  ["inputs", "histories"], "every arrival order, spacing (microseconds to minutes), loss pattern and sequence wrap",
  "The tests check about a dozen short hand-made sequences.",
  ["src/twcc_subscribe.cpp", "src/rtp_responder_twcc.cpp"],
  [("encoding", "SubscribePacketHistory::generate"), ("recording", "SubscribePacketHistory::saveIncomingPacket")],
  ["feedback decoded by an independent decoder and compared with the arrival log"])

p("C19", "Sender-side bandwidth and loss statistics reflect the feedback received",
  "For every sent-packet history and every feedback sequence (any loss, any arrival times, duplicated, reordered, stale or malformed), processing terminates, reported loss lies between 0 and 100 percent and is zero when everything was acknowledged, bandwidth figures are finite, non-negative and agree with what was actually received, and simulcast/pacing parameters derived from them stay within their configured ranges.",
  ["inputs", "histories"], "every send schedule, feedback content and order, and clock offset between peers",
  "No test runs the publisher side of the feedback loop.",
  ["src/twcc_publish.cpp", "src/rtp_extension_source_twcc.cpp", "src/twcc_common.cpp", "src/peer_connection.cpp"],
  [("feedback ingestion", "RtpExtensionSourceTWCC::onReceivedRtcpPacket"), ("estimation", "PublishPacketHistory::update")],
  ["PublishConnectionStats and pacing values against independently computed loss and rate"])

p("C20", "SDP offers are well formed and answers are honoured exactly or refused",
  "Every offer generated from a valid configuration is syntactically valid SDP with unique payload types, mids and SSRCs, the credentials and fingerprint of this endpoint, and one section per configured media and data channel; invalid configurations return an error. For every answer text, parsing either returns an error or an answer whose tracks, codecs, payload types, SSRCs, candidates, credentials, role and limits are exactly those the text states and the offer allowed, and never misbehaves on malformed text.",
  ["inputs", "configurations"], "every offer configuration and every answer text, well formed or not",
  "No test generates an offer or parses an answer.",
  ["src/sdp_offer.cpp", "src/sdp_answer.cpp", "src/peer_connection.cpp", "src/extension_map.cpp", "src/track_selector.cpp"],
  [("generation", "SdpOffer::generate"), ("parsing", "SdpAnswerParser")],
  ["offer text parsed by an independent SDP parser; parsed answer against the text's model"])

p("C21", "Scheduled tasks run exactly once, when due, in order, or never if cancelled",
  "A scheduled task runs exactly once, never before its delay has elapsed, in due-time order, and promptly once due; a task cancelled before it starts never runs, and updating a task moves its deadline. Destroying a scheduler, or a scope within it, cancels what was pending and never runs a task afterwards, for any interleaving of submit, cancel, update and execution, including from inside tasks.",
  ["schedules", "histories"], "every sequence and interleaving of submit/cancel/update/run/destroy from one or several threads",
  "The scheduler has no test.",
  ["src/scheduler.cpp", "include/srtc/scheduler.h"],
  [("execution", "ThreadScheduler / LoopScheduler"), ("scoping", "ScopedScheduler")],
  ["task execution log against submitted/cancelled log in virtual and real time"])

p("C22", "Published frames are sent exactly once, in order, within the pacing bound",
  "Every packet of every frame accepted for publishing while connected is sent exactly once, packets of one track leave in sequence order with consecutive sequence numbers, and pacing delays no packet beyond the configured spread and drops none, whatever the frame sizes, timing and number of tracks. Timestamps of frames on one track advance with their presentation times at the track's clock rate.",
  ["inputs", "schedules", "configurations"], "every frame size and rate, number of tracks, keyframe mix and pacing configuration",
  "Neither the pacer nor the send path has a test.",
  ["src/send_pacer.cpp", "src/peer_candidate.cpp", "src/rtp_time_source.cpp", "src/rtp_packet_source.cpp", "src/send_rtp_history.cpp"],
  [("pacing", "SendPacer::sendPaced / flush / run"), ("timestamps", "RtpTimeSource::getFrameTimestamp")],
  ["RTP packets on the wire (decrypted by the scripted peer) against the published log"])

p("C23", "Simulcast layers stay separate and correctly announced",
  "Each simulcast layer's frames are sent only on that layer's own SSRC with that layer's name attached as the stream identifier on its key frames, and the announced layer allocation decodes to exactly the configured layers' indices, bitrates, sizes and frame rates. A subscriber-visible layer never carries another layer's bytes.",
  ["inputs", "configurations"], "every number of layers, layer parameters including updates, and frame sequences",
  "One test encodes one layer allocation; none sends simulcast media.",
  ["src/rtp_extension_source_simulcast.cpp", "src/rtp_extension_source_vla.cpp", "src/sdp_offer.cpp", "src/sdp_answer.cpp", "src/peer_connection.cpp", "src/peer_candidate.cpp"],
  [("extension content", "RtpExtensionSourceSimulcast"), ("layer allocation", "buildGoogleVLA")],
  ["RTP packets and extensions decoded independently"])

p("C24", "RTCP reports and statistics state the facts",
  "Sender reports carry the counts of packets and payload bytes actually sent and an RTP/NTP time pair consistent with the media timestamps; receiver reports carry the highest sequence received and echo the last sender report with the true delay. Round-trip time, frame, packet, byte and loss statistics shown to the application equal those of the traffic that actually flowed, and are never negative or non-finite.",
  ["inputs", "histories", "fault_sequences"], "every traffic pattern, loss pattern, delay and report interleaving, including stale, duplicated and bogus reports",
  "No test runs RTCP reports.",
  ["src/peer_candidate.cpp", "src/track_stats.cpp", "src/sender_reports_history.cpp", "src/receiver_reference_time_reports_history.cpp", "src/util.cpp"],
  [("reports", "PeerCandidate::sendPublishReports / sendSubscribeReports"), ("RTT", "onReceivedControlMessage_RR / _DLRR")],
  ["RTCP packets on the wire and stats callbacks against the simulated network's own accounting"])

p("C25", "Memory held stays bounded under any stream",
  "However long a session runs and whatever a peer or an unauthenticated sender transmits or withholds (endless fragments, never-completed frames, floods of new stream identifiers, unanswered requests), the memory an endpoint holds stays within a fixed bound that does not grow with the length of the history.",
  ["histories", "fault_sequences"], "every long history of received traffic",
  "Requires long adversarial histories with allocation accounting; the tests run a few packets.",
  ["src/jitter_buffer.cpp", "src/send_rtp_history.cpp", "src/sctp/sctp_session.cpp", "src/sctp/data_channel_receive_buffer.cpp", "src/twcc_publish.cpp", "src/twcc_subscribe.cpp", "src/srtp_connection.cpp", "src/ice_agent.cpp", "src/peer_candidate.cpp"],
  [("windows and histories", "capacity constants in each component")],
  ["live heap bytes sampled during long runs"])

p("C26", "Media file readers and writers round-trip and survive any file",
  "The bundled tools' media writers (WebM for VP8, VP9 and AV1, Ogg Opus, Annex B for H.264 and H.265) produce files from which a standard reader recovers every frame received, in order and with its time, key frame mark and picture size, however soon the writer is destroyed after the last frame. The media readers return exactly the frames of a well-formed file (WebM with known element sizes and unlaced SimpleBlocks, as common muxers write it; Annex B) with their times, and the parameter sets in effect with each key frame. A truncated or malformed file is rejected or read up to the damage, without memory errors or endless loops.",
  ["inputs"], "every frame sequence and every file content",
  "The tools have no tests.",
  ["tools/media_reader.cpp", "tools/media_reader_h264.cpp", "tools/media_reader_h265.cpp", "tools/media_reader_webm.cpp", "tools/media_writer_vp8.cpp", "tools/media_writer_vp9.cpp", "tools/media_writer_av1.cpp", "tools/media_writer_webm.cpp", "tools/media_writer_ogg.cpp", "tools/media_writer_h26x.cpp"],
  [("parsing", "MediaReader*::loadMedia"), ("writing", "MediaWriter*::write")],
  ["files parsed by independent readers; sanitizer reports"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
