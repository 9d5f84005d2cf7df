"""What run_check.py runs for each property."""
H = ["harness/vf.cpp", "harness/media.cpp"]
SIM = ["sim/simnet.cpp", "harness/vclock.cpp", "harness/vclock_sys.cpp", "harness/vrandom.cpp"] + H
SIMT = "runtime monitoring: whole connections in a deterministic simulation (virtual clock, sockets and scheduler) against a scripted peer, trace monitors, ASan+UBSan"
def conn(mode, quick, thorough, require):
    return dict(technique=SIMT, harnesses=[dict(name="conn", sources=["sim/conn.cpp"] + SIM, args=[mode], cases=dict(quick=quick, thorough=thorough))], require=require)
def av(mode, quick, thorough):
    return dict(name="av", sources=["sim/av.cpp"] + SIM, args=[mode], cases=dict(quick=quick, thorough=thorough))
def e2e(mode, quick, thorough):
    return dict(name="e2e", sources=["sim/e2e.cpp"] + SIM, args=[mode], cases=dict(quick=quick, thorough=thorough))
def data(mode, quick, thorough):
    return dict(name="data", sources=["sim/data.cpp"] + SIM, args=[mode], cases=dict(quick=quick, thorough=thorough))
TOOLS = dict(sources=["harness/c26_media.cpp"] + H, repo_sources=["tools/media_reader*.cpp", "tools/media_writer*.cpp", "tools/libogg/src/*.c"], repo_inc=["tools", "tools/libogg/include"])
CHECKS = {
    "C02": dict(technique=SIMT, harnesses=[dict(name="c02_media", sources=["harness/c02_media.cpp", "harness/vclock.cpp"] + H, args=["c02"], cases=dict(quick=12000, thorough=400000)), data("c02", 400, 40000),
                                           dict(name="c18_c19_twcc", sources=["harness/c18_c19_twcc.cpp", "harness/vclock.cpp", "harness/vclock_sys.cpp"] + H, args=["c02"], cases=dict(quick=800, thorough=30000))],
                require={"hostile_rtp": 100000, "hostile_rtcp": 100000, "hostile_sctp": 60000, "hostile_feedback": 5000, "genuine_frames": 5000, "requests_answered": 80}),
    "C14": dict(harnesses=[dict(name="c14_packetize", sources=["harness/c14_packetize.cpp"] + H, cases=dict(quick=16000, thorough=400000))],
                require={"frames": 2000, "packets": 5000, "wrap_cases": 50}),
    "C15": dict(harnesses=[dict(name="c15_codec", sources=["harness/c15_codec.cpp"] + H, cases=dict(quick=80000, thorough=3000000))],
                require={"rtp_packets": 5000, "foreign_rtp": 5000, "foreign_csrc": 1000, "rtcp_packets": 5000, "rtx_packets": 1000}),
    "C05": dict(harnesses=[dict(name="c05_c06_srtp", sources=["harness/c05_c06_srtp.cpp"] + H, args=["c05"], cases=dict(quick=3000, thorough=100000)), av("c05", 400, 20000), e2e("c05", 80, 10000)],
                require={"indices_control": 1000, "indices_media": 1000000, "rtp_protected": 100000, "rtcp_protected": 5000, "rollover_packets": 10000}),
    "C06": dict(harnesses=[dict(name="c05_c06_srtp", sources=["harness/c05_c06_srtp.cpp"] + H, args=["c06"], cases=dict(quick=2400, thorough=100000))],
                require={"genuine_accepted": 100000, "replays_rejected": 5000, "forgeries_rejected": 20000, "across_rollover": 100, "reconnects": 200, "burst_losses": 500}),
    "C16": dict(harnesses=[dict(name="c16_jitter", sources=["harness/c16_jitter.cpp", "harness/vclock.cpp"] + H, args=["c16"], cases=dict(quick=8000, thorough=200000))],
                require={"complete_frames": 10000, "frames_released": 20000, "resume_checks": 100}),
    "C17": dict(harnesses=[dict(name="c16_jitter", sources=["harness/c16_jitter.cpp", "harness/vclock.cpp"] + H, args=["c17nack"], cases=dict(quick=3000, thorough=100000)), av("c17", 480, 20000), e2e("c17", 200, 20000)],
                require={"nacks_answered": 50000, "resent_verbatim": 10000, "rtx_packets": 50000, "nacks_foreign": 1000, "nack_requests": 100000, "missing_packets": 50000, "nack_wire_lists": 5000, "gaps_checked": 3000}),
    "C12": dict(harnesses=[dict(name="c12_c13_sctp", sources=["harness/c12_c13_sctp.cpp", "harness/vclock.cpp", "harness/vrandom.cpp"] + H, args=["c12"], cases=dict(quick=16000, thorough=200000)), data("c12", 320, 30000)],
                require={"messages_delivered": 20000, "datagrams_lost": 5000, "hostile_sessions": 500, "long_sessions": 3, "channel_sessions": 200, "packed_datagrams": 500}),
    "C13": dict(harnesses=[dict(name="c12_c13_sctp", sources=["harness/c12_c13_sctp.cpp", "harness/vclock.cpp", "harness/vrandom.cpp"] + H, args=["c13"], cases=dict(quick=16000, thorough=150000)), data("c13", 320, 30000)],
                require={"foreign_packets": 10000, "refused_messages": 2000, "opens_announced": 2000, "closes_announced": 2000, "resets": 200, "channel_sessions": 200}),
    "C18": dict(harnesses=[dict(name="c18_c19_twcc", sources=["harness/c18_c19_twcc.cpp", "harness/vclock.cpp", "harness/vclock_sys.cpp"] + H, args=["c18"], cases=dict(quick=24000, thorough=200000))],
                require={"feedback_messages": 50000, "times_checked": 200000, "negative_deltas": 1000, "large_deltas": 1000, "resumed": 100, "split_reports": 200}),
    "C19": dict(harnesses=[dict(name="c18_c19_twcc", sources=["harness/c18_c19_twcc.cpp", "harness/vclock.cpp", "harness/vclock_sys.cpp"] + H, args=["c19"], cases=dict(quick=2500, thorough=60000))],
                require={"bandwidth_checked": 2000, "loss_checked": 300, "pacing_checked": 2000, "hostile_feedback": 5000, "probe_suggestions": 100}),
    "C21": dict(harnesses=[dict(name="c21_loop", sources=["harness/c21_sched.cpp", "harness/vclock.cpp", "harness/vf.cpp"], cflags="-DVF_VCLOCK", cases=dict(quick=12000, thorough=300000)),
                           dict(name="c21_thread", sources=["harness/c21_sched.cpp", "harness/vf.cpp"], cases=dict(quick=500, thorough=20000)),
                           dict(name="c21_tsan", sources=["harness/c21_sched.cpp", "harness/vf.cpp"], flavour="tsan", cases=dict(quick=300, thorough=20000))],
                require={"ran": 50000, "cancelled": 20000, "updated": 20000, "scopes_destroyed": 1000, "ordered_tasks": 500}),
    "C20": dict(harnesses=[dict(name="c20_sdp", sources=["harness/c20_sdp.cpp", "harness/vf.cpp"], cases=dict(quick=6000, thorough=200000))],
                require={"offers_checked": 2000, "configurations_refused": 300, "answers_exact": 2000, "answer_bad": 500, "mangled_accepted": 1000, "mangled_refused": 1000}),
    "C01": conn("c01", 3200, 60000, {"attack:stun": 100000, "attack:dtls": 50000, "attack:rtp": 50000, "attack:mutated": 50000, "attack:replayed": 50000, "sessions_survived": 1000, "genuine_frames": 50000}),
    "C07": conn("c07", 8000, 200000, {"genuine_requests": 5000, "forged_requests": 10000, "forged_responses": 5000, "genuine_after_forged": 200, "forged_only": 200, "keep_sessions": 100, "replayed_responses": 1000, "unasked_responses": 1000}),
    "C08": conn("c08", 6000, 150000, {"right_sessions": 500, "wrong_sessions": 1000, "wrong_kind2": 100, "wrong_kind3": 100, "wrong_kind4": 100, "wrong_kind5": 100, "packets_decoded": 50000, "key_exports": 500}),
    "C09": conn("c09", 8000, 150000, {"closed_by_peer": 300, "never_started": 100, "stop_in:connected": 1000, "stop_in:connecting": 1000, "stop_in:failed": 300}),
    "C10": conn("c10", 8000, 150000, {"connected": 1000, "lossy_connects": 300, "late_connects": 300, "idle_seconds": 20000, "restored": 500, "short_silences": 500, "silences_forever": 300, "one_way_cuts": 200, "dead_peers": 200, "dead_candidates": 500}),
    "C11": dict(technique="runtime monitoring: real connection pairs on real threads over loopback sockets, application threads calling the API at any time; ThreadSanitizer, ASan+UBSan, deadlock watchdog, effect and lifecycle monitors",
                note="Schedules are those the operating system produced under random delays; holds on the executions explored. Replacing a listener from inside a listener is not covered.",
                harnesses=[dict(name="threads_tsan", sources=["sim/threads.cpp", "harness/vf.cpp", "harness/media.cpp"], flavour="tsan", cases=dict(quick=320, thorough=16000)),
                           dict(name="threads_asan", sources=["sim/threads.cpp", "harness/vf.cpp", "harness/media.cpp"], cases=dict(quick=240, thorough=16000))],
                require={"api_calls": 50000, "concurrent_closes": 200, "messages_checked": 500, "frames_checked": 500, "calls_from_callbacks": 500, "steady_sessions": 15, "ended_by_peer": 5}),
    "C22": dict(technique=SIMT, harnesses=[av("c22", 560, 30000)], require={"frames_checked": 200000, "capture_times": 50000, "slow_sessions": 100, "tracks": 500}),
    "C23": dict(technique=SIMT, harnesses=[av("c23", 560, 30000)], require={"layer_frames": 50000, "key_frames_with_rid": 2000, "vla_checked": 50000, "layer_updates": 100}),
    "C24": dict(technique=SIMT, harnesses=[av("c24", 560, 30000), e2e("c24", 160, 15000)], require={"sr_checked": 1000, "sr_pairs": 1000, "dlrr_checked": 200, "rtt_checked": 300, "stats_checked": 500, "rr_highest_checked": 300, "sr_passed": 200}),
    "C03": dict(technique=SIMT, harnesses=[e2e("c03", 480, 40000)], require={"frames_delivered": 50000, "sessions_chaos": 100, "frames_H264": 3000, "frames_H265": 3000, "frames_VP8": 3000, "frames_VP9": 3000, "frames_AV1": 3000, "frames_Opus": 10000}),
    "C04": dict(technique=SIMT, harnesses=[e2e("c04", 480, 40000)], require={"frames_expected": 50000, "sessions_clean": 80, "sessions_repair": 60, "sessions_resume": 60, "packets_dropped": 2000}),
    "C26": dict(harnesses=[dict(TOOLS, name="c26_media", cases=dict(quick=9000, thorough=400000)),
                           dict(TOOLS, name="c26_tsan", flavour="tsan", args=["threads"], cases=dict(quick=600, thorough=30000))],
                require={"frames_written": 10000, "packets_written": 10000, "dimensions_checked": 300, "granules_checked": 1000, "frames_read": 10000, "parameter_sets": 3000, "damaged_rejected": 800, "damaged_read": 300, "cut_checked": 100}),
    "C25": dict(technique="runtime monitoring: whole connections in a deterministic simulation under sustained one-sided traffic, with every heap allocation of the network thread accounted (allocator hooks), ASan+UBSan",
                note="Growth is judged between stages of thousands of sends of one kind of traffic; queues filled by the application's own calls are not judged.",
                harnesses=[dict(name="memory", sources=["sim/memory.cpp"] + SIM, args=["c25"], cases=dict(quick=126, thorough=2500))],
                require={"stages": 600, "allocations": 1000000, "still_up": 80, "early_runs": 12, "vector:new-ssrcs": 2, "vector:sctp-never-ended": 2, "vector:unanswered-requests": 2}),
}
