"""Writes MANIFEST.json (committed; run by hand when checks change)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+/TLC: "
CHECKS = {
 "C01": (T + "calls recorded from every implementation replayed through the ISAP state machine (Isap.tla/IsapTrace.tla)",
         "Trace validation of recorded calls against an executable TLA+ definition of ISAP v2.0; about 2 million further calls per run are compared between all implementations and every disagreement is reduced to a call that TLC judges. Trusts TLC, the driver and the transcription of the ISAP definition (checked on all repository KATs)."),
 "C02": (T + "decryptions of specification-made and own ciphertexts judged by Isap.tla and AeadApi.tla",
         "Genuine ciphertexts (issued by the TLA+ machine and by the implementation itself) are opened by every implementation; TLC judges the recorded histories; bulk round trips count failures."),
 "C03": (T + "forgeries enumerated by TLC (Forge.tla) replayed into every implementation, histories judged by AeadApi.tla and Isap.tla",
         "All one-step modifications of the catalogue are enumerated exhaustively for the chosen records; random multi-byte forgeries are sampled (more than 10 million per run)."),
 "C04": (T + "rejected decryptions observed at every store to the output, histories judged by AeadApi.tla (NoRelease), design invariant NoEarlyRelease in Isap.tla",
         "x86 builds: every store to the output buffer is observed. ARM builds (emulated): observed at page touches and on timers only."),
 "C05": (T + "all short lengths replayed, histories judged by AeadApi.tla (ShortRejected)",
         "All lengths 0..15 with several contents, associated data lengths and buffer placements next to inaccessible memory, for every implementation."),
 "C08": (T + "call histories enumerated by TLC (ApiGen.tla) replayed into every implementation and judged by AeadApi.tla",
         "All histories of the small world up to the depth given; long random histories; stack residue, output contents and initial values of automatic variables varied."),
 "C10": (T + "calls of all implementations merged into one history of the instance, judged by AeadApi.tla",
         "Equality of outcomes and cross decryption on all explored inputs."),
 "C11": (T + "recorded hash calls replayed through the Ascon-Hash machine (AsconHash.tla/HashTrace.tla)",
         "As C01, for the hash."),
 "C06": (T + "buffer placements enumerated by TLC (Place.tla) replayed next to inaccessible memory; footprints judged by the specification",
         "Every call of the placements runs with each buffer ending and starting at an inaccessible page and inputs read-only; sizes and offsets are enumerated by TLC, outcomes judged by AeadApi.tla."),
 "C07": (T + "alignments enumerated by TLC (Place.tla) replayed into every implementation, outcomes compared with the aligned call judged by Isap.tla",
         "All alignments modulo 16 of the pointer arguments in the enumerated combinations; emulated ARM reports unaligned faults only for instructions that always require alignment."),
 "C09": (T + "schedules enumerated by TLC (Sched.tla) imposed on real concurrent calls; histories judged by AeadApi.tla; shared writes observed",
         "x86: a call is interrupted at chosen instructions and other calls run to completion in between (all schedules of Sched.tla); ARM: writes to static storage are observed, threads run in parallel."),
 "C12": (T + "recorded instruction and address traces judged by the observer machine (Leak.tla/LeakTrace.tla)",
         "Traces of executed instructions and data addresses of pairs of runs that differ only in key, plaintext and tag value; the pairs are chosen by the design model MCLeak. ARM: addresses of basic blocks for all calls, data addresses for a subset."),
 "C13": (T + "colliding pairs of broken framings enumerated by TLC (Framing.tla) replayed into every implementation, judged by FrameTrace.tla",
         "All pairs up to the bound of the design model; every broken framing rule of the model is refuted by at least one enumerated pair."),
 "C14": (T + "probe calls enumerated by TLC (Len.tla) with lengths up to 2^40 replayed into every implementation, observations judged by LenTrace.tla",
         "Huge inputs are mapped without memory of their own; calls that cannot end in the time given are observed while they run (still running, output produced); the model shows which narrowed counters each probe exposes. Counters wider than 40 bits are not reached."),
 "C15": (T + "calls of differently compiled builds merged into one history, judged by AeadApi.tla",
         "gcc and clang at several optimisation levels and dialects; equality of outcomes on all explored inputs."),
 "C16": (T + "calls run on emulated processors chosen by Port.tla merged into one history, judged by AeadApi.tla",
         "Cross-compiled with clang and run under qemu user emulation without a C library; the model shows which processor-dependent ways of loading, storing, comparing and counting the planned machines expose. Sources that do not cross-compile are skipped and listed in the evidence."),
 "C17": (T + "costs of accepted and rejected decryptions judged by WorkTrace.tla (phase model Work.tla)",
         "Durations select suspicious calls, counts of executed instructions of the accepted call, the rejected call and a call without message decide. Work below 40 % of a re-keying plus key stream is not resolved by timing. Emulated ARM: instruction counts of the candidates and, in the thorough tier, of a sample."),
 "C18": (T + "stack depth, allocations and system calls of calls judged by ResTrace.tla (machine Res.tla)",
         "Stack depth is measured by a painted stack, allocations by link-time stand-ins, system calls by a seccomp filter (x86) or the emulator's trace (ARM), for lengths up to 2^20."),
}
NA = {}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in CHECKS:
        NA[p] = "check not built yet"
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                 "technique": t, "level": "model_checking", "level_note": n} for p, (t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "Everything is checked through the public interface; /repo carries no hooks."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
