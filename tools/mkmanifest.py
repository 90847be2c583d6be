#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over "
note = {
 "C01": (T + "interleavings and preemptions of several callers' histories, set model per graph", "Real library; callers, hash seeds, instruction-level preemption and allocator simulated. Sampled, not exhaustive."),
 "C02": (T + "interleavings of matrix histories over 14 entry types, map model per matrix", "As C01."),
 "C03": (T + "derivation, mutation and drop histories over pools of objects, recorded observations", "As C01."),
 "C04": (T + "crashes, disk faults and schedules of processes saving and loading, against a reference codec and a durability model", "Disk, file system and the saving application are models; encoder and decoder are real."),
 "C05": (T + "crashes, disk faults and schedules of processes saving and loading, against a reference codec and a durability model", "As C04."),
 "C06": (T + "storage and transport faults on images, against a reference decoder", "Reference decoder is independent of the library."),
 "C07": (T + "storage and transport faults on images, against a reference decoder", "Reference decoder is independent of the library."),
 "C08": (T + "message loss, duplication, delay, reordering, partitions, crashes and snapshots between replicas, convergence once faults stop", "Network and replication protocol are models; every replica is a real graph."),
 "C09": (T + "histories, schedules and thresholds at block boundaries, per-block count model", "Averages of blocks wider than 2^26 are compared with a tolerance."),
 "C10": (T + "histories, schedules and levels at block populations, per-block mask model", "As C01."),
 "C11": (T + "refused and impossible output allocations at chosen calls, retried", "Faults hit requests as large as the output; small bookkeeping requests are not refused."),
 "C12": (T + "histories and argument magnitudes with memory metered at the allocator seam and a processor-time watchdog", "Bounds are generous multiples of the data present."),
 "C13": (T + "interleavings of C API calls and frees from several threads, allocator-level ownership checks", "C callers simulated; library called through its C ABI."),
 "C14": (T + "corrupt and absent inputs, null arguments and refused allocations between C API calls, each retried", "As C13; faults hit requests as large as the output."),
 "C15": (T + "instruction-level preemption of readers and independent writers, each result compared with running alone", "One caller runs at a time (sequential consistency); no weak-memory effects."),
 "C16": (T + "bytecode-level interleavings of Python threads, garbage collections and finalisation orders over the real package", "CPython runs for real under one baton; native library instrumented by the allocator seam."),
 "C17": (T + "invalid bytes and refused native allocations at chosen Python calls, each retried", "As C16."),
 "C19": (T + "histories, callers and refused memory between renderings, each cell compared with the model and with a twin of another history", "Texts up to 512 KiB are rendered and compared; larger ones only when they must be refused."),
 "C18": (T + "interleavings of builders and block orders, set-of-blocks model", "As C01."),
}
na = {}
claimed = [k for k in sorted(note) if k not in ("C16", "C17") or os.path.exists(here + "/sim/py/driver.py")]
for k in note:
    if k not in claimed:
        na[k] = "The Python driver is not finished."
m = {
 "version": 1,
 "setup_cmd": "/verif/setup",
 "checks": [{"property": k, "quick_cmd": f"/verif/check {k} quick", "thorough_cmd": f"/verif/check {k} thorough",
             "technique": note[k][0], "level": "exploration", "level_note": note[k][1]} for k in claimed],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
