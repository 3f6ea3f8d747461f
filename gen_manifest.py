#!/usr/bin/env python3
"""writes MANIFEST.json from the list below"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
PY = "/opt/venv/bin/python -B sim/main.py"
CLAIMED = sys.argv[1:] or ["C%02d" % i for i in range(1, 17)]
NOTE = {
    "C01": "Seeded search over thread interleavings (line and bytecode granularity) of real converted models; samples schedules, does not exhaust them.",
    "C02": "Seeded search over abort points (deadline, interrupt, allocation failure) at line and bytecode granularity; samples histories.",
    "C03": "Seeded search over deliveries, abort points and interleavings; the request image is compared inside calls at sampled points.",
    "C04": "Seeded search over histories of calls and in-place edits by callers.",
    "C05": "Seeded search over simulated batching histories; comparison to 1e-9 relative.",
    "C06": "Seeded search over store/load/copy/crash histories across processes with different hash seeds.",
    "C07": "Every run is a fresh process with only the standard library; seeded choice of services, calls and import failure kinds.",
    "C08": "Seeded search over document contents and read/open/decode faults at a simulated disk behind open().",
    "C09": "Seeded search over stream lengths, producer faults, pauses and re-entrant calls.",
    "C10": "Seeded search over histories of training, conversion, aborts, overlap and source edits with real scikit-learn/xgboost/fasttext.",
    "C11": "Seeded search over simulated deployments; reference is the native model's own answers, label comparison skipped where native scores tie within 1e-7.",
    "C12": "Seeded search over request histories of up to 4000 calls.",
    "C13": "Seeded search over simulated deployments of fasttext models; reference is the native model's own answers.",
    "C14": "Seeded search over clock behaviours (steps, coarse ticks, stalls) and operation durations.",
    "C15": "Seeded search over overlapping and aborted conversions, loads and calls; compares a snapshot of process-wide state.",
    "C16": "Seeded search over mixes of calls, rejections, aborts, overlaps, conversions, stores and discards, repeated for 8-170 rounds; a leak that only a longer history shows is not seen.",
}
NA = {
    "N01": "Pure function of one configuration: no schedule, time, I/O, fault or history can affect the outcome of a single conversion attempt, so simulation adds nothing over plain enumeration of configurations.",
    "N02": "Pure function of one input pair (sparse and dense form of the same rows): there is no concurrency, time, I/O, randomness or multi-party behaviour to simulate.",
    "N03": "Pure function of one input: numeric well-formedness of a single answer involves no schedule, fault or history.",
    "N04": "Pure function of one token; bit-compatibility of a hash is an input-space question with nothing nondeterministic to put behind a seam.",
    "N05": "Pure function of its operands; equality with the native metric is an input-space question without schedule, fault or history.",
    "N06": "Pure function of one malformed input; whether a single call rejects it does not depend on any schedule, fault or history.",
}
for i in range(1, 17):
    if "C%02d" % i not in CLAIMED:
        NA["C%02d" % i] = "check under construction"
m = {"version": 1, "setup_cmd": PY + " setup",
     "checks": [{"property": c, "quick_cmd": PY + " check " + c, "thorough_cmd": PY + " check " + c + " --tier thorough", "evidence_file": "evidence/%s.json" % c,
                 "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, replayable",
                 "level": "exploration", "level_note": NOTE[c]} for c in CLAIMED],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
