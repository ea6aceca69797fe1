#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SEQ = "explicit enumeration of all programs x inputs x histories within bounds on the real code, against a reference model"
CONC = "stateless model checking of the real code: all thread schedules up to a deviation bound under a controlled scheduler and virtual clock"
T = {
 "C01": (SEQ, "Every operator chain and misbehaving source script in the bounds was run; grammar of what the subscriber sees was checked on each."),
 "C02": (SEQ, "Output equality with an independently written interpreter of the definitions, for every program and input script in the bounds."),
 "C03": (SEQ, "Output equality with the reference for every program over 2-3 sources and every interleaving of their events in the bounds."),
 "C04": (SEQ, "Output, payload identity and subscription counts equal the reference's for every error-carrying program and history in the bounds."),
 "C05": (SEQ, "After every unsubscribe point of every history in the bounds nothing more was delivered and is_subscribed was right."),
 "C06": (SEQ, "Every source's own view (is_subscribed before each emission, observers a Subject holds) was no longer alive than the reference's."),
 "C07": (SEQ, "Every execution of the bounded space ran to its end under a runtime that detects deadlock, self-deadlock and livelock."),
 "C14": (SEQ, "Up to three subscriptions to the same value, at every point of every history in the bounds, each compared with the reference."),
 "C17": (SEQ, "Counted tokens in every callback, closure and item: none left after the end of every history in the bounds."),
}
EXTRA = json.load(open(os.path.join(os.path.dirname(__file__), "conc_notes.json"))) if os.path.exists(os.path.join(os.path.dirname(__file__), "conc_notes.json")) else {}
checks = []
for p in ["C%02d" % i for i in range(1, 20)]:
    if p in EXTRA:
        tech, note = (CONC if EXTRA[p][0] == "conc" else SEQ + "; " + CONC if EXTRA[p][0] == "both" else SEQ), EXTRA[p][1]
    elif p in T:
        tech, note = T[p]
    else:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "bash check.sh %s quick" % p,
        "thorough_cmd": "bash check.sh %s thorough" % p,
        "technique": tech,
        "level": "model_checking",
        "level_note": note + " Assumes sequentially consistent atomics, std's Arc/collections, and the facade for std::sync/thread/time (mc/vstd); bounds are in DESIGN.md and the evidence file.",
    })
m = {"version": 1, "setup_cmd": "bash mc/build.sh", "checks": checks,
     "not_applicable": [{"property": "C%02d" % i, "reason": "check not built yet"} for i in range(1, 20) if "C%02d" % i not in [c["property"] for c in checks]],
     "notes": "No hooks in /repo: mc/prepare.py copies /repo/src and makes its std:: paths resolve to the controlled runtime."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
