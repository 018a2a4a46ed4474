#!/usr/bin/env python3
"""Rewrites MANIFEST.json; arguments: ids of the properties claimed so far."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = sys.argv[1:]
na = json.load(open(os.path.join(here, "tools", "na.json")))
notes = {
 "io": "Seeded search over simulated deliveries, faults and thread schedules against independent models of the formats; sampling, not proof. Trusts the simulated source to follow the contracts of std::io and the models written from the properties.",
 "graph": "Seeded search over graphs, presentations, query histories, hash seeds, thread hand-overs and interruptions against a slow reference model with its own exact arithmetic; sampling, not proof. Trusts the reference model; graphs have at most about a dozen vertices where symmetries are involved and about forty otherwise.",
 "part": "Seeded search over operation histories, element types, hash seeds and interruption points against a naive equivalence closure; sampling, not proof.",
 "group": "Seeded search over operator lists, orders, hash seeds and interleavings against direct models with own arithmetic; sampling, not proof. Coefficients are kept small enough not to overflow.",
 "linalg": "Seeded search over matrices, lattices, metrics, maps, histories, interruption points and interleavings against a model with its own exact arithmetic; sampling, not proof.",
 "mix": "Seeded search over mixes of users, schedules, abandonments and hash seeds; every transcript is compared with that of the same user alone or under other seeds. Sampling, not proof.",
}
area = {}
for i in range(1, 10): area["C%02d" % i] = "io"
for i in [*range(10, 21), 34, 38]: area["C%02d" % i] = "graph"
for i in (21, 22): area["C%02d" % i] = "part"
for i in (23, 24, 25, 36, 37): area["C%02d" % i] = "group"
for i in (28, 30, 31, 35): area["C%02d" % i] = "linalg"
for i in (26, 27): area["C%02d" % i] = "mix"
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, nas = [], []
for p in props:
    if p in claimed:
        checks.append({
            "property": p,
            "quick_cmd": "./check.sh " + p,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, histories and faults, judged by a reference model",
            "level": "exploration",
            "level_note": notes[area[p]],
        })
    else:
        nas.append({"property": p, "reason": na.get(p, "Not claimed yet: the check is under construction.")})
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {
        "guard": "cfg(systre_sim)",
        "enable": "RUSTFLAGS=\"--cfg systre_sim\" (set by check.sh)",
        "source_commits": ["b275244", "307913a", "2cee16f"],
    },
    "checks": checks,
    "not_applicable": nas,
    "notes": "check.sh builds sim/ against /repo's working tree and runs one property. VERIF_SEED and VERIF_TIER are honoured. Replay a failure with: ./check.sh replay FILE.",
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
