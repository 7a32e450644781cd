#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
BIN = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    BIN[p] = "search"
for p in ("C09", "C10", "C11", "C12", "C13", "C15"):
    BIN[p] = "grid"
BIN["C14"] = "cursor"
TECH = "deterministic simulation with fault injection: seeded search over client schedules and fault sequences, "
ORACLE = {
    "C01": "answers judged against an independent breadth-first reference",
    "C02": "answers judged against an independent breadth-first reference",
    "C03": "answers judged against an independent relaxation reference in 128-bit arithmetic",
    "C04": "answers of algorithms, storage flavours and repetitions compared with each other",
    "C05": "layers judged against an independent distance reference",
    "C06": "every item compared with an undisturbed run of the same iteration",
    "C07": "boundedness, provenance and panic payloads checked while the caller misbehaves",
    "C08": "results compared with a reference walk over the same damaged map",
    "C09": "contents compared with a plain table fed the delivered prefix",
    "C10": "every element's life accounted for in a ledger",
    "C11": "history refinement against a plain table of cells",
    "C12": "history refinement against a plain table of booleans",
    "C13": "accepted text compared with a reference rendering",
    "C14": "history refinement against a double-ended list of the range's members",
    "C15": "history refinement of all back-ends against one reference map and set",
}
NOTE = ("Seeded sampling, not proof: a clean run means no violation in the runs counted in the evidence. "
        "Real library code, unmodified; the simulator owns the caller's callbacks, streams, sinks, elements, stores, the thread schedule and std's hash keys. "
        "Trusts rustc, std, and the reference model in /verif/sim.")
NA = {
    "N01": "A pure function of its arguments: no schedule, history, fault or interleaving exists for a simulator to decide; enumeration of the finite tables decides it.",
    "N02": "A pure function of its arguments with nothing for a scheduler or fault injector to vary; input generation alone would decide it.",
    "N03": "A pure function of its arguments with nothing for a scheduler or fault injector to vary; input generation alone would decide it.",
    "N04": "A pure function of its arguments with nothing for a scheduler or fault injector to vary; input generation alone would decide it.",
    "N05": "Concerns which programs the compiler accepts; nothing executes, so there is no run to simulate.",
    "N06": "A pure function of its arguments with nothing for a scheduler or fault injector to vary; input generation alone would decide it.",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    b = BIN.get(p)
    if b and os.path.isdir(os.path.join(ROOT, "sim/src/bin", b)):
        checks.append({
            "property": p,
            "quick_cmd": f"VERIF_TIER=quick checks/run.sh {b} {p}",
            "thorough_cmd": f"VERIF_TIER=thorough checks/run.sh {b} {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH + ORACLE[p],
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "Check under construction.")})
m = {"version": 1, "setup_cmd": "checks/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo were needed: every seam (callbacks, streams, sinks, element code, stores, hash keys, scheduling points) is reachable through the public API. Replay a reported violation with checks/replay.sh FILE."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
