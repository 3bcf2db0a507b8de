#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
base = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(base, "properties.jsonl"))]
DST = "deterministic simulation with fault injection: "
TECH = {
 "H01": "seeded kills and power losses after shown results, fresh sessions read the surviving disk, checked against a reference store",
 "H02": "seeded kills and power losses inside store creation, saving, eviction and capacity changes, over repeated crashes, checked against a reference store",
 "H03": "seeded histories with capacity changes and crashes around the eviction boundary, checked against a reference store",
 "V01": "seeded assignments under all settings with kills, power losses and storage failures, values read back by fresh sessions",
 "V02": "seeded use/evict/purge histories with crashes and hash orders, checked against a reference store with expiry",
 "V03": "seeded interleavings of sessions assigning, reading, reloading and purging, linearization search against a reference model",
 "M01": "seeded interleavings at disk-operation level with kills and power losses, linearization search against a sequential model",
 "M02": "seeded interleavings of scrolling sessions with saving and evicting ones, checked against the saved lines at session start",
 "M03": "seeded lock contention with bounded operation costs and kills, progress within bounded simulated time",
 "E01": "seeded storage failures at every kind of operation of chosen lines, checked against a reference model that lets only the failing line fail",
 "E02": "seeded sessions without a store beside sessions with one, storage operations counted per session",
 "T01": "seeded terminal and storage errors at the n-th operation, terminal state and exit status checked on a terminal emulator",
 "T02": "seeded key/resize schedules against a reference line editor",
 "T03": "seeded key/resize schedules against a reference editor and a terminal emulator",
 "T04": "seeded recall/edit/submit schedules against a reference history, across sessions",
 "T05": "seeded hostile lines, keys, resizes and storage failures; the session must prompt again",
 "C01": "seeded setting changes in interleaved sessions with storage failures, checked against a settings model",
 "R01": "seeded histories of interleaved sessions with storage failures, answers compared with those of simulated sessions that leave the other lines out",
 "I01": "seeded single-expression runs beside live sessions with the terminal and the store made to fail, answers compared with those of simulated sessions",
 "C02": "seeded prepared stores opened under crashes and storage failures, compared with what was on disk before",
}
NOTE = ("Seeded search over many simulated runs of the real program (all of /repo/src compiled unchanged, real SQLite, real option parsing) "
        "inside a simulator that owns scheduling, terminal, disk, locks, clock and hash seeds. A clean batch is evidence, not proof: schedules and faults "
        "are sampled, not enumerated. Trusted: the simulated disk and terminal, and the reference model.")
A = ("A pure function of the submitted text and the settings in effect: no schedule, clock, fault, crash or interleaving enters, so there is nothing "
     "for a simulator to decide; seeding inputs through it would only be input generation.")
checks = []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=DST + TECH[i], level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="bash check.sh build", checks=checks,
         not_applicable=[dict(property=p["id"], reason=A) for p in props if p["id"] not in TECH],
         notes="No hooks in /repo: every seam is a wrapper crate, an interposed libc call or a SQLite VFS in /verif/sim. 'bash check.sh replay FILE' repeats the run of a replay file.")
json.dump(m, open(os.path.join(base, "MANIFEST.json"), "w"), indent=1)
