#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS, NOTES, NOT_APPLICABLE

HERE = os.path.dirname(os.path.abspath(__file__))
COMMON = ("Seeded search, not exhaustive: holds for the schedules and fault sequences that were simulated. Real library code runs; futexes, robust lists, "
          "threads, processes, clocks, files, inotify and randomness are simulated. Memory is sequentially consistent.")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (scenarios: %s)" % ", ".join(PROPS[i]["scen"]),
            "level": "exploration",
            "level_note": (NOTES.get(i, "") + " " + COMMON).strip(),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "Simulation applies, but the check has not been built yet.")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {"guard": "none", "enable": "No hook in /repo is used: all seams are put in by compiler instrumentation and linker wrapping.", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. `python3 check.py replay FILE v` replays a recorded violation with its trace; `python3 check.py selftest` compares trace hashes across processes.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
