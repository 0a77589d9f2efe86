#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

  python3 tools/spec.py        regenerate both
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = "deterministic simulation with fault injection: "
GENERIC = ("Seeded search, not a proof: the real library, bindings and Python package run in one process under the simulator "
           "(random stream, heap placement and file results decided by the seed); every run's complete vehicle history "
           "is recorded at each interval and judged. Assumes inputs inside the generator's scope (DESIGN.md section 3).")


def p(id, title, statement, over, text, why, files, mech, tech, level="exploration", note="", hook=True, observe=None):
    P.append(dict(row={
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe or ["Python API", "event history recorded after every interval"],
                    "hook_needed": "macposts_sim_tick at the end of MNM_Dta::load_once (MACPOSTS_SIM)" if hook else None}},
        check={"property": id, "quick_cmd": "./check.sh %s quick" % id, "thorough_cmd": "./check.sh %s thorough" % id,
               "technique": TECH + tech, "level": level, "level_note": (note + " " if note else "") + GENERIC}))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(row={
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                                           "hook_needed": None}}, check=None))
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "spec_rows.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["row"]) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "MACPOSTS_SIM", "enable": "sim/build.py compiles /repo's sources with -DMACPOSTS_SIM and links "
                   "sim/observer.cpp, which defines the hook; the shipped build never defines it",
                   "source_commits": HOOKS},
         "checks": [x["check"] for x in P if x["check"]], "not_applicable": NA,
         "notes": "check.sh replay <file> re-executes a replay file. Environment: VERIF_SEED (base seed), SIM_RUNS, SIM_WALL, "
                  "SIM_WORKERS."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for x in P:
        r = x["row"]
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        n = r["statement"].count(". ") + 1
        assert n <= 3, (r["id"], n)
    print(len(P), "properties,", len(m["checks"]), "checks")


main()
