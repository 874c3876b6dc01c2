#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks_cfg.py and the property list."""
import json, sys
sys.path.insert(0, "/verif")
sys.dont_write_bytecode = True
from checks_cfg import CHECKS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {
    "U01": "Case mapping and decoding are pure functions of their input: no schedule, clock, fault, placement or history for a simulator to vary. (Their memory and failure behaviour is covered by M04, A01, C04, C05.)",
    "E01": "A property of the text of the interface over releases and of linking, not of an execution; there is nothing to simulate. (That both epochs, linked into one program and used by its threads at the same time, do not disturb each other is covered by C04.)",
}
TECH = "deterministic simulation with fault injection: seeded search over %s, checked against %s"
SPEC = {
    "C01": ("thread schedules", "ownership, happens-before and progress invariants"),
    "C02": ("thread schedules and pthread failures", "the true state of the native mutex"),
    "C03": ("thread schedules and creation failures", "a ledger of threads, joins and detaches"),
    "C04": ("thread schedules", "the same work run alone, plus happens-before race detection"),
    "C05": ("thread schedules", "a single reader's answers, plus happens-before race detection"),
    "F01": ("I/O faults and concurrent writers", "the simulated disk's content history"),
    "F02": ("I/O faults and short reads", "the simulated disk's content"),
    "F03": ("I/O faults and object histories", "the simulated disk and mapping table"),
    "F04": ("I/O faults, crashes and concurrent processes", "an atomic-rename model of the tree"),
    "F05": ("directory orders, I/O faults and concurrent changes", "a reference matcher over the tree's history"),
    "H01": ("I/O, thread and allocation faults with abandonment", "the simulator's table of open handles"),
    "A01": ("allocation failures at every point", "the fault-free result, memory checks and leak accounting"),
    "A02": ("operation histories, memory placement and failures", "a ledger of element lifetimes"),
    "M01": ("operation histories, memory placement (salt) and failures", "a plain dictionary"),
    "M02": ("operation histories, memory placement and failures", "a sorted dictionary"),
    "M03": ("operation histories, memory placement and failures", "an abstract sequence"),
    "M04": ("operation histories, memory placement and failures", "an abstract byte string"),
    "M05": ("memory placement (pivots) and allocation failures", "a reference permutation and ordering check"),
    "M06": ("operation histories, memory placement and failures", "an abstract state"),
    "M07": ("histories of loops, sources that fail, memory placement", "the abstract sequence that is still to come"),
    "O01": ("object histories, memory placement, left-over contents and allocation failures", "reference orders on the content"),
    "P01": ("operation histories, memory placement and failures", "a reference model of path texts"),
    "G01": ("declarations, command lines, memory placement and failures", "a reference parser"),
    "R01": ("histories of patterns and matches, memory placement and failures", "a backtracking reference matcher"),
    "W01": ("I/O faults and memory placement", "reference word counts of the simulated file"),
}
LEVEL = ("Sampling, not proof: thousands of seeded simulated runs per quick check, millions in the thorough tier, each exactly "
         "repeatable from its seed; every report is re-run in a fresh process before it is printed. The repository's own sources run unmodified (%s); %s. "
         "Trusts the simulator, the reference model and clang's memory-access instrumentation.")
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH % SPEC[i], "level": "exploration",
                       "level_note": LEVEL % ("both epochs" if c.get("epochs", (2025, 2026)) != (2026,) else "the 2026 epoch", "replaced: " + "; ".join(x.split(":")[0] for x in c["stub"]))})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet: its scenarios are being built.")})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "PYSTD_SIM", "enable": "No hooks in /repo are needed: the checks compile /repo's sources as they are, with clang's memory-access "
               "instrumentation, and redirect the operating-system, allocator and pthread symbols of the resulting objects to the simulator.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "DESIGN.md describes the simulator, the oracles, the defects found and which planted bugs each check catches. known-findings.txt lists fixed and open findings."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
