#!/usr/bin/env python3
"""Writes MANIFEST.json. Edit the tables here, not the output."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

NOTES = {
 "C01": "Seeded search over schedules: every concurrent call is compared with the same call alone in a fresh process. Evidence, not proof: statement-granularity interleavings under sequential consistency, for the sources the generator makes.",
 "C02": "Every simulated schedule runs under Go's race detector with the scheduler's own synchronisation hidden, so a racing pair is reported whichever way the run interleaves it, as long as both accesses are executed (and still in the detector's history).",
 "C03": "Memory reachable from all kept results of a process is compared byte range by byte range, results are overwritten by their owners between and during other calls, and everything kept is compared with its state at return. Unexported memory is seen only through its effects.",
 "C04": "Histories of up to 1800 calls under zone, clock, GC and hash-seed faults, each result compared with the same call alone in another process with other values of all of these.",
 "C05": "Date and elapsed time of each compilation are checked against the simulated clocks under wall-clock steps and stalls at arbitrary steps. The instants are those of the simulated clock; a call's own work costs simulated time per step.",
 "C06": "Chains of processes over one simulated disk with crashes at arbitrary steps, torn, short, lost and failed writes. Compared through a fixed list of the fields the JSON form carries, written from the pinned commit.",
 "C07": "No deadlock, livelock or unbounded extra work on any explored schedule; bounded liveness: once stalls stop, scheduling is fair and every call must end within a fixed multiple of the work it needs alone.",
 "C08": "Goroutines, timers, liveness of dropped queries and sources, and live memory over windows of up to 900 calls, after forced collections. Growth below 12 bytes per call is not seen.",
 "C09": "Readers and encoders share queries under seeded schedules; values compared before, during and after; every third run under the race detector with only the library's own synchronisation.",
 "C11": "The real module, built for js/wasm, with Go's wasm_exec.js in a simulated page (event order, clocks, timers, randomness) under node; answers compared with the native library's for the same text alone. Memory growth below about 2 KB per call is not seen.",
 "C12": "Chains of processes of two builds, one of a frozen copy of the released source, over one simulated disk with crashes and write faults; queries compared through the fixed list of carried fields.",
 "C10": "Stored records damaged as a bad disk damages them, decoded under concurrency; accepted ones must re-encode and decode without loss and are walked by an independent reader of the format for undefined names and values of the wrong kind.",
}
TECH = {
 "C02": "deterministic simulation (seeded schedules) with happens-before race detection",
 "C05": "deterministic simulation with clock faults and stalls",
 "C06": "deterministic simulation with crash, restart and disk faults",
 "C10": "deterministic simulation with storage corruption faults",
 "C12": "deterministic simulation of mixed-version processes with crash, restart and disk faults",
 "C11": "deterministic simulation of a web page: seeded event order, odd arguments, clock and timer faults, restarts",
}
NA = json.load(open(os.path.join(here, "not_applicable.json")))
na = {x["property"] for x in NA}
checks = []
for p in props:
    i = p["id"]
    if i in na:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick ./run.sh check " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH.get(i, "deterministic simulation: seeded search over schedules, histories and faults"),
        "level": "exploration",
        "level_note": NOTES[i],
    })
m = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": checks,
    "not_applicable": NA,
    "notes": "No hooks in /repo: the simulator instruments a copy of the working tree when it builds (see DESIGN.md). Repairs of defects are listed in KNOWN_FINDINGS.txt. './run.sh replay FILE' re-executes a recorded violation; './run.sh selftest' shows that executions are exactly repeatable.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
