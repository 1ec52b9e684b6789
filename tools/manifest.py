#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import plan

T = {
 "C01": ("linearizability checking of recorded histories against a register model", "Histories of real concurrent calls, judged offline; Miri in the thorough tier."),
 "C02": ("linearizability checking of recorded histories against a register model", "Histories of real concurrent calls, judged offline; Miri in the thorough tier."),
 "C03": ("reference-model monitor and per-bucket conservation over concurrent recordings", "Bucket counts compared with an independent index function; bounds from begun/ended tallies under races."),
 "C04": ("linearizability checking of whole updates", "Updates carry identifiable fills; histories judged offline."),
 "C05": ("exactly-once monitor on initialisers under races, interpreted by Miri", "Counts initialiser runs and every observation made of the lazy; also under Miri."),
 "C06": ("online comparison of listings with a live-set model; offline interval check of stamped logs", "Presence, absence and exactly-once for every listing taken, sequentially and under races."),
 "C07": ("Miri, AddressSanitizer, ThreadSanitizer and canary monitors on racing drops", "Undefined behaviour, races and dead metrics in all executions driven."),
 "C08": ("execution of generated programs, listing trace compared with the declarations", "Sampled programs; all placements and argument shapes of the generator."),
 "C09": ("reference-model monitor on random iterator drivers", "Every call compared with a double-ended queue."),
 "C10": ("reference-model monitor on builder and metadata calls", "All reads compared with a map."),
 "C11": ("reference-model monitor on scripted provide and request calls", "Every request of every type compared with the script."),
 "C12": ("call monitor on formatters and independent parser of the output", "Formatter calls recorded; default output parsed back."),
 "C13": ("identity oracle over all pairs of entries and instances", "Every entry tried against every instance of the population."),
 "C14": ("multiset comparison of snapshots with a model of the population", "Whole snapshots compared record by record."),
 "C15": ("interval and monotonicity monitors on concurrent snapshots; offline lifetime check", "Bounds from begun/ended tallies and stamped lifetimes under races."),
 "C16": ("round-trip monitor over generated snapshots", "Field-by-field comparison after serialisation."),
 "C17": ("cell-by-cell comparison of converted files with the input", "Read back with the arrow reader, four interfaces, random options."),
 "C18": ("schema, metadata and layout monitor on converted files", "Read back from the file's own metadata."),
 "C19": ("reference function monitor on column names", "Names compared with an independent function, and across runs."),
 "C20": ("fault injection at every byte and call with an independent decoder as oracle", "Faults enumerated per input, inputs sampled."),
 "C21": ("deadlock watchdog over blocked-listing workloads", "Decides by thread states, not by elapsed time."),
 "C22": ("panic injection in every callback with listing and snapshot audits", "Faults in each callback at each position, sampled populations."),
 "C23": ("accept/reject monitor on the attribute macro run by the compiler", "Sampled well-formed declarations and single mutations of them."),
 "C24": ("comparison of every answer given through an entry with the answer the metric was told to give", "Metrics whose answers are set independently of one another; also while they change on another thread."),
 "C25": ("end-to-end comparison of converted recordings with the history of the live metrics", "What every metric held at every snapshot, read back from the table cell by cell."),
 "C26": ("destruction counts of tokens, allocator and open-file accounting over repeated lives", "Tokens in every place that owns something; growth judged over doublings of the number of rounds."),
}
checks = []
for p, spec in plan.PLAN.items():
    checks.append({
        "property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": "runtime monitoring: " + T[p][0], "level": spec.level,
        "level_note": T[p][1] + " Held on the executions explored, nothing beyond."
        + ("" if not spec.assumptions else " " + " ".join(spec.assumptions)),
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed at the public interface."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
