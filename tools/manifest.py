#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "stateful property-based testing against a map model",
 "C02": "stateful property-based testing of batches against a map model",
 "C03": "stateful property-based testing of held snapshots, generated schedules",
 "C04": "stateful property-based testing with generated schedules of the reclamation thread",
 "C05": "stateful property-based testing against a block reclamation predicate",
 "C06": "stateful property-based testing with a virtual clock against an eviction predicate",
 "C07": "stateful property-based testing of layout invariants after every operation",
 "C08": "stateful property-based testing against a naive prefix model",
 "C09": "stateful property-based testing against a rename model",
 "C10": "property-based testing of read requests against reference bytes",
 "C11": "property-based testing of generated source files, with and without cloning",
 "C12": "generated histories with enumerated crash points against a prefix model",
 "C13": "generated histories with enumerated I/O faults against a prefix model",
 "C14": "generated concurrent scripts and schedules, linearizability against a map model",
 "C15": "differential property-based testing of the C API against the Rust API model",
 "C16": "property-based testing of the command-line tool against a naive model of the store",
 "C17": "stateful property-based testing of lock requests against an interval model",
 "C18": "property-based testing of file layouts against a byte and extent model",
 "C19": "property-based testing of generated directories against a directory model",
 "C20": "stateful property-based testing of snapshots against an in-use set",
 "C21": "stateful property-based testing with a virtual clock against a last-used model",
 "C22": "stateful property-based testing of the Go binding in a process of its own against a map model, goroutines by linearizability, under the race detector",
}
LEVEL = {"C12": "fault_enumeration", "C13": "fault_enumeration"}
NOTE = "Search over generated cases with a fixed seed; no violation found is not absence. Trusts the kernel's tmpfs, sqlite, the harness's libc interposition (deterministic schedules, virtual clock, emulated FICLONE) and its model."
NOTES = {
 "C22": "Search over generated cases with a fixed seed; no violation found is not absence. Goroutines run on real threads, so their schedules are neither chosen nor repeated. The modules the binding imports (generics, chansync, missinggo) aren't available here and are replaced by stand-ins with the same functions.",
 "C12": "Every mutating system call of each generated history is a crash point (before it, or half way through a write); the files are then as the kernel has them, which models a process crash, not a power failure. Trusts tmpfs, sqlite recovery and the model.",
 "C13": "Every eligible file operation of each generated history fails once (errno, short or partial write). Trusts tmpfs, sqlite and the model.",
}
done = os.environ.get("CLAIM", " ".join(T)).split()
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{
   "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
   "evidence_file": f"evidence/{i}.json", "technique": T[i],
   "level": LEVEL.get(i, "exploration"), "level_note": NOTES.get(i, NOTE)} for i in T if i in done],
 "not_applicable": [{"property": i, "reason": "check not built yet"} for i in T if i not in done],
 "notes": "No hooks in /repo: the harness interposes libc. Known findings and fixes are in known_findings.json.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
