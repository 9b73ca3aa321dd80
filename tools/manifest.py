#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
WHAT = {
 "C01": "exit 0 judged against a reference model of the language and an I8HEX decoder, under benign and fatal faults",
 "C02": "EINTR, short transfers, stalls, FIFOs, wrong sizes, missing services; compared with the model and with an ideal run",
 "C03": "failing opens, reads, creates, writes, full disks, broken pipes at every ordinal; exit status, message and destination judged",
 "C04": "every mutation of the output path judged step by step; kills and read failures before the decision",
 "C05": "output content after every simulated call judged: old content or prefix of the object; kills and torn writes",
 "C06": "same source on perturbed machines (entropy, clock, environment, ids, heap, build profile) compared byte for byte",
 "C07": "2 to 4 processes under seeded interleavings with kills and failures; each compared with its solo run",
 "C08": "an editor interleaved with the reads of the run; result explained by exactly one read through the model",
 "C09": "arbitrary inputs and failures; orderly end and bounded number of calls",
 "C10": "rejections with split, interrupted and failing message writes; location judged by the model",
 "C11": "histories of edits, runs, crashes and full disks; each good run compared with a fresh directory",
 "C12": "'-o -' with slow, splitting, interrupting and vanishing consumers",
 "C13": "every file-system mutation of the process judged, aliases and crashes included",
 "C14": "allocation failure at every ordinal sampled; exit status and intermediate output states judged",
 "C15": "command lines without assembly, failing consumers; no file call allowed",
 "C22": "links, hard links, FIFOs, devices, closed directories and permissions as destinations, under benign faults",
 "C23": "2 to 4 runs of one source into one output under seeded interleavings and benign faults; convergence judged at the end",
 "C24": "every open and every read of standard input judged, with terminals, pipes, failures and files that exist only when looked for",
}
PURE = "A pure function of the source text: no schedule, clock, fault, interleaving or I/O takes part in it, so there is nothing for deterministic simulation to decide. (The reference model behind C01, C02 and C10 compares the same facts incidentally, on the sources those simulations run.)"
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "checks": [{
   "property": k,
   "quick_cmd": f"./run.sh check {k} quick",
   "thorough_cmd": f"./run.sh check {k} thorough",
   "evidence_file": f"evidence/{k}.json",
   "technique": f"deterministic simulation with fault injection: {v}",
   "level": "exploration",
   "level_note": "Seeded sample of simulated executions of the real, unmodified c8s binaries (debug and release) against a simulated kernel; a clean batch is evidence, not proof. Trusts the simulated kernel, the C library seam and, where an absolute result is judged, the reference model of the language.",
 } for k, v in WHAT.items()],
 "not_applicable": [{"property": f"C{n}", "reason": PURE} for n in range(16, 22)],
 "notes": "No hooks in /repo: the seam is the C library, replaced by a preloaded shim (shim/). Replay a violation with ./run.sh replay <file>; check the simulator's determinism with ./run.sh selftest 200.",
}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
