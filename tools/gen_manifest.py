#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
COMMON = ("Seeded random search over inputs, schedules and faults: no violation found is not a proof. "
          "The library, its dependencies, the allocator and std are real; the file system, clocks, randomness and "
          "thread scheduling below the libc calls are simulated. ")
NOTE = {
 "C01": "Compares every loaded document with a reference model, with restarts between saves and loads.",
 "C02": "Compares every loaded document file with a reference model, with overwrites, refusals, removals and restarts.",
 "C03": "Kills the process before or after any file system call, or inside a write; completed writes survive (power loss is not modelled).",
 "C04": "Kills the process before or after any file system call, or inside a write; completed writes survive (power loss is not modelled).",
 "C05": "Injects EIO, ENOSPC, EACCES, EINTR, short writes and a full disk into every call a save makes.",
 "C06": "Crashes and disk errors; everything listed afterwards is loaded and compared with what save calls were given.",
 "C07": "Documents are edited while background saves run; callbacks and stored contents are compared with the state at the call.",
 "C08": "One caller at a time; decides from which accepted saves have produced their file and called back.",
 "C09": "Two to four caller threads in the same and in different directories; deadlock and lost wake-up show as all threads blocked.",
 "C10": "Removals with crashes and failing deletions on branching histories of several sources.",
 "C11": "Chains of generated source versions; the conversion is compared with a reference model. Options stay the same across sources.",
 "C12": "Crashes, disk errors and source edits around first saves; everything that reported success is read after a restart and upgrade.",
 "C13": "Clock jumps, touched timestamps, shuffled directory order and foreign files; listings compared with the model.",
 "C14": "Counts the version files opened by each load.",
 "C15": "Edits copies while saves run; IDs are compared with a per-list floor kept by the model.",
 "C16": "Truncated and missing files, failing opens, reads and listings, single- and multi-threaded loading.",
 "C17": "Reads the same source from files and archive under different schedules, directory orders and faults.",
 "C18": "Compares the whole simulated disk before and after every operation.",
 "C19": "Random edits and cursor walks on lists of several copies, compared with a reference model, with background saves running.",
 "C21": "Repeats each kind of operation 40 times, with and without a lasting fault, and compares open files, threads and memory in use between the repetitions.",
 "C22": "Compares every listing of document files with the reference model and with the simulated disk.",
 "C20": "Archives generated directory trees through files and readers that deliver pieces, fail or are cut short, several at the same time.",
}
NA = {
 "N01": "A pure function of the source text: no schedule, fault, clock or file system behaviour takes part, so simulation with fault injection adds nothing over plain example tests.",
 "N02": "A property of generated code at compile time; nothing is scheduled or can fail at run time.",
 "N03": "A pure function without concurrency or faults. Encoding and decoding are exercised on all value kinds by C01 and C02, but not claimed over all value sequences.",
 "N04": "A pure in-memory conversion without concurrency or faults.",
}
M = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="none", enable="No changes to /repo are needed: the checks build the unmodified crates and replace the libc calls below them.", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
               evidence_file=f"evidence/{p['id']}.json", technique="deterministic simulation with fault injection",
               level="exploration", level_note=COMMON + NOTE[p["id"]]) for p in P if p["id"] in NOTE],
  not_applicable=[dict(property=p["id"], reason=NA[p["id"]]) for p in P if p["id"] not in NOTE],
  notes="replay.sh <file> reproduces a reported violation. known_findings.txt lists the defects found. DESIGN.md describes the simulation, its assumptions and which check catches which planted bug.")
json.dump(M, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
