#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
T = {
 "C01": ("simulated reader schedules (chunking, empty reads, eof with data) and concurrent loaders, differential", "Seeded sample of files and delivery schedules; equality with one-shot delivery, which C07-C11 tie to a model."),
 "C02": ("fault injection at reader calls: error, error with data, truncation, stall at every byte offset region", "Seeded sample of files, offsets and failure kinds; assumes the harness's stream is a faithful io.Reader."),
 "C03": ("simulated storage corruption (sector faults, bit flips, stale data) of raw and re-checksummed files", "Seeded sample of corruptions; a crc32 collision is assumed not to be drawn."),
 "C04": ("simulated endless, bombing and stalling streams with input and memory accounting", "Sampled stream shapes around the 32 MiB limits."),
 "C05": ("simulated file system with faults at Open/Stat/Read/Close, handle accounting; real files in a scratch folder for ParseFromPath", "Sampled contents and fault plans; the operating system's files are only checked for success, missing and damaged files."),
 "C06": ("fault injection at writer calls: errors, short writes, full disk, crash at every byte offset region", "Sampled fonts, builders and failing offsets."),
 "C07": ("seeded edit histories with crash, storage faults and reload against a reference model", "Sampled histories; the model is an independent reading of the specification."),
 "C08": ("seeded edit histories with crash, storage faults and reload against a reference model", "Sampled histories; the model is an independent reading of the specification."),
 "C09": ("seeded edit histories with crash, storage faults and reload against a reference model", "Sampled histories; the model is an independent reading of the specification."),
 "C10": ("seeded edit histories with crash, storage faults and reload against a reference model", "Sampled histories; the model is an independent reading of the specification."),
 "C11": ("seeded edit histories with crash, storage faults and reload against a reference model", "Sampled histories; the model is an independent reading of the specification."),
 "C12": ("simulated map iteration orders, interleaved builds and edits, replicated builders", "Sampled histories and iteration orders (every range over a map is decided by the simulator)."),
 "C13": ("fault injection in the entropy source and invalid edits at any point of a history, state comparison", "Sampled histories and fault plans."),
 "C14": ("fault injection at reader calls and file corruption while loading edition data, state comparison against a model", "Sampled edition files, offsets and histories."),
 "C15": ("deterministic scheduling of caller threads at statement granularity with a replayable scheduler", "Sampled interleavings (switches between statements; not the memory model of real hardware)."),
 "C16": ("seeded feeding histories (chunks, breaks, refused input) against a small executable reference model", "Sampled rule sets, fonts, settings and inputs; the model is an independent reading of the rewrite semantics."),
 "C17": ("deterministic scheduling of threads with testers sharing the compiler pool, compared with solo executions", "Sampled interleavings at statement granularity."),
 "C18": ("fault injection in tester operations (limits, malformed rules, interrupted callbacks) followed by comparison with unharmed testers and the model", "Sampled histories and failure points."),
 "C19": ("seeded histories of setting and rule changes against fresh testers and the reference model", "Sampled histories."),
 "C20": ("seeded histories of lookups, evictions, setting changes, drops and resets against uncached lookups and a model", "Sampled histories and cache sizes."),
}
CLAIMED = os.environ.get("CLAIMED", "").split() or sorted(T)
NA = [
 {"property": "C21", "reason": "a pure function of its input: no schedule, clock, fault or history can influence it, so simulation would be input generation in disguise. (Masks are exercised end to end, encoder to rasterizer, by the crash and reload histories of C07; damaged operation bytes by C03.)"},
 {"property": "C22", "reason": "pure functions and constant tables without schedule, clock, fault or history. (Their use by builder and loader is exercised by C07 and C08.)"},
]
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": NA + [{"property": p, "reason": "not built yet"} for p in sorted(T) if p not in CLAIMED],
 "notes": "Deterministic simulation with fault injection; see DESIGN.md. /repo has no hook commits: every check instruments a scratch copy of /repo's current tree (go build -overlay), so the shipped code is unchanged. VERIF_SEED selects the seed range, replay.sh FILE repeats a reported violation exactly."}
for p in CLAIMED:
    t, note = T[p]
    m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation: " + t, "level": "exploration", "level_note": note})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
