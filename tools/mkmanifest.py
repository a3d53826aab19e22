"""Write MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "N01": "Parsing and serializing are pure functions of their argument: no concurrency, time, I/O or partial failure can influence whether a round trip is lossless, so there is no schedule or fault to search over (what they do under faults is R01, R02 and R04).",
    "N02": "The MF2 parser, serializer and validator are pure functions on strings and objects; no event order, clock, I/O or fault takes part.",
    "N03": "The JSON converters are pure functions on objects; what is schedulable about them (shared state, history) is decided under R02 and R03.",
    "N04": "l10n_equal is a pure comparison of two objects in memory; nothing in it can be scheduled, delayed or made to fail.",
    "N05": "The merge rules of add_entries are a pure function of two objects; its use of shared objects and history is decided under R03.",
    "N06": "detect_format is a pure function of a name and bytes; no I/O, time or concurrency.",
    "N08": "A pure mapping between strings; no schedule, time, I/O or fault.",
    "N09": "Placeholder parsing is a pure function of a string.",
    "N10": "The helpers build objects from their arguments; no schedule, time, I/O or fault.",
}
TECH = {
    "F": "deterministic simulation with fault injection (system-call faults, crash and restart, concurrent saves), seeded search",
    "B": "deterministic simulation with fault injection (system-call faults, crash and restart), seeded search against a reference merge",
    "C": "deterministic simulation with fault injection (crash, restart, overlapping processes), seeded search against a reference count",
    "L": "deterministic simulation with fault injection (read, listing and memory faults), seeded search against a reference outcome",
    "K": "deterministic simulation with fault injection (read faults), seeded search against a reference report",
    "M": "deterministic simulation with fault injection (system-call faults, crash and re-run), seeded search against a reference migration",
    "D": "deterministic simulation: the same seeded runs replayed under other hash seeds, encodings, clocks, listing orders, read sizes",
    "P": "deterministic simulation with fault injection (listing orders, read and listing faults), seeded search against a reference model",
    "R": "deterministic simulation with fault injection (thread schedules, exceptions at drawn lines, short reads, concurrent replacement), seeded search",
}
NOTE = {
    "R": "Seeded search, not exhaustive: a bug shows only if a drawn schedule, history or fault reaches it. Threads are interleaved at Python line granularity, one running at a time; the oracle is the same calls made alone, in order.",
    "D": "Seeded search over generated projects; each is run in four worker interpreters that differ in hash seed, locale and encoding, with further differences simulated. Assumes that the four hash seeds tell set orders apart (several drawn per run).",
    "": "Seeded search, not exhaustive: a bug shows only if a drawn project, fault or schedule reaches it. Trusts the simulated disk's model of POSIX calls (single-writer crash consistency at system-call granularity; rename is atomic and what was written before a crash may be cut at any byte) and the check's own reference model.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
m = {"version": 1, "setup_cmd": "python3 run.py list", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"python3 run.py check {i}",
        "thorough_cmd": f"python3 run.py check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i[0]],
        "level": "exploration",
        "level_note": NOTE.get(i[0], NOTE[""]),
    })
m["notes"] = ("No hooks in /repo: the seams are the os/io functions that Python already lets a process replace (sim/vfs.py, installed before moz.l10n is imported). "
              "Checks import moz.l10n from /repo/python directly, so there is nothing to build. VP_JOBS sets the number of worker processes, VP_THOROUGH_S the time of a thorough run (600 s).")
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
