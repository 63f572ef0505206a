"""Regenerates /verif/MANIFEST.json: a check for every props/cNN.py, every other property not applicable with its reason."""
import json
import pathlib
import re

HERE = pathlib.Path(__file__).resolve().parent.parent
NA = {
    "P01": "A pure function of one recipe: serialising and parsing involve no schedule, clock, I/O choice or other party. Torn and failing "
           "saves of the text are C17, its use by concurrent callers is C16.",
    "P02": "A pure graph search over registrations fixed at import; nothing a scheduler or a fault could vary decides its answer. What "
           "conversions do with files, failures and concurrent callers is C08, C09 and C16.",
    "P03": "Type checking of an immutable expression tree while it is built, in one thread: no schedule, time or I/O enters it.",
    "P04": "A pure function of a set of key names; no fault or schedule changes which set it is given. That it gives the same answer "
           "after any history and for concurrent callers is C09 and C16.",
    "P05": "Numeric formulas over tensors: an input-space question with nothing to interleave or to fail. That methods do not depend on "
           "schedules, do not write into inputs and keep to their seeds is C01, C10 and C14.",
    "P06": "A table of string rewriting rules and tensor slicings, decided by inputs only; no schedule, fault or history can change it.",
    "P07": "Pure coercion of values to declared types, decided by inputs only; the merge-time dictionaries are exercised by C01 as part of "
           "its reference evaluation, but the space of literals is not one of schedules or faults.",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, "
ORACLE = {
    "C01": "results compared with a sequential per-key reference evaluator",
    "C02": "results compared with a reference evaluator under partial transfers",
    "C03": "saved files parsed by three readers and compared with the reference result",
    "C04": "every read compared with the stored bytes under read faults",
    "C05": "returned merges' files compared with the reference under write faults",
    "C06": "kill snapshots of the output file read by three readers, then retried",
    "C07": "injected causes looked up in the raised chain, leftovers compared with the reference",
    "C08": "progress, liveness and resource invariants after faults and interrupts",
    "C09": "operation histories compared with each merge done alone from pristine state",
    "C10": "snapshots of inputs before and after merges",
    "C11": "results with faults compared with genuine key absence",
    "C12": "exactly-once counters over recorded calls, stores and progress",
    "C13": "memory accounting invariants during the run",
    "C14": "repeated seeded merges compared across schedules and generator states",
    "C15": "cached merges compared with uncached ones over histories",
    "C16": "concurrent callers compared with each caller alone",
    "C17": "kill snapshots and faults of recipe saves, loaded again",
    "C18": "concurrent first accesses compared with an intact load",
    "C19": "process-wide state compared before and after",
    "C20": "outputs compared before and after merges that are refused or fail while opening inputs",
    "C21": "logged warnings compared with the keys really concerned",
}
ASSUME = ("A seeded sample of schedules and faults, not all of them. Preemption happens at lines of sd_mecha and of "
          "concurrent.futures, at locks, queues and file operations; torch kernels and library internals run atomically.")
props = [json.loads(l) for l in open(HERE / "properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if (HERE / "props" / (i.lower() + ".py")).exists():
        cmd = f"/opt/venv/bin/python check.py {i}"
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "technique": TECH + ORACLE[i], "level": "exploration",
                       "level_note": ASSUME})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import torch, sd_mecha'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (threads, locks, queues, clocks, raw files, merge methods, outputs, progress) is reached "
              "from outside by sim/boot.py. check.py PROP --replay FILE reproduces a violation."}
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
