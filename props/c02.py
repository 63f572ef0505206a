"""C02 Buffer sizes and partial transfers never change a merge's result"""
from .common import *

ID = "C02"
BUDGET = {"quick": (5400, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case is a random recipe with an extreme buffer budget, several operands per file, odd file layouts and an operating system "
        "that splits transfers; options often avoid copies so that results alias read buffers. Non-trivial: the run moved data through a "
        "file (reads or writes) in at least two transfers")
PROBES = ["fault:chunked", "fault:short_read", "shared-file", "no-copy", "zero-budget", "file-output"]


def gen(rng, tier, i):
    no_copy = rng.random() < 0.45
    o = world.GenOpts(depth=rng.choice([1, 1, 2, 3]), keys=(2, 10), buffers=[0, 0, 1, 2, 5, 13, 31, 64, 200, 1000, 10 ** 7],
                      views=rng.random() < 0.15, max_dicts=1 if rng.random() < 0.3 else 0)
    if no_copy:
        o.merge_dtypes, o.output_dtypes = [None], [None]
    if rng.random() < 0.5:
        o.methods = ["sim_id", "sim_sd", "fallback", "weighted_sum", "sim_neighbor", "sim_skip"]
    p = world.gen_world(rng, o)
    if no_copy:
        p["opts"]["merge_device"] = p["opts"]["output_device"] = None
    if rng.random() < 0.3:
        p["opts"]["output"] = "dict"
    for f in p["files"]:
        if rng.random() < 0.2:
            f["pad"] = rng.choice([64, 256, 7])
    for _ in range(rng.choice([0, 0, 1, 3])):
        gen_faults(rng, p, ["in_short", "out_short"], 1)
    if rng.random() < 0.5:
        gen_faults(rng, p, ["chunk"], 1)
    p["sched"] = world.gen_sched(rng)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def execute(plan, run):
    b = setup(plan, run)
    want = world.Ref(plan).result()
    arm = Armed(plan, run, want)
    run.phase = "merge"
    run.begin()
    r, e, out = do_merge(b)
    run.end()
    arm.disarm()
    mf = [n["file"] for n in plan["nodes"] if n["t"] == "model"]
    if len(set(mf)) < len(mf):
        run.stat("shared-file")
    if plan["opts"]["merge_dtype"] is None and plan["opts"]["output_dtype"] is None:
        run.stat("no-copy")
    if plan["opts"]["buffer"] == 0:
        run.stat("zero-budget")
    run.stat(plan["opts"]["output"] + "-output")
    run.nontrivial = sum(fs.W.ops.get((r_, o), 0) for r_ in ("in", "out") for o in ("read", "write")) > 3
    if e is not None:
        run.violate("unexpected-exception", exc_text(e))
        return
    check_expected(run, out, want)
