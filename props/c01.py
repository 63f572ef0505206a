"""C01 Thread scheduling never changes a merge's result"""
from sim import world
from .common import *

ID = "C01"
BUDGET = {"quick": (2700, 62.0), "thorough": (60000, 800.0)}
RULE = ("each case is a random recipe (1-4 model files, in-memory dicts, DAG of harness and built-in methods), options and a seeded "
        "schedule; no faults. Non-trivial: at least two tasks and at least one context switch between them")
PROBES = ["threads>=2", "file-output", "dict-output", "threads0"]


def gen(rng, tier, i):
    o = world.GenOpts(depth=rng.choice([1, 2, 2, 3]), views=rng.random() < 0.1)
    p = world.gen_world(rng, o)
    if rng.random() < 0.15:
        for f in p["files"] + p["dicts"]:
            for t in f["tensors"]:
                t["nf"] = rng.random() < 0.2
    p["sched"] = world.gen_sched(rng)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def execute(plan, run):
    b = setup(plan, run)
    want = world.Ref(plan).result()
    run.phase = "merge"
    run.begin()
    r, e, out = do_merge(b)
    run.end()
    run.stat("threads>=2" if run.ntasks > 2 else "threads0" if run.ntasks == 1 else "threads1")
    run.stat(plan["opts"]["output"] + "-output")
    run.nontrivial = run.ntasks >= 2 and run.switches > 0
    if e is not None:
        run.violate("unexpected-exception", exc_text(e))
        return
    if plan["opts"]["output"] == "dict":
        if r is not out:
            run.violate("wrong-return", "the given output mapping is not what merge returned")
    check_expected(run, out, want)
