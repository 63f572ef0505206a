"""C12 Each output key is computed, stored and counted exactly once"""
from .common import *
from sim import methods as simm

ID = "C12"
BUDGET = {"quick": (4600, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case merges a random recipe below a counting top-level operation, with and without faults or an interrupt, into a mapping or "
        "a file that records stores, under a recording progress reporter. Non-trivial: two or more workers evaluated keys")
PROBES = ["clean", "failed", "skipped-keys", "threads0", "threads>=2", "fault:keyboard_interrupt", "fault:read_error", "file-output", "via-defaults"]
KINDS = ["in_eio", "in_zero", "out_eio", "enospc", "mem", "method", "method", "store", "progress", "ki", "ki", "out_torn", "in_short", "chunk",
         "in_stall", "out_short"]


def gen(rng, tier, i):
    o = world.GenOpts(depth=rng.choice([0, 1, 1, 2]), keys=(2, rng.choice([6, 12])), threads=rng.choice([None, 0, 1, 2, 3, 4, 5]),
                      missing_p=rng.choice([0.05, 0.3]))
    p = world.gen_world(rng, o)
    p["nodes"].append({"t": "merge", "m": "sim_root", "args": [p["root"]], "kw": {}, "space": "weight"})
    p["root"] = len(p["nodes"]) - 1
    if rng.random() < 0.45:
        gen_faults(rng, p, KINDS, 1 if rng.random() < 0.7 else 2)
        ki_range(rng, p, 1.5, 4.2)
    p["sched"] = world.gen_sched(rng)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def execute(plan, run):
    b = setup(plan, run)
    ref = world.Ref(plan)
    want = ref.result()
    keys = ref.out_keys()
    roots = [i for i, n in enumerate(plan["nodes"]) if n["t"] == "merge" and n["m"] == "sim_root"]
    rooted = len(roots) == 1 and roots[0] == plan["root"]
    arm = Armed(plan, run, want)
    faulty = any(plan.get(k) for k in FAULT_KEYS) or any(plan.get(k) is not None for k in ("store_raise", "progress_raise", "capacity_frac"))
    if faulty:
        run.fatal_ok = lambda kind: True
    seen = {}

    class P(arm.progress):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            seen["bars"] = seen.get("bars", []) + [self]
    run.begin(calls=arm.calls)
    path = out_path(b)
    o = arm.out(world.RecDict()) if plan["opts"]["output"] == "dict" else path
    r, e, out = do_merge(b, output=o, tqdm=P)
    run.disarm_ki()
    for t in list(S.tasks[1:]):
        S.join_task(t)
    run.end()
    fired = arm.fired()
    arm.disarm()
    run.nontrivial = run.ntasks > 2
    run.stat("threads>=2" if run.ntasks > 2 else "threads0" if run.ntasks == 1 else "threads1")
    run.stat(plan["opts"]["output"] + "-output")
    if plan["opts"].get("via"):
        run.stat("via-defaults")
    run.stat("clean" if e is None else "failed")
    if e is not None and not fired and not fs.W.stats.get("zero_read"):
        run.violate("unexpected-exception", exc_text(e))
        return
    calls = {}
    for m, k in simm.R.calls:
        if m == "sim_root":
            calls[k] = calls.get(k, 0) + 1
    twice = {k: n for k, n in calls.items() if n > 1}
    if twice and rooted:
        run.violate("computed-twice", f"top-level evaluations {twice} (merge {'returned' if e is None else repr(e)[:80]})")
    if set(calls) - set(keys):
        run.violate("computed-unneeded", f"evaluated for {sorted(set(calls) - set(keys))[:4]}, which are not output keys")
    bars = seen.get("bars", [])
    if len(bars) > 1:
        run.violate("progress", f"{len(bars)} progress reporters")
    if e is None and rooted:
        for k in keys:
            try:
                ref.node(plan["root"], k)
                n = 1
            except world.Missing:
                n = 0
                run.stat("skipped-keys")
            if calls.get(k, 0) != n:
                run.violate("computed-count", f"{k!r}: top-level operation evaluated {calls.get(k, 0)} times instead of {n}")
                break
    for p in bars:
        if p.total != len(keys):
            run.violate("progress-total", f"announced total {p.total}, {len(keys)} output keys")
        if e is None and (p.n != p.total or p.updates != len(keys)):
            run.violate("progress", f"advanced {p.updates} times to {p.n} of {p.total} for {len(keys)} keys")
        if p.n > len(keys) or p.updates > len(keys):
            run.violate("progress", f"advanced {p.updates} times to {p.n} for {len(keys)} keys in a merge that failed")
    if e is None and not bars:
        run.violate("progress", "the progress reporter was not used")
    if plan["opts"]["output"] == "dict":
        dup = [k for k in set(out.stores) if out.stores.count(k) > 1]
        if dup:
            run.violate("stored-twice", f"{dup[:4]} stored more than once")
        if e is None and sorted(out.stores) != sorted(want):
            run.violate("stored-keys", f"stored {sorted(out.stores)[:8]} instead of {sorted(want)[:8]}")
    elif e is None:
        check_expected(run, out, want)
