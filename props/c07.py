"""C07 A failing merge reports the cause and leaves no wrong tensor behind"""
from .common import *

ID = "C07"
BUDGET = {"quick": (5900, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case merges a random recipe while something fails: input reads, opens, seeks, merge methods (many exception types), stores, "
        "writes, a full disk, memory, the progress reporter, or a KeyboardInterrupt at any step. The exception must carry an injected one "
        "and everything readable afterwards must be right. Non-trivial: the merge raised because of an injected failure")
PROBES = ["raised", "fault:read_error", "fault:method_exception", "fault:memory", "fault:keyboard_interrupt", "fault:enospc",
          "fault:store", "leftover-readable", "leftover-rejected", "dict-partial"]
KINDS = ["in_eio", "in_eio", "in_open", "in_seek", "out_eio", "out_torn", "enospc", "out_seek", "out_open", "out_close", "out_truncate",
         "out_read", "mem", "mem", "method", "method", "method", "store", "progress", "ki", "ki", "out_rename"]


def gen(rng, tier, i):
    o = world.GenOpts(depth=rng.choice([1, 1, 2, 2]), keys=(2, 9), buffers=[0, 1, 7, 40, 100, 300, 1000, 4096],
                      threads=rng.choice([None, 0, 1, 2, 3, 4, 4]))
    if rng.random() < 0.2:
        o.output_dtypes, o.in_dtypes, o.cfg_kw, o.missing_p = ["float64"], ["F16"], {"dtypes": ["F16"], "ema": False}, 0.0
    p = world.gen_world(rng, o)
    gen_faults(rng, p, KINDS, 1 if rng.random() < 0.75 else 2)
    if p.get("ki"):
        for k in ("faults", "capacity_frac", "mem", "raise_at", "store_raise", "progress_raise"):
            p.pop(k, None)
        if p["ki"].get("in") == "streaming":
            p["opts"]["output"] = "file"
            p["opts"]["threads"] = rng.choice([0, 0, 0, p["opts"]["threads"]])
    if rng.random() < 0.15:
        gen_faults(rng, p, ["in_stall", "out_stall", "chunk"], 1)
    p["pre"] = rng.random() < 0.3
    p["sched"] = world.gen_sched(rng)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def execute(plan, run):
    b = setup(plan, run)
    want = world.Ref(plan).result()
    path = out_path(b)
    old = None
    if plan.get("pre") and plan["opts"]["output"] == "file":
        import safetensors.torch
        old = {k: torch.full(v.shape, 1).to(v.dtype) for k, v in want.items()}
        old["old.key"] = torch.arange(5000, dtype=torch.float32)
        safetensors.torch.save_file(old, str(path))
    arm = Armed(plan, run, want)
    run.fatal_ok = lambda kind: True
    run.phase = "merge"
    run.begin(calls=arm.calls)
    o = arm.out(world.RecDict()) if plan["opts"]["output"] == "dict" else path
    r, e, out = do_merge(b, output=o, tqdm=arm.progress)
    run.disarm_ki()
    ki_late = False
    # an interrupt can leave workers behind; let them end before looking at what they left
    for t in list(S.tasks[1:]):
        S.join_task(t)
    run.end()
    fired = arm.fired()
    arm.disarm()
    bad_fired = [x for x in fired]
    run.nontrivial = e is not None and bool(bad_fired)
    if e is not None:
        run.stat("raised")
        if not fired:
            run.violate("unexpected-exception", exc_text(e))
        elif not caused(e, fired):
            run.violate("cause-lost", f"injected {[repr(x) for x in fired][:4]}, the caller got:\n{exc_text(e)}")
    gc.collect()
    if plan["opts"]["output"] == "dict":
        d = world.diff(dict(out), want, subset=e is not None)
        if d:
            run.violate("wrong-tensor", "; ".join(d[:4]))
        if e is not None and 0 < len(out) < len(want):
            run.stat("dict-partial")
        return
    if not os.path.exists(path):
        run.stat("no-leftover")
        if e is None:
            run.violate("no-file", "merge returned without writing the file")
        return
    if e is None:
        check_readers(run, path, want)
        return
    ok = check_readers(run, path, want, subset=True, kind="wrong-tensor", alt=old)
    if ok:
        errs = [err for _, err in world.read_all(path).values()]
        run.stat("leftover-rejected" if all(errs) else "leftover-readable")
