"""C05 success is only reported when everything was stored"""
from .common import *

ID = "C05"
BUDGET = {"quick": (5900, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case merges a random recipe to a file while the output misbehaves: write errors, torn and short writes, a disk that fills up, "
        "failing seek/truncate/close/read-back, memory errors, refused stores. If the merge returns, three readers must see the complete "
        "correct result. Non-trivial: a fault fired")
PROBES = ["returned", "raised", "fault:write_error", "fault:torn_write", "fault:short_write", "fault:enospc", "fault:close_error",
          "fault:memory", "header-grew", "fault:store"]
KINDS = ["out_eio", "out_torn", "out_short", "enospc", "out_seek", "out_close", "out_truncate", "out_read", "out_open", "mem", "out_eio",
         "out_torn", "enospc", "out_stall", "chunk", "out_rename", "progress"]


def gen(rng, tier, i):
    grow = rng.random() < 0.25
    o = world.GenOpts(depth=rng.choice([1, 1, 2]), keys=(2, 9), output="file" if rng.random() < 0.9 else "dict",
                      buffers=[0, 1, 7, 40, 100, 300, 1000, 4096])
    if grow:
        o.output_dtypes = ["float64"]
        o.in_dtypes = ["F16"]
        o.cfg_kw = {"dtypes": ["F16"], "ema": False}
        o.missing_p = 0.0
    p = world.gen_world(rng, o)
    kinds = KINDS
    if p["opts"]["output"] == "dict":
        kinds = ["store", "mem", "store", "progress"]
    gen_faults(rng, p, kinds)
    if grow and rng.random() < 0.5:
        gen_faults(rng, p, ["out_read", "out_truncate", "out_open", "out_seek", "enospc"], 1)
    p["pre"] = rng.random() < 0.3
    p["sched"] = world.gen_sched(rng)
    return p


def execute(plan, run):
    b = setup(plan, run)
    want = world.Ref(plan).result()
    if plan.get("pre") and plan["opts"]["output"] == "file":
        with fs._open(out_path(b), "wb") as f:
            f.write(b"\x10" * 3000)
    arm = Armed(plan, run, want)
    run.fatal_ok = lambda kind: True
    run.phase = "merge"
    run.begin(calls=arm.calls)
    o = arm.out(world.RecDict()) if plan["opts"]["output"] == "dict" else out_path(b)
    r, e, out = do_merge(b, output=o, tqdm=arm.progress)
    run.end()
    fired = arm.fired()
    arm.disarm()
    run.nontrivial = any(v > 0 for v in fs.W.stats.values()) or bool(fired)
    if ("out", "truncate") in fs.W.ops:
        run.stat("header-grew")
    if e is not None:
        run.stat("raised")
        if not fired:
            run.violate("unexpected-exception", exc_text(e))
        return
    run.stat("returned")
    if plan["opts"]["output"] == "dict":
        check_expected(run, out, want)
    else:
        check_readers(run, out, want, kind="silent-loss")
