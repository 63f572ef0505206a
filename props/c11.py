"""C11 A failure is never mistaken for a missing key"""
import json as _json
import struct as _struct
from .common import *

ID = "C11"
BUDGET = {"quick": (5700, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case merges a recipe full of fallbacks, skips, components and sparse operands while reads, methods, memory, stores or the "
        "headers of input files fail. A merge that returns must have exactly the keys and values of the reference evaluator, in which "
        "only genuine absence skips or substitutes a key; one that raises leaves only right values. Non-trivial: a failure was injected "
        "while keys were skipped or substituted")
PROBES = ["returned-despite-fault", "raised", "keys-skipped", "keys-substituted", "fault:read_error", "fault:method_exception",
          "fault:memory", "fault:header", "fault:zero_read", "fault:store"]
KINDS = ["in_eio"] * 5 + ["in_zero"] * 2 + ["in_seek", "mem", "method", "method", "method", "store", "out_eio", "hdr", "in_open"]
METHODS = ["fallback"] * 5 + ["sim_skip"] * 2 + ["sim_sd", "sim_lin", "sim_neighbor", "weighted_sum", "addsub", "sim_sum", "pick", "omit",
                                                 "sim_id", "sim_typed"]


def gen(rng, tier, i):
    o = world.GenOpts(depth=rng.choice([1, 2, 2, 3]), keys=(2, 8), methods=METHODS, missing_p=rng.choice([0.1, 0.3, 0.5]), litr_p=0.12,
                      fallback_p=0.5, max_files=4, buffers=[0, 1, 7, 40, 100, 300, 1000, 4096], threads=rng.choice([None, 0, 1, 2, 3, 4]))
    p = world.gen_world(rng, o)
    n = 1 if rng.random() < 0.7 else rng.randint(2, 3)
    p["faults"] = []
    for _ in range(n):
        k = rng.choice(KINDS)
        if k == "hdr":
            if p["files"]:
                f = rng.choice(p["files"])
                if f["tensors"]:
                    p["hdr"] = {"file": f["name"], "key": rng.choice(f["tensors"])["k"],
                                "drop": rng.choice(["data_offsets", "data_offsets", "dtype", "shape"])}
        else:
            gen_faults(rng, p, [k], 1)
    if p.get("raise_at") and rng.random() < 0.6:
        p["raise_at"]["type"] = rng.choice(["KeyError", "KeyErrorSub", "IndexError", "OSError"])
    p["store_type"] = rng.choice(["KeyError", "KeyErrorSub", "RuntimeError"])
    p["sched"] = world.gen_sched(rng, 0.6)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def shrink(plan):
    if plan.get("hdr"):
        p = dict(plan)
        p["hdr"] = None
        yield p


def damage(b, h):
    """an entry of the header loses one of its fields"""
    path = b.in_dir / h["file"]
    if not path.exists():
        return False
    data = fs._open(path, "rb").read()
    n = _struct.unpack("<Q", data[:8])[0]
    hdr = _json.loads(data[8:8 + n])
    if h["key"] not in hdr:
        return False
    del hdr[h["key"]][h["drop"]]
    j = _json.dumps(hdr).encode()
    with fs._open(path, "wb") as f:
        f.write(_struct.pack("<Q", len(j)) + j + data[8 + n:])
    return True


def execute(plan, run):
    b = setup(plan, run)
    ref = world.Ref(plan)
    want = ref.result()
    fs.W.mutations = []
    hdr = bool(plan.get("hdr")) and damage(b, plan["hdr"])
    if hdr:
        run.stat("fault:header")
    arm = Armed(plan, run, want)
    run.fatal_ok = lambda kind: True
    run.begin(calls=arm.calls)
    path = out_path(b)
    o = arm.out(world.RecDict()) if plan["opts"]["output"] == "dict" else path
    if isinstance(o, world.RecDict):
        o.raise_type = EXC[plan.get("store_type", "RuntimeError")]
    r, e, out = do_merge(b, output=o, tqdm=arm.progress)
    run.end()
    fired = arm.fired() + ["zero read"] * fs.W.stats.get("zero_read", 0)
    arm.disarm()
    skipped = len(want) < len(ref.out_keys())
    subst = any(n["t"] == "merge" and n["m"] == "fallback" for n in plan["nodes"]) or plan.get("fallback") is not None
    run.stat("keys-skipped" if skipped else "none-skipped")
    if subst:
        run.stat("keys-substituted")
    run.nontrivial = (bool(fired) or hdr) and (skipped or subst)
    if e is None and (fired or hdr):
        run.stat("returned-despite-fault")
    if e is not None:
        run.stat("raised")
        if not fired and not hdr:
            run.violate("unexpected-exception", exc_text(e))
    if plan["opts"]["output"] == "dict":
        d = world.diff(dict(out), want, subset=e is not None)
        if d:
            run.violate("mistaken-for-missing", f"faults {[repr(x) for x in fired][:4]} header {plan.get('hdr')}: " + "; ".join(d[:4]))
    elif e is None:
        check_readers(run, path, want, kind="mistaken-for-missing")
    elif os.path.exists(path):
        check_readers(run, path, want, subset=True, kind="mistaken-for-missing")
