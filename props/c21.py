"""C21 A merge reports exactly the non-finite and unrecognised keys"""
import re
from .common import *

ID = "C21"
BUDGET = {"quick": (4000, 62.0), "thorough": (60000, 800.0)}
RULE = ("each case merges inputs some of whose tensors hold NaN or infinities or overflow in the output dtype, with extra keys in some state "
        "dicts, under any schedule, also a second time, with partial transfers and frozen tasks; some cases have a second caller merging keys of its own at the "
        "same time. The warnings that were logged are compared with the keys that are really concerned. Non-trivial: there was "
        "something to report")
PROBES = ["non-finite", "overflow", "extra-keys", "check-off", "nothing-to-report", "two-callers", "all-finite-checked", "fault:method_exception"]
METHODS = ["sim_lin", "sim_sd", "sim_sum", "sim_id", "fallback", "weighted_sum", "sim_neighbor", "sim_skip", "sim_typed"]


def spoil(rng, p):
    """some tensors get values that are not finite, or too large for the output dtype"""
    for s in p["files"] + p["dicts"]:
        for t in s["tensors"]:
            if t["dtype"] in world.FLOATS and rng.random() < 0.25:
                t["nf"] = rng.choice([True, "all", "one"])
    for k in p["config"]["keys"]:
        k["optional"] = True


def rename(p, prefix):
    """the keys of the second caller carry names of their own"""
    m = {}
    for k in p["config"]["keys"]:
        m[k["k"]] = prefix + k["k"]
        for a in k["aliases"]:
            m[a] = prefix + a
        k["aliases"] = [m[a] for a in k["aliases"]]
        k["k"] = m[k["k"]]
    p["config"]["name"] = prefix.strip(".")
    for s in p["files"] + p["dicts"]:
        for t in s["tensors"]:
            t["k"] = m.get(t["k"], prefix + t["k"])
    for n in p["nodes"]:
        if n["t"] in ("litd", "litr"):
            n["v"] = {m.get(k, k): v for k, v in n["v"].items()}


def one(rng, prefix):
    o = world.GenOpts(depth=rng.choice([1, 1, 2]), keys=(2, 10), methods=METHODS, missing_p=0.08, cfg_kw={"odd": False, "dtypes": ["F32", "F16", "F64"]},
                      in_dtypes=None, threads=rng.choice([None, 0, 1, 2, 3, 4]), output_dtypes=["float16", "float32", "bfloat16", "float64"],
                      merge_dtypes=["float64", "float32"], fallback_p=0.25, litr_p=0.02)
    p = world.gen_world(rng, o)
    p["opts"].pop("via", None)
    spoil(rng, p)
    if rng.random() < 0.4:
        # too large for half precision, or nearly so (the sum of the tensor overflows, no element does)
        p["nodes"].append({"t": "lit", "v": rng.choice([70000.0, 70000.0, 30000.0, 10000.0] if p["opts"]["output_dtype"] == "float16" else [1e38, 4e37])})
        p["big"] = True
        p["nodes"].append({"t": "merge", "m": "sim_lin", "args": [p["root"], p["root"], len(p["nodes"]) - 1], "kw": {}, "space": "weight"})
        p["root"] = len(p["nodes"]) - 1
    rename(p, prefix)
    return p


def gen(rng, tier, i):
    p = one(rng, "p.")
    if rng.random() < 0.25:
        p["second"] = one(rng, "q.")
        for f in p["second"]["files"]:
            f["name"] = "q" + f["name"]
        for n in p["second"]["nodes"]:
            if n["t"] == "model":
                n["file"] = "q" + n["file"]
    p["faults"] = []
    gen_faults(rng, p, ["in_short", "in_stall", "out_short", "chunk", "out_stall"], rng.choice([0, 0, 1, 2]))
    if rng.random() < 0.12:
        gen_faults(rng, p, ["method"], 1)
    p["reps"] = rng.choice([1, 1, 1, 2])
    p["sched"] = world.gen_sched(rng)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def shrink(plan):
    if plan.get("second"):
        p = dict(plan)
        p.pop("second")
        yield p
    if plan["reps"] > 1:
        yield dict(plan, reps=1)


def token(key):
    return re.compile(r"(?<![\w.])" + re.escape(key) + r"(?![\w.])")


def expected(plan):
    """(keys whose result is not finite, keys that no state dict's config knows)"""
    want = world.Ref(plan).result()
    bad = [k for k, v in want.items() if not v.isfinite().all()]
    known = {x for k in plan["config"]["keys"] for x in (k["k"], *k["aliases"])}
    used = {n.get("file") or n.get("id") for n in plan["nodes"] if n["t"] in ("model", "dict")}
    extra = {(s.get("name") or s.get("id")): {t["k"] for t in s["tensors"]} - known for s in plan["files"] + plan["dicts"]}
    if plan["opts"].get("omit_extra") is False:
        extra = {}
    return want, bad, {o: x for o, x in extra.items() if x and o in used}


def execute(plan, run):
    plans = [plan] + ([plan["second"]] if plan.get("second") else [])
    bs = [setup(p, run) for p in plans]
    exp = [expected(p) for p in plans]
    arm = Armed(plan, run)
    run.begin(calls=arm.calls)

    def call(j):
        return do_merge(bs[j], output=out_path(bs[j], f"out{j}.safetensors") if plans[j]["opts"]["output"] == "file" else None)
    for rep in range(plan["reps"]):
        # what an earlier merge reported is to be reported again
        run.log.records.clear()
        if len(plans) == 1:
            res = [call(0)]
        else:
            res = [r for r, x in parallel([(call, (j,)) for j in range(len(plans))])]
            run.stat("two-callers")
    run.end()
    fired = arm.fired()
    arm.disarm()
    records = [m for lvl, m in run.log.records if lvl in ("WARNING", "ERROR", "CRITICAL")]
    failed = [e is not None for _, e, _ in res]
    for _, e, _ in res:
        if e is not None and not fired:
            run.violate("unexpected-exception", exc_text(e))
    extras = {k for _, _, ex in exp for s in ex.values() for k in s}
    ex_tokens = [token(k) for k in sorted(extras)]
    about_extra = [m for m in records if any(t.search(m) for t in ex_tokens)]
    rest = [m for m in records if m not in about_extra]
    for j, (want, bad, ex) in enumerate(exp):
        checked = plans[j]["opts"]["check_finite"]
        run.stat("check-off" if not checked else "non-finite" if bad else "all-finite-checked")
        if checked and bad or ex:
            run.nontrivial = True
        elif not bad:
            run.stat("nothing-to-report")
        for k in want:
            n = sum(1 for m in rest if token(k).search(m))
            if k in bad and checked:
                if n > 1 or n == 0 and not failed[j]:
                    run.violate("not-reported-once", f"key {k} of caller {j} holds {world.brief(want[k])}: {n} warnings")
            elif n:
                run.violate("false-report", f"key {k} of caller {j} is {'finite' if k not in bad else 'not to be checked'}, but: "
                            + next(m for m in rest if token(k).search(m))[:300])
        for origin, keys in ex.items():
            run.stat("extra-keys")
            if failed[j]:
                continue
            mine = [m for m in about_extra if token(origin).search(m)] if origin.endswith(".safetensors") else about_extra
            if not any(all(token(k).search(m) for k in keys) for m in mine):
                run.violate("extra-not-reported", f"no warning about {origin} names its keys {sorted(keys)} that the config does not know: {records[:4]}")
        for m in about_extra:
            for s in plans[j]["files"]:
                wrong = [k for k in extras - ex.get(s["name"], set()) if token(s["name"]).search(m) and token(k).search(m)]
                if wrong and sum(bool(token(x["name"]).search(m)) for p in plans for x in p["files"]) == 1:
                    run.violate("false-report", f"{s['name']} has no extra keys {wrong}: {m[:300]}")
    if any(p.get("big") for p in plans):
        run.stat("overflow")
    known = [token(k) for want, _, _ in exp for k in want]
    for m in rest:
        if "key" in m and "extra" in m.lower() and not any(t.search(m) for t in known):
            run.violate("false-report", f"there is no such key: {m[:300]}")
