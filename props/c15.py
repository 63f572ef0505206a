"""C15 A cache shared between keys, workers and merges never changes results"""
from .common import *
from sim import methods as simm
from sd_mecha.extensions import merge_methods as mm

ID = "C15"
BUDGET = {"quick": (2500, 62.0), "thorough": (50000, 800.0)}
RULE = ("probe cases run sequences of merges of a random recipe whose nodes carry several caches (or none), with faults and concurrent callers, "
        "and compare the cache object every evaluation received with the one attached to its node; rotation cases run sequences of merges of "
        "the same rotation with varying alpha, threads, faults and overlapping callers on one cache, each successful one compared with an "
        "uncached merge in a fresh forked process. Non-trivial: two workers or a concurrent caller used a shared cache")
PROBES = ["probe", "rotate", "cache-identity", "cache-none", "warm", "faulted-step", "concurrent-step", "eigen", "power", "compared", "shared-node"]
TOL = 0.02      # caches hold half precision; the worst observed on the unchanged tree is a tenth of this
ROT = ("sd_mecha.extensions.builtin.merge_methods", "sd_mecha.extensions.builtin.merge_methods.svd")
CALLS = MEM_MODULES + ("sd_mecha.extensions.builtin.merge_methods.svd",)
KINDS = ["mem", "mem", "mem", "in_eio", "in_zero", "method", "store", "ki", "in_open", "in_stall", "chunk"]


def gen(rng, tier, i):
    p = gen_probe(rng) if rng.random() < 0.4 else gen_rotate(rng)
    p["sched"] = world.gen_sched(rng)
    if p["mode"] == "rotate" and rng.random() < 0.55:
        # every scheduling decision and memory fault inside the rotation itself
        p["narrow"] = True
        p["sched"]["fine"] = True
        if rng.random() < 0.5:
            p["sched"]["instr"] = True
            p["sched"]["instr_modules"] = list(ROT)
        if p["sched"]["kind"] == "pct":
            p["sched"]["len"] = rng.choice([60, 200, 800, 3000])
        p["sched"].pop("stall", None)
        if rng.random() < 0.6:
            p["sched"]["stall"] = world.gen_stalls(rng, [ROT[0], ROT[0], ROT[1]])
            for st in p["sched"]["stall"]:
                st["at"] = rng.randrange(1, 80)
                if st["m"] == ROT[0]:
                    st["fn"] = "rotate"
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def gen_steps(rng, n, mk):
    steps = []
    for _ in range(n):
        st = {"jobs": [mk() for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]}
        if rng.random() < 0.3:
            st["fault"] = {"files": []}
            gen_faults(rng, st["fault"], KINDS, 1)
            if st["fault"].get("ki"):
                st["jobs"] = st["jobs"][:1]
                ki_range(rng, st["fault"], 1.5, 4.0)
            if st["fault"].get("mem"):
                st["fault"]["mem"]["at"] = nth(rng, 120)
        steps.append(st)
    return steps


def gen_probe(rng):
    o = world.GenOpts(depth=rng.choice([1, 2, 3]), keys=(2, 8), max_dicts=1, output="dict", skip=False,
                      methods=["sim_cache", "sim_cache", "sim_cache", "sim_lin", "sim_sd", "sim_neighbor", "fallback", "sim_sum", "weighted_sum"])
    p = world.gen_world(rng, o)
    k = 0
    for j in range(len(p["nodes"])):
        n = p["nodes"][j]
        if n["t"] == "merge" and n["m"] == "sim_cache":
            p["nodes"].append({"t": "lit", "v": f"t{k}"})
            n["kw"]["tag"] = len(p["nodes"]) - 1
            c = rng.choice(["A", "A", "B", None, "auto"])
            if c is not None:
                n["cache"] = c
            n["tag"] = f"t{k}"
            k += 1
    if k == 0:
        p["nodes"].append({"t": "lit", "v": "t0"})
        p["nodes"].append({"t": "merge", "m": "sim_cache", "args": [p["root"]], "kw": {"tag": len(p["nodes"]) - 1}, "space": "weight",
                           "cache": "A", "tag": "t0"})
        p["root"] = len(p["nodes"]) - 1
    world.prune_order(p)
    p["mode"] = "probe"
    p["steps"] = gen_steps(rng, rng.choice([1, 2, 3]), lambda: {"threads": rng.choice([0, 1, 2, 3, 4]), "rebuild": rng.random() < 0.3})
    return p


def gen_rotate(rng):
    dt = rng.choice(["F32", "F32", "F64"])
    cfg = world.gen_config(rng, rng.randint(1, 5), dtypes=[dt], odd=False, alias_p=0.1, ema=False)
    for k in cfg["keys"]:
        k["shape"] = rng.choice([[12, 3], [9, 4], [16, 5], [8, 2], [20, 6], [10, 3, 1, 1], [14, 2, 2, 1], [7], [6, 4, 2, 2], []])
    nf = 2
    files = [{"name": f"m{j}.safetensors", "tensors": world.gen_tensors(rng, cfg, missing_p=0.0, extra_p=0.1, dtypes=[dt])} for j in range(nf)]
    for t in files[1]["tensors"]:
        if rng.random() < 0.1:
            same = [x for x in files[0]["tensors"] if x["k"] == t["k"]]
            if same:
                t["seed"] = same[0]["seed"]
    for f in files:
        f["order"] = f["horder"] = list(range(len(f["tensors"])))
    al = rng.choice([1.0, 1.0, 1.0, 2.0, 0.0, -1.0, 0.7, 0.5, 1.5, 2.6])

    def job():
        return {"alpha": rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 1.0]), "threads": rng.choice([0, 1, 2, 3, 4]),
                "shape": rng.choice(["plain", "plain", "neighbor", "twice", "wrapper", "sd"]), "buffer": rng.choice([0, 200, 1 << 20])}
    return {"mode": "rotate", "config": cfg, "files": files, "dicts": [], "nodes": [], "alignment": al,
            "steps": gen_steps(rng, rng.choice([1, 2, 2, 3, 4]), job),
            "opts": {"threads": 2, "buffer": 1 << 20, "merge_dtype": rng.choice(["float32", "float64", "float64"]), "output_dtype": None,
                     "merge_device": rng.choice([None, "cpu"]), "output_device": None, "output": "dict", "check_finite": False, "omit_ema": None}}


def shrink(plan):
    import copy
    for i in range(len(plan["steps"])):
        if len(plan["steps"]) > 1:
            p = copy.deepcopy(plan)
            del p["steps"][i]
            yield p
        st = plan["steps"][i]
        if "fault" in st:
            p = copy.deepcopy(plan)
            del p["steps"][i]["fault"]
            yield p
        if len(st["jobs"]) > 1:
            for j in range(len(st["jobs"])):
                p = copy.deepcopy(plan)
                del p["steps"][i]["jobs"][j]
                yield p
        for j, jb in enumerate(st["jobs"]):
            if jb["threads"] > 0:
                p = copy.deepcopy(plan)
                p["steps"][i]["jobs"][j]["threads"] = jb["threads"] - 1
                yield p
            if jb.get("shape", "plain") != "plain":
                p = copy.deepcopy(plan)
                p["steps"][i]["jobs"][j]["shape"] = "plain"
                yield p


def run_steps(plan, run, job, truth):
    """every step's jobs concurrently, with the step's fault; results of jobs that returned go to check(job, out)"""
    narrow = plan.get("narrow")
    run.begin(calls=ROT if narrow else CALLS, modules=list(ROT) if narrow else None)
    results = []
    for n, st in enumerate(plan["steps"]):
        arm = None
        if "fault" in st:
            arm = Armed(dict(plan, **st["fault"]), run)
            run.stat("faulted-step")
            if st["fault"].get("ki"):
                run.extra["ki_armed"] = True
                run.arm_ki(st["fault"]["ki"])
        for jb in st["jobs"]:
            jb["own"] = len(st["jobs"]) > 1       # concurrent callers have recipes of their own
        if len(st["jobs"]) > 1:
            run.stat("concurrent-step")
            box = parallel([(job, (jb, arm)) for jb in st["jobs"]])
        else:
            try:
                box = [(job(st["jobs"][0], arm), None)]
            except BaseException as e:
                box = [(None, e)]
        run.disarm_ki()
        if arm is not None:
            arm.disarm()
            fired = arm.fired()
            zero = fs.W.stats.get("zero_read")
        else:
            fired, zero = [], False
        for jb, (res, exc) in zip(st["jobs"], box):
            results.append((n, jb, res, exc, fired, zero))
    for t in list(S.tasks[1:]):
        S.join_task(t)
    run.end()
    run.nontrivial = run.ntasks > 2
    return results


def one(b, recipe, arm, extra=None, **over):
    o = world.RecDict()
    if arm is not None:
        arm.out(o)
    r, e, out = do_merge(b, recipe, output=o, tqdm=arm.progress if arm is not None else None, extra=extra, **over)
    if e is not None:
        raise e
    return out


def execute(plan, run):
    run.stat(plan["mode"])
    if any("fault" in st for st in plan["steps"]):
        run.fatal_ok = lambda kind: True
    (probe if plan["mode"] == "probe" else rotate)(plan, run)


def probe(plan, run):
    b = setup(plan, run)
    want = world.Ref(plan).result()
    expect, nodes = {}, []

    def note(ns):
        for n, node in zip(plan["nodes"], ns):
            if "tag" in n:
                c = n.get("cache")
                expect.setdefault(n["tag"], []).append(None if c is None else node.cache if c == "auto" else b.caches[c])
                nodes.append((n, node, node.cache))
    note(b.nodes)
    for c in b.caches.values():
        c["not a key"] = "kept"

    def job(jb, arm):
        recipe, extra = b.recipe, None
        if jb["rebuild"] or jb["own"]:
            ns = []
            for n in plan["nodes"]:
                ns.append(b._node(n, ns))
            note(ns)
            recipe = ns[plan["root"]]
            if plan.get("fallback") is not None:
                extra = {"fallback_model": ns[plan["fallback"]]}
        return one(b, recipe, arm, extra, threads=jb["threads"])
    res = run_steps(plan, run, job, want)
    for n, jb, out, exc, fired, zero in res:
        if exc is not None:
            if not fired and not zero:
                run.violate("unexpected-exception", f"step {n}: " + exc_text(exc))
            continue
        d = world.diff(dict(out), want)
        if d:
            run.violate("wrong-result", f"step {n}: " + "; ".join(d[:3]))
    for key, tag, cache in simm.R.cache_seen:
        ok = expect.get(tag, [])
        run.stat("cache-none" if cache is None else "cache-identity")
        if not any(cache is x for x in ok):
            run.violate("cache-identity", f"node {tag}, key {key!r}: got {'no cache' if cache is None else 'another dictionary'} "
                        f"instead of {'none' if ok and ok[0] is None else 'the one attached to the node'}")
            break
    for n, node, cache in nodes:
        if node.cache is not cache:
            run.violate("cache-replaced", f"node {n['tag']} holds another cache after the merges")
    for name, c in b.caches.items():
        if c.get("not a key") != "kept":
            run.violate("cache-content", f"cache {name} lost an entry of its user")
        for k, v in c.items():
            if k != "not a key" and v not in ({}, {"f": 3.0}):
                run.violate("cache-content", f"cache {name} entry {k!r}: {v}")
    # a cache that is used by every key holds every key afterwards
    if all(exc is None for _, _, _, exc, _, _ in res) and res:
        run.stat("all-returned")


def close(got, want):
    if got.shape != want.shape or got.dtype != want.dtype:
        return f"{world.brief(got)} instead of {world.brief(want)}"
    g, w = got.double(), want.double()
    if g.numel() == 0:
        return None
    if not bool(torch.isfinite(g).all()):
        return "not finite"
    err = float((g - w).norm() / (w.norm() + 1e-3))
    WORST[0] = max(WORST[0], err)
    return None if err < TOL else f"relative error {err:.3g}: got {world.brief(got)} want {world.brief(want)}"


WORST = [0.0]


def rotate(plan, run):
    b = setup(plan, run)
    al = plan["alignment"]
    cache = {}
    rot = mm.resolve("rotate")

    def recipe(jb, c):
        models = [sd_mecha.model(b.in_dir / f["name"], config=b.cfg) for f in plan["files"]]

        def r(alpha, wrapper=False):
            if wrapper:
                return sd_mecha.rotate(models[0], models[1], alignment=al, alpha=alpha, cache=c)
            return rot(models[0], models[1], alignment=al, alpha=alpha).set_cache(c)
        x = r(jb["alpha"], jb["shape"] == "wrapper")
        if jb["shape"] == "neighbor":
            x = simm.sim_lin(x, simm.sim_neighbor(x), 0.01)
        elif jb["shape"] == "sd":
            x = simm.sim_sd(x, models[0])
        elif jb["shape"] == "twice":
            x = simm.sim_lin(x, r(0.25), 0.5)
        if jb["shape"] in ("neighbor", "twice"):
            run.stat("shared-node")
        return simm.sim_root(x)
    truths = {}
    for st in plan["steps"]:
        for jb in st["jobs"]:
            k = (jb["alpha"], jb["shape"])
            if k in truths:
                continue

            def alone():
                r, e, out = do_merge(b, recipe(jb, None), output=world.RecDict(), threads=0, buffer=1 << 20)
                if e is not None:
                    raise e
                return enc(out)
            tag, val, *rest = in_fork(alone)
            if tag != "ok":
                raise RuntimeError(f"uncached merge failed: {val} {rest}")
            truths[k] = dec(val)
    run.stat("eigen" if al == round(al) else "power")

    def job(jb, arm):
        if cache:
            run.stat("warm")
        return one(b, recipe(jb, cache), arm, threads=jb["threads"], buffer=jb["buffer"])
    WORST[0] = 0.0
    for n, jb, out, exc, fired, zero in run_steps(plan, run, job, None):
        if exc is not None:
            if not fired and not zero:
                run.violate("unexpected-exception", f"step {n}: " + exc_text(exc))
            continue
        want = truths[jb["alpha"], jb["shape"]]
        run.stat("compared")
        bad = sorted(set(out) ^ set(want))
        if bad:
            run.violate("wrong-keys", f"step {n}: {bad[:4]}")
        for k in want:
            if k in out:
                d = close(out[k], want[k])
                if d:
                    run.violate("cache-changes-result", f"step {n} ({jb['shape']}, alpha {jb['alpha']}, alignment {al}, cache "
                                f"{sorted(map(str, cache.get(k, {})))}), {k!r}: {d}")
                    break
    run.stat("err<1e-3" if WORST[0] < 1e-3 else "err<3e-3" if WORST[0] < 3e-3 else "err<1e-2" if WORST[0] < 1e-2 else "err<3e-2" if WORST[0] < 3e-2 else "err-large")
