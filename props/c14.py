"""C14 Seeded random merges are reproducible"""
import random as _random
import numpy as _np
from .common import *
from sim import methods as simm
from sim.foreign import ANSWER
from sd_mecha import merge_method_wrappers as wrappers
from sd_mecha.extensions import merge_methods as mm

ID = "C14"
BUDGET = {"quick": (2700, 62.0), "thorough": (50000, 800.0)}
RULE = ("each case merges a recipe with seeded dropout methods three times: in another process image (with another string hash seed) without threads, then twice in one "
        "process under a seeded schedule with other thread counts and buffers, while the global generators are reseeded and drawn from "
        "before, between and (by another caller thread or a merge method) during the merges. All results are equal and the global "
        "generators hold what the other user left. Non-trivial: two workers or a concurrent user of the generators")
PROBES = ["dropout", "ties_sum_with_dropout", "w:dropout", "w:ties_with_dare", "concurrent-user", "state-checked", "method-user", "failed-merge"]
METHODS = ["dropout", "ties_sum_with_dropout", "w:dropout", "w:ties_with_dare"]


def gen(rng, tier, i):
    dt = rng.choice(["F32", "F64"])
    cfg = world.gen_config(rng, rng.randint(2, 7), dtypes=[dt], odd=False, alias_p=0.1, ema=False)
    for k in cfg["keys"]:
        k["shape"] = rng.choice([[4, 4], [3, 5], [6, 2], [9], [2, 3, 2, 2], [5, 5], [8, 3], [], [2]])
    n = rng.randint(2, 4)
    files = [{"name": f"m{j}.safetensors", "tensors": world.gen_tensors(rng, cfg, missing_p=0.02, extra_p=0.1, dtypes=[dt])} for j in range(n)]
    for f in files:
        f["order"] = f["horder"] = list(range(len(f["tensors"])))
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        m = rng.choice(METHODS)
        kw = {"probability": rng.choice([0.1, 0.5, 0.5, 0.9]), "seed": rng.choice([0, 1, 7, 1234, 2 ** 31 - 1])}
        if "ties" in m:
            kw["k"] = rng.choice([0.5, 1.0])
            for q in ("vote_sgn", "apply_stock"):
                if rng.random() < 0.2:
                    kw[q] = True
            if rng.random() < 0.3:
                kw["rescale" if m[0] == "w" else "no_rescale"] = rng.random() < 0.5
        else:
            kw["overlap"] = rng.choice([1.0, 1.0, 0.0, 0.5, 1.5, 2.0])
            kw["overlap_emphasis"] = rng.choice([0.0, 0.5])
        calls.append({"m": m, "kw": kw, "models": [rng.randrange(n) for _ in range(rng.randint(1, 3))],
                      "seed_dict": rng.random() < 0.15})
    p = {"config": cfg, "files": files, "dicts": [], "nodes": [], "calls": calls,
         "user": rng.choice([None, "thread", "thread", "method"]), "gseed": rng.randrange(1 << 30), "fail": rng.random() < 0.15,
         "opts": {"threads": rng.choice([0, 1, 2, 3, 4]), "buffer": rng.choice([0, 64, 1000, 1 << 20]),
                  "merge_dtype": rng.choice([None, "float64", "float32"]), "output_dtype": None, "merge_device": None, "output_device": None,
                  "output": "dict", "check_finite": False, "omit_ema": None}}
    p["sched"] = world.gen_sched(rng)
    p["salt"] = 0
    return p


def shrink(plan):
    import copy
    if len(plan["calls"]) > 1:
        for j in range(len(plan["calls"])):
            p = copy.deepcopy(plan)
            del p["calls"][j]
            yield p
    for k, v in (("user", None), ("fail", False)):
        if plan[k]:
            p = copy.deepcopy(plan)
            p[k] = v
            yield p


def build(b, plan, models):
    res = []
    for c in plan["calls"]:
        kw = dict(c["kw"])
        if c["seed_dict"]:
            kw["seed"] = sd_mecha.literal({k["k"]: kw["seed"] + j for j, k in enumerate(plan["config"]["keys"])}, config=b.cfg)
        ms = [models[j] for j in c["models"]]
        base = models[0]
        if c["m"].startswith("w:"):
            res.append(getattr(wrappers, c["m"][2:])(base, *ms, **kw))
        else:
            d = mm.resolve(c["m"])(*[sd_mecha.subtract(x, base) for x in ms], **kw)
            res.append(sd_mecha.add_difference(base, d, alpha=1.0))
    r = res[0]
    for x in res[1:]:
        r = simm.sim_lin(r, x, 0.5)
    return simm.sim_root(r)


def states():
    return (torch.random.get_rng_state().numpy().tobytes(), _np.random.get_state()[1].tobytes() + bytes(str(_np.random.get_state()[2:]), "ascii"),
            repr(_random.getstate()))


def perturb(seed):
    torch.manual_seed(seed)
    _np.random.seed(seed % (1 << 32))
    _random.seed(seed)


def draw():
    return (torch.rand(2).tolist(), float(_np.random.rand()), _random.random())


def foreign(plan, d):
    """the merge on its own, in a process image with another hash seed"""
    b = world.Built(plan, d)
    recipe = build(b, plan, [sd_mecha.model(b.in_dir / f["name"], config=b.cfg) for f in plan["files"]])
    perturb(99)
    r, e, out = do_merge(b, recipe, output=world.RecDict(), threads=0, buffer=1 << 20)
    return repr(e) if e is not None else enc(out)


def execute(plan, run):
    b = setup(plan, run)
    models = [sd_mecha.model(b.in_dir / f["name"], config=b.cfg) for f in plan["files"]]
    recipe = build(b, plan, models)
    for c in plan["calls"]:
        run.stat(c["m"])

    tag, truth, *rest = ANSWER[0]
    if tag != "ok":
        raise RuntimeError(f"truth failed: {truth} {rest}")
    g = _random.Random(plan["gseed"])
    perturb(g.randrange(1 << 30))

    # what a user of the global generators sees when nothing else uses them
    user_seed, n_user = g.randrange(1 << 30), 12

    def user_alone():
        perturb(user_seed)
        return [draw() for _ in range(n_user)], states()
    expected_draws, expected_end = user_alone()
    seen = []

    def user():
        perturb(user_seed)
        for _ in range(n_user):
            for _ in range(30):
                core.point()
            seen.append(draw())

    def by_method(name, key):
        if name == "sim_root":
            perturb(sum(key.encode()))
            draw()
    run.begin()
    outs = []
    for rnd in range(2):
        before = states()
        o = world.RecDict()
        if plan["fail"] and rnd == 0:
            o.raise_at = 0
            run.stat("failed-merge")
        if plan["user"] == "thread" and rnd == 1:
            box = parallel([(user, ()), (do_merge, (b, recipe, o))])
            if box[0][1] is not None:
                raise box[0][1]
            r, e, out = box[1][0]
            run.stat("concurrent-user")
            if seen != expected_draws or states() != expected_end:
                run.violate("generator-disturbed", f"a concurrent user of the global generators drew {seen[:2]} instead of {expected_draws[:2]}"
                            if seen != expected_draws else "the state after a concurrent user is not what it left")
        else:
            if plan["user"] == "method" and rnd == 1:
                simm.R.hooks["enter"] = by_method
                run.stat("method-user")
            r, e, out = do_merge(b, recipe, output=o)
            simm.R.hooks.pop("enter", None)
            if plan["user"] != "method" or rnd == 0:
                run.stat("state-checked")
                if states() != before:
                    run.violate("generator-changed", "the state of a global generator changed during the merge: " +
                                ", ".join(n for n, x, y in zip(("torch", "numpy", "random"), states(), before) if x != y))
        outs.append((e, o))
        perturb(g.randrange(1 << 30))
    run.end()
    run.nontrivial = run.ntasks > 2
    for rnd, (e, o) in enumerate(outs):
        if plan["fail"] and rnd == 0:
            continue
        if isinstance(truth, str):
            run.stat("rejected")
            if e is None:
                run.violate("not-reproducible", f"merge {rnd} returned, the same merge in a fresh process raised {truth}")
            continue
        if e is not None:
            run.violate("unexpected-exception", exc_text(e))
            continue
        d = world.diff(dict(o), dec(truth))
        if d:
            run.violate("not-reproducible", f"merge {rnd} differs from a fresh process: " + "; ".join(d[:3]))
