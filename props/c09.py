"""C09 What ran earlier in the process never changes a merge's result"""
import copy
import pathlib
from .common import *
from sd_mecha import merging
from sd_mecha.merging import open_input_dicts
from sd_mecha.extensions import model_configs

ID = "C09"
BUDGET = {"quick": (2700, 62.0), "thorough": (60000, 800.0)}
RULE = ("each case is a history of 3-7 operations in one process: merges of several recipes that share nodes, files and configs (varied "
        "options, relative paths, outputs), openings, conversions, serialisations, rewritten inputs and dicts, with transient failures "
        "and retries. Each undisturbed operation must have the outcome of the reference evaluator (explicit configs) or of the same "
        "operation done alone in a pristine process. Non-trivial: at least two undisturbed outcomes were compared")
PROBES = ["merge", "failed-op", "retry-after-failure", "convert", "open", "rewrite", "redict", "structural", "inferred", "explicit", "lazy",
          "relative", "serialize",
          "explicit:ok", "lazy:ok", "structural:ok", "inferred:ok"]
KINDS = ["in_eio", "in_eio", "in_open", "in_seek", "in_close", "in_short", "out_eio", "out_torn", "enospc", "out_open", "out_close", "mem",
         "method", "method", "store", "progress", "ki"]


def spec_for(rng, cfg, name, **kw):
    return world.gen_file(rng, cfg, name, **kw)


def gen(rng, tier, i):
    profile = rng.choice(["explicit", "explicit", "lazy", "structural", "inferred", "inferred"])
    o = world.GenOpts(depth=rng.choice([1, 2, 2]), keys=(2, 6), litr_p=0.04 if profile in ("explicit", "lazy") else 0.0)
    if profile == "structural":
        o.methods = ["sim_lin", "sim_sd", "sim_sum", "sim_typed", "fallback", "weighted_sum"]
        o.cfg_kw = {"alias_p": 0.0}
    if profile in ("explicit", "lazy"):
        o.cfg_kw = {"odd": False}
    p = world.gen_world(rng, o)
    p["profile"] = profile
    p["relative"] = rng.random() < 0.4
    fb, p["fallback"] = p["fallback"], None
    roots = [j for j, n in enumerate(p["nodes"]) if n["t"] in ("merge", "model", "dict") and n.get("space") == "weight"]
    cfg2 = world.gen_config(rng, rng.randint(2, 5), odd=False, name="c1", dtypes=["F32"])
    for k in cfg2["keys"]:
        k["k"] = "other." + k["k"]
        k["aliases"] = ["other." + a for a in k["aliases"]]
    twin = profile == "inferred" and rng.random() < 0.6
    if twin:
        # an architecture as large as the first one, that shares its first key
        cfg2 = copy.deepcopy(dict(p["config"], name="c1"))
        keep = min(n for k in cfg2["keys"] for n in (k["k"], *k["aliases"]))
        for k in cfg2["keys"]:
            if keep not in (k["k"], *k["aliases"]):
                k["k"] += ".other"
                k["aliases"] = [a + ".other" for a in k["aliases"]]
    p["config2"] = cfg2
    kw = dict(missing_p=rng.choice([0.2, 0.2, 0.0]) if twin else 0.2, dtypes=["F32"])
    p["files2"] = [spec_for(rng, p["config"], f["name"], **kw) for f in p["files"]]

    def merge_op():
        opts = dict(p["opts"])
        opts["threads"] = rng.choice([0, 1, 2, 3])
        opts["buffer"] = rng.choice(o.buffers)
        opts["output"] = rng.choice(["dict", "file"])
        opts["omit_ema"] = rng.choice([None, True, False, False])
        opts["output_dtype"] = rng.choice(["float32", "float64", "float16", None, None])
        opts["check_mandatory"] = rng.random() < 0.15
        opts["omit_extra"] = False if rng.random() < 0.25 else None
        if p["opts"]["merge_dtype"] is not None:
            opts["merge_dtype"] = rng.choice(["float32", "float64"])
        return {"op": "merge", "root": p["root"] if rng.random() < 0.5 else rng.choice(roots), "fallback": fb_of(rng, roots),
                "opts": opts, "fresh": rng.random() < 0.4, "swap": p["relative"] and rng.random() < 0.3,
                "convert": profile == "explicit" and rng.random() < 0.15}
    ops = []
    cur = {f["name"]: f for f in p["files"]}
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if ops and ops[-1]["op"] == "merge" and r < 0.1 and p["files"]:
            r = 0.8
        if r < 0.55:
            op = merge_op()
        elif r < 0.65:
            op = {"op": "open", "root": rng.choice(roots), "raise": rng.random() < 0.4, "swap": False}
        elif r < 0.72 and profile == "explicit":
            op = {"op": "convert", "root": rng.choice(roots), "to": rng.choice(["simarch-cv1", "simarch-cv2", "simarch-c0", "simarch-c1"])}
        elif r < 0.77:
            op = {"op": "serialize", "root": rng.choice(roots)}
        elif r < 0.92 and p["files"]:
            f = rng.choice(p["files"])
            other = profile in ("inferred", "structural") and rng.random() < (0.6 if twin else 0.4)
            if rng.random() < 0.5:
                # the same tensors in another order, or with other values: a header of the same size
                spec = copy.deepcopy(cur[f["name"]])
                cur[f["name"]]["pad"] = spec["pad"] = 64
                for k in ("order", "horder"):
                    if rng.random() < 0.7:
                        rng.shuffle(spec[k])
                for t in spec["tensors"]:
                    t["seed"] = rng.randrange(1 << 30)
            else:
                spec = spec_for(rng, p["config2"] if other else p["config"], f["name"], **(dict(kw, missing_p=0.0) if twin and rng.random() < 0.5 else kw))
            cur[f["name"]] = spec
            op = {"op": "rewrite", "spec": spec, "how": rng.choice(["unlink", "inplace", "replace"]), "mtime": rng.random() < 0.3}
        elif p["dicts"]:
            d = rng.choice(p["dicts"])
            t = rng.choice(d["tensors"])
            op = {"op": "redict", "id": d["id"], "t": dict(t, seed=rng.randrange(1 << 30))}
        else:
            op = merge_op()
        if op["op"] in ("merge", "open", "convert") and rng.random() < 0.4:
            f = {}
            gen_faults(rng, f, KINDS, 1)
            ki_range(rng, f, 0.5, 3.6)
            op["faults"] = f
            ops.append(op)
            if rng.random() < 0.6:
                op = {k: v for k, v in op.items() if k != "faults"}
                op["retry"] = True
                ops.append(op)
        else:
            ops.append(op)
    last = merge_op()
    if rng.random() < 0.4:
        last["root"] = p["root"]
    ops.append(last)
    p["ops"] = ops
    p["sched"] = world.gen_sched(rng, 0.5)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def fb_of(rng, roots):
    return rng.choice(roots) if rng.random() < 0.2 else None


class HBuilt(world.Built):
    def __init__(self, plan, root, cfg):
        super().__init__(plan, root, cfg=cfg)
        (self.dir / "in2").mkdir(exist_ok=True)
        for f in plan["files2"]:
            world.write_safetensors(self.dir / "in2" / f["name"], f)

    def _node(self, n, nodes):
        p = self.plan
        config = {"explicit": self.cfg, "lazy": self.cfg, "structural": None, "inferred": None}[p["profile"]]
        if n["t"] == "model":
            path = pathlib.Path(n["file"]) if p["relative"] else self.in_dir / n["file"]
            return sd_mecha.model(path, config=config, merge_space=n["space"])
        if n["t"] == "dict":
            return sd_mecha.model(self.dicts[n["id"]], config=config, merge_space=n["space"])
        if n["t"] == "litd":
            return sd_mecha.literal(dict(n["v"]), config=config)
        return super()._node(n, nodes)

    def model_dirs(self, swap):
        d = [self.in_dir, self.dir / "in2"]
        return d[::-1] if swap else d

    def kwargs(self, **over):
        kw = super().kwargs(**over)
        kw["model_dirs"] = self.model_dirs(getattr(self, "swap", False))
        return kw


def perform(b, op, out_name, progress=None, out=None):
    """one operation; returns a picklable outcome"""
    if op["op"] == "rewrite":
        p = b.in_dir / op["spec"]["name"]
        how = op.get("how", "unlink")
        saved, fs.W.roots = fs.W.roots, []
        before = os.stat(p)
        if how == "unlink":
            fs._os["unlink"](p)
        try:
            if how == "replace":
                tmp = str(p) + ".tmp"
                world.write_safetensors(tmp, op["spec"])
                fs._os["replace"](tmp, p)
            else:
                world.write_safetensors(p, op["spec"])
            if op.get("mtime"):
                os.utime(p, ns=(before.st_atime_ns, before.st_mtime_ns))
        finally:
            fs.W.roots = saved
        return None
    if op["op"] == "redict":
        b.dicts[op["id"]][op["t"]["k"]] = world.make_tensor(op["t"])
        return None
    nodes = b.make_nodes() if op.get("fresh") else b.nodes
    b.swap = op.get("swap", False)
    recipe = nodes[op["root"]]
    try:
        if op["op"] == "serialize":
            return ("ok", norm(b, sd_mecha.serialize(recipe)))
        if op["op"] == "open":
            with open_input_dicts(recipe, b.model_dirs(False), 100):
                n = sorted(recipe.model_config.keys())
                if op["raise"]:
                    raise ValueError("body")
            return ("ok", n)
        if op["op"] == "convert":
            r = sd_mecha.convert(recipe, op["to"], b.model_dirs(False))
            return ("ok", norm(b, sd_mecha.serialize(r)))
        if op.get("convert"):
            recipe = sd_mecha.convert(recipe, "simarch-cv1", b.model_dirs(b.swap))
        b.plan = dict(b.plan, opts=op["opts"], fallback=op.get("fallback"))
        keep = b.nodes
        b.nodes = nodes
        try:
            kw = b.kwargs()
        finally:
            b.nodes = keep
        o = out if out is not None else (b.out_dir / out_name if op["opts"]["output"] == "file" else {})
        sd_mecha.merge(recipe, output=o, tqdm=progress or world.Progress, **kw)
        return ("ok", enc(read_result(o)))
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not getattr(e, "injected", False):
            raise
        return ("exc", type(e).__name__, exc_text(e), e)


def norm(b, text):
    return text.replace(str(b.dir), "<dir>")


def files_at(plan, k):
    """the input files as they are when operation k runs"""
    cur = {f["name"]: f for f in plan["files"]}
    dicts = {d["id"]: {t["k"]: t for t in d["tensors"]} for d in plan["dicts"]}
    for op in plan["ops"][:k]:
        if op["op"] == "rewrite":
            cur[op["spec"]["name"]] = op["spec"]
        if op["op"] == "redict":
            dicts[op["id"]][op["t"]["k"]] = op["t"]
    return dict(plan, files=list(cur.values()),
                dicts=[dict(d, tensors=list(dicts[d["id"]].values())) for d in plan["dicts"]])


def truth(plan, k, cfg, run):
    op = dict(plan["ops"][k], fresh=False)
    op.pop("faults", None)
    if op["op"] == "merge":
        op["opts"] = dict(op["opts"], threads=0)

    def fn():
        pl = files_at(plan, k)
        b = HBuilt(pl, os.path.join(run.dir, f"t{k}"), cfg)
        return perform(b, op, "t.safetensors")[:3]
    return in_fork(fn)


def prepare(plan, run):
    cfg = world.make_config(plan["config"])
    cfg2 = world.make_config(plan["config2"])
    if plan["profile"] in ("lazy", "inferred"):
        cfg, cfg2 = as_yaml(cfg, run), as_yaml(cfg2, run)
    for c in (cfg, cfg2):
        model_configs.register_aux(c)
    known = [cfg2, cfg]
    if plan["profile"] == "structural":
        known = []
    model_configs.get_all = lambda: list(known)
    if plan["profile"] == "explicit":
        from sd_mecha import merge_method, Parameter, Return, StateDict
        ids = ["simarch-c0", "simarch-cv1", "simarch-cv2"]
        for i in ids[1:]:
            model_configs.register_aux(world.make_config(dict(plan["config"], name=i[8:])))
        for j in range(2):
            src, dst = ids[j], ids[j + 1]

            def conv(a: Parameter(StateDict[torch.Tensor], "weight", src), **kwargs) -> Return(torch.Tensor, "weight", dst):
                return a[kwargs["key"]]
            merge_method(conv, identifier=f"simconv{j}", is_conversion=True)
    return cfg


def as_yaml(cfg, run):
    y = os.path.join(run.dir, cfg.identifier + ".yaml")
    with fs._open(y, "w") as f:
        f.write(model_configs.to_yaml(cfg))
    return model_configs.YamlModelConfig(pathlib.Path(y))


def execute(plan, run):
    cfg = prepare(plan, run)
    run.stat(plan["profile"])
    if plan["relative"]:
        run.stat("relative")
    want = {}
    for k, op in enumerate(plan["ops"]):
        if op["op"] in ("rewrite", "redict") or op.get("faults"):
            continue
        t = truth(plan, k, cfg, run)
        if t[0] != "ok":
            raise RuntimeError(t[2])
        want[k] = t[1]
        if op["op"] == "merge" and plan["profile"] in ("explicit", "lazy") and not op.get("convert") and t[1][0] == "ok":
            pl = files_at(plan, k)
            if op.get("swap"):
                pl = dict(pl, files=plan["files2"])
            ref = world.Ref(dict(pl, root=op["root"], fallback=op.get("fallback"), opts=op["opts"])).result()
            if world.diff(dec(t[1][1]), ref):
                run.violate("differs-from-reference", f"operation {k} alone: " + "; ".join(world.diff(dec(t[1][1]), ref)[:3]))
                return
    b = HBuilt(plan, run.dir, cfg)
    runmod.watch(run, **{"in": b.in_dir, "out": b.out_dir})
    fs.W.roots.append((os.path.join(run.dir, "in2"), "in"))
    run.fatal_ok = lambda kind: any(op.get("faults") for op in plan["ops"])
    run.begin(calls=MEM_MODULES if any((op.get("faults") or {}).get("mem") for op in plan["ops"]) else ())
    compared = 0
    failed = False
    for k, op in enumerate(plan["ops"]):
        run.phase = f"op{k}:{op['op']}"
        run.stat(op["op"])
        base = dict(fs.W.ops)
        if op.get("faults"):
            pl = copy.deepcopy(op["faults"])
            for f in pl.get("faults", []):
                f["at"] += base.get((f["role"], f["op"]), 0)
            if pl.get("capacity_frac") is not None:
                pl["capacity"] = fs.W.used + int(pl.pop("capacity_frac") * 300)
            arm = Armed(pl, run, {})
            out = arm.out(world.RecDict()) if op.get("opts", {}).get("output") == "dict" else None
            run.extra.pop("ki_fired", None)
            run.extra["ki_armed"] = True
            if pl.get("ki"):
                run.arm_ki(pl["ki"])
            try:
                res = perform(b, op, f"o{k}.safetensors", arm.progress, out)
            except KeyboardInterrupt:
                res = ("exc", "KeyboardInterrupt", "", None)
            run.disarm_ki()
            fired = arm.fired()
            arm.disarm()
            run.extra.pop("ki_exc", None)
            if res is not None and res[0] == "exc" and fired:
                run.stat("failed-op")
                failed = True
            res = None
            for t in list(S.tasks[1:]):
                S.join_task(t)
            gc.collect()
            continue
        res = perform(b, op, f"o{k}.safetensors")
        if res is None:
            continue
        if op.get("retry") and failed:
            run.stat("retry-after-failure")
        compared += 1
        run.stat(f"{plan['profile']}:{res[0]}")
        w = want[k]
        compare(run, k, op, res, w)
        res = None
        if run.violations:
            break
    run.end()
    run.nontrivial = compared >= 2


def compare(run, k, op, res, w):
    if res[0] != w[0]:
        run.violate("outcome", f"operation {k} ({op['op']}) after this history: {res[:3] if res[0] == 'exc' else 'succeeded'}; "
                    f"alone: {w[:3] if w[0] == 'exc' else 'succeeds'}")
    elif res[0] == "exc":
        if res[1] != w[1]:
            run.violate("outcome", f"operation {k} ({op['op']}) raised {res[1]} instead of {w[1]}: {res[2]}")
    elif op["op"] == "merge":
        d = world.diff(dec(res[1]), dec(w[1]))
        if d:
            run.violate("wrong-result", f"operation {k}: " + "; ".join(d[:4]))
    elif res[1] != w[1]:
        run.violate("wrong-result", f"operation {k} ({op['op']}): {res[1]} instead of {w[1]}")


def shrink(plan):
    """shorter histories first"""
    for j in range(len(plan["ops"]) - 1):
        p = copy.deepcopy(plan)
        del p["ops"][j]
        yield p
    for j, op in enumerate(plan["ops"]):
        for key in ("fresh", "swap", "convert", "fallback"):
            if op.get(key) not in (None, False):
                p = copy.deepcopy(plan)
                p["ops"][j][key] = None if key == "fallback" else False
                yield p
