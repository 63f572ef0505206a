"""C10 Merging never modifies its inputs"""
import copy
import pathlib
from .common import *
from sim import methods as simm
from sd_mecha import merge_method_wrappers as wrappers
from sd_mecha.extensions import merge_methods as mm, model_configs
from sd_mecha.extensions.merge_methods import StateDict
from sd_mecha.typing_ import is_subclass
import typing

ID = "C10"
BUDGET = {"quick": (4600, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case merges a recipe over every built-in method and recipe helper in turn, with operands in memory, in files, tensor and "
        "per-key literals and caches, mostly without casts (so that methods get the caller's own tensors), under faults and schedules. "
        "Everything the recipe refers to is compared with a snapshot, and operands are read again through the streaming layer after a "
        "method used them. Non-trivial: the method returned for at least one key")
PROBES = ["uncast", "cast", "file-operand", "dict-operand", "tensor-literal", "litd-operand", "litn-operand", "reread-checked", "failed", "config-checked", "onto-input", "non-finite"]
SPACES = ["weight", "delta", "param"]
KINDS = ["in_eio", "method", "mem", "store", "out_eio", "ki", "progress"]
SHAPES = [[4, 4], [3, 5], [6, 2], [4], [2, 3, 2, 2], [2, 4, 1, 1], [1], [5, 5], [], [8, 3], [2, 2]]
WRAPPERS = ["add_difference", "add_perpendicular", "add_difference_ties", "add_difference_ties_extended", "copy_region", "rotate",
            "dropout", "ties_with_dare", "n_model_stock"]
SIM = ["sim_lin", "sim_sd", "sim_neighbor", "sim_sum", "sim_typed", "sim_view", "sim_id", "sim_cache"]
ALIASING = ["sim_id", "sim_view", "fallback", "pick_component", "exchange_ema", "cast"]     # what they return can be the caller's own tensor


def builtin():
    conv = set(m.identifier for m in mm.get_all_converters())
    return sorted(m.identifier for m in mm.get_all() if m.identifier not in conv and not m.identifier.startswith("sim"))


def gen(rng, tier, i):
    names = builtin()
    pool = names + ["w:" + w for w in WRAPPERS]
    m = pool[i % len(pool)] if rng.random() < 0.65 else rng.choice(pool + SIM + ALIASING * 8)
    dt = rng.choice(["F32", "F32", "F64", "F16"])
    cfg = world.gen_config(rng, rng.randint(2, 5), dtypes=[dt], odd=False, alias_p=0.3)
    for k in cfg["keys"]:
        k["shape"] = rng.choice(SHAPES)
    ops = []
    for j in range(rng.randint(3, 5)):
        ops.append({"kind": rng.choice(["file", "dict", "dict", "litd", "dict", "file", "dict", "litn"]),
                    "tensors": [dict(t, nz=rng.random() < 0.5) for t in
                                world.gen_tensors(rng, cfg, missing_p=0.05, extra_p=0.3, dtypes=[dt])]})
        if not ops[-1]["tensors"]:
            k = cfg["keys"][0]
            ops[-1]["tensors"] = [{"k": k["k"], "shape": k["shape"], "dtype": dt, "seed": 5}]
        for t in ops[-1]["tensors"]:
            if t["k"].startswith("extra."):
                t["dtype"] = dt
    p = {"config": cfg, "method": m, "operands": ops, "dtype": dt, "pick": rng.randrange(1 << 30), "tlit": rng.random() < 0.5,
         "files": [], "dicts": [], "nodes": [], "twice": rng.random() < 0.3, "cache": rng.random() < 0.5,
         "opts": {"threads": rng.choice([0, 1, 2, 3]), "buffer": rng.choice([0, 100, 4096, 1 << 20, 1 << 20]),
                  "merge_dtype": None if rng.random() < 0.75 else rng.choice(["float64", "float32"]),
                  "output_dtype": rng.choice([None, None, "float32", "float16"]),
                  "merge_device": rng.choice([None, None, "cpu"]), "output_device": rng.choice([None, "cpu"]),
                  "output": rng.choice(["dict", "dict", "file"]), "check_finite": rng.random() < 0.5,
                  "omit_ema": rng.choice([None, False]), "omit_extra": False if rng.random() < 0.1 else None}}
    if rng.random() < (0.6 if m in ALIASING else 0.25):
        for o in ops:
            for t in o["tensors"]:
                t["nf"] = rng.choice([False] * 7 + [True, True, "all"])
    if rng.random() < 0.15:
        p["onto"] = [rng.choice(["same", "string", "symlink", "hardlink", "relative", "dotdot", "linked-dir"]), rng.randrange(1 << 16)]
        p["opts"]["output"] = "file"
        ops[0]["kind"] = rng.choice(["file", ops[0]["kind"]])
        ops[-1]["kind"] = "file"
    if rng.random() < 0.25:
        gen_faults(rng, p, KINDS, 1)
        ki_range(rng, p, 0.5, 3.5)
    p["sched"] = world.gen_sched(rng, 0.5)
    p["salt"] = 0
    return p


def shrink(plan):
    for k in ("twice", "cache"):
        if plan[k]:
            p = copy.deepcopy(plan)
            p[k] = False
            yield p
    for j, o in enumerate(plan["operands"]):
        if len(plan["operands"]) > 1:
            p = copy.deepcopy(plan)
            del p["operands"][j]
            yield p
        if o["kind"] != "dict":
            p = copy.deepcopy(plan)
            p["operands"][j]["kind"] = "dict"
            yield p


class Op:
    """an operand in one merge space; made on demand, remembered for the comparison afterwards"""
    def __init__(self, b, plan, run):
        self.b, self.plan, self.run = b, plan, run
        self.made = []
        self.held = []       # tensors and dicts that belong to the caller
        self.cfg = b.cfg
        self.rng = __import__("random").Random(plan["pick"])
        self.files = {}

    def node(self, space):
        specs = self.plan["operands"]
        j = self.rng.randrange(len(specs))
        s = specs[j]
        if s["kind"] == "file":
            name = f"op{j}.safetensors"
            if name not in self.files:
                ts = s["tensors"]
                f = {"name": name, "tensors": ts, "order": list(range(len(ts))), "horder": list(range(len(ts))), "meta": False, "pad": 0}
                world.write_safetensors(self.b.in_dir / name, f)
                self.files[name] = s
            self.run.stat("file-operand")
            n = sd_mecha.model(self.b.in_dir / name, config=self.cfg, merge_space=space)
        else:
            d = self.tensors(j)
            if s["kind"] == "litn":
                # a dictionary of recipes
                self.run.stat("litn-operand")
                m = sd_mecha.model(d, config=self.cfg, merge_space=space)
                n = sd_mecha.literal({k: m if self.rng.random() < 0.7 else sd_mecha.model(d, config=self.cfg, merge_space=space) for k in d},
                                     config=self.cfg, merge_space=space)
            elif s["kind"] == "litd":
                self.run.stat("litd-operand")
                n = sd_mecha.literal(d, config=self.cfg, merge_space=space)
            else:
                self.run.stat("dict-operand")
                n = sd_mecha.model(d, config=self.cfg, merge_space=space)
        self.made.append((n, s))
        return n

    def tensors(self, j):
        d = {t["k"]: world.make_tensor(t) for t in self.plan["operands"][j]["tensors"]}
        self.held.append(d)
        return d

    def scalar(self, ty, name, default, has_default):
        r = self.rng
        if ty is str:
            if name == "component":
                return r.choice(sorted({k["comp"] for k in self.plan["config"]["keys"]}))
            if name == "device":
                return r.choice(["cpu", None])
            if name == "dtype":
                return r.choice(["float32", "float64", None, "float16"])
            return default
        if has_default and r.random() < 0.4:
            return default
        if ty is bool:
            return r.random() < 0.5
        if ty is int:
            return {"maxiter": 3, "seed": r.choice([0, 7, 123])}.get(name, r.randint(0, 3))
        if ty is float:
            if name in ("cos_eps", "eps", "ftol"):
                return default
            return r.choice([0.0, 0.25, 0.5, 0.75, 1.0])
        # a tensor parameter with a default, like alpha
        q = r.random()
        if q < 0.35:
            t = torch.tensor(r.choice([0.0, 0.25, 0.5, 1.0]), dtype=world.DT[self.plan["dtype"]])
            self.held.append({"": t})
            self.run.stat("tensor-literal")
            return sd_mecha.literal(t)
        if q < 0.6:
            d = {k["k"]: torch.tensor(r.choice([0.25, 0.5, 1.0]), dtype=world.DT[self.plan["dtype"]]) for k in self.plan["config"]["keys"]}
            self.held.append(d)
            self.run.stat("tensor-literal")
            return sd_mecha.literal(d, config=self.cfg)
        return r.choice([0.0, 0.25, 0.5, 1.0])


def is_t(interface):
    return isinstance(interface, typing.TypeVar) or is_subclass(interface, torch.Tensor) or is_subclass(interface, StateDict)


def build(ops, name):
    if name.startswith("w:"):
        return build_wrapper(ops, name[2:])
    m = mm.resolve(name)
    params, spaces, names, defaults = m.get_params(), m.get_input_merge_spaces(), m.get_param_names(), m.get_default_args()
    sym = {}

    def operand(space):
        if isinstance(space, set):
            s = sorted(x.identifier for x in space)[0] if len(space) == 1 else ops.rng.choice(sorted(x.identifier for x in space))
        else:
            s = sym.setdefault(id(space), ops.rng.choice(["weight", "weight", "delta"]))
        return ops.node(s)
    args = []
    nreq = len(params.args) - len(defaults.args)
    for i, p in enumerate(params.args):
        dflt = i >= nreq
        if is_t(p.interface) and not dflt:
            args.append(operand(spaces.args[i]))
        else:
            args.append(ops.scalar(p.interface, names.args[i], defaults.args[i - nreq] if dflt else None, dflt))
    if params.has_varargs():
        for _ in range(ops.rng.randint(1, 3)):
            args.append(operand(spaces.vararg))
    kw = {}
    for k, p in params.kwargs.items():
        dflt = k in defaults.kwargs
        if is_t(p.interface) and not dflt:
            kw[k] = operand(spaces.kwargs[k])
        else:
            kw[k] = ops.scalar(p.interface, k, defaults.kwargs.get(k), dflt)
    r = m(*args, **kw)
    if ops.plan["cache"]:
        r = r.set_cache({})
    return r


def build_wrapper(ops, name):
    f = getattr(wrappers, name)
    w = lambda: ops.node("weight")
    r = ops.rng
    alpha = lambda: ops.scalar(torch.Tensor, "alpha", 0.5, False)
    if name == "add_difference":
        return f(w(), w(), w(), alpha=alpha(), clamp_to_ab=r.random() < 0.5)
    if name == "add_perpendicular":
        return f(w(), w(), w(), alpha=alpha())
    if name in ("add_difference_ties", "add_difference_ties_extended"):
        return f(w(), *[w() for _ in range(r.randint(1, 3))], alpha=alpha(), k=r.choice([0.2, 0.5, 1.0]))
    if name == "copy_region":
        return f(w(), w(), w() if r.random() < 0.5 else None, width=r.choice([0.25, 0.5, 1.0]), offset=r.choice([0.0, 0.75]),
                 top_k=r.random() < 0.5)
    if name == "rotate":
        return f(w(), w(), w() if r.random() < 0.5 else None, alignment=r.choice([0.0, 0.5, 1.0, 2.0]), alpha=r.choice([0.0, 0.5]),
                 cache={} if ops.plan["cache"] else None)
    if name in ("dropout", "ties_with_dare"):
        return f(w(), *[w() for _ in range(r.randint(1, 3))], probability=r.choice([0.1, 0.5]), alpha=alpha(), seed=r.choice([1, 5]))
    return f(w(), *[w() for _ in range(r.randint(1, 3))])


def snap_tensors(held):
    return [[(k, v, v._version, str(v.dtype), tuple(v.shape), world.tensor_bytes(v)) for k, v in d.items()] for d in held]


def check_tensors(run, held, snap, when):
    for d, s in zip(held, snap):
        if [k for k in d] != [x[0] for x in s]:
            run.violate("dict-changed", f"{when}: keys {list(d)[:5]} instead of {[x[0] for x in s][:5]}")
            return
        for k, t, ver, dt, shape, raw in s:
            if d[k] is not t:
                run.violate("dict-changed", f"{when}: {k!r} now holds another tensor")
            elif str(t.dtype) != dt or tuple(t.shape) != shape or world.tensor_bytes(t) != raw:
                run.violate("tensor-changed", f"{when}: {k!r} became {world.brief(t)}")


def snap_config(c):
    return ([(k, tuple(v.shape) if v.shape is not None else None, str(v.dtype), tuple(v.aliases), v.optional) for k, v in c.keys().items()],
            [(k, list(v.keys())) for k, v in c.components().items()],
            [(k, tuple(v.shape), str(v.dtype)) for k, v in c.metadata().items()],
            [(k, tuple(v)) for k, v in c.aliases().items()])


def snap_nodes(node, out, seen):
    if id(node) in seen:
        return
    seen.add(id(node))
    kids = []
    if hasattr(node, "args"):
        out.append((node, tuple(map(id, node.args)), tuple((k, id(v)) for k, v in node.kwargs.items()), id(node.cache), id(node.merge_method)))
        kids = list(node.args) + list(node.kwargs.values())
    elif hasattr(node, "value"):
        v = node.value
        out.append((node, id(v) if isinstance(v, (dict, torch.Tensor)) else v, node.merge_space.identifier,
                    [(k, id(x)) for k, x in v.items()] if isinstance(v, dict) else None))
        if isinstance(v, dict):
            kids = [x for x in v.values() if hasattr(x, "accept")]
    else:
        out.append((node, id(node.path) if not isinstance(node.path, os.PathLike) else str(node.path), node.merge_space.identifier))
    for k in kids:
        snap_nodes(k, out, seen)


def onto_path(how, path, b, extra):
    """an output path that is the same file as an input"""
    name = os.path.basename(path)
    alt = b.out_dir / ("onto-" + name)
    if how == "string":
        return path
    if how == "symlink":
        os.symlink(path, alt)
        return alt
    if how == "hardlink":
        fs._os["link"](path, alt)
        return alt
    if how == "relative":
        extra["model_dirs"] = [b.in_dir]
        return name
    if how == "dotdot":
        return b.out_dir / ".." / b.in_dir.name / name
    if how == "linked-dir":
        os.symlink(b.in_dir, b.out_dir / "d")
        return b.out_dir / "d" / name
    return pathlib.Path(path)


def execute(plan, run):
    b = setup(plan, run)
    ops = Op(b, plan, run)
    try:
        recipe = build(ops, plan["method"])
        if plan["twice"]:
            recipe = simm.sim_probe(recipe, build(ops, plan["method"]), tag="pair")
    except TypeError as e:
        # a combination that the method rejects
        run.stat("rejected:" + plan["method"])
        run.nontrivial = False
        return
    # what a streamed operand yields after the method has used it
    expect = {}
    probes = []
    byname = {k["k"]: k for k in plan["config"]["keys"]}
    for n, s in ops.made:
        if not hasattr(n, "value") and not any(n is q for q, _ in probes):
            probes.append((n, s))
    if plan["opts"]["merge_dtype"] is None:
        root = simm.sim_probe(recipe, *[n for n, _ in probes])
    else:
        root = simm.sim_probe(recipe)
        probes = []

    def stored(s, key):
        for nm in [key] + byname[key]["aliases"]:
            for t in s["tensors"]:
                if t["k"] == nm:
                    return world.make_tensor(t)
        return None

    def probe(key, rest, tag):
        if tag == "pair":
            return
        for v, (n, s) in zip(rest, probes):
            w = stored(s, key)
            run.stat("reread-checked")
            if not v.isfinite().all():
                run.stat("non-finite")
            if w is None or world.tensor_bytes(v) != world.tensor_bytes(w) or v.dtype != w.dtype:
                run.violate("input-changed-in-flight", f"{plan['method']}: operand {n.path if hasattr(n, 'path') else n} reads {world.brief(v)} "
                            f"for {key!r} afterwards, stored {world.brief(w) if w is not None else None}")
    simm.R.hooks["probe"] = probe
    snap = snap_tensors(ops.held)
    csnap = snap_config(b.cfg)
    files = {f: fs._open(b.in_dir / f, "rb").read() for f in sorted(os.listdir(b.in_dir))}
    registered = {c.identifier: id(c) for c in model_configs.get_all()}
    nsnap = []
    snap_nodes(root, nsnap, set())
    fs.W.mutations = []
    arm = Armed(plan, run, {})
    run.fatal_ok = lambda kind: True
    extra = {"strict_weight_space": False}
    o = arm.out(world.RecDict()) if plan["opts"]["output"] == "dict" else out_path(b)
    onto = plan.get("onto")
    if onto:
        paths = sorted({str(x[0].path) for x in nsnap if hasattr(x[0], "path")})
        o = onto_path(onto[0], paths[onto[1] % len(paths)], b, extra) if paths else o
        onto = onto if paths else None
    run.begin(calls=arm.calls)
    r, e, out = do_merge(b, root, output=o, tqdm=arm.progress, extra=extra)
    run.disarm_ki()
    for t in list(S.tasks[1:]):
        S.join_task(t)
    run.end()
    arm.disarm()
    run.stat("cast" if plan["opts"]["merge_dtype"] else "uncast")
    if e is None:
        run.stat("ok:" + plan["method"])
    else:
        run.stat("failed")
        run.stat("failed:" + plan["method"])
        if os.environ.get("VERIF_SHOW"):
            run.stat("exc:" + plan["method"] + ":" + repr(e)[:120])
    if onto:
        run.stat("onto-input")
        run.stat("onto:" + onto[0])
        if e is None:
            run.violate("file-changed", f"a merge of {plan['method']} onto one of its inputs ({onto[0]}) returned")
    run.nontrivial = e is None or bool(onto)
    when = f"{plan['method']} ({'returned' if e is None else repr(e)[:80]})"
    check_tensors(run, ops.held, snap, when)
    if snap_config(b.cfg) != csnap:
        run.violate("config-changed", f"{when}: the model config of the recipe changed")
    run.stat("config-checked")
    now = {c.identifier: id(c) for c in model_configs.get_all()}
    if now != registered:
        run.violate("config-changed", f"{when}: registered configs changed")
    if fs.W.mutations:
        run.violate("file-changed", f"{when}: {fs.W.mutations[:4]}")
    after = {f: fs._open(b.in_dir / f, "rb").read() for f in sorted(os.listdir(b.in_dir))}
    if after != files:
        run.violate("file-changed", f"{when}: input files differ")
    again = []
    snap_nodes(root, again, set())
    if [x[1:] for x in again] != [x[1:] for x in nsnap]:
        run.violate("recipe-changed", f"{when}: the recipe's nodes changed")
