"""C16 Merges running at the same time in one process do not interfere"""
import copy
import pathlib
from .common import *
from . import c09
from .c09 import HBuilt, perform, prepare, norm, compare, spec_for
from sd_mecha.extensions import model_configs
from sd_mecha import merging

ID = "C16"
BUDGET = {"quick": (2300, 62.0), "thorough": (50000, 800.0)}
RULE = ("each case runs 2-5 caller threads at once (merges to mappings and files with workers of their own, conversions, openings, recipe "
        "and config serialisation, config inference; over shared files, in-memory dicts, model configs, Defaults objects, with relative "
        "paths resolved differently), optionally one of them failing at a seeded point. Every other caller's outcome equals its outcome "
        "alone in a pristine forked process. Non-trivial: at least two callers overlapped")
PROBES = ["merge", "convert", "open", "serialize", "yaml", "describe", "infer", "load", "defaults", "failing-caller", "same-file", "relative",
          "explicit", "lazy", "structural", "inferred", "overlap"]
FAULTS = ["read", "write", "open", "store", "method", "missing"]


def gen(rng, tier, i):
    profile = rng.choice(["explicit", "explicit", "lazy", "structural", "inferred"])
    o = world.GenOpts(depth=rng.choice([0, 1, 2]), keys=(2, 6), litr_p=0.04 if profile in ("explicit", "lazy") else 0.0, fallback_p=0.0)
    if profile == "structural":
        o.methods = ["sim_lin", "sim_sd", "sim_sum", "sim_typed", "fallback", "weighted_sum"]
        o.cfg_kw = {"alias_p": 0.0}
    else:
        o.cfg_kw = {"odd": False}
    p = world.gen_world(rng, o)
    p["profile"] = profile
    p["relative"] = rng.random() < 0.4
    roots = [j for j, n in enumerate(p["nodes"]) if n["t"] in ("merge", "model", "dict") and n.get("space") == "weight"]
    cfg2 = world.gen_config(rng, rng.randint(2, 5), odd=False, name="c1", dtypes=["F32"])
    for k in cfg2["keys"]:
        k["k"] = "other." + k["k"]
        k["aliases"] = ["other." + a for a in k["aliases"]]
    p["config2"] = cfg2
    p["files2"] = [spec_for(rng, p["config"], f["name"], missing_p=0.2, dtypes=["F32"]) for f in p["files"]]

    def job():
        r = rng.random()
        if r < 0.55:
            opts = dict(p["opts"])
            opts["threads"] = rng.choice([0, 1, 2, 3])
            opts["buffer"] = rng.choice(o.buffers)
            opts["output"] = rng.choice(["dict", "file", "none"])
            opts["omit_ema"] = rng.choice([None, True, False])
            opts["output_dtype"] = rng.choice(["float32", "float64", "float16"])
            if p["opts"]["merge_dtype"] is not None:
                opts["merge_dtype"] = rng.choice(["float32", "float64"])
            return {"op": "merge", "root": p["root"] if rng.random() < 0.6 else rng.choice(roots),
                    "fallback": rng.choice(roots) if rng.random() < 0.2 else None, "opts": opts,
                    "swap": p["relative"] and rng.random() < 0.4, "convert": profile == "explicit" and rng.random() < 0.15,
                    "defaults": rng.random() < 0.2}
        if r < 0.65:
            return {"op": "open", "root": rng.choice(roots), "raise": rng.random() < 0.3, "swap": False}
        if r < 0.75:
            if profile == "explicit":
                return {"op": "convert", "root": rng.choice(roots), "to": rng.choice(["simarch-cv1", "simarch-cv2", "simarch-c0", "simarch-c1"])}
            return {"op": "serialize", "root": rng.choice(roots)}
        if r < 0.82:
            return {"op": "serialize", "root": rng.choice(roots), "save": rng.random() < 0.5}
        if r < 0.88:
            return {"op": "yaml", "c": rng.choice([0, 1])}
        if r < 0.92:
            return {"op": "describe", "c": rng.choice([0, 1])}
        if r < 0.96:
            return {"op": "infer"}
        return {"op": "load", "root": rng.choice(roots)}
    jobs = [job() for _ in range(rng.choice([2, 2, 3, 3, 4, 5]))]
    if rng.random() < 0.12:
        # many callers inside the same helper
        k = rng.choice(["yaml", "yaml", "serialize", "convert", "infer", "load", "open"])
        if k == "convert" and profile != "explicit":
            k = "yaml"
        for jb in jobs:
            if rng.random() < 0.85:
                jb.clear()
                jb.update({"yaml": {"op": "yaml", "c": rng.choice([0, 1])}, "serialize": {"op": "serialize", "root": rng.choice(roots), "save": rng.random() < 0.5},
                           "convert": {"op": "convert", "root": rng.choice(roots), "to": rng.choice(["simarch-cv1", "simarch-cv2"])},
                           "infer": {"op": "infer"}, "load": {"op": "load", "root": rng.choice(roots)},
                           "open": {"op": "open", "root": rng.choice(roots), "raise": False, "swap": False}}[k])
    if rng.random() < 0.35:
        m = [j for j in jobs if j["op"] == "merge"]
        if m and len(jobs) > 1:
            rng.choice(m)["fail"] = {"kind": rng.choice(FAULTS), "at": nth(rng, 25), "type": rng.choice(EXC_COMMON)}
    p["jobs"] = jobs
    p["sched"] = world.gen_sched(rng, 0.7)
    if all(j["op"] != "merge" for j in jobs) and p["sched"]["kind"] == "pct":
        p["sched"].update(fine=True, len=rng.choice([20, 60, 200]))
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def shrink(plan):
    for j in range(len(plan["jobs"])):
        if len(plan["jobs"]) > 1:
            p = copy.deepcopy(plan)
            del p["jobs"][j]
            yield p
        jb = plan["jobs"][j]
        for k in ("fail", "fallback", "swap", "convert", "defaults", "save"):
            if jb.get(k):
                p = copy.deepcopy(plan)
                p["jobs"][j][k] = None
                yield p
        if jb.get("opts", {}).get("threads"):
            p = copy.deepcopy(plan)
            p["jobs"][j]["opts"]["threads"] -= 1
            yield p


class JBuilt(HBuilt):
    """one caller's view: recipe nodes of its own over the shared files, dicts and configs"""
    def __init__(self, b, plan, in_dir=None):
        self.__dict__.update(b.__dict__)
        self.plan = plan
        if in_dir is not None:
            self.in_dir = in_dir
        self.nodes = []
        nodes = []
        for n in plan["nodes"]:
            nodes.append(self._node(n, nodes))
        self.nodes = nodes


def describe(c):
    def meta(m):
        m = m.metadata() if hasattr(m, "metadata") else m
        return (None if m.shape is None else tuple(m.shape), str(m.dtype))
    return (c.identifier, c.get_architecture_identifier(), c.get_implementation_identifier(),
            [(n, sorted((k, tuple(v.aliases), bool(v.optional), meta(v)) for k, v in comp.keys().items())) for n, comp in c.components().items()],
            [k for k in c.keys()], [(k, meta(v)) for k, v in c.metadata().items()], [(k, tuple(v)) for k, v in c.aliases().items()])


def act(b, cfgs, op, n, out=None, defaults=None):
    if op["op"] == "yaml":
        return ("ok", model_configs.to_yaml(cfgs[op["c"]]) if not isinstance(cfgs[op["c"]], model_configs.LazyModelConfigBase)
                else model_configs.to_yaml(model_configs.from_yaml(pathlib.Path(cfgs[op["c"]].yaml_config_file).read_text())))
    if op["op"] == "describe":
        return ("ok", describe(cfgs[op["c"]]))
    if op["op"] == "infer":
        sd = {k["k"]: torch.empty(k["shape"]) for k in b.plan["config"]["keys"]}
        try:
            return ("ok", [sorted(c.identifier for c in s) for s in merging.infer_model_configs(sd)])
        except Exception as e:
            return ("exc", type(e).__name__, exc_text(e), e)
    if op["op"] == "load":
        try:
            text = sd_mecha.serialize(b.nodes[op["root"]])
            return ("ok", norm(b, sd_mecha.serialize(sd_mecha.deserialize(text))))
        except Exception as e:
            return ("exc", type(e).__name__, exc_text(e), e)
    if op["op"] == "serialize" and op.get("save"):
        try:
            path = b.out_dir / f"r{n}.mecha"
            text = sd_mecha.serialize(b.nodes[op["root"]], output=path)
            return ("ok", norm(b, text), norm(b, fs._open(path, "r").read()))
        except Exception as e:
            return ("exc", type(e).__name__, exc_text(e), e)
    if op["op"] == "merge" and op.get("defaults") and op["opts"]["output"] != "none" and defaults is not None:
        try:
            b.swap = op.get("swap", False)
            b.plan = dict(b.plan, opts=op["opts"], fallback=op.get("fallback"))
            kw = b.kwargs()
            o = out if out is not None else (b.out_dir / f"o{n}.safetensors" if op["opts"]["output"] == "file" else {})
            kw.pop("check_finite")
            recipe = b.nodes[op["root"]]
            if op.get("convert"):
                recipe = sd_mecha.convert(recipe, "simarch-cv1", b.model_dirs(b.swap))
            kw.setdefault("fallback_model", None)
            kw.setdefault("omit_extra_keys", True)
            kw.setdefault("omit_ema", kw["omit_extra_keys"])
            defaults.merge(recipe, output=o, tqdm=world.Progress, strict_weight_space=True, check_mandatory_keys=False, **kw)
            return ("ok", enc(read_result(o)))
        except BaseException as e:
            return ("exc", type(e).__name__, exc_text(e), e)
    if op.get("opts") is not None and op.get("defaults"):
        op = dict(op, opts=dict(op["opts"], check_finite=False))
    if op["op"] == "merge" and op["opts"]["output"] == "none" and out is None:
        return returned(b, op)
    return perform(b, op, f"o{n}.safetensors", out=out)


def returned(b, op):
    """a merge without an output argument: its result is the returned mapping"""
    try:
        b.swap = op.get("swap", False)
        recipe = b.nodes[op["root"]]
        if op.get("convert"):
            recipe = sd_mecha.convert(recipe, "simarch-cv1", b.model_dirs(b.swap))
        b.plan = dict(b.plan, opts=op["opts"], fallback=op.get("fallback"))
        return ("ok", enc(sd_mecha.merge(recipe, tqdm=world.Progress, **b.kwargs())))
    except BaseException as e:
        return ("exc", type(e).__name__, exc_text(e), e)


def execute(plan, run):
    cfg = prepare(plan, run)
    cfgs = [cfg, model_configs.resolve("simarch-c1")]
    run.stat(plan["profile"])
    if plan["relative"]:
        run.stat("relative")
    want = {}
    for n, jb in enumerate(plan["jobs"]):
        if jb.get("fail"):
            continue
        alone = dict(jb)
        if "opts" in jb:
            alone["opts"] = dict(jb["opts"], threads=0)

        def fn():
            hb = HBuilt(plan, os.path.join(run.dir, f"t{n}"), cfg)
            return act(hb, cfgs, alone, n)[:3]
        t = in_fork(fn)
        if t[0] != "ok":
            raise RuntimeError(t[2])
        want[n] = t[1]
    b = HBuilt(plan, run.dir, cfg)
    bad = os.path.join(run.dir, "bad")
    os.makedirs(bad)
    for f in plan["files"]:
        world.write_safetensors(os.path.join(bad, f["name"]), f)
    runmod.watch(run, **{"in": b.in_dir, "out": b.out_dir, "bad": bad})
    fs.W.roots.append((os.path.join(run.dir, "in2"), "in"))
    defaults = sd_mecha.Defaults(threads=1, total_buffer_size=1 << 20, check_finite=False, tqdm=world.Progress)
    jobs = []
    live = [0, 0]
    for n, jb in enumerate(plan["jobs"]):
        fail = jb.get("fail")
        v = JBuilt(b, plan, pathlib.Path(bad) if fail else None)
        out = None
        if fail:
            run.stat("failing-caller")
            out = sabotage(fail, jb, v, bad, n, run)
        elif jb.get("opts", {}).get("output") == "dict":
            out = world.RecDict()

        def go(v=v, jb=jb, n=n, out=out):
            live[0] += 1
            live[1] = max(live)
            try:
                return act(v, cfgs, jb, n, out, defaults)
            finally:
                live[0] -= 1
        jobs.append((go, ()))
        run.stat(jb["op"])
        if jb.get("defaults"):
            run.stat("defaults")
    if sum(1 for jb in plan["jobs"] if jb["op"] in ("merge", "open")) > 1 and plan["files"]:
        run.stat("same-file")
    run.begin()
    box = parallel(jobs)
    for t in list(S.tasks[1:]):
        S.join_task(t)
    run.end()
    fs.W.faults = []
    simm_reset()
    run.nontrivial = live[1] > 1
    if live[1] > 1:
        run.stat("overlap")
    for n, (jb, (res, exc)) in enumerate(zip(plan["jobs"], box)):
        if n not in want:
            continue
        if exc is not None:
            res = ("exc", type(exc).__name__, exc_text(exc))
        if "save" in jb and res[0] == "ok" and want[n][0] == "ok" and res[1:] != want[n][1:]:
            run.violate("wrong-result", f"caller {n} saved {res[1:]} instead of {want[n][1:]}")
            continue
        compare(run, n, jb, res, want[n])


def simm_reset():
    methods.R.hooks.pop("enter", None)


def sabotage(fail, jb, v, bad, n, run):
    """make this caller fail through resources that only it uses; returns its output"""
    v.out_dir = pathlib.Path(bad)
    k = fail["kind"]
    out = world.RecDict() if jb["opts"]["output"] == "dict" else None
    if k == "read":
        fs.W.faults.append({"role": "bad", "op": "read", "at": fail["at"], "kind": "read_error", "errno": "EIO"})
    elif k == "open":
        fs.W.faults.append({"role": "bad", "op": "open", "at": fail["at"] % 4, "kind": "open_error", "errno": "EMFILE"})
    elif k == "write":
        jb["opts"]["output"], out = "file", None
        fs.W.faults.append({"role": "bad", "op": "write", "at": fail["at"], "kind": "write_error", "errno": "ENOSPC"})
    elif k == "store":
        jb["opts"]["output"], out = "dict", world.RecDict()
        out.raise_at = fail["at"] % 6
        out.raise_type = EXC[fail["type"]]
    elif k == "method":
        seen = [0]

        def probe(key, rest, tag):
            if tag == f"bad{n}":
                seen[0] += 1
                if seen[0] - 1 == fail["at"] % 6:
                    run.stat("fault:method_exception")
                    raise EXC[fail["type"]]("raised by a merge method [injected]")
        methods.R.hooks["probe"] = probe
        v.nodes.append(methods.sim_probe(v.nodes[jb["root"]], tag=f"bad{n}"))
        jb["root"] = len(v.nodes) - 1
    else:
        v.nodes.append(sd_mecha.model(v.in_dir / "nowhere.safetensors", config=v.cfg))
        v.nodes.append(methods.sim_sum(v.nodes[jb["root"]], v.nodes[-1]))
        jb["root"] = len(v.nodes) - 1
    return out
