"""C18 Model configs load correctly on first use, from any thread, despite faults"""
import copy
import pathlib
import random
import shutil
from .common import *
from sd_mecha.extensions import model_configs
from sd_mecha.extensions.builtin import lycoris

ID = "C18"
BUDGET = {"quick": (5400, 62.0), "thorough": (100000, 800.0)}
RULE = ("each case lets 1-5 callers make the first accesses to yaml, derived (lycoris, user-defined lazy), plain and structural configs through "
        "every accessor in random order, under seeded schedules with pre-emption at every line or instruction of the config modules, while "
        "opening and reading the files fails, comes short or stalls, allocations fail or the user interrupts. Every value returned equals an "
        "independent reading of the same description; exceptions are the injected ones; a last access to everything succeeds. Non-trivial: "
        "two callers overlapped in first accesses, or an access failed and a later one was checked")
PROBES = ["yaml", "real-yaml", "lycoris", "user-lazy", "plain", "structural", "failed-access", "access", "overlap", "fault:read_error",
          "fault:open_error", "fault:config_call", "fault:keyboard_interrupt", "concurrent-first"]
MODS = ["sd_mecha.extensions.model_configs", "sd_mecha.extensions.builtin.lycoris"]
CALL_NAMES = {"Size", "OrderedDict", "dict", "list", "items", "load", "read", "KeyMetadata", "ModelComponent", "ModelConfigImpl", "replace",
              "getattr", "sorted", "TensorMetadata", "open", "from_yaml", "create_config", "keys", "metadata", "components", "split", "join",
              "_to_lycoris_keys", "_ensure_config", "set", "tuple"}
ACCESS = ["identifier", "arch", "impl", "components", "keys", "metadata", "aliases", "component_meta", "all"]
REAL = ["sd1-supermerger_blocks", "sdxl-supermerger_blocks"]


def gen(rng, tier, i):
    cfgs = []
    n = rng.choice([1, 1, 2, 3])
    for j in range(n):
        c = world.gen_config(rng, rng.choice([0, 1, 2, 3, 5, 8]) or 1, odd=rng.random() < 0.3, alias_p=rng.choice([0.1, 0.5]), name=f"l{j}")
        for k in c["keys"]:
            k["optional"] = rng.random() < 0.3
        kind = rng.choice(["yaml", "yaml", "yaml", "plain", "structural", "userlazy"])
        d = {"kind": kind, "config": c}
        if rng.random() < 0.12:
            d["kind"], d["real"] = "yaml", rng.choice(REAL)
        cfgs.append(d)
        for _ in range(rng.choice([0, 1, 1, 2]) if d["kind"] != "structural" else 0):
            cfgs.append({"kind": "lycoris", "base": len(cfgs) - 1 if cfgs[-1]["kind"] != "lycoris" else cfgs[-1]["base"],
                         "prefix": rng.choice(["lora", "lycoris", "x"]), "id": rng.choice(["kohya", "lycoris"])})
    hot = rng.randrange(len(cfgs)) if rng.random() < 0.6 else None

    def ops(k):
        return [[rng.choice(ACCESS), hot if hot is not None and rng.random() < 0.7 else rng.randrange(len(cfgs))] for _ in range(k)]
    p = {"cfgs": cfgs, "callers": [ops(rng.randint(1, 5)) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))]}
    if rng.random() < 0.55:
        k = rng.choice(["in_eio", "in_open", "in_close", "in_stall", "in_short", "chunk", "call", "call", "ki", "in_eio"])
        if k == "call":
            p["call_fault"] = {"at": rng.randrange(0, 60), "n": rng.choice([1, 1, 2])}
        elif k == "ki":
            p["callers"] = p["callers"][:1]
            p["ki"] = {"at": int(10 ** rng.uniform(0.3, 2.7))}
        else:
            gen_faults(rng, p, [k], rng.choice([1, 1, 2, 3]))
            for f in p["faults"]:
                f["at"] = rng.choice([0, 0, 0, 1, 1, 2, 3])
    p["sched"] = world.gen_sched(rng, 1.0)
    if p["sched"]["kind"] == "pct":
        p["sched"]["len"] = rng.choice([20, 60, 200, 600])
    p["sched"]["instr"] = rng.random() < 0.4
    p["sched"]["instr_modules"] = MODS
    p["salt"] = 0
    return p


def shrink(plan):
    for j in range(len(plan["callers"])):
        if len(plan["callers"]) > 1:
            p = copy.deepcopy(plan)
            del p["callers"][j]
            yield p
        for k in range(len(plan["callers"][j])):
            if len(plan["callers"][j]) > 1:
                p = copy.deepcopy(plan)
                del p["callers"][j][k]
                yield p


def dtype_of(d):
    return None if d is None else str(d)


def spec_of(c):
    """{component: {key: (shape, dtype, aliases, optional)}} of a generated config"""
    out = {}
    for k in c["keys"]:
        out.setdefault(k["comp"], {})[k["k"]] = (tuple(k["shape"]), str(world.DT[k["dtype"]]), tuple(k["aliases"]), bool(k["optional"]))
    return out


def spec_of_yaml(path):
    """an independent reading of a config file"""
    import yaml
    y = yaml.safe_load(fs._open(path, "r").read())
    return y["identifier"], {n: {k: (None if m.get("shape") is None else tuple(m["shape"]), None if m.get("dtype") is None else "torch." + m["dtype"],
                                     tuple(m.get("aliases", ())), bool(m.get("optional", False)))
                                 for k, m in comp.items()} for n, comp in y["components"].items()}


def spec_of_lycoris(base, prefix):
    out = {}
    for n, comp in base.items():
        o = {}
        for k, (shape, dt, al, opt) in comp.items():
            if k.endswith("bias") or (dt is not None and not getattr(torch, dt.split(".")[1]).is_floating_point):
                continue
            parts = k.split(".")
            if parts[-1] == "weight":
                parts = parts[:-1]
            for s in ("lora_up.weight", "lora_down.weight", "alpha"):
                o[f"{prefix}_{'_'.join(parts)}.{s}"] = ((), dt, al, True)
        out[n] = o
    return out


def meta_of(m):
    return (None if m.shape is None else tuple(m.shape), dtype_of(m.dtype))


def full(m):
    return (None if m.shape is None else tuple(m.shape), dtype_of(m.dtype), tuple(m.aliases), bool(m.optional))


def access(c, what):
    if what == "identifier":
        return c.identifier
    if what == "arch":
        return c.get_architecture_identifier()
    if what == "impl":
        return c.get_implementation_identifier()
    if what == "components":
        return [(n, [(k, full(v)) for k, v in x.keys().items()]) for n, x in c.components().items()]
    if what == "component_meta":
        return [(n, [(k, meta_of(v)) for k, v in x.metadata().items()], [(k, tuple(v)) for k, v in x.aliases().items()]) for n, x in c.components().items()]
    if what == "keys":
        return [(k, full(v)) for k, v in c.keys().items()]
    if what == "metadata":
        return [(k, meta_of(v)) for k, v in c.metadata().items()]
    if what == "aliases":
        return [(k, tuple(v)) for k, v in c.aliases().items()]
    return [access(c, w) for w in ACCESS if w != "all"]


def truth_of(ident, comps, what, structural=False):
    if what == "identifier":
        return ident
    if what == "arch":
        return ident.split("-")[0]
    if what == "impl":
        return ident.split("-")[1] if not structural else ""
    if what == "components":
        return [(n, list(c.items())) for n, c in comps.items()]
    if what == "component_meta":
        return [(n, [(k, v[:2]) for k, v in c.items()], [(k, v[2]) for k, v in c.items()]) for n, c in comps.items()]
    flat = {k: v for c in comps.values() for k, v in c.items()}
    if what == "keys":
        return list(flat.items())
    if what == "metadata":
        return [(k, v[:2]) for k, v in flat.items()]
    if what == "aliases":
        return [(k, v[2]) for k, v in flat.items()]
    return [truth_of(ident, comps, w, structural) for w in ACCESS if w != "all"]


def execute(plan, run):
    d = pathlib.Path(run.dir) / "cfg"
    d.mkdir()
    objs, specs = [], []
    for n, c in enumerate(plan["cfgs"]):
        kind = c["kind"]
        run.stat("real-yaml" if c.get("real") else kind if kind != "userlazy" else "user-lazy")
        if kind == "lycoris":
            base = objs[c["base"]]
            o = lycoris.LycorisModelConfig(base, c["id"], c["prefix"], ["lora"])
            ident, comps = specs[c["base"]][:2]
            objs.append(o)
            specs.append((f"{ident}_{c['id']}_lora", spec_of_lycoris(comps, c["prefix"]), False))
            continue
        impl = world.make_config(c["config"])
        ident, comps = "simarch-" + c["config"]["name"], spec_of(c["config"])
        if kind == "yaml":
            path = d / f"{ident}.yaml"
            if c.get("real"):
                src = pathlib.Path(sd_mecha.__file__).parent / "extensions/builtin/model_configs" / f"{c['real']}.yaml"
                path = d / f"{c['real']}.yaml"
                shutil.copyfile(src, path)
                ident, comps = spec_of_yaml(path)
            else:
                with fs._open(path, "w") as f:
                    f.write(yaml_text(ident, c["config"]))
            o = model_configs.YamlModelConfig(path)
        elif kind == "plain":
            o = impl
        elif kind == "userlazy":
            class UserConfig(model_configs.LazyModelConfigBase):
                identifier = ident

                def __init__(self, make):
                    super().__init__()
                    self.make = make

                def create_config(self):
                    core.point()
                    r = self.make()
                    core.point()
                    return r
            o = UserConfig(lambda c=c: world.make_config(c["config"]))
        else:
            o = model_configs.StructuralModelConfig({k["k"]: model_configs.KeyMetadata(torch.Size(k["shape"]), world.DT[k["dtype"]], list(k["aliases"]), k["optional"])
                                                     for k in c["config"]["keys"]})
            ident = "structural"
            comps = {"keys": {k: v for x in comps.values() for k, v in x.items()}}
            order = [k["k"] for k in c["config"]["keys"]]
            comps = {"keys": {k: comps["keys"][k] for k in order}}
        objs.append(o)
        specs.append((ident, comps, kind == "structural"))
    runmod.watch(run, **{"in": d})
    arm = Armed(plan, run, {})
    calls = ()
    if plan.get("call_fault"):
        cf, cnt = plan["call_fault"], [0]

        def hook(fn, arg0):
            if getattr(fn, "__name__", None) in CALL_NAMES:
                cnt[0] += 1
                if cf["at"] <= cnt[0] - 1 < cf["at"] + cf["n"]:
                    e = MemoryError("[injected]")
                    arm.injected.append(e)
                    run.stat("fault:config_call")
                    raise e
        boot.CALL_HOOK[0] = hook
        calls = MODS
    results = []
    active, first = [0, 0], {}

    def caller(ops):
        active[0] += 1
        active[1] = max(active)
        try:
            for what, n in ops:
                first[n] = first.get(n, 0) + 1
                try:
                    results.append((n, what, access(objs[n], what), None))
                except Exception as e:
                    results.append((n, what, None, e))
        finally:
            active[0] -= 1
    run.begin(modules=MODS, calls=calls)
    if len(plan["callers"]) == 1:
        try:
            caller(plan["callers"][0])
        except KeyboardInterrupt as e:
            results.append((0, "all", None, e))
        run.disarm_ki()
    else:
        for box in parallel([(caller, (ops,)) for ops in plan["callers"]]):
            if box[1] is not None:
                raise box[1]
    fired = arm.fired()
    arm.disarm()
    for n in range(len(objs)):
        for what in ("all", "all"):
            try:
                results.append((n, what, access(objs[n], what), None))
            except Exception as e:
                results.append((n, what, None, e))
                fired = []      # nothing fails any more
    run.end()
    failed = False
    for n, what, got, exc in results:
        run.stat("access")
        if exc is not None:
            run.stat("failed-access")
            failed = True
            if not caused(exc, fired) and not any(type(exc) is type(f) for f in fired):
                run.violate("unexpected-exception", f"{what} of config {n} ({plan['cfgs'][n]['kind']}): " + exc_text(exc))
                return
            continue
        want = truth_of(*specs[n][:2], what, specs[n][2])
        if got != want:
            run.violate("wrong-config", f"{what} of config {n} ({plan['cfgs'][n]['kind']}): got {str(got)[:300]} instead of {str(want)[:300]}")
            return
    if active[1] > 1:
        run.stat("overlap")
        if any(v > 1 for v in first.values()):
            run.stat("concurrent-first")
    run.nontrivial = active[1] > 1 or failed


def yaml_text(ident, c):
    """the description of a generated config, written independently of the library"""
    import yaml
    comps = {}
    for k in c["keys"]:
        m = {"shape": list(k["shape"]), "dtype": str(world.DT[k["dtype"]]).split(".")[1]}
        if k["aliases"]:
            m["aliases"] = list(k["aliases"])
        if k["optional"]:
            m["optional"] = True
        comps.setdefault(k["comp"], {})[k["k"]] = m
    return yaml.safe_dump({"identifier": ident, "components": comps}, sort_keys=False, allow_unicode=True)
