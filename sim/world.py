"""Plans: random workloads as plain JSON, their materialisation, and an independent reference evaluator."""
import json
import math
import os
import pathlib
import struct
from collections import OrderedDict
import torch
import sd_mecha
from sd_mecha.extensions import model_configs, merge_methods as _mm
from . import fs, methods
from .core import S, point

DT = {"F64": torch.float64, "F32": torch.float32, "F16": torch.float16, "BF16": torch.bfloat16, "I64": torch.int64,
      "I32": torch.int32, "I16": torch.int16, "I8": torch.int8, "U8": torch.uint8, "BOOL": torch.bool,
      "F8_E4M3": torch.float8_e4m3fn, "F8_E5M2": torch.float8_e5m2, "U16": torch.uint16, "U32": torch.uint32,
      "U64": torch.uint64}
SZ = {"F64": 8, "I64": 8, "U64": 8, "F32": 4, "I32": 4, "U32": 4, "F16": 2, "BF16": 2, "I16": 2, "U16": 2,
      "I8": 1, "U8": 1, "BOOL": 1, "F8_E4M3": 1, "F8_E5M2": 1}
RDT = {v: k for k, v in DT.items()}
FLOATS = ["F64", "F32", "F16", "BF16"]
ODD_NAMES = ['key "q"', "clé.ü", "a\\b", "with space", "{x}", "null", "k=v", "日本", "tab\tkey"]
SHAPES = [[], [1], [3], [5], [2, 3], [4, 2], [3, 3], [2, 1, 2], [2, 2, 3, 1], [0], [2, 0], [7], [1, 1], [6, 2], [16]]


# ------------------------------------------------------------------ generation

def gen_config(rng, n_keys, dtypes=None, odd=True, ema=True, alias_p=0.25, name="c0"):
    keys = []
    used = set()
    for i in range(n_keys):
        nm = f"{rng.choice(['enc', 'dec', 'mid'])}.{i}.{rng.choice(['weight', 'bias', 'norm'])}"
        if odd and rng.random() < 0.12:
            nm = rng.choice(ODD_NAMES) + str(i)
        if nm in used:
            continue
        used.add(nm)
        aliases = []
        if rng.random() < alias_p:
            aliases = [f"alias{j}.{nm}" for j in range(rng.randint(1, 2))]
        keys.append({"k": nm, "shape": rng.choice(SHAPES), "dtype": rng.choice(dtypes or FLOATS), "aliases": aliases,
                     "optional": rng.random() < 0.3,
                     "comp": "ema" if ema and rng.random() < 0.12 else rng.choice(["main", "main", "aux"])})
    # components keep config order grouped by component
    comps = []
    for k in keys:
        if k["comp"] not in comps:
            comps.append(k["comp"])
    keys.sort(key=lambda k: comps.index(k["comp"]))
    return {"name": name, "keys": keys}


def gen_tensors(rng, cfg, missing_p=0.1, extra_p=0.3, dtypes=None, alias_p=0.5):
    out = []
    for k in cfg["keys"]:
        if rng.random() < missing_p:
            continue
        name = k["k"]
        if k["aliases"] and rng.random() < alias_p:
            name = rng.choice(k["aliases"])
        out.append({"k": name, "shape": k["shape"], "dtype": rng.choice(dtypes) if dtypes else k["dtype"],
                    "seed": rng.randrange(1 << 30)})
        if k["aliases"] and rng.random() < 0.1 and name != k["k"]:
            out.append({"k": k["k"], "shape": k["shape"], "dtype": k["dtype"], "seed": rng.randrange(1 << 30)})
    if rng.random() < extra_p:
        for j in range(rng.randint(1, 3)):
            # the same shape in every file, so that recipes can combine them
            out.append({"k": f"extra.{j}", "shape": [[3], [2, 3], []][j], "dtype": rng.choice(dtypes or FLOATS), "seed": rng.randrange(1 << 30)})
    return out


def gen_file(rng, cfg, name, **kw):
    ts = gen_tensors(rng, cfg, **kw)
    order = list(range(len(ts)))
    rng.shuffle(order)
    horder = list(range(len(ts)))
    rng.shuffle(horder)
    return {"name": name, "tensors": ts, "order": order, "horder": horder, "meta": rng.random() < 0.5,
            "pad": rng.choice([0, 0, 8, 3])}


class GenOpts:
    def __init__(self, **kw):
        self.max_files = 3
        self.max_dicts = 1
        self.depth = 3
        self.keys = (2, 8)
        self.methods = None
        self.views = False
        self.output = None
        self.threads = None
        self.missing_p = 0.08
        self.exact = True
        self.skip = True
        self.merge_dtypes = ["float64", "float32", "float64", None]
        self.output_dtypes = ["float16", "float32", "float64", "bfloat16", None]
        self.buffers = [0, 1, 7, 64, 300, 4096, 1 << 20]
        self.file_p = 0.7
        self.cfg_kw = {}
        self.file_kw = {}
        self.in_dtypes = None
        self.fallback_p = 0.25
        self.litr_p = 0.04
        self.structural = 0.0
        self.extra_p = 0.12
        self.__dict__.update(kw)


def gen_world(rng, o=None, **kw):
    o = o or GenOpts(**kw)
    merge_dtype = rng.choice(o.merge_dtypes)
    cfg = gen_config(rng, rng.randint(*o.keys), **o.cfg_kw)
    wide = FLOATS + ["I64", "I32", "I16", "I8", "U8", "BOOL", "F8_E4M3", "F8_E5M2"]
    dts = o.in_dtypes
    if dts is None and merge_dtype is not None and rng.random() < 0.3:
        dts = wide
    if merge_dtype is None and dts is None:
        dts = [rng.choice(["F32", "F64", "F16"])]     # mixed dtypes would change result dtypes by promotion
    fkw = dict(missing_p=o.missing_p, dtypes=dts)
    fkw.update(o.file_kw)
    nf = rng.randint(1, o.max_files)
    nd = rng.randint(0, o.max_dicts)
    files = [gen_file(rng, cfg, f"m{i}.safetensors", **fkw) for i in range(nf)]
    dicts = [{"id": f"d{i}", "tensors": gen_tensors(rng, cfg, **fkw)} for i in range(nd)]
    for d in dicts:
        if not d["tensors"]:
            d["tensors"] = [{"k": cfg["keys"][0]["k"], "shape": cfg["keys"][0]["shape"], "dtype": (dts or ["F32"])[0], "seed": 1}]
    nodes = []
    leaves = []
    for f in files:
        # the same file may be referred to by several nodes
        for _ in range(1 + (rng.random() < 0.25)):
            nodes.append({"t": "model", "file": f["name"], "space": "weight"})
            leaves.append(len(nodes) - 1)
    for d in dicts:
        nodes.append({"t": "dict", "id": d["id"], "space": "weight"})
        leaves.append(len(nodes) - 1)

    def lit(v):
        nodes.append({"t": "lit", "v": v})
        return len(nodes) - 1

    def build(depth):
        if depth <= 0 or rng.random() < 0.15:
            return rng.choice(leaves)
        if len(nodes) > len(leaves) and rng.random() < 0.15:
            cand = [i for i, n in enumerate(nodes) if n["t"] == "merge" and n.get("space", "weight") == "weight"]
            if cand:
                return rng.choice(cand)          # shared sub-recipe
        if rng.random() < o.litr_p and cfg["keys"]:
            v = {}
            for k in cfg["keys"]:
                if rng.random() < 0.85:
                    v[k["k"]] = build(min(depth - 1, 1))
            if v:
                nodes.append({"t": "litr", "v": v, "space": "weight"})
                return len(nodes) - 1
        ms = o.methods or (["sim_lin", "sim_sd", "sim_neighbor", "sim_sum", "sim_typed", "sim_id", "fallback", "weighted_sum",
                            "addsub", "sim_lin", "sim_sd"] + (["sim_skip"] if o.skip else [])
                           + (["clamp", "pick", "omit"] if rng.random() < 0.3 else []))
        m = rng.choice(ms)
        if m == "addsub":
            b, c = build(depth - 1), build(depth - 2)
            nodes.append({"t": "merge", "m": "subtract", "args": [b, c], "kw": {}, "space": "delta"})
            d = len(nodes) - 1
            a = build(depth - 1)
            n = {"t": "merge", "m": "add_difference", "args": [a, d, lit(rng.choice([1.0, 0.5, 2.0]))], "kw": {}}
        elif m == "sim_lin":
            n = {"t": "merge", "m": m, "args": [build(depth - 1), build(depth - 1), lit(rng.choice([1.0, 2, -1, 0.5]))], "kw": {}}
        elif m == "weighted_sum":
            al = rng.choice([0.5, 0.5, 0.25, 0.0, 1.0])
            n = {"t": "merge", "m": m, "args": [build(depth - 1), build(depth - 1)], "kw": {}}
            if rng.random() < 0.3:
                nodes.append({"t": "litd", "v": {k["k"]: rng.choice([0.0, 0.5, 1.0]) for k in cfg["keys"]}})
                n["args"].append(len(nodes) - 1)
            else:
                n["args"].append(lit(al))
        elif m in ("sim_sd", "fallback"):
            n = {"t": "merge", "m": m, "args": [build(depth - 1), build(depth - 1)], "kw": {}}
        elif m == "sim_sum":
            n = {"t": "merge", "m": m, "args": [build(depth - 1) for _ in range(rng.randint(1, 4))], "kw": {}}
        elif m == "sim_typed":
            n = {"t": "merge", "m": m, "args": [build(depth - 1)], "kw": {}}
            if rng.random() < 0.5:
                n["kw"]["f"] = lit(rng.choice([0.5, 1.0, 1.5]))
            if rng.random() < 0.5:
                n["kw"]["i"] = lit(rng.randint(-3, 3))
            if rng.random() < 0.5:
                n["kw"]["s"] = lit(rng.choice(["", "ab", "x y"]))
            if rng.random() < 0.5:
                n["kw"]["b"] = lit(rng.random() < 0.5)
        elif m == "sim_view":
            n = {"t": "merge", "m": m, "args": [build(depth - 1)], "kw": {"mode": lit(rng.choice(["t", "slice", "stride", "expand", "inner", "flipt", "chunk", "neg"]))}}
        elif m == "sim_skip":
            n = {"t": "merge", "m": m, "args": [build(depth - 1)], "kw": {"mod": lit(rng.choice([2, 3, 5]))}}
        elif m == "clamp":
            n = {"t": "merge", "m": m, "args": [build(depth - 1), build(depth - 1), build(depth - 1)], "kw": {}}
        elif m in ("pick", "omit"):
            n = {"t": "merge", "m": m + "_component", "args": [build(depth - 1), lit(rng.choice(sorted({k["comp"] for k in cfg["keys"]})))], "kw": {}}
        else:
            n = {"t": "merge", "m": m, "args": [build(depth - 1)], "kw": {}}
        n.setdefault("space", "weight")
        nodes.append(n)
        return len(nodes) - 1

    root = build(o.depth)
    if o.views:
        nodes.append({"t": "lit", "v": rng.choice(["t", "slice", "stride", "expand", "inner", "flipt", "chunk", "neg"])})
        nodes.append({"t": "merge", "m": "sim_view", "args": [root], "kw": {"mode": len(nodes) - 1}, "space": "weight"})
        root = len(nodes) - 1
    fb = None
    if rng.random() < o.fallback_p:
        fb = rng.choice(leaves)
    out_dtype = rng.choice(o.output_dtypes)
    opts = {
        "threads": o.threads if o.threads is not None else rng.choice([0, 1, 2, 2, 3, 3, 4, 5, None]),
        "buffer": rng.choice(o.buffers),
        "merge_dtype": merge_dtype,
        "output_dtype": out_dtype,
        "merge_device": rng.choice(["cpu", "cpu", None]) if merge_dtype is not None else rng.choice(["cpu", None]),
        "output_device": rng.choice(["cpu", "cpu", None]),
        "output": o.output or rng.choice(["dict", "file", "file"]),
        "check_finite": rng.random() < 0.8,
        "omit_ema": rng.choice([None, None, True, False]),
    }
    plan = {"config": cfg, "files": files, "dicts": dicts, "nodes": nodes, "root": root, "fallback": fb, "opts": opts}
    prune(plan)
    if rng.random() < o.extra_p:
        opts["omit_extra"] = False
    if rng.random() < 0.15:
        opts["via"] = rng.choice(["defaults", "defaults", "override"])
    return plan


def prune(plan):
    """drop nodes, files and dicts that are unreachable"""
    keep, order = set(), []

    def go(i):
        if i in keep:
            return
        keep.add(i)
        n = plan["nodes"][i]
        if n["t"] == "merge":
            for a in n["args"]:
                go(a)
            for a in n["kw"].values():
                go(a)
        elif n["t"] == "litr":
            for a in n["v"].values():
                go(a)
        order.append(i)
    go(plan["root"])
    if plan.get("fallback") is not None:
        go(plan["fallback"])
    m = {old: new for new, old in enumerate(order)}
    nodes = []
    for i in order:
        n = dict(plan["nodes"][i])
        if n["t"] == "merge":
            n["args"] = [m[a] for a in n["args"]]
            n["kw"] = {k: m[a] for k, a in n["kw"].items()}
        elif n["t"] == "litr":
            n["v"] = {k: m[a] for k, a in n["v"].items()}
        nodes.append(n)
    plan["nodes"] = nodes
    plan["root"] = m[plan["root"]]
    if plan.get("fallback") is not None:
        plan["fallback"] = m[plan["fallback"]]
    used_f = {n["file"] for n in nodes if n["t"] == "model"}
    used_d = {n["id"] for n in nodes if n["t"] == "dict"}
    plan["files"] = [f for f in plan["files"] if f["name"] in used_f]
    plan["dicts"] = [d for d in plan["dicts"] if d["id"] in used_d]


def prune_order(plan):
    """operands before their users"""
    prune(plan)


def gen_sched(rng, fine_p=0.75):
    sp = gen_sched_base(rng, fine_p)
    if sp["fine"] and rng.random() < 0.35:
        sp["stall"] = gen_stalls(rng, ["sd_mecha.merging", "sd_mecha.merging", "sd_mecha.streaming", "sd_mecha.streaming", None])
    return sp


def gen_stalls(rng, mods, n=3):
    return [{"m": rng.choice(mods), "r": rng.randrange(10000) / 10000, "f": rng.randrange(10000) / 10000, "at": rng.choice([1, 2, 3, 5, 8, rng.randrange(1, 60)]),
             "secs": rng.choice([0.5, 5.0, 100.0])} for _ in range(rng.randint(1, n))]


def gen_sched_base(rng, fine_p):
    fine = rng.random() < fine_p
    r = rng.random()
    instr = fine and rng.random() < 0.2
    if r < 0.4:
        p = rng.choice([0.003, 0.01, 0.05, 0.2, 0.5]) if fine else rng.choice([0.1, 0.3, 0.7])
        return {"kind": "random", "seed": rng.randrange(1 << 40), "p": p, "fine": fine, "instr": instr}
    if r < 0.75:
        return {"kind": "pct", "seed": rng.randrange(1 << 40), "d": rng.choice([1, 2, 3, 5, 8]),
                "len": rng.choice([500, 2000, 6000, 15000]) if fine else rng.choice([60, 250]), "fine": fine, "instr": instr}
    if r < 0.95:
        return {"kind": "rr", "q": rng.choice([1, 2, 3, 7, 19, 50]), "fine": fine, "instr": instr}
    return {"kind": "none", "fine": fine, "instr": False}


# ------------------------------------------------------------------ materialisation

def make_tensor(t):
    g = torch.Generator().manual_seed(t["seed"])
    dt = DT[t["dtype"]]
    n = 1
    for s in t["shape"]:
        n *= s
    if t["dtype"] == "BOOL":
        v = torch.randint(0, 2, (n,), generator=g)
    elif t["dtype"][0] == "U":
        v = torch.randint(0, 7, (n,), generator=g)
    else:
        v = torch.randint(-6, 7, (n,), generator=g)
        if t.get("nz"):
            v = torch.where(v == 0, torch.ones_like(v), v)
    if not dt.is_floating_point:
        return v.to(dt).reshape(t["shape"])
    v = v.to(torch.float32)
    if t.get("nf") and n:
        v[slice(None) if t["nf"] == "all" else t["seed"] % n] = (float("nan"), float("inf"), float("-inf"))[t["seed"] % 3]
    return v.to(dt).reshape(t["shape"])


def tensor_bytes(t):
    if t.numel() == 0:
        return b""
    t = t.detach().clone(memory_format=torch.contiguous_format)
    return t.reshape(-1).view(torch.uint8).numpy().tobytes()


def write_safetensors(path, f):
    data, off, entries = bytearray(), 0, {}
    for i in f["order"]:
        t = f["tensors"][i]
        b = tensor_bytes(make_tensor(t))
        entries[i] = {"dtype": t["dtype"], "shape": t["shape"], "data_offsets": [off, off + len(b)]}
        data += b
        off += len(b)
    hdr = OrderedDict()
    if f.get("meta"):
        hdr["__metadata__"] = {"format": "pt", "note": "sim"}
    for i in f["horder"]:
        hdr[f["tensors"][i]["k"]] = entries[i]
    j = json.dumps(hdr, separators=(",", ":")).encode()
    if f.get("pad"):
        j += b" " * (-len(j) % f["pad"])
    with open(path, "wb") as fh:
        fh.write(struct.pack("<Q", len(j)) + j + bytes(data))
    return bytes(data)


def make_config(c):
    comps = OrderedDict()
    for k in c["keys"]:
        comps.setdefault(k["comp"], OrderedDict())[k["k"]] = {
            "shape": list(k["shape"]), "dtype": str(DT[k["dtype"]]).split(".")[1], "aliases": list(k["aliases"]), "optional": k["optional"]}
    return model_configs.ModelConfigImpl("simarch-" + c["name"], comps)


def tdtype(name):
    return None if name is None else getattr(torch, name)


class Built:
    """a plan brought to life in a scratch directory"""
    def __init__(self, plan, root, cfg=None, shared=None):
        self.plan = plan
        self.dir = pathlib.Path(root)
        self.cfg = cfg or make_config(plan["config"])
        self.caches = {}
        self.in_dir = self.dir / "in"
        self.out_dir = self.dir / "out"
        self.in_dir.mkdir(exist_ok=True, parents=True)
        self.out_dir.mkdir(exist_ok=True, parents=True)
        for f in plan["files"]:
            write_safetensors(self.in_dir / f["name"], f)
        self.dicts = {d["id"]: OrderedDict((t["k"], make_tensor(t)) for t in d["tensors"]) for d in plan["dicts"]}
        self.nodes = self.make_nodes()

    def make_nodes(self):
        nodes = []
        for n in self.plan["nodes"]:
            nodes.append(self._node(n, nodes))
        self.nodes = nodes
        return nodes

    def _node(self, n, nodes):
        if n["t"] == "model":
            return sd_mecha.model(self.in_dir / n["file"], config=None if self.plan.get("structural") else self.cfg, merge_space=n["space"])
        if n["t"] == "dict":
            return sd_mecha.model(self.dicts[n["id"]], config=None if self.plan.get("structural") else self.cfg, merge_space=n["space"])
        if n["t"] == "lit":
            return sd_mecha.literal(n["v"])
        if n["t"] == "litd":
            return sd_mecha.literal(dict(n["v"]), config=self.cfg)
        if n["t"] == "litr":
            return sd_mecha.literal({k: nodes[a] for k, a in n["v"].items()})
        m = _mm.resolve(n["m"])
        args = []
        for a in n["args"]:
            args.append(nodes[a])
        r = m(*args, **{k: nodes[a] for k, a in n["kw"].items()})
        if "cache" in n:
            r = r.set_cache() if n["cache"] == "auto" else r.set_cache(self.caches.setdefault(n["cache"], {}))
        return r

    @property
    def recipe(self):
        return self.nodes[self.plan["root"]]

    def kwargs(self, **over):
        o = dict(self.plan["opts"])
        o.update(over)
        kw = dict(threads=o["threads"], total_buffer_size=o["buffer"], merge_dtype=tdtype(o["merge_dtype"]),
                  output_dtype=tdtype(o["output_dtype"]), merge_device=o["merge_device"], output_device=o["output_device"],
                  check_finite=o["check_finite"])
        if o.get("omit_ema") is not None:
            kw["omit_ema"] = o["omit_ema"]
        if o.get("check_mandatory"):
            kw["check_mandatory_keys"] = True
        if o.get("omit_extra") is not None:
            kw["omit_extra_keys"] = o["omit_extra"]
        fb = self.plan.get("fallback")
        if fb is not None:
            kw["fallback_model"] = self.nodes[fb]
        return kw


# ------------------------------------------------------------------ reference

class Missing(Exception):
    pass


class Ref:
    """evaluates a plan key by key, without sd_mecha's merging machinery"""
    PARAM_TYPES = {
        "sim_lin": ["T", "T", "T"], "weighted_sum": ["SD", "SD", "T"], "sim_sd": ["SD", "SD"], "fallback": ["SD", "SD"],
        "sim_neighbor": ["SD"], "subtract": ["T", "T"], "add_difference": ["SD", "SD", "T"], "sim_typed": ["T"],
        "sim_view": ["T"], "sim_id": ["T"], "sim_skip": ["T"], "pick_component": ["SD", "s"], "omit_component": ["SD", "s"],
        "sim_cache": ["T"], "sim_root": ["T"],
    }

    def __init__(self, plan):
        self.plan = plan
        self.keys = plan["config"]["keys"]
        self.byname = {k["k"]: k for k in self.keys}
        self.store = {}
        for f in plan["files"]:
            self.store[f["name"]] = {t["k"]: t for t in f["tensors"]}
        for d in plan["dicts"]:
            self.store[d["id"]] = {t["k"]: t for t in d["tensors"]}
        self.md = tdtype(plan["opts"]["merge_dtype"])
        self.od = tdtype(plan["opts"]["output_dtype"])
        self.casts = plan["opts"]["merge_dtype"] is not None or plan["opts"]["merge_device"] is not None
        self.memo = {}

    def lookup(self, store, key):
        names = [key] + (self.byname[key]["aliases"] if key in self.byname else [])
        for n in names:
            if n in self.store[store]:
                return make_tensor(self.store[store][n])
        raise Missing(key)

    def node(self, i, key):
        k = (i, key)
        if k not in self.memo:
            try:
                self.memo[k] = (True, self._node(i, key))
            except Missing:
                self.memo[k] = (False, None)
        ok, v = self.memo[k]
        if not ok:
            raise Missing(key)
        return v

    def _cast_in(self, t):
        return t.to(self.md) if self.md is not None else t

    def _scalar(self, v, ty):
        """a literal as a parameter of type ty"""
        if isinstance(v, str):
            return v
        if self.casts:
            t = torch.tensor(v, dtype=torch.float32)
            t = self._cast_in(t)
            return t if ty == "T" else (float(t) if ty == "f" else int(t) if ty in ("i", "b") else t)
        return torch.tensor(v, dtype=torch.float32) if ty == "T" else (float(v) if ty == "f" else int(v) if ty == "i" else v)

    def arg(self, i, key, ty):
        n = self.plan["nodes"][i]
        if n["t"] == "lit":
            return self._scalar(n["v"], ty)
        if n["t"] == "litd":
            if key not in n["v"]:
                raise Missing(key)
            return self._scalar(n["v"][key], ty)
        return self.node(i, key)

    def _node(self, i, key):
        n = self.plan["nodes"][i]
        if n["t"] == "model":
            return self._cast_in(self.lookup(n["file"], key))
        if n["t"] == "dict":
            return self._cast_in(self.lookup(n["id"], key))
        if n["t"] == "litr":
            names = [key] + (self.byname[key]["aliases"] if key in self.byname else [])
            for nm in names:
                if nm in n["v"]:
                    return self.node(n["v"][nm], key)
            raise Missing(key)
        m, a = n["m"], n["args"]
        ks = [k["k"] for k in self.keys]
        if m == "sim_lin":
            x, y, al = self.arg(a[0], key, "T"), self.arg(a[1], key, "T"), self.arg(a[2], key, "T")
            return x + al * y
        if m == "sim_sum":
            vs = [self.arg(j, key, "T") for j in a]
            r = vs[0]
            for v in vs[1:]:
                r = r + v
            return r
        if m == "sim_sd":
            return 2 * self.node(a[0], key) - self.node(a[1], key)
        if m == "sim_neighbor":
            own, tot = self.node(a[0], key), 0.0
            for k in methods.neighbours(ks, key):
                try:
                    tot = tot + self.node(a[0], k).double().sum().item()
                except Missing:
                    pass
            return own + tot
        if m == "sim_typed":
            x = self.arg(a[0], key, "T")
            kw = {"f": 0.5, "i": 2, "s": "x", "b": False}
            for k, j in n["kw"].items():
                kw[k] = self.arg(j, key, k)
            return x * (float(kw["f"]) * 2) + int(kw["i"]) + len(kw["s"]) + (1 if kw["b"] else 0)
        if m == "sim_view":
            x = self.arg(a[0], key, "T")
            mode = self.plan["nodes"][n["kw"]["mode"]]["v"] if "mode" in n["kw"] else "t"
            return methods.view_of(x, mode)
        if m in ("sim_id", "sim_root"):
            return self.arg(a[0], key, "T")
        if m == "sim_cache":
            return self.arg(a[0], key, "T") * 3
        if m == "sim_skip":
            x = self.arg(a[0], key, "T")
            mod = self.arg(n["kw"]["mod"], key, "i") if "mod" in n["kw"] else 3
            if methods.skipped(key, mod):
                raise Missing(key)
            return x
        if m == "fallback":
            try:
                return self.node(a[0], key)
            except Missing:
                return self.node(a[1], key)
        if m == "weighted_sum":
            al = self.arg(a[2], key, "T")
            if float(al) == 0:
                return self.node(a[0], key)
            if float(al) == 1:
                return self.node(a[1], key)
            x, y = self.node(a[0], key), self.node(a[1], key)
            return (1 - al) * x + al * y
        if m == "subtract":
            return self.arg(a[0], key, "T") - self.arg(a[1], key, "T")
        if m == "add_difference":
            al = self.arg(a[2], key, "T")
            y, x = self.node(a[1], key), self.node(a[0], key)
            return x.addcmul(y, al)
        if m == "clamp":
            x, p, q = [self.arg(j, key, "T") for j in a]
            return torch.minimum(torch.maximum(x, torch.minimum(p, q)), torch.maximum(p, q))
        if m in ("pick_component", "omit_component"):
            comp = self.plan["nodes"][a[1]]["v"]
            inside = key in self.byname and self.byname[key]["comp"] == comp
            if inside != (m == "pick_component"):
                raise Missing(key)
            return self.node(a[0], key)
        # built-ins without an own model here: the method's body on private copies
        fn = _mm.resolve(m).__wrapped__
        args = [self.arg(j, key, "T") for j in a]
        return fn(*[x.clone() if isinstance(x, torch.Tensor) else x for x in args])

    def forwarded(self):
        """with omit_extra_keys=False: the models whose tensors complete the result, uncast, in the order they are referred to"""
        if self.plan["opts"].get("omit_extra") is not False:
            return []
        out = []

        def go(i):
            n = self.plan["nodes"][i]
            if n["t"] in ("model", "dict"):
                s = n["file"] if n["t"] == "model" else n["id"]
                if s not in out and n["space"] == "weight":
                    out.append(s)
            elif n["t"] == "litr":
                for a in n["v"].values():
                    go(a)
            elif n["t"] == "merge":
                for a in [*n["args"], *n["kw"].values()]:
                    go(a)
        go(self.plan["root"])
        if self.plan.get("fallback") is not None:
            go(self.plan["fallback"])
        return out

    def out_keys(self):
        omit = self.plan["opts"].get("omit_ema")
        omit = self.plan["opts"].get("omit_extra") is not False if omit is None else omit
        real = {a: k["k"] for k in self.keys for a in k["aliases"]}
        extra = []
        for s in self.forwarded():
            extra += [real.get(k, k) for k in self.store[s]]
        names = [k for k in dict.fromkeys(extra) if k not in self.byname] + [k["k"] for k in self.keys]
        return [k for k in names if not (omit and k in self.byname and self.byname[k]["comp"] == "ema")]

    def result(self):
        out = OrderedDict()
        forwarded = self.forwarded()
        for key in self.out_keys():
            for i in (self.plan["root"], self.plan.get("fallback")):
                if i is None:
                    continue
                try:
                    v = self.node(i, key)
                except Missing:
                    continue
                out[key] = v.to(self.od) if self.od is not None else v
                break
            else:
                for s in forwarded:
                    try:
                        out[key] = self.lookup(s, key)
                        break
                    except Missing:
                        pass
        return out


# ------------------------------------------------------------------ comparison and reading back

def same(a, b):
    if a.dtype != b.dtype or tuple(a.shape) != tuple(b.shape):
        return False
    if a.numel() == 0:
        return True
    if tensor_bytes(a) == tensor_bytes(b):
        return True
    if a.dtype.is_floating_point:
        x, y = a.double(), b.double()
        eps = torch.finfo(a.dtype).eps
        return bool(torch.allclose(x, y, rtol=8 * eps, atol=8 * eps, equal_nan=True))
    return False


def brief(t):
    return f"{str(t.dtype)[6:]}{list(t.shape)}={t.double().flatten()[:6].tolist() if t.dtype.is_floating_point or t.dtype in (torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8, torch.bool) else '?'}"


def diff(got, want, subset=False):
    """human readable differences between two mappings of tensors; [] when equal"""
    out = []
    for k in got:
        if k not in want:
            out.append(f"unexpected key {k!r}")
        elif not isinstance(got[k], torch.Tensor):
            out.append(f"{k!r}: not a tensor")
        elif not same(got[k], want[k]):
            out.append(f"{k!r}: got {brief(got[k])} want {brief(want[k])}")
    if not subset:
        for k in want:
            if k not in got:
                out.append(f"missing key {k!r}")
    return out


class Rejected(Exception):
    pass


def parse_file(data):
    """strict independent safetensors parser: returns (metadata, tensors, header_size) or raises Rejected"""
    if len(data) < 8:
        raise Rejected("short")
    n = struct.unpack("<Q", data[:8])[0]
    if n < 2 or n > len(data) - 8:
        raise Rejected("header size")
    try:
        pairs = json.loads(data[8:8 + n].decode("utf-8"), object_pairs_hook=lambda p: p)
    except Exception as e:
        raise Rejected(f"header json: {e}")
    if not isinstance(pairs, list):
        raise Rejected("header type")
    names = [k for k, _ in pairs]
    if len(set(names)) != len(names):
        raise Rejected("duplicate key")
    meta, spans, tensors = {}, [], OrderedDict()
    body = data[8 + n:]
    for k, v in pairs:
        if k == "__metadata__":
            meta = dict(v)
            continue
        v = dict(v)
        dt, shape, (a, b) = v["dtype"], v["shape"], v["data_offsets"]
        cnt = 1
        for s in shape:
            cnt *= s
        if dt not in SZ or b < a or b - a != cnt * SZ[dt] or b > len(body):
            raise Rejected(f"range of {k!r}")
        spans.append((a, b))
        raw = body[a:b]
        if cnt == 0:
            tensors[k] = torch.empty(shape, dtype=DT[dt])
        else:
            tensors[k] = torch.frombuffer(bytearray(raw), dtype=torch.uint8).view(DT[dt]).reshape(shape)
    spans.sort()
    pos = 0
    for a, b in spans:
        if a != pos:
            raise Rejected("gap or overlap")
        pos = b
    if pos != len(body):
        raise Rejected("trailing data")
    return meta, tensors, n


def read_all(path, data=None):
    """every tensor of a file as three readers see it: {reader: (mapping of what could be read, error or None)}"""
    import safetensors
    out = {}
    if data is None:
        data = fs._open(path, "rb").read()
    try:
        m, t, _ = parse_file(data)
        out["parser"] = (t, None)
    except Rejected as e:
        out["parser"] = ({}, str(e))
    except Exception as e:
        out["parser"] = ({}, repr(e))
    t = {}
    try:
        with safetensors.safe_open(str(path), "pt") as h:
            for k in h.keys():
                t[k] = h.get_tensor(k).clone()
        out["safetensors"] = (t, None)
    except Exception as e:
        out["safetensors"] = (t, repr(e))
    d = None
    t, err = {}, None
    try:
        from sd_mecha.extensions import model_formats
        fmt = next(f for f in model_formats.get_all() if f.matches(pathlib.Path(path)))
        d = fmt.get_read_dict(pathlib.Path(path), 1 << 16)
        for k in list(d.keys()):
            try:
                t[k] = d[k].clone()
            except Exception as e:
                err = repr(e)
    except Exception as e:
        err = repr(e)
    finally:
        if d is not None:
            d.close()
    out["sd_mecha"] = (t, err)
    return out


class RecDict(dict):
    """output mapping that records stores"""
    def __init__(self):
        super().__init__()
        self.stores = []
        self.raise_at = None
        self.raised = None
        self.raise_type = RuntimeError

    def __setitem__(self, k, v):
        point()
        if self.raise_at is not None and len(self.stores) == self.raise_at and self.raised is None:
            self.raised = self.raise_type("output mapping refused the tensor [injected]")
            raise self.raised
        self.stores.append(k)
        super().__setitem__(k, v)
        point()


    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def __ior__(self, o):
        self.update(o)
        return self


class Progress:
    """stands in for tqdm: the documented progress-reporter parameter"""
    last = None

    def __init__(self, *a, total=None, desc=None, **kw):
        self.total = total
        self.n = 0
        self.updates = 0
        self.keys = []
        self.closed = False
        Progress.last = self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def update(self, n=1):
        point()
        self.n += n
        self.updates += 1
        point()

    def set_postfix(self, *a, **k):
        point()

    def __getattr__(self, name):
        # the rest of tqdm's interface
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None

    def __iter__(self):
        return iter(())
