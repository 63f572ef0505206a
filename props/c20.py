"""C20 A merge that cannot start leaves its output as it was"""
import json as _json
import pathlib
import struct as _struct
from .common import *

ID = "C20"
BUDGET = {"quick": (5000, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case is a merge that cannot start: its recipe is a delta or mixes model configs, an input is missing, damaged, of no known format, "
        "lacks mandatory keys, cannot be opened or read, memory runs out or the user interrupts while inputs are being opened, the output is "
        "one of the inputs, or options are invalid; one or two callers do it. The output path (absent, an older model, a symlink to one) or "
        "the caller's mapping is compared before and after. Non-trivial: the merge was refused")
STATIC = ["delta", "configs", "delete", "empty", "cut", "garbage", "entry", "suffix", "directory", "mandatory", "threads", "onto"]
INJECTED = ["read", "read", "open", "zero", "mem", "mem", "ki", "ki"]
PROBES = ["raised", "pre-old", "pre-none", "pre-symlink", "dict", "started", "two-callers"] + ["how-" + k for k in dict.fromkeys(STATIC + INJECTED)]
METHODS = ["sim_lin", "sim_sd", "sim_sum", "sim_id", "fallback", "sim_typed", "clamp"]
FAULT = {"read": ("read", "read_error"), "open": ("open", "open_error"), "zero": ("read", "zero_read")}


def gen(rng, tier, i):
    how = rng.choice(STATIC + INJECTED * 2 + ["none"])
    o = world.GenOpts(depth=rng.choice([1, 1, 2]), keys=(1, 6), methods=METHODS, litr_p=0.0, max_files=3, file_p=1.0,
                      threads=rng.choice([None, 0, 1, 2, 3]), missing_p=0.1)
    while True:
        p = world.gen_world(rng, o)
        if p["files"] or how in ("threads", "none"):
            break
    p["how"] = how
    p["pick"] = rng.random()
    p["n"] = rng.choice([0, 0, 1, 1, 2, 3, 5])
    p["pre"] = rng.choice(["old", "old", "old", "none", "symlink"])
    p["what"] = rng.choice(["data_offsets", "dtype", "shape"])
    p["errno"] = rng.choice(["EIO", "EACCES", "ETIMEDOUT", "ENOMEM"])
    p["onto"] = rng.choice(["same", "string", "symlink", "hardlink"])
    p["bad_threads"] = rng.choice([-1, -7, 1.5, 2.0])
    p["callers"] = 2 if how in STATIC and how != "onto" and rng.random() < 0.3 else 1
    if how == "mandatory":
        p["opts"]["check_mandatory"] = True
    if how == "none":
        p["opts"]["check_mandatory"] = rng.random() < 0.6
    if how == "onto":
        p["opts"]["output"] = "file"
    p["sched"] = world.gen_sched(rng, 0.5)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def shrink(plan):
    for k, v in (("callers", 1), ("pre", "old"), ("n", 0)):
        if plan.get(k) != v:
            yield dict(plan, **{k: v})


def lacking(plan):
    """does a state dict of the recipe lack a mandatory key?"""
    for s in plan["files"] + plan["dicts"]:
        have = {t["k"] for t in s["tensors"]}
        for k in plan["config"]["keys"]:
            if not k["optional"] and not have & {k["k"], *k["aliases"]}:
                return True
    return False


def header_end(path):
    with fs._open(path, "rb") as f:
        return 8 + _struct.unpack("<Q", f.read(8))[0]


def damage(b, plan):
    """break one of the inputs; False if this plan has nothing to break that way"""
    how = plan["how"]
    f = plan["files"][int(plan["pick"] * len(plan["files"]))]
    path = b.in_dir / f["name"]
    data = fs._open(path, "rb").read()
    end = header_end(path)
    fs._os["unlink"](path)
    if how == "delete":
        return True
    if how == "directory":
        os.mkdir(path)
        return True
    if how == "empty":
        data = b""
    elif how == "cut":
        data = data[:int(plan["pick"] * 7919) % end]
    elif how == "garbage":
        body = bytearray(data)
        body[8 + int(plan["pick"] * 7919) % max(1, end - 8)] = 0xff      # not UTF-8
        data = bytes(body)
    elif how == "entry":
        hdr = _json.loads(data[8:end])
        keys = [k for k in hdr if k != "__metadata__"]
        if not keys:
            how = None
        else:
            del hdr[keys[int(plan["pick"] * 7919) % len(keys)]][plan["what"] if plan["what"] != "data_offsets" else "dtype"]
            j = _json.dumps(hdr).encode()
            data = _struct.pack("<Q", len(j)) + j + data[end:]
    with fs._open(path, "wb") as fh:
        fh.write(data)
    return how is not None


def content(path):
    """everything a user can see of the output directory"""
    out = {}
    for name in sorted(os.listdir(path)):
        p = os.path.join(path, name)
        out[name] = os.readlink(p) if os.path.islink(p) else (fs._open(p, "rb").read() if os.path.isfile(p) else "dir", os.stat(p).st_mtime_ns)
    return out


class Loading:
    """true until the headers of all inputs have been read"""
    def __init__(self, b, plan):
        self.left = {str(b.in_dir / f["name"]): header_end(b.in_dir / f["name"]) for f in plan["files"]}

    def __call__(self, *a):
        return bool(self.left)

    def saw(self, path, n):
        if path not in self.left:
            return
        start = fs.W.requests[path][-1][0] if fs.W.requests.get(path) else 0
        if start + (n or 0) >= self.left[path]:
            del self.left[path]


def recipe_of(b, plan):
    from sd_mecha.extensions import merge_methods as mm
    b.make_nodes()
    if plan["how"] == "delta":
        leaf = next(n for n in reversed(b.nodes) if n.merge_space.identifier == "weight")
        return mm.resolve("subtract")(b.recipe, leaf)
    if plan["how"] == "configs":
        other = world.make_config(dict(plan["config"], name="other"))
        f = plan["files"][int(plan["pick"] * len(plan["files"]))]
        x, y = b.recipe, sd_mecha.model(b.in_dir / f["name"], config=other)
        return mm.resolve("sim_lin")(*((x, y) if plan["n"] % 2 else (y, x)), 1.0)
    if plan["how"] == "suffix":
        f = plan["files"][int(plan["pick"] * len(plan["files"]))]
        path = b.in_dir / (f["name"] + ".bin")
        if not path.exists():
            with fs._open(path, "wb") as fh:
                fh.write(fs._open(b.in_dir / f["name"], "rb").read())
        return mm.resolve("sim_lin")(b.recipe, sd_mecha.model(path, config=b.cfg), 1.0)
    return b.recipe


def execute(plan, run):
    how = plan["how"]
    b = setup(plan, run)
    static = how in STATIC
    recipes, fallbacks = [], []
    for _ in range(plan["callers"]):
        recipes.append(recipe_of(b, plan))
        fallbacks.append({} if plan["fallback"] is None else {"fallback_model": b.nodes[plan["fallback"]]})
    want = world.Ref(plan).result() if how not in ("delta", "configs", "suffix") else {}
    must = static
    extra = {}
    if how in ("delete", "empty", "cut", "garbage", "entry", "directory"):
        must = damage(b, plan)
    elif how == "mandatory":
        must = lacking(plan)
    elif how == "none":
        must = bool(plan["opts"].get("check_mandatory")) and lacking(plan)
    elif how == "threads":
        extra["threads"] = plan["bad_threads"]
    paths = []
    dicts = plan["opts"]["output"] == "dict"
    for c in range(plan["callers"]):
        path = out_path(b, f"out{c}.safetensors")
        if plan["pre"] in ("old", "symlink"):
            real = path if plan["pre"] == "old" else b.out_dir / f"old{c}.safetensors"
            import safetensors.torch
            safetensors.torch.save_file({"old.key": torch.arange(300, dtype=torch.float32)}, str(real))
            if plan["pre"] == "symlink":
                os.symlink(real, path)
        if how == "onto":
            from .c10 import onto_path
            f = plan["files"][int(plan["pick"] * len(plan["files"]))]
            path = onto_path(plan["onto"], str(b.in_dir / f["name"]), b, extra)
        paths.append(path)
    before = content(b.out_dir), content(b.in_dir)
    arm = Armed(plan, run, want)
    gate = Loading(b, plan) if how in INJECTED else None
    fs.W.gate = gate
    if how in FAULT:
        op, kind = FAULT[how]
        fs.W.faults.append({"role": "in", "op": op, "at": plan["n"], "kind": kind, "errno": plan["errno"], "gated": True})
    seen = [0]

    def strike(make, stat):
        seen[0] += 1
        if seen[0] - 1 == plan["n"]:
            e = make("[injected]")
            arm.injected.append(e)
            run.stat(stat)
            raise e

    def on_op(role, op, path, info):
        if gate is None or role != "in":
            return
        if how == "ki" and gate():
            strike(KeyboardInterrupt, "fault:keyboard_interrupt")
        if op == "read":
            gate.saw(path, info.get("n"))
    fs.W.on_op = on_op
    if how == "mem":
        def hook(fn, arg0):
            if gate() and getattr(fn, "__name__", None) in MEM_NAMES | {"sorted", "unpack", "decode", "list", "OrderedDict", "Size"}:
                strike(MemoryError, "fault:memory")
        boot.CALL_HOOK[0] = hook
        arm.calls = MEM_MODULES
    boxes = [dict_of() if dicts and how != "onto" else None for _ in recipes]
    run.fatal_ok = lambda kind: True
    run.begin(calls=arm.calls)

    def one(c):
        r, e, _ = do_merge(b, recipe=recipes[c], output=boxes[c] if boxes[c] is not None else paths[c], extra={**extra, **fallbacks[c]})
        return e
    if len(recipes) == 1:
        errs = [one(0)]
    else:
        errs = [r if x is None else x for r, x in parallel([(one, (c,)) for c in range(len(recipes))])]
        run.stat("two-callers")
    for t in list(S.tasks[1:]):
        S.join_task(t)
    run.end()
    fired = arm.fired()
    arm.disarm()
    fs.W.on_op = fs.W.gate = None
    run.stat("how-" + how)
    if not must and not fired:
        # nothing stood in its way: then it has to have happened
        if how in ("none", "mandatory"):
            run.stat("started")
            for c, e in enumerate(errs):
                if e is not None:
                    run.violate("unexpected-exception", exc_text(e))
                elif boxes[c] is None:
                    check_readers(run, paths[c], want)
                else:
                    got = {k: v for k, v in boxes[c].items() if k != "old.key"}
                    d = world.diff(got, want)
                    if d:
                        run.violate("wrong-result", "; ".join(d[:4]))
        return
    run.nontrivial = True
    for c, e in enumerate(errs):
        if e is None:
            run.violate("not-refused", f"{how}: the merge returned")
        else:
            run.stat("raised")
    run.stat("dict" if boxes[0] is not None else "pre-" + plan["pre"])
    if any(e is None for e in errs):
        return
    for c, box in enumerate(boxes):
        if box is not None and (list(box) != ["old.key"] or box["old.key"] is not OLD[0] or not torch.equal(OLD[0], torch.ones(3))):
            run.violate("output-changed", f"{how}: the mapping given as the output now has {list(box)}; {exc_text(errs[c])}")
    after = content(b.out_dir), content(b.in_dir)
    for name, x, y in (("output", before[0], after[0]), ("input", before[1], after[1])):
        if x != y:
            diff = [k for k in sorted({*x, *y}) if x.get(k) != y.get(k)]
            run.violate(name + "-changed", f"{how}: a merge that could not start changed {diff}: " +
                        "; ".join(f"{k}: {brief(x.get(k))} -> {brief(y.get(k))}" for k in diff[:3]) + "\n" + exc_text(errs[0])[-500:])


def brief(v):
    if isinstance(v, tuple):
        return f"{len(v[0])} bytes" if isinstance(v[0], bytes) else v[0]
    return repr(v)


OLD = [None]


def dict_of():
    if OLD[0] is None:
        OLD[0] = torch.ones(3)
    d = world.RecDict()
    dict.__setitem__(d, "old.key", OLD[0])
    return d

