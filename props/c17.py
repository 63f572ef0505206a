"""C17 Saving a recipe is all-or-nothing"""
import random
from .common import *
from sd_mecha import serialization

ID = "C17"
BUDGET = {"quick": (4500, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case saves random recipes over a path that is absent, holds another recipe or is being saved by a second caller, with and "
        "without faults, and keeps the directory as it is after every operation and inside every write (torn prefixes): what a kill would "
        "leave. Every kept state is loaded back and compared with the complete old and new recipes, and the save is repeated over some of "
        "them. Non-trivial: at least one kept state of the path differs from both the old and the new file, or is of a faulty save")
PROBES = ["snapshots", "old", "new", "rejected-or-absent", "faulty", "failed-save", "two-savers", "concurrent-load", "reruns", "big", "returned-normally"]
KINDS = ["out_eio", "out_eio", "out_torn", "out_short", "enospc", "enospc", "out_open", "out_close", "out_rename", "chunk", "mem", "ki", "ki"]
NAME = "recipe.mecha"
MEM = MEM_MODULES + ("sd_mecha.serialization",)


def gen_recipe(rng, big):
    o = world.GenOpts(depth=rng.choice([0, 1, 2, 3]), keys=(2, 6), cfg_kw={"odd": False}, litr_p=0.05)
    p = world.gen_world(rng, o)
    w = {k: p[k] for k in ("config", "files", "dicts", "nodes", "root", "opts")}
    w["dicts"] = []
    # recipes hold paths, not tensors
    for n in w["nodes"]:
        if n["t"] == "dict":
            n.clear()
            n.update({"t": "model", "file": f"memory{rng.randrange(3)}.safetensors", "space": "weight"})
        if n["t"] == "model" and rng.random() < 0.3:
            n["file"] = rng.choice(["a b.safetensors", "sub/dir/x.safetensors", "uni\u00e9.safetensors", "q\"uote.safetensors", "x" * 60])
    w["files"] = []
    if big:
        last = w["root"]
        for j in range(rng.choice([2, 10, 40])):
            args = [last]
            for k in range(rng.choice([1, 1, 10])):
                w["nodes"].append({"t": "model", "file": f"models/{j}/{k}/{rng.randrange(10 ** 9)}.safetensors", "space": "weight"})
                args.append(len(w["nodes"]) - 1)
            if len(args) == 2:
                w["nodes"].append({"t": "lit", "v": round(rng.uniform(-3, 3), 6)})
                args.append(len(w["nodes"]) - 1)
            w["nodes"].append({"t": "merge", "m": "weighted_sum" if len(args) == 3 else "sim_sum", "args": args, "kw": {}, "space": "weight"})
            last = len(w["nodes"]) - 1
        w["root"] = last
    return w


def gen(rng, tier, i):
    big = rng.random() < 0.25
    p = {"r": [gen_recipe(rng, big and rng.random() < 0.7) for _ in range(3)], "pre": rng.choice([None, 0, 0, 0, "garbage"]),
         "two": rng.random() < 0.2, "loader": rng.random() < 0.25, "str": rng.random() < 0.4, "torn_seed": rng.randrange(1 << 30),
         "prefix": rng.random() < 0.15, "files": []}
    if rng.random() < 0.55:
        gen_faults(rng, p, KINDS, 1)
        for f in p["faults"]:
            f["at"] = rng.choice([0, 0, 0, 1, 1, 2, 3, 5])
        if p.get("ki"):
            p["ki"] = {"at": int(10 ** rng.uniform(0.3, 2.8))}
            p["two"] = p["loader"] = False
        if p.get("mem"):
            p["mem"]["at"] = rng.randrange(0, 30)
    p["sched"] = world.gen_sched(rng)
    p["salt"] = 0
    return p


def shrink(plan):
    import copy
    for k, v in (("two", False), ("loader", False), ("pre", None), ("str", False)):
        if plan[k] not in (v,):
            p = copy.deepcopy(plan)
            p[k] = v
            yield p
    for j, r in enumerate(plan["r"]):
        if len(r["nodes"]) > 1:
            n = r["nodes"][r["root"]]
            for a in n.get("args", []):
                if r["nodes"][a]["t"] in ("merge", "model"):
                    p = copy.deepcopy(plan)
                    p["r"][j]["root"] = a
                    yield p


class RBuilt(world.Built):
    def __init__(self, w, root):
        self.plan, self.dir, self.caches, self.dicts = dict(w, structural=False), root, {}, {}
        self.cfg = None
        self.in_dir = __import__("pathlib").Path("/models")
        self.make_nodes()

    def _node(self, n, nodes):
        if n["t"] == "litd":
            return sd_mecha.literal(dict(n["v"]))
        return super()._node(n, nodes)


def reload(text):
    """what loading a text means: the text of the loaded recipe, or the error"""
    try:
        return sd_mecha.serialize(sd_mecha.deserialize(text))
    except Exception as e:
        return None


def load(path):
    try:
        return serialization.serialize(serialization.deserialize_path(path)), None
    except Exception as e:
        return None, e


def snapshot(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with fs._open(os.path.join(d, n), "rb") as f:
            out[n] = f.read()
    return out


def execute(plan, run):
    import pathlib
    rng = random.Random(plan["torn_seed"])
    d = pathlib.Path(run.dir) / "out"
    d.mkdir()
    path = d / NAME
    recipes = [RBuilt(w, run.dir).recipe for w in plan["r"]]
    if plan["prefix"]:
        # the old recipe is the beginning of the new one, or the other way round
        recipes[1] = methods.sim_sum(recipes[0], recipes[1])
    texts = [sd_mecha.serialize(r) for r in recipes]
    meaning = [reload(t) for t in texts]
    if None in meaning[:2] or (plan["two"] and meaning[2] is None):
        run.stat("not-loadable")
        return
    if max(map(len, texts)) > 8192:
        run.stat("big")
    fine = {meaning[1]: "new"}
    if plan["pre"] == 0:
        with fs._open(path, "w") as f:
            f.write(texts[0])
        fine[meaning[0]] = "old"
    elif plan["pre"] == "garbage":
        with fs._open(path, "w") as f:
            f.write("not a recipe")
    if plan["two"]:
        fine[meaning[2]] = "new"
    runmod.watch(run, out=d)
    snaps, seen = [], set()

    def keep(files, tag):
        k = hash(tuple(sorted(files.items())))
        if k not in seen:
            seen.add(k)
            snaps.append((files, tag))
    last = [snapshot(d)]

    def on_op(role, op, p, info):
        prev, now = last[0], snapshot(d)
        name = os.path.basename(p)
        if info.get("data") is not None and info.get("pos") is not None and name in prev:
            data, pos, n = bytes(info["data"][:info["n"]]), info["pos"], info["n"]
            nl = [j + 1 for j, c in enumerate(data) if c == 10]
            cuts = {1, n // 2, n - 1} | set(rng.sample(nl, min(6, len(nl)))) | {j - 1 for j in rng.sample(nl, min(6, len(nl)))}
            cuts |= {rng.randrange(1, n) for _ in range(4) if n > 1}
            for c in cuts:
                if 0 < c < n:
                    base = prev[name]
                    keep({**now, name: base[:pos] + b"\0" * (pos - len(base)) + data[:c] + base[pos + c:]}, "torn")
        last[0] = now
        keep(now, op)
    arm = Armed(plan, run, {})
    if plan.get("capacity_frac") is not None:
        fs.W.capacity = fs.W.used + int(len(texts[1].encode()) * plan["capacity_frac"])
    faulty = bool(plan.get("faults")) or any(plan.get(k) is not None for k in ("mem", "ki", "capacity_frac", "max_chunk"))
    if faulty:
        run.stat("faulty")
        run.fatal_ok = lambda kind: True
    target = str(path) if plan["str"] else path
    fs.W.on_op = on_op

    def save(r):
        return sd_mecha.serialize(r, output=target)
    jobs = [(save, (recipes[1],))]
    if plan["two"]:
        jobs.append((save, (recipes[2],)))
        run.stat("two-savers")
    loads = []

    def loader():
        for _ in range(3):
            loads.append(load(path))
            for _ in range(5):
                core.point()
    if plan["loader"]:
        jobs.append((loader, ()))
        run.stat("concurrent-load")
    run.begin(calls=MEM if plan.get("mem") else ())
    if len(jobs) > 1:
        box = parallel(jobs)
    else:
        try:
            box = [(save(recipes[1]), None)]
        except BaseException as e:
            box = [(None, e)]
    run.disarm_ki()
    run.end()
    fs.W.on_op = None
    fired = arm.fired()
    arm.disarm()
    run.stat("snapshots", len(snaps))
    for j, (text, exc) in enumerate(box[:2 if plan["two"] else 1]):
        if exc is not None:
            run.stat("failed-save")
            if not fired:
                run.violate("unexpected-exception", exc_text(exc))
                return
        elif text != texts[1 + j]:
            run.violate("wrong-text", "the returned text is not the serialised recipe")
    ok = [j for j in range(2 if plan["two"] else 1) if box[j][1] is None]
    now = None
    if path.exists():
        with fs._open(path, "r") as f:
            now = f.read()
    failed = [j for j in range(2 if plan["two"] else 1) if box[j][1] is not None]
    if ok and not failed:
        run.stat("returned-normally")
        if now not in [texts[1 + j] for j in ok]:
            run.violate("saved-wrong", f"saving returned but the file holds {now[:300] if now is not None else None!r} (of {len(texts[1])} characters)")
            return
    for got, err in loads:
        if got is not None and got not in fine:
            run.violate("loaded-different", f"a load during the save returned a recipe that is neither the old nor the new one: {got[:300]!r}")
            return
    pick = snaps if len(snaps) <= 40 else snaps[:4] + rng.sample(snaps[4:-6], 30) + snaps[-6:]
    for files, tag in pick + [(snapshot(d), "end")]:
        data = files.get(NAME)
        if data is None:
            run.stat("rejected-or-absent")
            continue
        m = judge_bytes(data, run)
        if m is None:
            run.stat("rejected-or-absent")
            run.nontrivial = True
        elif m in fine:
            run.stat(fine[m])
        else:
            run.violate("different-recipe", f"what a kill or failure during/after {tag!r} leaves at the path loads as a recipe that is neither "
                        f"the old nor the new one: {m[-200:]!r}; the new one ends with {meaning[1][-120:]!r}")
            return
    run.nontrivial = len(snaps) > 1
    # over what is left, saving works
    for files, tag in rng.sample(snaps, min(2, len(snaps))):
        for n in os.listdir(d):
            os.unlink(d / n)
        for n, data in files.items():
            with fs._open(d / n, "wb") as f:
                f.write(data)
        fs.W.roots = []
        try:
            sd_mecha.serialize(recipes[1], output=target)
        except Exception as e:
            run.violate("save-again-fails", exc_text(e))
            return
        run.stat("reruns")
        got, err = load(path)
        if got != meaning[1]:
            run.violate("saved-again-wrong", f"{got and got[:200]!r} {err!r}")
            return


MEMO = {}


def judge_bytes(data, run):
    if data not in MEMO:
        p = os.path.join(run.dir, "judge.mecha")
        with fs._open(p, "wb") as f:
            f.write(data)
        import pathlib
        MEMO[data] = load(pathlib.Path(p))[0]
    return MEMO[data]
