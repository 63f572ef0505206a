"""C13 Memory held while streaming does not grow with the number of keys"""
import tracemalloc
import weakref
from .common import *
from sim import methods as simm

ID = "C13"
BUDGET = {"quick": (2300, 62.0), "thorough": (40000, 800.0)}
RULE = ("each case streams 30-160 keys from files to a file through buffers that are small compared with the data, under seeded schedules, "
        "stalls and short transfers. At every evaluation: bytes computed minus bytes written stay within the buffer budget plus 2 tensors "
        "per worker; finished result tensors still alive stay below a few per worker; each input's read window stays within the budget. "
        "Non-trivial: data of at least four times the budget was streamed by two or more workers")
PROBES = ["small-budget", "workers>=2", "threads0", "litr", "several-files", "alive-counted", "window-checked", "allocation-checked"]
ASSUMPTIONS = ["memory is measured by the harness as bytes of results computed but not yet written, result tensors still alive and sizes of "
               "read requests; Python's own bookkeeping per key is not counted"]
SLACK = 2     # a result on its way to the buffer, and a tensor that does not fit its buffer


def gen(rng, tier, i):
    nk = rng.choice([30, 40, 60, 80]) if rng.random() < 0.8 else rng.choice([120, 160])
    o = world.GenOpts(depth=rng.choice([0, 1, 1]), keys=(nk, nk), methods=["sim_lin", "sim_sum", "sim_id", "sim_sd", "weighted_sum"],
                      missing_p=0.0, fallback_p=0.0, max_files=4, max_dicts=0, in_dtypes=["F32"], output="file", skip=False,
                      buffers=[0, 16, 100, 300, 600, 1000, 1500, 3000, 8000, 40000, 200000], litr_p=0.0, merge_dtypes=["float32", "float64", None],
                      threads=rng.choice([0, 1, 2, 3, 4, 5, 8, None]),
                      cfg_kw={"odd": False, "alias_p": 0.0, "ema": False}, file_kw={"extra_p": 0.0})
    p = world.gen_world(rng, o)
    small = rng.random() < 0.5
    for k in p["config"]["keys"]:
        k["shape"] = [3] if small else rng.choice([[3], [4, 2], [16], [7], [3, 3], [5], [2, 3]])
    shapes = {k["k"]: k["shape"] for k in p["config"]["keys"]}
    if rng.random() < 0.15:
        # one big tensor among small ones
        big = rng.choice(p["config"]["keys"])["k"]
        shapes[big] = [300]
        for k in p["config"]["keys"]:
            if k["k"] == big:
                k["shape"] = [300]
    if rng.random() < 0.12:
        # large tensors, so that windows, buffers and results that stay alive stand out in what sd_mecha has allocated
        p["traced"] = True
        for k in p["config"]["keys"][60:]:
            del shapes[k["k"]]
        p["config"]["keys"] = p["config"]["keys"][:60]
        for k in p["config"]["keys"]:
            k["shape"] = shapes[k["k"]] = [10000]
        for f in p["files"]:
            f["tensors"] = [t for t in f["tensors"] if t["k"] in shapes]
            f["order"] = rng.sample(range(len(f["tensors"])), len(f["tensors"]))
            f["horder"] = rng.sample(range(len(f["tensors"])), len(f["tensors"]))
        p["opts"]["buffer"] = rng.choice([0, 1000, 40000, 100000])
        p["opts"]["threads"] = rng.choice([0, 1, 2, 3])
    for f in p["files"]:
        for t in f["tensors"]:
            t["shape"] = shapes[t["k"]]
    # an operand that is a per-key choice among models
    if rng.random() < 0.35:
        want_n = rng.choice([3, 4, 6])
        models = [j for j, n in enumerate(p["nodes"]) if n["t"] == "model"]
        while len(models) < want_n:
            name = f"extra{len(models)}.safetensors"
            src = p["files"][0]
            p["files"].append(dict(src, name=name, tensors=[dict(t, seed=t["seed"] + 77) for t in src["tensors"]]))
            p["nodes"].append({"t": "model", "file": name, "space": "weight"})
            models.append(len(p["nodes"]) - 1)
        p["nodes"].append({"t": "litr", "v": {k["k"]: rng.choice(models) for k in p["config"]["keys"]}, "space": "weight"})
        p["nodes"].append({"t": "merge", "m": "sim_lin", "args": [p["root"], len(p["nodes"]) - 1, 0], "kw": {}, "space": "weight"})
        p["nodes"].append({"t": "lit", "v": 1.0})
        p["nodes"][-2]["args"][2] = len(p["nodes"]) - 1
        p["root"] = len(p["nodes"]) - 2
        world.prune_order(p)
    p["nodes"].append({"t": "merge", "m": "sim_root", "args": [p["root"]], "kw": {}, "space": "weight"})
    p["root"] = len(p["nodes"]) - 1
    p["opts"]["check_finite"] = False
    if rng.random() < 0.4 and not p.get("traced"):
        gen_faults(rng, p, ["in_stall", "out_stall", "in_short", "out_short", "chunk"], 1)
        if p.get("max_chunk"):
            p["max_chunk"] = rng.choice([7, 16, 100])
    p["sched"] = world.gen_sched(rng, 0.35)
    p["sched"]["instr"] = False
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def live_tensors():
    gc.collect()
    return sum(1 for x in gc.get_objects() if type(x) is torch.Tensor)


def allocated():
    """bytes that sd_mecha's own code has allocated and that are still alive (tensors made by torch are counted elsewhere)"""
    snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, "*/sd_mecha/*")])
    return sum(t.size for t in snap.traces)


def execute(plan, run):
    b = setup(plan, run)
    ref = world.Ref(plan)
    want = ref.result()
    sizes = {k: len(world.tensor_bytes(v)) for k, v in want.items()}
    big = max(sizes.values()) if sizes else 0
    total = sum(sizes.values())
    budget = plan["opts"]["buffer"]
    arm = Armed(plan, run, want)
    st = {"made": 0, "n": 0, "worst": -1 << 60, "live": 0, "base": None}
    refs = []
    every = max(1, len(sizes) // 3)
    gc.collect()
    gc.freeze()

    def root(key, t):
        # runs in the worker, between the evaluation of a key and its storage
        st["made"] += sizes.get(key, 0)
        st["n"] += 1
        out = st["made"] - fs.W.written
        st["worst"] = max(st["worst"], out)
        if not plan["opts"]["output_dtype"] or st.get("same"):
            refs.append(weakref.ref(t))
        workers = max(1, len(S.tasks) - 1)
        if out > budget + SLACK * workers * big + 64 and not st.get("bad"):
            st["bad"] = True
            run.violate("unwritten-data", f"{out} bytes computed but not written after {st['n']} of {len(sizes)} keys: budget {budget}, "
                        f"{workers} tasks, largest tensor {big}")
        if st["n"] % every == 0 or st["n"] == len(sizes):
            gc.collect()
            alive = sum(1 for r in refs if r() is not None)
            st["live"] = max(st["live"], alive)
            n = live_tensors()
            run.stat("alive-counted")
            if plan.get("traced"):
                a = allocated()
                run.stat("allocation-checked")
                st.setdefault("alloc", a)
                lim = budget + (2 * workers + 3 * len(plan["files"]) + 2) * max(big, tbig) + 1500 * len(sizes)
                if a - st["alloc"] > lim and not st.get("bad3"):
                    st["bad3"] = True
                    run.violate("memory-grows", f"{a - st['alloc']} more bytes allocated by sd_mecha after {st['n']} of {len(sizes)} keys than after "
                                f"{every}: budget {budget}, largest tensor {big}, {len(plan['files'])} files, {workers} tasks")
            if st["base"] is None:
                st["base"] = n
            lim = 12 * workers + 8
            if alive > 2 * workers + 2 or n - st["base"] > lim:
                if not st.get("bad2"):
                    st["bad2"] = True
                    run.violate("results-retained", f"{alive} finished results alive, {n - st['base']} more tensors alive than after "
                                f"{every} keys, {st['n']} of {len(sizes)} keys done by {workers} tasks")
    simm.R.hooks["root"] = root
    tbig = 4 * max(torch.Size(t["shape"]).numel() for f in plan["files"] for t in f["tensors"]) if plan.get("traced") else 0
    if plan.get("traced"):
        tracemalloc.start(1)
    run.begin()
    r, e, out = do_merge(b)
    run.end()
    tracemalloc.stop()
    arm.disarm()
    run.nontrivial = total >= 4 * budget and run.ntasks > 2
    run.stat("workers>=2" if run.ntasks > 2 else "threads0" if run.ntasks == 1 else "workers1")
    if budget * 4 < total:
        run.stat("small-budget")
    if len(plan["files"]) > 1:
        run.stat("several-files")
    if any(n["t"] == "litr" for n in plan["nodes"]):
        run.stat("litr")
    if e is not None:
        run.violate("unexpected-exception", exc_text(e))
        return
    spare = 0
    for f in plan["files"]:
        p = str(b.in_dir / f["name"])
        reqs = fs.W.requests.get(p)
        if not reqs:
            continue
        tb = max([len(world.tensor_bytes(world.make_tensor(t))) for t in f["tensors"]] + [8])
        start = 8 + world.struct.unpack("<Q", fs._open(p, "rb").read(8))[0]
        w = max(n if pos >= start else max(0, pos + n - start) for pos, n in reqs)
        run.stat("window-checked")
        spare += max(0, w - tb)
        if w > max(budget, tb):
            run.violate("read-window", f"{f['name']} is read {w} bytes at a time: budget {budget}, largest tensor {tb}")
    if spare > budget:
        run.violate("read-windows", f"the read windows of {len(plan['files'])} files exceed the largest tensor of each by {spare} bytes in total, "
                    f"the whole budget is {budget}")
    check_expected(run, out, want)
