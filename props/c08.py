"""C08 Every merge terminates and releases everything it acquired"""
import sys
from .common import *
from sd_mecha.merging import open_input_dicts
from sd_mecha.extensions import model_configs

ID = "C08"
BUDGET = {"quick": (6400, 62.0), "thorough": (90000, 800.0)}
HANG_IS_VIOLATION = True
RULE = ("each case runs a merge (to a file or a mapping), a conversion or an opening of inputs while anything may fail once or several "
        "times, operations stall, or a KeyboardInterrupt arrives at any step. Afterwards no worker may be alive, no file open, no recipe "
        "node may hold an input; deadlocks and step-cap overruns are violations. Non-trivial: a fault fired or workers ran")
PROBES = ["merge", "open", "convert", "raised", "returned", "fault:keyboard_interrupt", "fault:close_error", "fault:open_error",
          "fault:read_error", "fault:memory", "ki-in-cleanup", "fault:stall"]
KINDS = ["in_eio", "in_open", "in_seek", "in_close", "in_close", "in_zero", "out_eio", "out_torn", "enospc", "out_seek", "out_open",
         "out_close", "out_truncate", "out_read", "mem", "mem", "method", "method", "store", "progress", "in_stall", "out_stall",
         "out_rename"]
CLEANUP = {"close", "__exit__", "shutdown", "join", "_join", "__del__", "cancel"}


def gen(rng, tier, i):
    mode = "merge" if rng.random() < 0.8 else rng.choice(["open", "convert"])
    o = world.GenOpts(depth=rng.choice([1, 1, 2, 2]), keys=(1, 7), buffers=[0, 1, 7, 40, 100, 300, 1000, 4096],
                      threads=rng.choice([None, 0, 1, 2, 3, 4, 4]))
    if rng.random() < 0.2:
        o.output_dtypes, o.in_dtypes, o.cfg_kw, o.missing_p = ["float64"], ["F16"], {"dtypes": ["F16"], "ema": False}, 0.0
    p = world.gen_world(rng, o)
    p["mode"] = mode
    r = rng.random()
    if r < 0.25:
        gen_faults(rng, p, ["ki"], 1)
    elif r < 0.9:
        gen_faults(rng, p, KINDS)
    if mode != "merge":
        p["body_raise"] = rng.random() < 0.3
        if p.get("ki") and not p["ki"].get("in"):
            p["ki"]["at"] = min(p["ki"]["at"], rng.randint(1, 900))
    if rng.random() < 0.12:
        p["corrupt"] = rng.choice(["short", "json", "huge", "dtype", "suffix"])
    p["sched"] = world.gen_sched(rng)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def corrupt(b, how):
    """damages one input file"""
    fsn = sorted(os.listdir(b.in_dir))
    if not fsn:
        return
    p = b.in_dir / fsn[-1]
    data = fs._open(p, "rb").read()
    if how == "short":
        data = data[:5]
    elif how == "json":
        data = data[:9] + b"!!" + data[11:]
    elif how == "huge":
        data = b"\xff\xff\xff\x7f\0\0\0\0" + data[8:]
    elif how == "dtype":
        for d in world.SZ:
            data = data.replace(b'"dtype":"' + d.encode() + b'"', b'"dtype":"' + b"X" * len(d) + b'"', 1)
    elif how == "suffix":
        data = b""
    with fs._open(p, "wb") as f:
        f.write(data)


def hook_ki(run):
    """note whether the interrupt landed while things were already being torn down"""
    orig = run._fire_ki

    def fire():
        f = sys._current_frames().get(S.tasks[0].thread)
        names = []
        while f is not None:
            names += [f.f_code.co_name, f.f_code.co_qualname.split(".")[0]]
            f = f.f_back
        orig()
        if "ki_fired" in run.extra and "ki_late" not in run.extra:
            cut = names.index("execute") if "execute" in names else len(names)
            late = bool(CLEANUP & set(n for n in names[:cut])) or any("Close" in n for n in names[:cut])
            run.extra["ki_late"] = late
    run._fire_ki = fire


def convert_job(b, plan):
    from sd_mecha import merge_method, Parameter, Return, StateDict
    ids = []
    for j in range(3):
        c = dict(plan["config"], name=f"cv{j}")
        model_configs.register_aux(world.make_config(c))
        ids.append(f"simarch-cv{j}")
    for j in range(2):
        src, dst = ids[j], ids[j + 1]

        def conv(a: Parameter(StateDict[torch.Tensor], "weight", src), **kwargs) -> Return(torch.Tensor, "weight", dst):
            return a[kwargs["key"]]
        merge_method(conv, identifier=f"simconv{j}", is_conversion=True)
    f = plan["files"][0]["name"] if plan["files"] else None
    if f is None:
        return None
    node = sd_mecha.model(b.in_dir / f, config=ids[0])
    b.nodes.append(node)
    return lambda: sd_mecha.convert(node, ids[2])


def execute(plan, run):
    b = setup(plan, run)
    want = world.Ref(plan).result() if not plan.get("corrupt") else {}
    if plan.get("corrupt"):
        corrupt(b, plan["corrupt"])
    mode = plan["mode"]
    job = None
    if mode == "convert":
        job = convert_job(b, plan)
        if job is None:
            mode = "open"
    arm = Armed(plan, run, want)
    hook_ki(run)
    run.stat(mode)
    run.phase = mode
    run.begin(calls=arm.calls)
    e = None
    try:
        if mode == "merge":
            o = arm.out(world.RecDict()) if plan["opts"]["output"] == "dict" else out_path(b)
            r, e, out = do_merge(b, output=o, tqdm=arm.progress)
        elif mode == "convert":
            job()
        else:
            with open_input_dicts(b.recipe, [], plan["opts"]["buffer"]):
                for n in b.nodes:
                    d = getattr(n, "state_dict", None)
                    if d is not None:
                        for k in list(d.keys())[:2]:
                            d[k]
                if plan.get("body_raise"):
                    raise ValueError("body")
    except BaseException as ex:
        e = ex
    run.disarm_ki()
    run.stat("raised" if e is not None else "returned")
    alive = [t.tid for t in S.tasks[1:] if t.state != core.DONE]
    ki = "ki_fired" in run.extra
    # an interrupt in the middle of cleaning up (or of handling another failure) may leave the rest of that undone
    late = ki and (run.extra.get("ki_late") or run.extra["ki_exc"].__context__ is not None)
    if late:
        run.stat("ki-in-cleanup")
    if alive and not late:
        run.violate("worker-alive", f"tasks {alive} still running after {mode} ended with {e!r}: {S.stacks()}")
    if ki:
        e2, e = e, None
        del e2
        run.extra.pop("ki_exc", None)
        gc.collect()
    # strictly while the exception is still held: a notebook keeps the last traceback alive
    opened = sorted((os.path.basename(p), str(m)) for p, _, m in fs.W.open_files.values())
    if opened and not late:
        run.violate("file-open", f"{opened} still open after {mode} ended with {e!r}")
    held = [i for i, n in enumerate(b.nodes) if getattr(n, "state_dict", None) is not None]
    if held and not late:
        run.violate("input-held", f"nodes {held} still hold their input after {mode} ended with {e!r}")
    run.phase = "drain"
    for t in list(S.tasks[1:]):
        S.join_task(t)          # workers that an interrupt left behind have to end by themselves: deadlock otherwise
    run.end()
    fired = arm.fired()
    arm.disarm()
    run.nontrivial = bool(fired) or any(v > 0 for v in fs.W.stats.values()) or run.ntasks > 1
    e = None
    gc.collect()
    opened = sorted(os.path.basename(p) for p, _, m in fs.W.open_files.values())
    if opened and late and not any(getattr(n, "state_dict", None) is not None for n in b.nodes):
        run.violate("file-open", f"{opened} still open after an interrupt during cleanup, all workers gone and garbage collected")
