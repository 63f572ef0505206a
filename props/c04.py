"""C04 Reading a model file yields the stored tensor exactly, or an error"""
import pathlib
from .common import *
from sd_mecha.extensions import model_formats
from sd_mecha.streaming import StateDictKeyError

ID = "C04"
BUDGET = {"quick": (8100, 62.0), "thorough": (120000, 800.0)}
RULE = ("each case opens one or two model files through the model format and reads keys from 1-5 tasks in any order and repeatedly, "
        "keeping the tensors, with read errors, short reads, early end of file, truncation, seek errors, memory errors and a concurrent "
        "close. Non-trivial: at least two reads and, when tasks > 1, a context switch")
PROBES = ["closed-midway", "truncated", "fault:read_error", "fault:zero_read", "fault:short_read", "fault:memory", "reads", "errors"]
DTYPES = ["F64", "F32", "F16", "BF16", "I64", "I32", "I16", "I8", "U8", "BOOL", "F8_E4M3", "F8_E5M2", "U16", "U32", "U64"]


def gen(rng, tier, i):
    cfg = world.gen_config(rng, rng.randint(2, 9), dtypes=DTYPES, alias_p=0)
    f = world.gen_file(rng, cfg, "m.safetensors", missing_p=0.0, extra_p=0.3)
    for t in f["tensors"]:
        if rng.random() < 0.3:
            t["shape"] = rng.choice([[40], [17, 3], [64], [9]])
    names = [t["k"] for t in f["tensors"]] + ["nope"]
    nt = rng.choice([1, 2, 2, 3, 3, 4, 5])
    tasks = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.82:
                ops.append(["get", rng.choice(names)])
            elif r < 0.9:
                ops.append(["items"])
            elif r < 0.95:
                ops.append(["meta"])
            else:
                ops.append(["has", rng.choice(names)])
        tasks.append(ops)
    plan = {"file": f, "tasks": tasks, "buffer": rng.choice([0, 0, 1, 7, 16, 40, 100, 400, 5000]), "config": cfg}
    r = rng.random()
    if r < 0.12:
        rng.choice(tasks).insert(rng.randrange(0, 4), ["close"])
    elif r < 0.24:
        rng.choice(tasks).insert(rng.randrange(0, 4), ["truncate", rng.random()])
    elif r < 0.3:
        plan["trunc"] = rng.random()
    if rng.random() < 0.65:
        gen_faults(rng, plan, ["in_eio", "in_zero", "in_short", "in_seek", "in_stall", "chunk", "mem", "in_short", "in_eio"])
    if rng.random() < 0.2:
        gen_faults(rng, plan, ["chunk"], 1)
    plan["sched"] = world.gen_sched(rng)
    return plan


def shrink(plan):
    import copy
    for i in range(len(plan["tasks"])):
        if len(plan["tasks"]) > 1:
            p = copy.deepcopy(plan)
            del p["tasks"][i]
            yield p
        for j in range(len(plan["tasks"][i])):
            p = copy.deepcopy(plan)
            del p["tasks"][i][j]
            yield p


def execute(plan, run):
    ind = os.path.join(run.dir, "in")
    os.mkdir(ind)
    path = os.path.join(ind, plan["file"]["name"])
    world.write_safetensors(path, plan["file"])
    runmod.watch(run, **{"in": ind})
    stored = {t["k"]: world.make_tensor(t) for t in plan["file"]["tensors"]}
    size = os.path.getsize(path)
    if plan.get("trunc") is not None:
        os.truncate(path, int(size * plan["trunc"]))
        run.stat("truncated")
    disturbed = [bool(plan.get("trunc") is not None)]
    arm = Armed(plan, run)
    benign = {"short_read", "stall"}
    held, n_reads, n_err = [], [0], [0]

    def fault_free():
        bad = sum(v for k, v in fs.W.stats.items() if k not in benign and k != "chunked" and v > 0)
        return not disturbed[0] and not bad and not arm.injected

    def note(key, t, where):
        n_reads[0] += 1
        if not isinstance(t, torch.Tensor):
            run.violate("not-a-tensor", f"{where} {key!r}: {t!r}")
        elif key not in stored:
            run.violate("unknown-key", f"{where} {key!r} returned a tensor")
        else:
            if not exactly(t, stored[key]):
                run.violate("wrong-bytes", f"{where} {key!r}: got {world.brief(t)} want {world.brief(stored[key])}")
            held.append((key, t))

    def one(d, op, seen_close):
        if op[0] == "get":
            note(op[1], d[op[1]], "get")
        elif op[0] == "items":
            for k, t in d.items():
                note(k, t, "items")
        elif op[0] == "meta":
            m = dict(d.metadata())
            for k, v in m.items():
                if k not in stored or tuple(v.shape) != tuple(stored[k].shape) or v.dtype != stored[k].dtype:
                    run.violate("wrong-metadata", f"{k!r}: {v}")
            if set(m) != set(stored) or len(d) != len(stored) or set(d.keys()) != set(stored):
                run.violate("wrong-keys", f"{sorted(m)} instead of {sorted(stored)}")
        elif op[0] == "has":
            if (op[1] in d.keys()) != (op[1] in stored):
                run.violate("wrong-keys", f"membership of {op[1]!r}")
        elif op[0] == "close":
            disturbed[0] = True
            run.stat("closed-midway")
            d.close()
        elif op[0] == "truncate":
            disturbed[0] = True
            run.stat("truncated")
            os.truncate(path, int(size * op[1]))

    def task(d, ops):
        for op in ops:
            try:
                one(d, op, None)
            except StateDictKeyError as e:
                if op[0] == "get" and op[1] not in stored:
                    continue
                run.violate("missing-key", f"{op} raised {e!r}: the key is stored")
            except Exception as e:
                n_err[0] += 1
                if fault_free():
                    run.violate("unexpected-exception", f"{op}: {exc_text(e)}")

    run.begin(calls=arm.calls)
    try:
        fmt = next(f for f in model_formats.get_all() if f.matches(pathlib.Path(path)))
        d = fmt.get_read_dict(pathlib.Path(path), plan["buffer"])
    except Exception as e:
        d = None
        n_err[0] += 1
        if fault_free():
            run.violate("unexpected-exception", f"open: {exc_text(e)}")
    if d is not None:
        parallel([(task, (d, ops)) for ops in plan["tasks"]])
    run.end()
    arm.disarm()
    for key, t in held:
        if not exactly(t, stored[key]):
            run.violate("value-changed-later", f"{key!r}: got {world.brief(t)} want {world.brief(stored[key])}")
    run.stat("reads", n_reads[0])
    run.stat("errors", n_err[0])
    if fault_free() and d is not None:
        want = sum(1 for ops in plan["tasks"] for op in ops if op[0] == "get" and op[1] in stored) + \
            sum(len(stored) for ops in plan["tasks"] for op in ops if op[0] == "items")
        if n_reads[0] != want and not run.violations:
            run.violate("lost-read", f"{n_reads[0]} of {want} reads")
    run.nontrivial = n_reads[0] + n_err[0] >= 2
    if d is not None:
        d.close()


def exactly(a, b):
    return a.dtype == b.dtype and tuple(a.shape) == tuple(b.shape) and world.tensor_bytes(a) == world.tensor_bytes(b)
