"""C06 A killed merge never leaves a plausible but wrong file"""
import random
import shutil
from .common import *

ID = "C06"
BUDGET = {"quick": (3900, 62.0), "thorough": (50000, 800.0)}
RULE = ("each case merges a random recipe to a file and keeps the output directory as it is after every output operation and inside every "
        "write (torn prefixes): what a kill -9 would leave. Every kept state is read by three readers, and the merge is run again over some "
        "of them. Non-trivial: at least two distinct states that are neither empty nor final")
PROBES = ["snapshots", "rejected", "complete", "reruns", "header-grew", "preexisting", "torn", "failing-merge"]
OUT = "out.safetensors"


def gen(rng, tier, i):
    grow = rng.random() < 0.3
    o = world.GenOpts(depth=rng.choice([1, 1, 2]), keys=(1, 8), output="file", buffers=[0, 1, 7, 40, 100, 300, 1000, 4096])
    if grow:
        o.output_dtypes = ["float64"]
        o.in_dtypes = ["F16"]
        o.cfg_kw = {"dtypes": ["F16"], "ema": False}
        o.missing_p = 0.0
    p = world.gen_world(rng, o)
    p["pre"] = rng.choice([None, None, "valid", "same", "bigger"])
    if rng.random() < 0.2:
        gen_faults(rng, p, ["out_eio", "out_torn", "out_short", "method", "in_eio", "mem"], 1)
    if rng.random() < 0.2:
        gen_faults(rng, p, ["chunk"], 1)
    p["torn_seed"] = rng.randrange(1 << 30)
    p["sched"] = world.gen_sched(rng)
    return p


def snapshot(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with fs._open(os.path.join(d, n), "rb") as f:
            out[n] = f.read()
    return out


def execute(plan, run):
    b = setup(plan, run)
    want = world.Ref(plan).result()
    rng = random.Random(plan["torn_seed"])
    path = out_path(b)
    old = None
    if plan.get("pre"):
        run.stat("preexisting")
        if plan["pre"] == "same":
            old = {k: v for k, v in want.items()}
        else:
            old = {k: torch.full(v.shape, 1).to(v.dtype) for k, v in want.items()}
            old["old.key"] = torch.arange(50 if plan["pre"] == "valid" else 5000, dtype=torch.float32)
        import safetensors.torch
        safetensors.torch.save_file({k: v.clone(memory_format=torch.contiguous_format) for k, v in old.items()}, str(path))
    arm = Armed(plan, run, want)
    snaps, seen = [], set()

    def keep(files, tag):
        k = hash(tuple(sorted(files.items())))
        if k not in seen:
            seen.add(k)
            snaps.append((files, tag))

    last = [snapshot(b.out_dir)]

    def on_op(role, op, p, info):
        if role != "out":
            return
        prev, now = last[0], snapshot(b.out_dir)
        name = os.path.basename(p)
        if info.get("data") is not None and info.get("pos") is not None and name in prev:
            data, pos, n = bytes(info["data"][:info["n"]]), info["pos"], info["n"]
            # a word-sized write is one memory copy: no kill lands inside it
            cuts = set() if n <= 8 else set(range(1, 9)) | ({n // 2, n - 1} | {rng.randrange(1, n) for _ in range(3)} if n > 8 else set())
            for c in cuts:
                if 0 < c < n:
                    base = prev[name]
                    t = base[:pos] + b"\0" * (pos - len(base)) + data[:c] + base[pos + c:]
                    keep({**now, name: t}, "torn")
        last[0] = now
        keep(now, op)
    fs.W.on_op = on_op
    run.fatal_ok = lambda kind: True
    run.phase = "merge"
    run.begin(calls=arm.calls)
    r, e, out = do_merge(b, tqdm=arm.progress)
    run.end()
    fs.W.on_op = None
    fired = arm.fired()
    arm.disarm()
    if ("out", "truncate") in fs.W.ops:
        run.stat("header-grew")
    if plan.get("faults") or fired:
        run.stat("failing-merge")
    if e is not None and not fired:
        run.violate("unexpected-exception", exc_text(e))
        return
    run.stat("snapshots", len(snaps))
    run.nontrivial = len(snaps) >= 4
    # the last states matter most (header being written), the others are sampled
    pick = snaps if len(snaps) <= 70 else snaps[:6] + rng.sample(snaps[6:-30], 34) + snaps[-30:]
    sdir = os.path.join(run.dir, "snap")
    os.mkdir(sdir)
    rejected = []
    for files, tag in pick:
        if OUT not in files:
            run.stat("absent")
            continue
        if tag == "torn":
            run.stat("torn")
        sp = os.path.join(sdir, OUT)
        with fs._open(sp, "wb") as f:
            f.write(files[OUT])
        bad = None
        accepted = False
        for reader, (got, err) in world.read_all(sp, files[OUT]).items():
            if err is not None:
                continue
            accepted = True
            # a failed merge may leave a loadable subset behind (C07); one killed while succeeding may not
            d = world.diff(got, want, subset=e is not None)
            if not d:
                run.stat("complete")
                continue
            if old is not None and not world.diff(got, old):
                run.stat("old")
                continue
            bad = f"{reader} accepts what a kill during/after {tag!r} leaves: " + "; ".join(d[:3])
        if bad:
            run.violate("plausible-wrong-file", bad)
            return
        if not accepted:
            run.stat("rejected")
            rejected.append(files)
    cand = [f for f, _ in snaps if f] if not rejected else rejected
    for files in rng.sample(cand, min(2, len(cand))):
        for n in os.listdir(b.out_dir):
            os.unlink(os.path.join(b.out_dir, n))
        for n, data in files.items():
            with fs._open(os.path.join(b.out_dir, n), "wb") as f:
                f.write(data)
        run.phase = "rerun"
        b.make_nodes()
        run.begin(sched={"kind": "rr", "q": 3, "fine": False})
        r2, e2, out2 = do_merge(b)
        run.end()
        run.stat("reruns")
        if e2 is not None:
            run.violate("rerun-fails", exc_text(e2))
            return
        if not check_readers(run, out2, want, kind="rerun-wrong"):
            return
