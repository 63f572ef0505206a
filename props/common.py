"""helpers shared by the property modules"""
import gc
import os
import pickle
import traceback
from sim import boot, core, fs, methods, run as runmod, world
from sim.core import S
import torch
import sd_mecha


def setup(plan, run, **kw):
    b = world.Built(plan, run.dir, **kw)
    runmod.watch(run, **{"in": b.in_dir, "out": b.out_dir})
    return b


def ki_range(rng, plan, lo, hi):
    """draw the step of an interrupt that is not aimed at a module from another range"""
    ki = plan.get("ki")
    if ki and not ki.get("in"):
        ki["at"] = int(10 ** rng.uniform(lo, hi))


def out_path(b, name="out.safetensors"):
    return b.out_dir / name


def do_merge(b, recipe=None, output=None, tqdm=None, extra=None, **over):
    """call sd_mecha.merge as a user would; returns (result, exception, output)"""
    o = dict(b.plan["opts"])
    o.update(over)
    out = output
    if out is None:
        out = out_path(b) if o["output"] == "file" else world.RecDict()
    kw = b.kwargs(**over)
    if extra:
        kw.update(extra)
    try:
        recipe = recipe if recipe is not None else b.recipe
        kw["tqdm"] = tqdm or world.Progress
        via = o.get("via")
        if via:
            # the same settings given to Defaults, or to Defaults and overridden in the call
            call = {k: kw.pop(k) for k in list(kw) if k == "fallback_model" or via == "override" and not k.startswith("model")}
            other = dict(threads=1, total_buffer_size=1 << 16, merge_dtype=torch.float16, output_dtype=torch.bfloat16, check_finite=False,
                         omit_ema=True, check_mandatory_keys=True, omit_extra_keys=False, tqdm=world.Progress) if via == "override" else {}
            r = sd_mecha.Defaults(**{**{k: v for k, v in other.items() if k in call}, **kw}).merge(recipe, output=out, **call)
        else:
            r = sd_mecha.merge(recipe, output=out, **kw)
        return r, None, out
    except BaseException as e:
        return None, e, out


def exc_text(e):
    return "".join(traceback.format_exception(e))[-900:]


def read_result(out):
    """the tensors of a dict or file output, file read by the independent parser"""
    if isinstance(out, (str, os.PathLike)):
        data = fs._open(out, "rb").read()
        return world.parse_file(data)[1]
    return dict(out)


def check_expected(run, out, want, kind="wrong-result"):
    try:
        got = read_result(out)
    except world.Rejected as e:
        run.violate("bad-file", f"output file rejected: {e}")
        return None
    except OSError as e:
        run.violate("no-file", f"output file cannot be opened: {e}")
        return None
    d = world.diff(got, want)
    if d:
        run.violate(kind, "; ".join(d[:4]))
    return got


def check_readers(run, path, want, subset=False, kind="wrong-file", alt=None):
    """what each reader makes of a file. subset: whatever can be read is right; otherwise everything has to be there.
    alt: a second acceptable content (what was there before)"""
    ok = True
    for reader, (got, err) in world.read_all(path).items():
        if not subset and err is not None:
            run.violate("rejected-file", f"{reader}: {err}")
            ok = False
            continue
        d = world.diff(got, want, subset=subset)
        if d and alt is not None and not world.diff(got, alt, subset=subset):
            d = []
        if d:
            run.violate(kind, f"{reader} (error {err}): " + "; ".join(d[:4]))
            ok = False
    return ok


# ------------------------------------------------------------------ faults

class HarnessBase(BaseException):
    pass


class HarnessKey(KeyError):
    pass


EXC = {"RuntimeError": RuntimeError, "KeyError": KeyError, "KeyErrorSub": HarnessKey, "OSError": OSError, "ValueError": ValueError,
       "StopIteration": StopIteration, "Base": HarnessBase, "TypeError": TypeError, "MemoryError": MemoryError,
       "AttributeError": AttributeError, "IndexError": IndexError, "GeneratorExit": GeneratorExit, "EOFError": EOFError,
       "Timeout": TimeoutError, "Assertion": AssertionError, "SystemExit": SystemExit}
EXC_COMMON = ["RuntimeError", "KeyError", "KeyErrorSub", "OSError", "ValueError", "TypeError", "MemoryError", "AttributeError",
              "EOFError", "Timeout", "StopIteration", "Base", "SystemExit"]
MEM_NAMES = {"bytearray", "bytes", "frombuffer", "tensor", "to", "contiguous", "clone", "tobytes", "dumps", "empty", "zeros", "join",
             "tensor_to_bytes", "reshape", "addcmul", "memoryview", "loads", "zeros_like", "stack"}
MEM_MODULES = ("sd_mecha.streaming", "sd_mecha.merging", "sd_mecha.extensions.builtin.merge_methods")


def nth(rng, hi=60):
    r = rng.random()
    if r < 0.5:
        return rng.randrange(0, 4)
    if r < 0.85:
        return rng.randrange(0, 15)
    return rng.randrange(0, hi)


def gen_faults(rng, plan, kinds, n=None):
    """adds one or more faults of the given kinds to a plan"""
    plan.setdefault("faults", [])
    n = n if n is not None else (1 if rng.random() < 0.7 else rng.randint(2, 3))
    for _ in range(n):
        k = rng.choice(kinds)
        f = None
        if k == "in_eio":
            f = {"role": "in", "op": "read", "at": nth(rng), "kind": "read_error", "errno": rng.choice(["EIO", "EIO", "ESTALE", "ENOMEM", "ETIMEDOUT", "EACCES", "ENXIO"])}
        elif k == "in_open":
            f = {"role": "in", "op": "open", "at": rng.randrange(0, 4), "kind": "open_error", "errno": rng.choice(["EMFILE", "ENOENT", "EACCES", "EIO", "ETIMEDOUT", "ELOOP"])}
        elif k == "in_seek":
            f = {"role": "in", "op": "seek", "at": nth(rng), "kind": "seek_error", "errno": "EIO"}
        elif k == "in_close":
            f = {"role": "in", "op": "close", "at": rng.randrange(0, 3), "kind": "close_error", "errno": "EIO"}
        elif k == "in_zero":
            f = {"role": "in", "op": "read", "at": nth(rng), "kind": "zero_read"}
        elif k == "in_short":
            f = {"role": "in", "op": "read", "at": nth(rng), "kind": "short_read", "n": rng.choice([1, 2, 5, 30])}
        elif k == "in_stall":
            f = {"role": "in", "op": "read", "at": nth(rng), "kind": "stall", "secs": rng.choice([0.1, 3.0, 60.0])}
        elif k == "out_eio":
            f = {"role": "out", "op": "write", "at": nth(rng), "kind": "write_error", "errno": rng.choice(["EIO", "EIO", "ENOSPC", "EDQUOT", "ETIMEDOUT", "EFBIG", "EPIPE", "EACCES"])}
        elif k == "out_torn":
            f = {"role": "out", "op": "write", "at": nth(rng), "kind": "torn_write", "errno": rng.choice(["EIO", "ENOSPC", "ETIMEDOUT"]),
                 "partial": rng.choice([1, 3, 8, 20, 100])}
        elif k == "out_short":
            f = {"role": "out", "op": "write", "at": nth(rng), "kind": "short_write", "n": rng.choice([1, 2, 5, 30])}
        elif k == "out_seek":
            f = {"role": "out", "op": "seek", "at": nth(rng), "kind": "seek_error", "errno": "EIO"}
        elif k == "out_open":
            f = {"role": "out", "op": "open", "at": rng.randrange(0, 2), "kind": "open_error", "errno": rng.choice(["EACCES", "ENOSPC", "EROFS", "ENOENT", "EMFILE"])}
        elif k == "out_close":
            f = {"role": "out", "op": "close", "at": rng.randrange(0, 2), "kind": "close_error", "errno": rng.choice(["EIO", "ENOSPC", "ETIMEDOUT", "EINTR"])}
        elif k == "out_truncate":
            f = {"role": "out", "op": "truncate", "at": 0, "kind": "truncate_error", "errno": "EIO"}
        elif k == "out_read":
            f = {"role": "out", "op": "read", "at": nth(rng), "kind": "read_error", "errno": "EIO"}
        elif k == "out_rename":
            f = {"role": "out", "op": "rename", "at": 0, "kind": "rename_error", "errno": rng.choice(["EIO", "EACCES", "EXDEV", "ENOENT", "EBUSY"])}
        elif k == "out_stall":
            f = {"role": "out", "op": "write", "at": nth(rng), "kind": "stall", "secs": rng.choice([0.1, 3.0, 60.0])}
        elif k == "enospc":
            plan["capacity_frac"] = rng.choice([0.0, rng.random(), rng.random(), rng.random() * 0.3, 0.95 + 0.1 * rng.random()])
        elif k == "mem":
            plan["mem"] = {"at": nth(rng, 200)}
        elif k == "method":
            plan["raise_at"] = {"n": nth(rng), "type": rng.choice(EXC_COMMON)}
        elif k == "store":
            plan["store_raise"] = rng.randrange(0, 6)
        elif k == "chunk":
            plan["max_chunk"] = rng.choice([1, 2, 3, 7, 16, 100])
        elif k == "progress":
            plan["progress_raise"] = rng.randrange(0, 8)
        elif k == "ki":
            plan["ki"] = {"at": int(10 ** rng.uniform(0.5, 4.4))}
            if rng.random() < 0.4:
                plan["ki"] = {"at": int(10 ** rng.uniform(0, 2.4)), "in": rng.choice(["streaming", "streaming", "merging"])}
        else:
            raise ValueError(k)
        if f is not None:
            if k in ("in_eio", "out_eio", "in_seek", "out_seek") and rng.random() < 0.15:
                f["sticky"] = True
            plan["faults"].append(f)
    return plan


class Armed:
    """the faults of a plan switched on; .injected lists the exception objects that were raised"""
    def __init__(self, plan, run, want=None):
        self.plan, self.run = plan, run
        self.injected = []
        self.progress = make_progress(plan, self)
        W = fs.W
        W.faults = [dict(f) for f in plan.get("faults") or []]
        W.max_chunk = plan.get("max_chunk")
        if plan.get("capacity_frac") is not None:
            size = sum(len(world.tensor_bytes(t)) + 120 for t in (want or {}).values()) + 300
            W.capacity = W.used + int(size * plan["capacity_frac"])
        elif plan.get("capacity") is not None:
            W.capacity = plan["capacity"]
        self.calls = ()
        if plan.get("mem") is not None:
            self.calls = MEM_MODULES
            cnt = [0]
            at = plan["mem"]["at"]

            def hook(fn, arg0):
                if getattr(fn, "__name__", None) in MEM_NAMES:
                    cnt[0] += 1
                    if cnt[0] - 1 == at:
                        e = MemoryError("[injected]")
                        self.injected.append(e)
                        run.stat("fault:memory")
                        raise e
            boot.CALL_HOOK[0] = hook
        if plan.get("raise_at") is not None:
            ra = plan["raise_at"]
            seen = [0]

            def enter(name, key):
                if ra.get("key") is not None and key != ra["key"]:
                    return
                seen[0] += 1
                if seen[0] - 1 == ra["n"] or (ra.get("sticky") and seen[0] - 1 >= ra["n"]):
                    e = EXC[ra["type"]]("raised by a merge method [injected]")
                    self.injected.append(e)
                    run.stat("fault:method_exception")
                    raise e
            methods.R.hooks["enter"] = enter
        if plan.get("ki") is not None:
            run.ki = plan["ki"]

    def out(self, o):
        if self.plan.get("store_raise") is not None and isinstance(o, world.RecDict):
            o.raise_at = self.plan["store_raise"]
            self.store = o
        return o

    def fired(self):
        """every injected exception so far"""
        st = getattr(self, "store", None)
        r = list(self.injected) + [e for _, e in fs.W.fired]
        if st is not None and st.raised is not None:
            r.append(st.raised)
            self.run.stat("fault:store")
        if "ki_exc" in self.run.extra:
            r.append(self.run.extra["ki_exc"])
        return r

    def disarm(self):
        fs.W.faults = []
        fs.W.max_chunk = None
        fs.W.capacity = None
        boot.CALL_HOOK[0] = None
        methods.R.hooks.pop("enter", None)
        self.run.ki = None
        S.injections = []


def make_progress(plan, armed):
    if plan.get("progress_raise") is None:
        return world.Progress
    cnt = [0]

    class P(world.Progress):
        def update(self, n=1):
            super().update(n)
            cnt[0] += 1
            if cnt[0] - 1 == plan["progress_raise"]:
                e = RuntimeError("progress reporter failed [injected]")
                armed.injected.append(e)
                armed.run.stat("fault:progress")
                raise e
    return P


FAULT_KEYS = ("faults", "capacity_frac", "mem", "raise_at", "store_raise", "max_chunk", "progress_raise", "ki")


def caused(exc, fired):
    """does the chain of exc contain one of the injected exceptions?"""
    ch = runmod.chain(exc)
    return any(any(c is f for f in fired) for c in ch)


# ------------------------------------------------------------------ truth from a fresh process

def enc(m):
    return {k: (str(v.dtype), tuple(v.shape), world.tensor_bytes(v)) for k, v in m.items()}


def dec(m):
    out = {}
    for k, (dt, shape, raw) in m.items():
        dt = getattr(torch, dt.split(".")[1])
        out[k] = torch.frombuffer(bytearray(raw), dtype=torch.uint8).view(dt).reshape(shape) if raw else torch.empty(shape, dtype=dt)
    return out


def in_fork(fn):
    """fn() evaluated in a forked copy of this process; its picklable result, or ("exc", text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("exc", type(e).__name__, exc_text(e))
            data = pickle.dumps(res)
            while data:
                n = fs._os["write"](w, data)
                data = data[n:]
        finally:
            os._exit(0)
    fs._os["close"](w)
    buf = bytearray()
    while True:
        c = fs._os["read"](r, 1 << 16)
        if not c:
            break
        buf += c
    fs._os["close"](r)
    os.waitpid(pid, 0)
    return pickle.loads(bytes(buf))


def parallel(jobs):
    """run several callables as concurrent caller threads of the simulated process, to completion"""
    import threading
    box = [None] * len(jobs)

    def main(i, fn, args):
        try:
            box[i] = (fn(*args), None)
        except BaseException as e:
            box[i] = (None, e)
    ts = [threading.Thread(target=main, args=(i, fn, args)) for i, (fn, args) in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return box
