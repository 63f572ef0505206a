"""C19 A merge leaves process-wide state as it found it"""
import builtins
import copy
import decimal
import faulthandler
import json as _json
import locale
import logging
import pathlib
import random as _random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings
import numpy as _np
import yaml
from .common import *
from . import c10, c08
from sd_mecha.merging import open_input_dicts
from sd_mecha.extensions import merge_methods as mm, merge_spaces, model_configs, model_formats

ID = "C19"
BUDGET = {"quick": (2200, 62.0), "thorough": (80000, 800.0)}
RULE = ("each case puts the process into a random state (warning filters, torch, numpy and python settings, logging, directory, generators), "
        "then runs 1-4 callers at once (merges over simulated, built-in and wrapped methods, openings, conversions, serialisation) under seeded "
        "schedules with faults in one of them, and compares everything the process shares before and after; merges that returned also have the "
        "right content whatever that state was. Non-trivial: two workers or callers ran, or a fault fired")
PROBES = ["world", "builtin", "open", "convert", "serialize", "raised", "returned", "concurrent", "warn-error", "no-handlers", "dtype", "grad-off",
          "fault:memory", "fault:read_error", "fault:write_error", "fault:keyboard_interrupt", "content-checked", "rng-checked"]
KINDS = ["mem", "mem", "in_eio", "in_open", "in_seek", "in_zero", "in_short", "in_close", "out_eio", "out_torn", "out_open", "out_close", "enospc",
         "method", "method", "store", "progress", "in_stall", "ki", "ki"]
UNSEEDED = {"rotate", "w:rotate", "copy_distribution", "truncate_rank"}      # these draw from torch's generator and take no seed
AMBIENT = ["warn-error", "warn-filters", "no-handlers", "no-handlers", "level", "dtype", "dtype-half", "grad-off", "cwd", "environ", "recursion",
           "deterministic", "numpy-raise", "decimal", "matmul", "profile-hook", "logger-off"]


def gen(rng, tier, i):
    o = world.GenOpts(depth=rng.choice([0, 1, 2]), keys=(2, 6))
    p = world.gen_world(rng, o)
    jobs = []
    pool = c10.builtin() + ["w:" + w for w in c10.WRAPPERS]
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.45:
            jobs.append({"job": "world", "threads": rng.choice([0, 1, 2, 3, 4]), "output": rng.choice(["dict", "file"])})
        elif r < 0.8:
            q = c10.gen(rng, tier, rng.randrange(1000))
            for k in FAULT_KEYS:
                q.pop(k, None)
            if q["method"] in c10.SIM:
                q["method"] = rng.choice(pool)
            q["opts"]["threads"] = rng.choice([0, 1, 2, 3])
            jobs.append({"job": "builtin", "plan": q})
        elif r < 0.88:
            jobs.append({"job": "open", "raise": rng.random() < 0.4})
        elif r < 0.94:
            jobs.append({"job": "serialize", "save": rng.random() < 0.5})
        else:
            jobs.append({"job": "convert"})
    p["jobs"] = jobs
    p["ambient"] = sorted(set(rng.choice(AMBIENT) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))))
    p["gseed"] = rng.randrange(1 << 30)
    if rng.random() < 0.5:
        gen_faults(rng, p, KINDS)
        if p.get("ki"):
            p["jobs"] = p["jobs"][:1]
    p["sched"] = world.gen_sched(rng, 0.7)
    p["sched"]["instr"] = p["sched"].get("fine", True) and rng.random() < 0.3
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def shrink(plan):
    for j in range(len(plan["jobs"])):
        if len(plan["jobs"]) > 1:
            p = copy.deepcopy(plan)
            del p["jobs"][j]
            yield p
        if plan["jobs"][j].get("threads"):
            p = copy.deepcopy(plan)
            p["jobs"][j]["threads"] -= 1
            yield p
        if plan["jobs"][j]["job"] == "builtin" and plan["jobs"][j]["plan"]["opts"]["threads"]:
            p = copy.deepcopy(plan)
            p["jobs"][j]["plan"]["opts"]["threads"] -= 1
            yield p
    for a in plan["ambient"]:
        p = copy.deepcopy(plan)
        p["ambient"].remove(a)
        yield p


class Op(c10.Op):
    def scalar(self, ty, name, default, has_default):
        if name == "seed":
            return self.rng.choice([0, 7, 123])
        return super().scalar(ty, name, default, has_default)


def ambient(plan, run):
    """put the process into the state the plan asks for, as the embedding program could"""
    warnings.showwarning = lambda *a, **k: None      # off the terminal
    for a in plan["ambient"]:
        run.stat(a)
        if a == "warn-error":
            warnings.simplefilter("error")
        elif a == "warn-filters":
            warnings.filterwarnings("always", message="nothing", category=DeprecationWarning)
            warnings.filterwarnings("ignore", module="torch")
        elif a == "no-handlers":
            for h in list(logging.getLogger().handlers):
                logging.getLogger().removeHandler(h)
            logging.lastResort = logging.NullHandler()      # keeps what is logged then off the terminal
        elif a == "level":
            logging.getLogger().setLevel(_random.Random(plan["gseed"]).choice([logging.DEBUG, logging.ERROR]))
        elif a == "logger-off":
            logging.disable(logging.CRITICAL)
        elif a == "dtype":
            torch.set_default_dtype(torch.float64)
        elif a == "dtype-half":
            torch.set_default_dtype(torch.float16)
        elif a == "grad-off":
            torch.set_grad_enabled(False)
        elif a == "cwd":
            d = os.path.join(run.dir, "cwd")
            os.mkdir(d)
            os.chdir(d)
        elif a == "environ":
            os.environ["SIM_AMBIENT"] = "1"
        elif a == "recursion":
            sys.setrecursionlimit(3000)
        elif a == "deterministic":
            torch.use_deterministic_algorithms(True)
        elif a == "numpy-raise":
            _np.seterr(over="raise", under="warn")
        elif a == "decimal":
            decimal.getcontext().prec = 7
        elif a == "matmul":
            torch.set_float32_matmul_precision("medium")
        elif a == "profile-hook":
            sys.excepthook = lambda *a: None
            threading.excepthook = lambda *a: None
    torch.set_num_threads(1 + plan["gseed"] % 4)
    torch.manual_seed(plan["gseed"])
    _np.random.seed(plan["gseed"])
    _random.seed(plan["gseed"])
    for _ in range(plan["gseed"] % 3):
        torch.rand(1)


def patched(mod):
    return {k: id(v) for k, v in vars(mod).items() if not k.startswith("__") and k not in ("filters", "_filters_version")}


def config_digest(c):
    if not isinstance(c, model_configs.ModelConfigImpl):
        return None
    return repr([(n, [(k, tuple(m.aliases), m.optional, None if m.shape is None else tuple(m.shape), str(m.dtype)) for k, m in x.keys().items()])
                 for n, x in c.components().items()])


def handlers(lg):
    return ([(id(h), h.level, id(h.formatter), [id(f) for f in h.filters]) for h in lg.handlers], lg.level, lg.disabled, lg.propagate,
            [id(f) for f in lg.filters])


def state(rng=True):
    """everything the process shares that a merge has no business with, by name"""
    lg = logging.getLogger()
    sm = logging.getLogger("sd_mecha")
    s = {
        "warning filters": [repr(f) for f in warnings.filters],
        "warnings.showwarning": (id(warnings.showwarning), id(warnings.formatwarning)),
        "torch default dtype": str(torch.get_default_dtype()),
        "torch default device": str(torch.get_default_device()),
        "torch threads": (torch.get_num_threads(), torch.get_num_interop_threads()),
        "torch grad mode": (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_autocast_enabled("cpu"), torch.is_anomaly_enabled()),
        "torch determinism": (torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled(),
                              torch.utils.deterministic.fill_uninitialized_memory),
        "torch matmul precision": torch.get_float32_matmul_precision(),
        "torch backends": (torch.backends.mkldnn.is_available(), torch.backends.cuda.matmul.allow_tf32, torch.backends.cudnn.enabled,
                           torch.backends.cudnn.benchmark, torch.backends.mkldnn.enabled),
        "torch denormals": float(torch.tensor([1e-310], dtype=torch.float64) * 0.5) != 0.0,
        "torch print options": repr(vars(torch._tensor_str.PRINT_OPTS)),
        "torch sharing strategy": torch.multiprocessing.get_sharing_strategy(),
        "numpy error state": repr(_np.geterr()),
        "decimal context": repr(decimal.getcontext()),
        "environment": sorted(os.environ.items()),
        "working directory": os.getcwd(),
        "umask": umask(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), [id(c) for c in gc.callbacks]),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.displayhook), id(sys.unraisablehook), sys.gettrace() is None, sys.getprofile() is None),
        "sys.path": list(sys.path),
        "signals": [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "locale": locale.setlocale(locale.LC_ALL),
        "thread stack size": threading.stack_size(),
        "resource limits": [resource.getrlimit(getattr(resource, n)) for n in sorted(dir(resource)) if n.startswith("RLIMIT_")],
        "priority": (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0))),
        "interpreter": (faulthandler.is_enabled(), tracemalloc.is_tracing(), sys.get_int_max_str_digits(), sys.dont_write_bytecode,
                        [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks], threading.gettrace(), threading.getprofile(),
                        threading.excepthook is threading.__excepthook__, sys.get_asyncgen_hooks().firstiter),
        "library defaults": (tempfile.tempdir, socket.getdefaulttimeout(), time.tzname, locale.getlocale()),
        "root logger": handlers(lg),
        "sd_mecha logger": handlers(sm),
        "logging": (lg.manager.disable, logging.raiseExceptions, logging.lastResort is not None, id(logging.getLoggerClass()), id(logging.getLogRecordFactory())),
        "model configs": [(c.identifier, id(c)) for c in model_configs.get_all()] + [(c.identifier, id(c)) for c in model_configs.get_all_aux()]
        if hasattr(model_configs, "get_all_aux") else [(c.identifier, id(c)) for c in model_configs.get_all()],
        "model config content": [config_digest(c) for c in list(model_configs._model_configs_registry.values()) + list(model_configs._model_configs_registry_aux.values())]
        if hasattr(model_configs, "_model_configs_registry") and hasattr(model_configs, "_model_configs_registry_aux") else None,
        "merge methods": sorted((m.identifier, id(m)) for m in mm.get_all()),
        "merge spaces": sorted((m.identifier, id(m)) for m in merge_spaces.get_all()),
        "model formats": sorted((m.identifier, id(m)) for m in model_formats.get_all()),
        "json hooks": (id(_json._default_encoder), id(_json._default_decoder)),
    }
    for name, mod in (("torch", torch), ("torch.Tensor", torch.Tensor), ("torch.nn.functional", torch.nn.functional), ("json", _json), ("os", os),
                      ("os.path", os.path), ("builtins", builtins), ("warnings", warnings), ("logging", logging), ("threading", threading),
                      ("pathlib", pathlib), ("pathlib.Path", pathlib.Path), ("yaml", yaml)):
        s["names of " + name] = patched(mod)
    if rng:
        s["torch generator"] = torch.random.get_rng_state().numpy().tobytes()
        s["numpy generator"] = (_np.random.get_state()[1].tobytes(), _np.random.get_state()[2:])
        s["python generator"] = _random.getstate()
    return s


def umask():
    m = os.umask(0o077)
    os.umask(m)
    return m


def differences(a, b):
    out = []
    for k in a:
        if k.startswith("names of "):
            d = [n for n in a[k] if b[k].get(n) != a[k][n]]      # lazily imported submodules may appear
            if d:
                out.append(f"{k}: {d[:4]}")
        elif a[k] != b[k]:
            out.append(f"{k}: {str(a[k])[:150]} became {str(b[k])[:150]}")
    return out


def builtin_job(jb, n, run, arm, roots):
    """the operands and recipe of a merge over a built-in method, with a directory of its own"""
    q = jb["plan"]
    d = os.path.join(run.dir, f"b{n}")
    os.makedirs(d)
    b = world.Built(q, d)
    ops = Op(b, q, run)
    try:
        recipe = c10.build(ops, q["method"])
    except (ValueError, RuntimeError, TypeError):
        run.stat("unbuildable")
        return None

    roots += [(str(b.in_dir), "in"), (str(b.out_dir), "out")]

    def go():
        kw = b.kwargs(**q["opts"])
        kw["strict_weight_space"] = False
        sd_mecha.merge(recipe, output=out_path(b) if q["opts"]["output"] == "file" else world.RecDict(),
                       tqdm=arm.progress, **kw)
    return go


def world_job(b, jb, n, arm, run, want):
    out = arm.out(world.RecDict()) if jb["output"] == "dict" else b.out_dir / f"o{n}.safetensors"
    nodes = []
    for x in b.plan["nodes"]:
        nodes.append(b._node(x, nodes))
    fb = b.plan.get("fallback")

    def go():
        kw = b.kwargs(threads=jb["threads"])
        if fb is not None:
            kw["fallback_model"] = nodes[fb]
        sd_mecha.merge(nodes[b.plan["root"]], output=out, tqdm=arm.progress, **kw)
        return out
    return go


def open_job(b, jb):
    nodes = []
    for x in b.plan["nodes"]:
        nodes.append(b._node(x, nodes))

    def go():
        with open_input_dicts(nodes[b.plan["root"]], [], b.plan["opts"]["buffer"]):
            for n in nodes:
                d = getattr(n, "state_dict", None)
                if d is not None:
                    for k in list(d.keys())[:2]:
                        d[k]
            if jb["raise"]:
                raise ValueError("body")
    return go


def serialize_job(b, jb, n):
    def go():
        t = sd_mecha.serialize(b.recipe, output=b.out_dir / f"r{n}.mecha" if jb["save"] else None)
        if t is None:
            t = fs._open(b.out_dir / f"r{n}.mecha", "r").read()
        sd_mecha.deserialize(t)
    return go


def execute(plan, run):
    b = setup(plan, run)
    want = world.Ref(plan).result()
    arm = Armed(plan, run, want)
    jobs, kinds, roots = [], [], []
    uses_rng = False
    for n, jb in enumerate(plan["jobs"]):
        k = jb["job"]
        if k == "builtin":
            f = builtin_job(jb, n, run, arm, roots)
            uses_rng = uses_rng or jb["plan"]["method"] in UNSEEDED
        elif k == "world":
            f = world_job(b, jb, n, arm, run, want)
        elif k == "open":
            f = open_job(b, jb)
        elif k == "convert":
            f = c08.convert_job(b, plan) if not any(x["job"] == "convert" for x in plan["jobs"][:n]) else None
        else:
            f = serialize_job(b, jb, n)
        if f is not None:
            jobs.append((f, ()))
            kinds.append(k)
            run.stat(k)
    if any(plan.get(k) is not None for k in FAULT_KEYS if k != "faults") or plan.get("faults"):
        run.fatal_ok = lambda kind: True
    ambient(plan, run)
    fs.W.roots += roots
    fs.W.mutations = []
    gc.disable()
    # the run itself keeps the collector off: what the code under test asks of it goes to a stand-in
    collecting = [plan["gseed"] % 5 != 0]
    gc.isenabled = lambda: collecting[0]
    before = state(not uses_rng)
    run.begin(calls=arm.calls)
    gc.enable = lambda: collecting.__setitem__(0, True)
    gc.disable = lambda: collecting.__setitem__(0, False)
    if len(jobs) == 1:
        try:
            box = [(jobs[0][0](), None)]
        except BaseException as e:
            box = [(None, e)]
    else:
        run.stat("concurrent")
        box = parallel(jobs)
    run.disarm_ki()
    alive = [t for t in S.tasks[1:] if t.state != core.DONE]
    after = state(not uses_rng)
    d = differences(before, after)
    if d and not alive:
        run.violate("state-changed", f"after {kinds}: " + "; ".join(d[:4]))
    for t in list(S.tasks[1:]):
        S.join_task(t)
    run.end()
    after = state(not uses_rng)
    after["gc"] = before["gc"]
    d2 = differences(before, after)
    if d2 and not d:
        run.violate("state-changed", f"after {kinds} and all their workers: " + "; ".join(d2[:4]))
    if not uses_rng:
        run.stat("rng-checked")
    fired = arm.fired()
    zero = fs.W.stats.get("zero_read")
    arm.disarm()
    warnings.simplefilter("ignore")
    run.nontrivial = run.ntasks > 1 or bool(fired)
    for kind, (res, exc) in zip(kinds, box):
        run.stat("raised" if exc is not None else "returned")
        if kind != "world":
            continue
        if exc is not None:
            if not fired and not zero:
                run.violate("unexpected-exception", f"in state {plan['ambient']}: " + exc_text(exc))
            continue
        if not fired and not zero:
            run.stat("content-checked")
            check_expected(run, res, want)
