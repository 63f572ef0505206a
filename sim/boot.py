"""Loads the code under test from /repo with every seam patched.  Must be imported before torch or sd_mecha."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != os.environ.get("VERIF_HASHSEED", "0"):
    os.environ["PYTHONHASHSEED"] = os.environ.get("VERIF_HASHSEED", "0")
    os.execv(sys.executable, [sys.executable] + sys.argv)

os.environ["OMP_NUM_THREADS"] = "1"
os.environ["MKL_NUM_THREADS"] = "1"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ["TQDM_DISABLE"] = "1"
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")

import gc
import threading
import time
import queue
import _queue
from . import core, fs
from .core import S, SimLock, SimRLock, SimSimpleQueue

# ---- threads and synchronisation
threading._start_new_thread = core.S.start_thread
threading._allocate_lock = SimLock
threading.Lock = SimLock
threading.RLock = SimRLock
threading._CRLock = SimRLock
threading._PyRLock = SimRLock
threading._RLock = SimRLock
queue.SimpleQueue = SimSimpleQueue

_Thread = threading.Thread
_orig_init, _orig_join, _orig_alive = _Thread.__init__, _Thread.join, _Thread.is_alive
_seq = [0]
HASH_SALT = [0]


def next_seq():
    _seq[0] += 1
    return _seq[0]


def _mix(n):
    # identity hashes are arbitrary in a real process; here they are a seeded permutation
    return (n * 2654435761 + HASH_SALT[0] * 40503) & 0xFFFF if HASH_SALT[0] else n


def _thread_init(self, *a, **k):
    self._sim_seq = next_seq()
    _orig_init(self, *a, **k)


def _thread_hash(self):
    return _mix(getattr(self, "_sim_seq", 0))


def _start(fn, args=(), kwargs=None):
    th = getattr(fn, "__self__", None)
    n = len(S.tasks)
    if S.active and isinstance(th, _Thread):
        th._sim_task_id = n
    return S.start_thread(fn, args, kwargs)


threading._start_new_thread = _start


def _task_of(th):
    i = getattr(th, "_sim_task_id", None)
    return S.tasks[i] if i is not None and S.active and i < len(S.tasks) else None


def _join(self, timeout=None):
    t = _task_of(self)
    if t is not None:
        if t is S.cur:
            raise RuntimeError("cannot join current thread")
        S.quiet()
        if not S.join_task(t, timeout):
            return None
    return _orig_join(self, timeout)


def _is_alive(self):
    t = _task_of(self)
    if t is not None:
        return t.state != core.DONE
    return _orig_alive(self)


_Thread.__init__ = _thread_init
_Thread.__hash__ = _thread_hash
_Thread.join = _join
_Thread.is_alive = _is_alive

import concurrent.futures
import concurrent.futures._base as _cfb
import concurrent.futures.thread as _cft

_fut_init = _cfb.Future.__init__


def _future_init(self):
    self._sim_seq = next_seq()
    _fut_init(self)


_cfb.Future.__init__ = _future_init
_cfb.Future.__hash__ = lambda self: _mix(getattr(self, "_sim_seq", 0))
_cfb.id = lambda f: getattr(f, "_sim_seq", 0)

# ---- time
_real_time = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "sleep", "time_ns", "monotonic_ns", "perf_counter_ns")}


def _clock(real, scale=1):
    def f():
        if S.active:
            S.now += 1e-6
            v = 1_700_000_000.0 + S.now
            return v if scale == 1 else int(v * scale)
        return real()
    return f


def _sleep(secs):
    if S.active:
        S.sleep(secs)
    else:
        _real_time["sleep"](secs)


wall = _real_time["monotonic"]
for _n in ("time", "monotonic", "perf_counter"):
    setattr(time, _n, _clock(_real_time[_n]))
    setattr(time, _n + "_ns", _clock(_real_time[_n + "_ns"], 10 ** 9))
time.sleep = _sleep
threading._time = time.monotonic
queue.time = time.monotonic

# ---- entropy and identity
import random as _random
import tempfile as _tempfile
import uuid as _uuid
_real_urandom, _real_getpid = os.urandom, os.getpid
_entropy = _random.Random(0)


def _urandom(n):
    return _entropy.randbytes(n) if S.active else _real_urandom(n)


os.urandom = _random._urandom = _urandom
os.getpid = lambda: 4242 if S.active else _real_getpid()


def seed_entropy(n):
    """everything a run draws from the operating system or from a global generator becomes a function of its seed"""
    _entropy.seed(n)
    _random.seed(n)
    numpy.random.seed(n & 0xFFFFFFFF)
    torch.manual_seed(n)
    names = _tempfile._RandomNameSequence()
    names._rng, names._rng_pid = _random.Random(n), 4242
    _tempfile._name_sequence = names


# ---- files
fs.install()

# ---- libraries, then the code under test, with its code objects captured
import logging
import torch
import numpy
import yaml
import safetensors
import safetensors.torch
import scipy.stats
import tqdm
tqdm.tqdm.set_lock(threading.RLock())     # a simulated lock instead of a multiprocessing semaphore
tqdm.tqdm.monitor_interval = 0     # no process-wide progress bar monitor thread
torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass

CODES = {}    # module tail -> list of code objects


def _walk(code, out):
    out.append(code)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _walk(c, out)


import importlib.machinery
_orig_get_code = importlib.machinery.SourceFileLoader.get_code


def _get_code(self, fullname):
    code = _orig_get_code(self, fullname)
    if code is not None and fullname.split(".")[0] == "sd_mecha":
        out = []
        _walk(code, out)
        CODES[fullname] = out[1:]     # module body itself runs at import only
    return code


importlib.machinery.SourceFileLoader.get_code = _get_code
sys.path.insert(0, REPO)
sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in type(f).__module__ and "editable" not in getattr(f, "__name__", "").lower()]
import sd_mecha
import sd_mecha.serialization, sd_mecha.streaming, sd_mecha.merging, sd_mecha.conversion, sd_mecha.recipe_nodes
import sd_mecha.merge_method_wrappers, sd_mecha.helpers
importlib.machinery.SourceFileLoader.get_code = _orig_get_code
assert os.path.realpath(sd_mecha.__file__).startswith(os.path.realpath(REPO) + "/"), sd_mecha.__file__
assert "sd_mecha.streaming" in CODES

# ---- sys.monitoring
MON = sys.monitoring
TOOL = 3
MON.use_tool_id(TOOL, "verif-sim")
EV = MON.events


FOCUS = {}    # codes -> what to call at each of their lines (an interrupt aimed at one module)
STALLS = {}   # the same for tasks frozen inside one function


def _on_line(code, line):
    if S.active:
        if FOCUS and code in FOCUS:
            FOCUS[code]()
        if STALLS and code in STALLS:
            STALLS[code]()
        S.point()


def _on_instr(code, off):
    if S.active:
        if FOCUS and code in FOCUS:
            FOCUS[code]()
        if STALLS and code in STALLS:
            STALLS[code]()
        S.point()


CALL_HOOK = [None]


def _on_call(code, off, fn, arg0):
    h = CALL_HOOK[0]
    if h is not None and S.active:
        h(fn, arg0)


MON.register_callback(TOOL, EV.LINE, _on_line)
MON.register_callback(TOOL, EV.INSTRUCTION, _on_instr)
MON.register_callback(TOOL, EV.CALL, _on_call)

# modules whose lines are yield points; the model config module is added where its laziness is under test
LINE_MODULES = ["sd_mecha.streaming", "sd_mecha.merging", "sd_mecha.recipe_nodes", "sd_mecha.serialization",
                "sd_mecha.conversion", "sd_mecha.extensions.merge_methods", "sd_mecha.helpers",
                "sd_mecha.extensions.builtin.merge_methods", "sd_mecha.extensions.builtin.merge_methods.svd",
                "sd_mecha.extensions.builtin.merge_methods.ema", "sd_mecha.extensions.builtin.lycoris",
                "sd_mecha.merge_method_wrappers", "sd_mecha.extensions.model_configs"]
# pure, hot, lock-free loops over tens of thousands of keys: not yield points except where C18 asks for them
HOT = {"infer_model_configs", "check_model_config"}


def set_events(modules=None, instr=(), calls=(), hot=False, exclude=()):
    ev = {}
    for m in (LINE_MODULES if modules is None else modules):
        for c in CODES.get(m, ()):
            nm = c.co_qualname.split(".")[0]
            if not hot and nm in HOT:
                continue
            if m in exclude:
                continue
            ev[c] = ev.get(c, 0) | EV.LINE
    for m in instr:
        for c in CODES.get(m, ()):
            if c in ev:
                ev[c] |= EV.INSTRUCTION
    for m in calls:
        for c in CODES.get(m, ()):
            ev[c] = ev.get(c, 0) | EV.CALL
    for c, e in ev.items():
        MON.set_local_events(TOOL, c, e)
    return ev


gc.collect()

# read when torch and tqdm were loaded; left in place they would hide that the code under test sets them
for _k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "CUDA_VISIBLE_DEVICES", "TQDM_DISABLE"):
    os.environ.pop(_k, None)
