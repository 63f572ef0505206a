"""Merge methods of the harness: exact, deterministic, instrumented; they are user code from the library's viewpoint."""
import torch
from torch import Tensor
import sd_mecha
from sd_mecha import merge_method, Parameter, Return, StateDict, StateDictKeyError
from .core import S, point


class Rec:
    """what the harness' methods observed in this run"""
    def __init__(self):
        self.calls = []            # (method, key)
        self.hooks = {}            # name -> callable(key) run inside method bodies
        self.cache_seen = []       # (key, id-token)
        self.watch = None          # callable(tensor) on every result


R = Rec()


def reset():
    global R
    R = Rec()
    return R


def _enter(name, key):
    point()
    R.calls.append((name, key))
    h = R.hooks.get("enter")
    if h is not None:
        h(name, key)


def _ret(t):
    point()
    if R.watch is not None:
        R.watch(t)
    return t


def f_lin(a, b, alpha):
    return a + alpha * b


@merge_method
def sim_lin(
    a: Parameter(Tensor),
    b: Parameter(Tensor),
    alpha: Parameter(Tensor) = 1.0,
    **kwargs,
) -> Return(Tensor):
    _enter("sim_lin", kwargs["key"])
    r = a + alpha * b
    return _ret(r)


@merge_method
def sim_sd(
    a: Parameter(StateDict[Tensor]),
    b: Parameter(StateDict[Tensor]),
    **kwargs,
) -> Return(Tensor):
    key = kwargs["key"]
    _enter("sim_sd", key)
    av = a[key]
    point()
    bv = b[key]
    point()
    return _ret(2 * av - bv)


def neighbours(keys, key):
    keys = list(keys)
    if key not in keys:
        return []
    i = keys.index(key)
    return [keys[(i + d) % len(keys)] for d in (1, 2) if len(keys) > d]


@merge_method
def sim_neighbor(
    a: Parameter(StateDict[Tensor]),
    **kwargs,
) -> Return(Tensor):
    key = kwargs["key"]
    _enter("sim_neighbor", key)
    own = a[key]
    tot = 0.0
    for k in neighbours(a.model_config.keys(), key):
        try:
            t = a[k]
        except StateDictKeyError:
            continue
        point()
        tot = tot + t.double().sum().item()
    r = own + tot
    return _ret(r)


@merge_method
def sim_sum(
    *models: Parameter(Tensor),
    **kwargs,
) -> Return(Tensor):
    _enter("sim_sum", kwargs["key"])
    r = models[0]
    for m in models[1:]:
        point()
        r = r + m
    return _ret(r)


@merge_method
def sim_typed(
    a: Parameter(Tensor),
    *,
    f: Parameter(float) = 0.5,
    i: Parameter(int) = 2,
    s: Parameter(str) = "x",
    b: Parameter(bool) = False,
    **kwargs,
) -> Return(Tensor):
    _enter("sim_typed", kwargs["key"])
    assert isinstance(f, float) and isinstance(i, int) and isinstance(s, str) and isinstance(b, (bool, int))
    return _ret(a * (f * 2) + i + len(s) + (1 if b else 0))


NEGATABLE = (torch.float64, torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.int32, torch.int16, torch.int8)


def view_of(a, mode):
    if mode == "t" and a.dim() >= 2:
        return a.transpose(0, 1)
    if mode == "slice" and a.dim() >= 1 and a.shape[0] > 1:
        return a[1:]
    if mode == "stride" and a.dim() >= 1 and a.shape[0] > 1:
        return a[::2]
    if mode == "expand":
        return a.reshape(-1)[:1].expand(3) if a.numel() else a
    if mode == "inner" and a.dim() >= 2 and a.shape[1] > 1:
        return a[:, 1:]
    if mode == "flipt" and a.dim() >= 2:
        return a.flip(0).transpose(0, -1)
    if mode == "chunk" and a.numel() > 1:
        return a.reshape(-1).chunk(2)[-1]
    if mode == "neg" and a.dtype in NEGATABLE:
        return torch._neg_view(a)        # what taking the imaginary part of a conjugate gives
    return a


@merge_method
def sim_view(
    a: Parameter(Tensor),
    *,
    mode: Parameter(str) = "t",
    **kwargs,
) -> Return(Tensor):
    _enter("sim_view", kwargs["key"])
    return _ret(view_of(a, mode))


@merge_method
def sim_id(
    a: Parameter(Tensor),
    **kwargs,
) -> Return(Tensor):
    _enter("sim_id", kwargs["key"])
    return _ret(a)


@merge_method
def sim_skip(
    a: Parameter(Tensor),
    *,
    mod: Parameter(int) = 3,
    **kwargs,
) -> Return(Tensor):
    key = kwargs["key"]
    _enter("sim_skip", key)
    if skipped(key, mod):
        raise StateDictKeyError(key)
    return _ret(a)


def skipped(key, mod):
    return mod > 0 and sum(key.encode()) % mod == 0


@merge_method
def sim_cache(
    a: Parameter(Tensor),
    *,
    tag: Parameter(str) = "",
    **kwargs,
) -> Return(Tensor):
    key, cache = kwargs["key"], kwargs.get("cache")
    _enter("sim_cache", key)
    R.cache_seen.append((key, tag, cache))
    if cache is None:
        return _ret(a * 3)
    if key not in cache:
        point()
        cache[key] = {}
    sub = cache[key]
    point()
    if "f" not in sub:
        point()
        sub["f"] = 3.0
    return _ret(a * sub["f"])


METHODS = {m.identifier: m for m in (sim_lin, sim_sd, sim_neighbor, sim_sum, sim_typed, sim_view, sim_id, sim_skip, sim_cache)}


@merge_method
def sim_probe(
    first: Parameter(Tensor, ["weight", "delta", "param"]),
    *rest: Parameter(Tensor, ["weight", "delta", "param"]),
    tag: Parameter(str) = "",
    **kwargs,
) -> Return(Tensor, "weight"):
    """the first operand; the others are evaluated after it (deeper operands come first) and shown to the harness"""
    key = kwargs["key"]
    _enter("sim_probe", key)
    h = R.hooks.get("probe")
    if h is not None:
        h(key, rest, tag)
    return first if isinstance(first, Tensor) else torch.zeros(1)


METHODS["sim_probe"] = sim_probe


@merge_method
def sim_root(
    a: Parameter(Tensor),
    **kwargs,
) -> Return(Tensor):
    """the top-level operation whose evaluations are counted"""
    key = kwargs["key"]
    _enter("sim_root", key)
    r = a + 0
    point()
    h = R.hooks.get("root")
    if h is not None:
        h(key, r)
    return _ret(r)


METHODS["sim_root"] = sim_root
