"""Seeded search: many forked runs, minimisation, replay files, evidence, known findings."""
import copy
import ctypes
import hashlib
import importlib
import json
import os
import random
import select
import signal
import struct
import sys
import time
from . import boot, core, foreign, fs, run as runmod

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
RUN_TIMEOUT = 60.0
_prctl = ctypes.CDLL(None).prctl


def die_with_parent():
    """a run must not outlive the process that judges it"""
    _prctl(1, int(signal.SIGKILL), 0, 0, 0)


def seed_of(base, prop, i):
    h = hashlib.sha256(f"{base}:{prop}:{i}".encode()).digest()
    return int.from_bytes(h[:7], "big")


def run_forked(prop, plan, trace=False, timeout=RUN_TIMEOUT):
    """one run in a fresh fork of the pristine image"""
    if hasattr(prop, "foreign"):
        foreign.ask(prop, plan)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            die_with_parent()
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            runmod.exec_plan(prop, plan, w, trace)
            os._exit(0)
        except BaseException:
            os._exit(4)
    fs._os["close"](w)
    buf = bytearray()
    end = boot.wall() + timeout
    timed_out = False
    while True:
        left = end - boot.wall()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], min(left, 5.0))
        if rd:
            c = fs._os["read"](r, 1 << 16)
            if not c:
                break
            buf += c
    fs._os["close"](r)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        cleanup(pid)
        return {"timeout": True}
    try:
        res = json.loads(buf)
    except ValueError:
        res = {"died": st, "raw": bytes(buf[:300]).decode("utf-8", "replace")}
    if "harness_error" not in res and os.WIFSIGNALED(st) and "violations" not in res:
        res = {"died": st}
    if "violations" not in res:
        cleanup(pid)
    return res


def cleanup(pid):
    pass


def judge(prop, res):
    """-> list of violation dicts, or an 'error' string for the harness"""
    if "harness_error" in res:
        return None, res["harness_error"]
    if "timeout" in res:
        if getattr(prop, "HANG_IS_VIOLATION", False):
            return [{"kind": "hang", "detail": "run did not finish within the wall-clock watchdog"}], None
        return None, "run exceeded the wall-clock watchdog"
    if "died" in res:
        if os.WIFSIGNALED(res["died"]) and os.WTERMSIG(res["died"]) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            return [{"kind": "crash", "detail": f"process died with signal {os.WTERMSIG(res['died'])}"}], None
        return None, f"child ended without a result: {res}"
    return res["violations"], None


class Stats:
    def __init__(self):
        self.runs = 0
        self.nontrivial = set()
        self.steps = 0
        self.switches = 0
        self.sim_time = 0.0
        self.counts = {}
        self.sched_sigs = set()
        self.samples = []
        self.violations = []      # (index, plan, violations)
        self.errors = []

    def add(self, i, plan, res, viol):
        self.runs += 1
        self.steps += res.get("steps", 0)
        self.switches += res.get("switches", 0)
        self.sim_time += res.get("sim_time", 0.0)
        for k, v in res.get("stats", {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        sig = tuple(res.get("sigs", ()))
        if res.get("nontrivial"):
            self.nontrivial.add((i, sig) if False else hashlib.md5(json.dumps([fingerprint(plan), sig]).encode()).hexdigest())
        if sig:
            self.sched_sigs.add(hashlib.md5(json.dumps([fingerprint(plan), sig]).encode()).hexdigest())


def fingerprint(plan):
    p = {k: v for k, v in plan.items() if k not in ("sched", "salt", "seed")}
    return hashlib.md5(json.dumps(p, sort_keys=True).encode()).hexdigest()


def worker_main(prop, idxs, base, tier, wfd, deadline):
    import gc
    gc.freeze()
    for i in idxs:
        if boot.wall() > deadline:
            break
        seed = seed_of(base, prop.ID, i)
        plan = prop.gen(random.Random(seed), tier, i)
        plan["seed"] = seed
        res = run_forked(prop, plan)
        if "harness_error" in res or "timeout" in res or "died" in res:
            # once more: separates a flaky environment from a deterministic ending
            res = run_forked(prop, plan)
        viol, err = judge(prop, res)
        msg = {"i": i, "res": {k: v for k, v in res.items() if k not in ("dev",)}, "viol": viol, "err": err,
               "fp": fingerprint(plan)}
        if viol or err or i < 3:
            msg["plan"] = plan
        if viol:
            msg["res"]["dev"] = res.get("dev")
        data = json.dumps(msg).encode()
        data = struct.pack("<I", len(data)) + data
        while data:
            n = fs._os["write"](wfd, data)
            data = data[n:]
    os._exit(0)


def explore(prop, tier, base, n_runs, wall_cap, stop_after=6):
    st = Stats()
    t0 = boot.wall()
    deadline = t0 + wall_cap
    pipes, pids = [], []
    nw = min(WORKERS, max(1, n_runs))
    for w in range(nw):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            for p in pipes:
                fs._os["close"](p)
            fs._os["close"](r)
            die_with_parent()
            try:
                worker_main(prop, range(w, n_runs, nw), base, tier, wf, deadline)
            except BaseException:
                import traceback
                traceback.print_exc()
            os._exit(5)
        fs._os["close"](wf)
        pipes.append(r)
        pids.append(pid)
    bufs = {r: bytearray() for r in pipes}
    live = set(pipes)
    while live:
        rd, _, _ = select.select(list(live), [], [], 5.0)
        for r in rd:
            c = fs._os["read"](r, 1 << 18)
            if not c:
                live.discard(r)
                continue
            b = bufs[r]
            b += c
            while len(b) >= 4:
                n = struct.unpack("<I", b[:4])[0]
                if len(b) < 4 + n:
                    break
                m = json.loads(b[4:4 + n])
                del b[:4 + n]
                st.runs += 1
                res = m["res"]
                st.steps += res.get("steps", 0)
                st.switches += res.get("switches", 0)
                st.sim_time += res.get("sim_time", 0.0)
                for k, v in res.get("stats", {}).items():
                    st.counts[k] = st.counts.get(k, 0) + v
                sg = hashlib.md5(json.dumps([m["fp"], res.get("sigs")]).encode()).hexdigest()
                st.sched_sigs.add(sg)
                if res.get("nontrivial"):
                    st.nontrivial.add(sg)
                if m.get("plan") is not None and len(st.samples) < 3:
                    st.samples.append({"index": m["i"], "seed": m["plan"]["seed"], "plan": sample(m["plan"]), "steps": res.get("steps"),
                                       "stats": res.get("stats")})
                if m["err"]:
                    st.errors.append((m["i"], m["err"]))
                if m["viol"]:
                    st.violations.append((m["i"], m["plan"], m["viol"]))
        late = boot.wall() > deadline + 3 * RUN_TIMEOUT
        if late:
            st.errors.append((-1, "a worker stopped answering"))
        if late or len(st.violations) >= stop_after or len(st.errors) >= 20:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            break
    for p in pids:
        os.waitpid(p, 0)
    for r in pipes:
        fs._os["close"](r)
    st.wall = boot.wall() - t0
    st.violations.sort(key=lambda v: v[0])
    return st


def sample(plan):
    s = json.dumps(plan)
    if len(s) <= 2500:
        return plan
    out = {k: plan[k] for k in ("sched", "faults", "opts", "nodes", "ki", "mode") if k in plan}
    out["abridged"] = True
    return out if len(json.dumps(out)) < 4000 else {"abridged": s[:2500]}


# ------------------------------------------------------------------ minimisation

def classes(viol):
    return {v["kind"] for v in viol}


def minimise(prop, plan, viol, budget=60.0, log=None):
    """shrink workload, faults and schedule while a violation of the same class persists"""
    want = classes(viol)
    end = boot.wall() + budget
    best = copy.deepcopy(plan)
    best_viol = viol
    tried = [0]

    def fails(p):
        nonlocal best_viol
        if boot.wall() > end:
            return False
        tried[0] += 1
        try:
            res = run_forked(prop, p, timeout=20)
        except Exception:
            return False
        v, err = judge(prop, res)
        if err or not v or not (classes(v) & want):
            return False
        fails.res, fails.viol = res, v
        return True

    # 1. simpler schedules first
    for sp in ({"kind": "none", "fine": False}, {"kind": "none", "fine": True}):
        if best.get("sched") and best["sched"].get("kind") != "none":
            p = copy.deepcopy(best)
            p["sched"] = dict(sp, instr=best["sched"].get("instr", False) and sp["fine"])
            if sp["fine"] and best["sched"].get("stall"):
                p["sched"]["stall"] = best["sched"]["stall"]
            if fails(p):
                best, best_viol = p, fails.viol
                break
    # 2. workload and faults
    changed = True
    while changed and boot.wall() < end:
        changed = False
        for p in shrinks(best, prop):
            if boot.wall() > end:
                break
            if fails(p):
                best, best_viol = p, fails.viol
                changed = True
                break
    # 3. freeze the schedule into explicit deviations, then remove as many as possible
    if best.get("sched") and best["sched"].get("kind") not in ("none", "script"):
        if fails(best):
            devs = fails.res.get("dev") or []
            if len(devs) == 1:
                p = copy.deepcopy(best)
                p["sched"] = {"kind": "script", "dev": {str(a): b for a, b in devs[0]}, "fine": best["sched"].get("fine", True),
                              "instr": best["sched"].get("instr", False)}
                if best["sched"].get("instr_modules"):
                    p["sched"]["instr_modules"] = best["sched"]["instr_modules"]
                if best["sched"].get("stall"):
                    p["sched"]["stall"] = best["sched"]["stall"]
                if fails(p):
                    best, best_viol = p, fails.viol
                    items = sorted(best["sched"]["dev"].items(), key=lambda x: int(x[0]))
                    n = 2
                    while len(items) >= 1 and boot.wall() < end:
                        size = max(1, len(items) // n)
                        cut = False
                        for s in range(0, len(items), size):
                            rest = items[:s] + items[s + size:]
                            p = copy.deepcopy(best)
                            p["sched"]["dev"] = dict(rest)
                            if fails(p):
                                items, best, best_viol = rest, p, fails.viol
                                cut = True
                                break
                        if not cut:
                            if size == 1:
                                break
                            n = min(len(items), n * 2)
    return best, best_viol, tried[0]


def shrinks(plan, prop):
    if hasattr(prop, "shrink"):
        yield from prop.shrink(plan)
    yield from generic_shrinks(plan)


def generic_shrinks(plan):
    from . import world
    c = copy.deepcopy
    fl = plan.get("faults") or []
    for i in range(len(fl)):
        p = c(plan)
        del p["faults"][i]
        yield p
    for i in range(len((plan.get("sched") or {}).get("stall") or ())):
        p = c(plan)
        del p["sched"]["stall"][i]
        yield p
    for k in ("ki", "mem", "max_chunk", "capacity", "raise_at", "store_raise", "progress_raise", "capacity_frac"):
        if plan.get(k) is not None:
            p = c(plan)
            p[k] = None
            yield p
    ops = plan.get("ops")
    if isinstance(ops, list) and len(ops) > 1:
        for i in range(len(ops)):
            p = c(plan)
            del p["ops"][i]
            yield p
    if plan.get("nodes") and plan.get("root") is not None:
        nodes = plan["nodes"]
        root = nodes[plan["root"]]
        if plan.get("fallback") is not None:
            p = c(plan)
            p["fallback"] = None
            world.prune(p)
            yield p
        if root["t"] == "merge":
            for a in root["args"]:
                if nodes[a]["t"] != "lit" and nodes[a]["t"] != "litd" and nodes[a].get("space", "weight") == "weight":
                    p = c(plan)
                    p["root"] = a
                    world.prune(p)
                    yield p
        for i, n in enumerate(nodes):
            if n["t"] == "merge" and n.get("space") == "weight":
                for a in n["args"]:
                    if nodes[a]["t"] in ("model", "dict", "merge", "litr") and nodes[a].get("space", "weight") == "weight":
                        p = c(plan)
                        for m in p["nodes"]:
                            if m["t"] == "merge":
                                m["args"] = [a if x == i else x for x in m["args"]]
                            elif m["t"] == "litr":
                                m["v"] = {k: a if x == i else x for k, x in m["v"].items()}
                        if p["root"] == i:
                            p["root"] = a
                        world.prune(p)
                        if json.dumps(p) != json.dumps(plan):
                            yield p
    cfg = plan.get("config")
    if cfg and len(cfg["keys"]) > 1:
        for k in cfg["keys"]:
            p = c(plan)
            p["config"]["keys"] = [x for x in p["config"]["keys"] if x["k"] != k["k"]]
            names = {k["k"], *k["aliases"]}
            for holder in list(p.get("files", [])) + list(p.get("dicts", [])) + list(p.get("operands", [])):
                drop_tensors(holder, names)
            for n in p.get("nodes", []):
                if n["t"] in ("litd", "litr"):
                    n["v"].pop(k["k"], None)
            if all(d["tensors"] for d in list(p.get("dicts", [])) + list(p.get("operands", []))) and all(n["t"] not in ("litd", "litr") or n["v"] for n in p.get("nodes", [])):
                world.prune(p) if p.get("root") is not None else None
                yield p
    o = plan.get("opts")
    if o:
        th = o.get("threads")
        for v in (0, 1, 2, 3):
            if th is None or th > v:
                p = c(plan)
                p["opts"]["threads"] = v
                yield p
        for k, v in (("merge_dtype", "float64"), ("output_dtype", "float32"), ("buffer", 1 << 20), ("output", "dict")):
            if o.get(k) != v:
                p = c(plan)
                p["opts"][k] = v
                yield p


def drop_tensors(holder, names):
    keep = [i for i, t in enumerate(holder["tensors"]) if t["k"] not in names]
    m = {o: n for n, o in enumerate(keep)}
    holder["tensors"] = [holder["tensors"][i] for i in keep]
    for f in ("order", "horder"):
        if f in holder:
            holder[f] = [m[i] for i in holder[f] if i in m]


# ------------------------------------------------------------------ known findings

def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(fs._open(path))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def match_known(prop_id, viol):
    """a finding matches only when every violation of the run is the listed one"""
    for f in known_findings().get("findings", []):
        if f["property"] != prop_id:
            continue
        if all(v["kind"] == f["kind"] and f["match"] in v["detail"] for v in viol):
            return f
    return None
