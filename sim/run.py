"""One simulated run inside a forked child: scenario set-up, injections, result collection."""
import errno
import gc
import json
import logging
import os
import shutil
import sys
import tempfile
import traceback
from . import core, fs, methods, boot, world
from .core import S

SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
STEP_CAP = 2_000_000


class Fatal(Exception):
    pass


class Run:
    """handle of the current run; scenario code records violations and statistics here"""
    def __init__(self, plan, report_fd=None, trace=False):
        self.plan = plan
        self.report_fd = report_fd
        self.violations = []
        self.stats = {}
        self.sched = {}
        self.extra = {}
        self.phase = "setup"
        self.dir = tempfile.mkdtemp(prefix="vsim.", dir=SCRATCH)
        self.fatal_ok = None
        self.ki = None
        self.trace = trace
        self.events = []
        self.nontrivial = True
        self.steps = 0
        self.sim_time = 0.0
        self.switches = 0
        self.sigs = []
        self.deviations = []
        self.ntasks = 0

    def violate(self, kind, detail):
        self.violations.append({"kind": kind, "detail": str(detail)[:1500]})

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- simulation phases
    def begin(self, sched=None, cap=STEP_CAP, modules=None, hot=False, calls=(), exclude=()):
        sp = sched or self.plan.get("sched") or {"kind": "none", "fine": False}
        ev_mods = (None if modules is None else modules) if sp.get("fine", True) else []
        instr = ("sd_mecha.streaming", "sd_mecha.merging") if sp.get("instr") and sp.get("fine") else ()
        if sp.get("instr_modules") and sp.get("fine"):
            instr = tuple(sp["instr_modules"])
        need_lines = sp.get("fine", True) or self.ki is not None
        if need_lines and not sp.get("fine", True):
            ev_mods = modules
        self.events_on = boot.set_events(ev_mods, instr=instr, calls=calls, hot=hot, exclude=exclude)
        gc.disable()
        S.begin(core.make_strategy(sp), cap, self._fatal)
        boot.FOCUS.clear()
        boot.STALLS.clear()
        for st in sp.get("stall") or ():
            self.arm_stall(st)
        if self.ki is not None:
            self.arm_ki(self.ki)

    def arm_stall(self, st):
        """whichever task reaches the n-th line of one function is frozen there until nothing else can run"""
        mods = sorted({m for m, cs in boot.CODES.items() if any(c in self.events_on for c in cs)})
        mod = st["m"] if st["m"] in mods else mods[int(st["r"] * len(mods))] if mods else None
        if mod is None:
            return
        codes = [c for c in boot.CODES[mod] if self.events_on.get(c, 0) & boot.EV.LINE]
        if not codes:
            return
        named = [c for c in codes if st.get("fn") and c.co_qualname.split(".")[0] == st["fn"]]
        code = named[int(st["f"] * len(named))] if named else codes[int(st["f"] * len(codes))]
        left = [st["at"]]

        def hit():
            left[0] -= 1
            if left[0] == 0 and S.cur.state == core.RUNNABLE:
                self.stat("fault:frozen-task")
                S.sleep(st["secs"])
        boot.STALLS[code] = hit

    def end(self):
        self.steps += S.step
        self.sim_time += S.now
        self.switches += S.switches
        self.sigs.append(S.sig & 0xFFFFFFFFFFFF)
        self.deviations.append(list(S.deviations))
        self.ntasks = max(self.ntasks, len(S.tasks))
        S.end()

    # -- KeyboardInterrupt: delivered to the main task where CPython could deliver it to the library's caller
    UNSAFE = {"start", "submit", "_adjust_thread_count", "_bootstrap", "acquire", "release", "notify", "_enter_ki_guard"}

    def arm_ki(self, ki):
        """at the n-th step from here, or at the n-th step of the main task inside one module"""
        mod = "sd_mecha." + ki["in"] if ki.get("in") else None
        if mod not in boot.CODES:
            S.inject_at(S.step + ki["at"], self._fire_ki)
            return
        left = [ki["at"]]

        def hit():
            if S.cur is S.tasks[0]:
                left[0] -= 1
                if left[0] == 0:
                    boot.FOCUS.clear()
                    self.stat("ki-in-" + ki["in"])
                    self._fire_ki()
        boot.FOCUS.clear()
        boot.FOCUS.update((c, hit) for c in boot.CODES[mod])

    def _fire_ki(self):
        t = S.tasks[0]
        if t.state == core.DONE or not self.extra.get("ki_armed", True):
            return
        if t.state == core.BLOCKED:
            f = sys._current_frames().get(t.thread)
            names = []
            while f is not None and len(names) < 40:
                names.append(f.f_code.co_name)
                f = f.f_back
            if {"start", "submit", "_adjust_thread_count"} & set(names):
                S.inject_at(S.step + 5, self._fire_ki)
                return
        exc = KeyboardInterrupt("injected")
        exc.injected = True
        self.extra["ki_fired"] = S.step
        self.extra["ki_exc"] = exc
        self.stat("fault:keyboard_interrupt")
        S.interrupt(t, exc)

    def disarm_ki(self):
        """no interrupt from here on; one that is still on its way is withdrawn"""
        self.extra["ki_armed"] = False
        boot.FOCUS.clear()
        t = S.tasks[0] if S.tasks else None
        if t is not None and t.pending_exc is not None and t.pending_exc is self.extra.get("ki_exc"):
            t.pending_exc = None
            self.extra.pop("ki_fired", None)
            self.extra.pop("ki_exc", None)
            self.stat("ki-withdrawn")

    def _fatal(self, kind, detail):
        try:
            stacks = S.stacks()
            S.active = False
            if self.fatal_ok is not None and self.fatal_ok(kind):
                self.stat("ignored-" + kind)
            else:
                self.violate(kind, json.dumps({"detail": detail, "phase": self.phase, "tasks": stacks})[:1400])
            self.steps += S.step
            self.deviations.append(list(S.deviations))
            self.finish()
        finally:
            os._exit(0)

    def finish(self):
        st = dict(self.stats)
        for k, v in fs.W.stats.items():
            if v > 0:
                st["fault:" + k] = st.get("fault:" + k, 0) + v
        res = {"violations": self.violations, "stats": st, "nontrivial": self.nontrivial, "steps": self.steps,
               "sim_time": self.sim_time, "switches": self.switches, "sigs": self.sigs, "dev": self.deviations,
               "tasks": self.ntasks}
        if self.trace:
            res["events"] = self.events
        shutil.rmtree(self.dir, ignore_errors=True)
        data = json.dumps(res, default=str).encode()
        if self.report_fd is not None:
            while data:
                n = fs._os["write"](self.report_fd, data)
                data = data[n:]
        return res


class ListHandler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))


def chain(exc):
    """all exceptions reachable through __cause__ / __context__ / groups"""
    seen, todo = [], [exc]
    while todo:
        e = todo.pop()
        if e is None or any(e is s for s in seen):
            continue
        seen.append(e)
        todo += [e.__cause__, e.__context__]
        if isinstance(e, BaseExceptionGroup):
            todo += list(e.exceptions)
    return seen


def exec_plan(prop, plan, report_fd=None, trace=False):
    """run one plan in this process (a forked child)"""
    boot.HASH_SALT[0] = plan.get("salt", 0)
    run = Run(plan, report_fd, trace)
    boot.seed_entropy(plan.get("salt", 0) + 1)
    fs.reset()
    methods.reset()
    lg = logging.getLogger()
    for h in list(lg.handlers):
        lg.removeHandler(h)
    run.log = ListHandler()
    lg.addHandler(run.log)
    if trace:
        fs.W.log = run.events
    try:
        prop.execute(plan, run)
    except BaseException as e:
        S.active = False
        shutil.rmtree(run.dir, ignore_errors=True)
        msg = json.dumps({"harness_error": "".join(traceback.format_exception(e))[-3000:]}).encode()
        if report_fd is not None:
            fs._os["write"](report_fd, msg)
            os._exit(3)
        raise
    return run.finish()


def watch(run, **roots):
    """declare which directories are simulated storage"""
    for role, path in roots.items():
        fs.W.roots.append((str(path), role))
