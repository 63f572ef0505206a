import importlib
import json
import os
import random
import sys
from . import boot, explore, foreign, fs

LEVEL = "exploration"


def main(args, here):
    prop = importlib.import_module("props." + args.prop.lower())
    if args.serve:
        return foreign.serve(prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    base = int(os.environ.get("VERIF_SEED", "1"))
    if args.replay:
        plan = json.load(fs._open(args.replay))["plan"]
        res = explore.run_forked(prop, plan, trace=True)
        viol, err = explore.judge(prop, res)
        if err:
            print("harness error:", err)
            return 2
        for v in viol:
            print("violation:", v["kind"], v["detail"])
        if viol:
            print(f"VIOLATION property={prop.ID} replay={args.replay}")
            return 1
        print("replay: property held")
        return 0
    if args.one is not None:
        seed = explore.seed_of(base, prop.ID, args.one)
        plan = prop.gen(random.Random(seed), tier, args.one)
        plan["seed"] = seed
        print(json.dumps(plan)[:6000])
        res = explore.run_forked(prop, plan)
        res["dev"] = None
        print(json.dumps(res, indent=1)[:6000])
        return 0
    if args.determinism:
        return determinism(prop, tier, base, args)

    n, cap = prop.BUDGET[tier]
    if args.runs:
        n = args.runs
    if args.seconds:
        cap = args.seconds
    st = explore.explore(prop, tier, base, n, cap, int(os.environ.get("VERIF_STOP", "6")))
    findings, real = {}, []
    for i, plan, viol in st.violations:
        f = explore.match_known(prop.ID, viol)
        if f is not None:
            findings[f["what"]] = f
        else:
            real.append((i, plan, viol))
    for w in findings:
        print(f"KNOWN-FINDING: property={prop.ID} {w}")
    rc = 0
    minimised = None
    if real:
        i, plan, viol = real[0]
        best, bviol, tried = explore.minimise(prop, plan, viol, budget=float(os.environ.get("VERIF_MINIMISE", 45.0)))
        d = os.path.join(here, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop.ID}-{plan['seed']:x}.json")
        # the replay has to reproduce in a fresh process image; fall back to the unshrunk plan otherwise
        res = explore.run_forked(prop, best)
        v2, err = explore.judge(prop, res)
        if err or not v2:
            best, bviol = plan, viol
        with fs._open(path, "w") as f:
            json.dump({"property": prop.ID, "seed": plan["seed"], "index": i, "verif_seed": base, "violations": bviol,
                       "plan": best, "minimisation_runs": tried}, f, indent=1)
        for v in bviol[:6]:
            print("violation:", v["kind"], v["detail"][:900])
        print(f"seed={plan['seed']} index={i} minimised in {tried} runs")
        print(f"VIOLATION property={prop.ID} replay={path}")
        rc = 1
        minimised = path
    elif st.errors:
        print("harness errors:", len(st.errors), st.errors[0][1][-3000:], file=sys.stderr)
        rc = 2
    missing = [p for p in getattr(prop, "PROBES", []) if not st.counts.get(p)]
    if missing and rc == 0 and st.runs >= n * 0.5:
        print("note: reach probes at zero:", ", ".join(missing))
    if not args.no_evidence:
        write_evidence(prop, tier, base, st, here, rc, len(real), findings)
    rate = st.runs / max(st.wall, 1e-9) * 3600
    print(f"{prop.ID}: {st.runs} runs in {st.wall:.1f}s ({rate:.0f}/h), {len(st.sched_sigs)} distinct interleavings, "
          f"{len(real)} violating runs, {len(st.errors)} errors")
    if os.environ.get("VERIF_SHOW"):
        print(json.dumps(st.counts, indent=0, sort_keys=True))
        for i, plan, viol in st.violations:
            print(i, viol[0]["kind"], viol[0]["detail"][:300])
    return rc


def write_evidence(prop, tier, base, st, here, rc, n_viol, findings):
    faults = {k[6:]: v for k, v in sorted(st.counts.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(st.counts.items()) if not k.startswith("fault:")}
    cov = {
        "evaluations": st.runs,
        "distinct_nontrivial": len(st.nontrivial),
        "rule": prop.RULE,
        "samples": st.samples[:2],
        "simulated_runs": st.runs,
        "seeds_per_hour": round(st.runs / max(st.wall, 1e-9) * 3600),
        "simulated_seconds": round(st.sim_time, 3),
        "scheduler_steps": st.steps,
        "context_switches": st.switches,
        "distinct_interleavings": len(st.sched_sigs),
        "interleaving_measure": "hash of (workload, faults, sequence of (step, task) context switches)",
        "faults_injected": faults,
        "reach_probes": probes,
        "real_components": prop.REAL if hasattr(prop, "REAL") else [
            "sd_mecha (all of it)", "concurrent.futures.ThreadPoolExecutor / as_completed", "torch CPU kernels", "io buffering layers",
            "kernel file system (scratch directory)"],
        "stub_components": prop.STUB if hasattr(prop, "STUB") else [
            "thread scheduler (baton passing)", "threading.Lock/RLock, queue.SimpleQueue, Thread.join", "clocks and sleep",
            "raw file objects (real files behind a fault-injecting io.FileIO)", "progress bar (recorder)"],
        "known_findings": sorted(findings),
    }
    ev = {"property": prop.ID, "tier": tier, "seed": base, "level": LEVEL, "coverage": cov,
          "assumptions": getattr(prop, "ASSUMPTIONS", []), "wall_s": round(st.wall, 2), "violations": n_viol}
    d = os.path.join(here, "evidence")
    os.makedirs(d, exist_ok=True)
    with fs._open(os.path.join(d, prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def determinism(prop, tier, base, args):
    out, bad = {}, 0
    for i in range(args.determinism):
        seed = explore.seed_of(base, prop.ID, i)
        plan = prop.gen(random.Random(seed), tier, i)
        plan["seed"] = seed
        logs = []
        for _ in range(2):
            r = explore.run_forked(prop, plan, trace=True)
            logs.append(json.dumps([r.get("events"), r.get("dev"), r.get("steps"), r.get("sigs"), r.get("violations"), r.get("died"), r.get("timeout"), r.get("harness_error")]))
        if logs[0] != logs[1]:
            bad += 1
            print("nondeterministic:", i)
        import hashlib
        out[i] = hashlib.md5(logs[0].encode()).hexdigest()
    if args.out:
        with fs._open(args.out, "w") as f:
            json.dump(out, f)
    print(f"{prop.ID}: {args.determinism} plans twice, {bad} differ")
    return 1 if bad else 0
