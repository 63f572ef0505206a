#!/usr/bin/env python3
"""selftest.py [N] [PROP...]: every plan executed four times (twice in each of two processes with different string hash seeds);
the complete event logs, step counts and outcomes have to be identical"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = int(sys.argv[1]) if len(sys.argv) > 1 else 30
props = sys.argv[2:] or [f"C{i:02}" for i in range(1, 20)]
bad = 0
with tempfile.TemporaryDirectory() as d:
    for p in props:
        procs = []
        for j, h in enumerate(("0", "4242")):
            env = dict(os.environ, VERIF_HASHSEED=h)
            env.pop("PYTHONHASHSEED", None)
            procs.append(subprocess.Popen([sys.executable, os.path.join(HERE, "check.py"), p, "--determinism", str(n), "--out", f"{d}/{j}"],
                                          env=env, stdout=subprocess.PIPE, text=True))
        outs = [q.communicate()[0].strip().splitlines()[-1] for q in procs]
        a, b = (json.load(open(f"{d}/{j}")) for j in range(2))
        diff = [k for k in a if a[k] != b[k]]
        ok = all(q.returncode == 0 for q in procs) and not diff
        bad += not ok
        print(p, "ok" if ok else f"BAD {outs} differ between processes: {diff[:10]}", flush=True)
sys.exit(bool(bad))
