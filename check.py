#!/usr/bin/env python3
"""check.py PROP [--replay FILE] [--runs N] [--seconds S] [--one INDEX]"""
import argparse
import importlib
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--replay")
ap.add_argument("--runs", type=int)
ap.add_argument("--seconds", type=float)
ap.add_argument("--one", type=int)
ap.add_argument("--determinism", type=int, help="run N plans twice and compare event logs")
ap.add_argument("--out", help="write the event logs of --determinism here")
ap.add_argument("--serve", action="store_true", help="answer the reference evaluations of another process image")
ap.add_argument("--no-evidence", action="store_true")
args = ap.parse_args()

import sim.boot as boot
from sim import explore, fs, runner_main

sys.exit(runner_main.main(args, HERE))
