#!/usr/bin/env python3
"""Replay a recorded counterexample on the real code:  replay.py <replays/....json>"""
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import c13, kani  # noqa: E402

d = json.load(open(sys.argv[1]))
h = kani.H(d["harness"], d["expr"], d["unwind"], d["mode"])
work = tempfile.mkdtemp(prefix="vp_replay_")
try:
    if d["property"] == "C13":
        print(*c13.replay(work, h, d["values"]), sep="\n")
        sys.exit(0)
    k = kani.Kani(work, 4)
    for prof in ("dev", "release"):
        b = k.native([h], prof)
        rc, out = kani.replay_native(b, h.name, d["values"])
        print(f"== {prof}: status {rc}\n{out}")
finally:
    shutil.rmtree(work, ignore_errors=True)
