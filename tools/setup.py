#!/usr/bin/env python3
"""Checks that the installed tools are there and that /repo builds under Kani."""
import os
import shutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import kani  # noqa: E402

for tool in ("cargo", "cargo-kani"):
    if not shutil.which(tool):
        sys.exit(f"{tool} is missing")
work = os.path.join(V, ".work", "setup")
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
try:
    kani.Kani(work, 2).prepare()
except kani.BuildError as e:
    print(str(e)[-3000:])
    sys.exit("the harness crate does not build under Kani")
finally:
    shutil.rmtree(work, ignore_errors=True)
print("ready")
