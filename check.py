#!/usr/bin/env python3
"""Decide one property of /repo:  check.py <property> [quick|thorough]

Exit 0: the solver found every obligation to hold within the stated bounds.
Exit 1: a violation that was replayed on the real code (line `VIOLATION property=... replay=...`).
Exit 2: no verdict (build error, time limit, vacuous harness, counterexample that does not replay).
"""
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import c13, kani, registry, report  # noqa: E402

START = time.time()


def main():
    prop = sys.argv[1].upper()
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    limit = 840 if tier == "quick" else 6 * 3600
    work = os.path.join(kani.VERIF, ".work", f"{prop}_{tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rc = 2
    try:
        rc = decide(prop, tier, limit, work)
    except kani.BuildError as e:
        print(str(e)[-4000:])
        print(f"ERROR property={prop}: /repo or the harness does not build under Kani")
    finally:
        for d in os.listdir(work):
            p = os.path.join(work, d)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
    sys.exit(rc)


def left(limit):
    return limit - (time.time() - START)


def decide(prop, tier, limit, work):
    jobs = min(8, os.cpu_count() or 8)
    extra = []
    if prop == "C13":
        hs, k, extra = c13.setup(work, tier, jobs)
    else:
        hs = registry.REG[prop]()
        k = kani.Kani(work, jobs)
    hs = [h for h in hs if tier == "thorough" or not h.thorough]
    seen = {}
    hs = [seen.setdefault(h.name, h) for h in hs if h.name not in seen]
    each = 280 if tier == "quick" else 1500
    res = k.batch(hs, each, left(limit) - 60)

    # A loop that runs more often than the harness allows for is not an answer: allow more.
    for factor in (2, 4):
        more = [h for h in hs if res[h.name].status == "unwind"]
        if not more or left(limit) < 90 or any(r.status == "fail" for r in res.values()):
            break
        print(f"  {len(more)} harnesses need a larger unwinding bound")
        again = k.batch([h.with_unwind(h.unwind * factor + 2) for h in more], each, left(limit) - 60, f"unwind{factor}_")
        res.update(again)
    # Whatever got no verdict (memory, time) is tried once more, with the machine to itself.
    lost = [h for h in hs if res[h.name].status in ("missing", "timeout")]
    if lost and left(limit) > 150 and not any(r.status == "fail" for r in res.values()):
        print(f"  {len(lost)} harnesses got no verdict: {[(h.name, res[h.name].note) for h in lost][:5]}; again")
        k2 = kani.Kani(work, min(4, len(lost)), crate=k.crate)
        again = k2.batch(lost, left(limit) - 90, left(limit) - 60, "again_")
        res.update(again)

    r = report.Report(prop, tier, hs, res, k, work, START, extra)
    return r.conclude(lambda: left(limit))


main()
