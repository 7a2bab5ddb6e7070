"""From Kani's results to a verdict: replay, known findings, evidence."""
import json
import os
import subprocess
import time

from . import c13, kani, registry

VERIF = kani.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(prop):
    """Lines `known: property=<id> harness=<name> check=<text> -- <what fails>`."""
    out = []
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return out
    for l in lines:
        if not l.startswith("known: "):
            continue
        head, _, what = l[len("known: "):].partition(" -- ")
        f = {}
        for part in head.split(" | "):
            a, _, b = part.partition("=")
            f[a.strip()] = b.strip()
        if f.get("property") == prop:
            out.append((f, what))
    return out


def describe(c):
    d = c["description"].replace('concat! ("VP: ", "', "").rstrip('")')
    loc = c.get("location") or {}
    return f"{d} [{c['category']}] in {c.get('function', '?')} ({os.path.basename(str(loc.get('file', '?')))}:{loc.get('line', '?')})"


class Report:
    def __init__(self, prop, tier, hs, res, k, work, start, extra):
        self.prop, self.tier, self.hs, self.res, self.k = prop, tier, hs, res, k
        self.work, self.start, self.extra = work, start, extra
        self.violations = []
        self.replays = []

    # -- replay -----------------------------------------------------------------

    def replay(self, h, r, left):
        """-> path of a replay file if a counterexample shows on the real code."""
        tests = self.k.playback(h, max(60, min(300, left() - 60)))
        tests = [t for t in tests if t[0] != "cover" and "cover" not in t[0]]
        fails = {c["description"] for c in r.failed}
        tests.sort(key=lambda t: 0 if t[1] in fails or "VP" in t[1] else 1)
        if not tests:
            print(f"  {h.name}: no solver assignment obtained")
            return None
        if self.prop == "C13":
            for kind, what, vals in tests[:4]:
                shows, out = c13.replay(self.work, h, vals)
                print(f"  {h.name} [{what[:80]}]: {shows or 'does not show on the compiled crate'}")
                if shows:
                    return self.write(h, r, what, vals, "compiled crate", shows, out)
            return None
        bins = {}
        for prof in ("dev", "release"):
            b = self.k.native([h], prof)
            if b:
                bins[prof] = b
        for kind, what, vals in tests[:12]:
            for prof, b in bins.items():
                rc, out = kani.replay_native(b, h.name, vals)
                how = self.shows(h, rc, out)
                print(f"  {h.name} [{what[:80]}] {prof}: rc={rc} {how or 'does not show'}")
                if how:
                    return self.write(h, r, what, vals, prof, how, out)
        # undefined behaviour that happens not to crash
        for kind, what, vals in tests[:4]:
            if left() < 45:
                break
            rc, out = self.miri(h, vals, left)
            if rc not in (0, 77, 78) and "Undefined Behavior" in out:
                return self.write(h, r, what, vals, "miri", "undefined behaviour under Miri", out[-3000:])
            print(f"  {h.name} [{what[:80]}] miri: rc={rc}")
        return None

    def shows(self, h, rc, out):
        if isinstance(rc, bool):
            return "does not terminate" if "did not finish" in out and h.mode == "hold" else None
        if rc < 0:
            return f"killed by signal {-rc}"
        if rc == 101:
            if h.mode == "hold" or "VP: " in out:
                return "panics: " + next((l for l in out.splitlines()[1:] if l.strip()), "")[:200]
        if rc in (132, 134, 136, 138, 139):
            return f"crashes (status {rc})"
        return None

    def miri(self, h, vals, left):
        gen = os.path.join(self.work, "gen_native.rs")
        kani.write_gen(gen, [h])
        e = kani.env(gen)
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        e["MIRI_SYSROOT"] = os.environ.get("MIRI_SYSROOT", "")
        if not e["MIRI_SYSROOT"]:
            del e["MIRI_SYSROOT"]
        text = "\n".join(" ".join(map(str, v)) for v in vals) + "\n"
        try:
            p = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--bin", "replay", "--target-dir",
                                os.path.join(self.work, "miri"), "--", h.name], env=e, cwd=kani.HARNESS,
                               input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=max(30, min(200, left() - 20)))
        except subprocess.TimeoutExpired:
            return 78, "timeout"
        return p.returncode, p.stdout.decode(errors="replace")

    def write(self, h, r, what, vals, prof, how, out):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{h.name}.json")
        json.dump({"property": self.prop, "harness": h.name, "expr": h.expr, "unwind": h.unwind, "mode": h.mode,
                   "bounds": h.bounds, "failed_checks": [describe(c) for c in r.failed],
                   "check": what, "profile": prof, "shows": how, "values": vals, "output": out[-3000:],
                   "rerun": f"python3 /verif/replay.py {path}"}, open(path, "w"), indent=1)
        return path

    # -- verdict ----------------------------------------------------------------

    def conclude(self, left):
        res = self.res
        rc = 0
        failed = [h for h in self.hs if res[h.name].status == "fail"]
        failed.sort(key=lambda h: res[h.name].time)
        kn = known(self.prop)
        fresh, listed = [], []
        for h in failed:
            hit = [what for f, what in kn if f.get("harness") == h.name
                   and all(f.get("check", "") in describe(c) for c in res[h.name].failed)]
            (listed if hit else fresh).append(h)
            for what in hit[:1]:
                print(f"KNOWN-FINDING: property={self.prop} {what}")
        for h in fresh:
            print(f"  {h.name} fails ({h.bounds}):")
            for c in res[h.name].failed[:6]:
                print(f"    {describe(c)}")
        if fresh:
            rc = 2
            for h in fresh[:5]:
                if left() < 60:
                    break
                path = self.replay(h, res[h.name], left)
                if path:
                    self.replays.append(path)
                    self.violations.append(h.name)
                    print(f"VIOLATION property={self.prop} replay={path}")
                    rc = 1
                    break
            if rc == 2:
                print(f"ERROR property={self.prop}: counterexamples found, none shows on the real code")
        # The compiled crate contradicts the property where the transformed copy does not.
        for v in self.extra:
            if v.get("contradicts") and rc != 1:
                h = kani.H(f"compiled_{v['b']}_k{v['k']}", f"{c13.MODS[v['b']]}, {v['k']} variants", 0)
                path = self.write(h, kani.Result(h), v["contradicts"], [], "compiled crate", v["contradicts"], "")
                self.replays.append(path)
                self.violations.append(v["name"])
                print(f"VIOLATION property={self.prop} replay={path}")
                rc = 1
        if rc == 0:
            bad = [h for h in self.hs if res[h.name].status not in ("ok", "fail")]
            for h in bad:
                print(f"ERROR property={self.prop}: {h.name}: {res[h.name].status} {res[h.name].note}")
                rc = 2
        self.evidence(rc)
        if rc == 0:
            n = sum(r.n_checks for r in res.values())
            print(f"OK property={self.prop} tier={self.tier}: {len(self.hs)} harnesses, {n} checks hold, "
                  f"{time.time() - self.start:.0f}s")
        return rc

    def evidence(self, rc):
        res = self.res
        done = [h for h in self.hs if res[h.name].status in ("ok", "fail")]
        fns = set()
        for r in res.values():
            fns |= r.functions
        own = sorted(f for f in fns if f.startswith(("enum_vec::", "enum_like::", "enum_set", "<enum_vec", "<enum_like",
                                                     "<enum_set")) or "enum_vec::" in f or "enum_like::" in f
                     or "enum_set" in f)
        samples = [{"harness": h.name, "instance": h.expr, "mode": h.mode, "bounds": h.bounds,
                    "checks": res[h.name].n_checks, "covers": res[h.name].n_covers, "status": res[h.name].status,
                    "seconds": res[h.name].time, "solver_seconds": res[h.name].solver_time} for h in self.hs]
        ex = [{k: v for k, v in x.items() if k != "log"} for x in self.extra]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": {
                "explanation": "Bounded symbolic execution of the real Rust code by Kani (rustc MIR -> CBMC -> SAT). "
                               "Each harness is one monomorphic instance; every assertion, panic, overflow, bounds, "
                               "pointer and unwinding check in it was decided for all values of its symbolic inputs "
                               "within the harness's bounds. Cover conditions show the harness is not vacuous. "
                               + registry.NOTE.get(self.prop, ""),
                "obligations": sum(r.n_checks for r in res.values()),
                "discharged": sum(r.n_checks - len(r.failed) for r in res.values() if r.status in ("ok", "fail")),
                "harnesses": len(self.hs),
                "harnesses_decided": len(done),
                "covers_witnessed": sum(r.n_covers - len(r.unsat_covers) for r in res.values()),
                "solver_seconds": round(sum(r.solver_time for r in res.values()), 2),
                "harness_seconds": round(sum(r.time for r in res.values()), 1),
                "checker_cmd": f"python3 /verif/check.py {self.prop} {self.tier}",
                "trusted_base": ["rustc (Kani's nightly) front end", "Kani 0.68.0", "CBMC", "CaDiCaL",
                                 "the harness bodies in /verif/harness/src"],
                "functions_encoded": own,
                "n_functions_total": len(fns),
                "source": "every run recompiles /repo's working tree",
                "outside": registry.OUTSIDE.get(self.prop, ""),
                "samples": samples,
                "other_steps": ex,
                "replays": self.replays,
            },
            "assumptions": registry.ASSUME,
            "wall_s": round(time.time() - self.start, 1),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.prop}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, f"{self.prop}.json"))
