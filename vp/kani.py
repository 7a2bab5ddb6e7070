"""Running Kani on a generated list of harnesses, and replaying what it reports.

A harness is one monomorphic instance of a generic body in /verif/harness.  The list
of one run is written to <work>/gen.rs, which the harness crate includes; Kani compiles
it together with the current source of /repo, and CBMC decides every assertion, bounds,
overflow and pointer check in it for all values of the symbolic inputs.
"""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")


class H:
    """One harness instance."""

    def __init__(self, name, expr, unwind, mode="hold", thorough=False, timeout=None,
                 solver=None, bounds="", covers=True, wrap_ok=False):
        self.name = re.sub(r"[^a-z0-9_]+", "_", name.lower()).strip("_")
        self.expr = expr          # Rust path of a fn()
        self.unwind = unwind
        self.mode = mode          # hold | panics
        self.thorough = thorough
        self.timeout = timeout
        self.solver = solver
        self.bounds = bounds
        self.covers = covers
        self.wrap_ok = wrap_ok    # mode panics: an arithmetic overflow counts as a panic

    def with_unwind(self, n):
        h = H(self.name, self.expr, n, self.mode, self.thorough, self.timeout,
              self.solver, self.bounds, self.covers, self.wrap_ok)
        return h


def env(gen):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["VP_GEN"] = gen
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_TERM_COLOR"] = "never"
    return e


def write_gen(path, hs):
    out = ["// Generated by vp/kani.py for one run.\n"]
    for h in hs:
        sol = f", kani::solver({h.solver})" if h.solver else ""
        out.append(f"#[cfg_attr(kani, kani::proof, kani::unwind({h.unwind}){sol})]\n"
                   f"pub fn {h.name}() {{ {h.expr}() }}\n")
    out.append("pub fn dispatch(name: &str) -> Option<fn()> {\n    match name {\n")
    for h in hs:
        out.append(f'        "{h.name}" => Some({h.name}),\n')
    out.append("        _ => None,\n    }\n}\n")
    text = "".join(out)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def run(cmd, e, timeout, cwd=HARNESS):
    """Run in its own process group; kill the whole group on timeout."""
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


class Result:
    def __init__(self, h):
        self.h = h
        self.status = "missing"      # ok | fail | unwind | timeout | vacuous | missing
        self.failed = []             # failing checks
        self.unsat_covers = []
        self.n_checks = 0
        self.n_covers = 0
        self.functions = set()
        self.time = 0.0
        self.solver_time = 0.0
        self.note = ""


MEMORY = ("pointer_dereference", "pointer", "array_bounds", "bounds_check", "safety_check",
          "precondition_instance", "memory", "pointer_primitives", "alignment", "pointer_arithmetic",
          "undefined-shift", "enum-range-check")


def is_unwind(c):
    return "unwind" in c["category"] or "unwinding assertion" in c["description"] \
        or "recursion" == c["category"]


def is_panic(c):
    """A failure that is a panic of the program, not undefined behaviour."""
    cat = c["category"]
    return cat in ("assertion", "arithmetic_overflow", "division-by-zero", "expect_fail")


def parse_time(s):
    try:
        return float(str(s).rstrip("s"))
    except ValueError:
        return 0.0


class BuildError(Exception):
    pass


class Kani:
    def __init__(self, work, jobs, log=print, crate=HARNESS):
        self.crate = crate        # the harness crate: /verif/harness, or one made for the run
        self.work = work
        self.jobs = jobs
        self.log = log
        self.n_runs = 0

    def prepare(self):
        """Compile /repo and the other dependencies once; the shards start from a copy."""
        base = os.path.join(self.work, "base")
        gen = os.path.join(self.work, "gen_none.rs")
        write_gen(gen, [H("nothing", "core::default::Default::default", 1)])
        rc, out = run(["cargo", "kani", "--lib", "--target-dir", base, "--only-codegen"], env(gen), 400, self.crate)
        if rc != 0:
            raise BuildError(out)
        return base

    def batch(self, hs, timeout_each, wall, tag="main"):
        """Verify `hs` in parallel shards; -> {name: Result}"""
        t = time.time()
        n = max(1, min(4, (len(hs) + 5) // 6))
        res = {h.name: Result(h) for h in hs}
        if len(res) != len(hs):
            raise ValueError("two harnesses of one name")
        base = self.prepare()
        jobs = max(1, (self.jobs + n - 1) // n + (1 if n > 1 else 0))
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(self.shard, base, f"{tag}{i}", hs[i::n], jobs, timeout_each,
                            wall - (time.time() - t), res) for i in range(n)]
            for f in fs:
                f.result()
        self.n_runs += 1
        self.log(f"  kani [{tag}]: {len(hs)} harnesses in {n} shards, {time.time() - t:.1f}s")
        return res

    def shard(self, base, tag, hs, jobs, timeout_each, wall, res):
        d = os.path.join(self.work, f"shard_{tag}")
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", base, d], check=True)
        gen = os.path.join(self.work, f"gen_{tag}.rs")
        write_gen(gen, hs)
        js = os.path.join(self.work, f"out_{tag}.json")
        if os.path.exists(js):
            os.remove(js)
        cmd = ["cargo", "kani", "--lib", "--target-dir", d,
               "-Z", "unstable-options", "--harness-timeout", f"{int(timeout_each)}s",
               "--export-json", js, "-j", str(jobs), "--output-format", "terse",
               "--no-assertion-reach-checks"]
        rc, out = run(cmd, env(gen), wall, self.crate)
        with open(os.path.join(self.work, f"log_{tag}.txt"), "w") as f:
            f.write(out)
        shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            for h in hs:
                res[h.name].status = "timeout"
                res[h.name].note = "the batch ran out of wall time"
            return
        if not os.path.exists(js):
            if "error: could not compile" in out or "error[E" in out:
                raise BuildError(out)
            for h in hs:
                res[h.name].note = out[-300:]
            return
        self.absorb(json.load(open(js)), res)

    def absorb(self, data, res):
        stats = {}
        for c in data.get("cbmc", []):
            s = c.get("cbmc_stats") or {}
            stats[c.get("harness_id", "")] = s
        for v in data.get("verification_results", {}).get("results", []):
            name = v["harness_id"].split("::")[-1]
            if name not in res:
                continue
            r = res[name]
            r.raw_status = v.get("status")
            r.time = (v.get("duration_ms") or 0) / 1000.0
            s = stats.get(v["harness_id"], {})
            r.solver_time = parse_time(s.get("runtime_solver_s", 0) or 0)
            checks = v.get("checks") or []
            panics = r.h.mode == "panics"
            unwind = []
            for c in checks:
                st = str(c["status"]).upper()
                cat = c["category"]
                if cat == "cover":
                    r.n_covers += 1
                    if st in ("UNSATISFIABLE", "UNREACHABLE"):
                        r.unsat_covers.append(c["description"])
                    continue
                r.n_checks += 1
                if c.get("function"):
                    r.functions.add(c["function"])
                if st in ("FAILURE",):
                    if is_unwind(c):
                        unwind.append(c)
                    elif panics and is_panic(c) and "VP: " not in c["description"] \
                            and (c["category"] != "arithmetic_overflow" or r.h.wrap_ok):
                        pass
                    else:
                        r.failed.append(c)
            if not checks:
                r.status = "timeout" if r.time >= 1 else "missing"
                r.note = "no result within the time limit"
            elif r.failed:
                r.status = "fail"
            elif unwind:
                r.status = "unwind"
                r.note = "; ".join(sorted({c.get("function", "") for c in unwind}))[:300]
            elif r.unsat_covers and r.h.covers:
                r.status = "vacuous"
                r.note = "; ".join(r.unsat_covers)
            else:
                r.status = "ok"

    def playback(self, h, wall):
        """Solver assignments for a failing harness: [(what, [[bytes]...])]"""
        gen = os.path.join(self.work, "gen_replay.rs")
        write_gen(gen, [h])
        cmd = ["cargo", "kani", "--lib", "--target-dir", os.path.join(self.work, "kani"),
               "-Z", "unstable-options", "-Z", "concrete-playback", "--concrete-playback=print",
               "--no-slice-formula", "--no-assertion-reach-checks", "--harness-timeout", f"{int(wall)}s"]
        rc, out = run(cmd, env(gen), wall + 120, self.crate)
        with open(os.path.join(self.work, f"log_playback_{h.name}.txt"), "w") as f:
            f.write(out)
        return parse_playback(out)

    def native(self, hs, profile):
        gen = os.path.join(self.work, "gen_native.rs")
        write_gen(gen, hs)
        cmd = ["cargo", "build", "--bin", "replay", "--target-dir", os.path.join(self.work, "native")]
        if profile == "release":
            cmd.append("--release")
        rc, out = run(cmd, env(gen), 300)
        if rc != 0:
            self.log(out[-2000:])
            return None
        return os.path.join(self.work, "native", "release" if profile == "release" else "debug", "replay")


def parse_playback(out):
    """Kani prints one unit test per failing check or satisfied cover."""
    tests = []
    for m in re.finditer(r"/// Test generated for harness[^\n]*\n(.*?)\nfn kani_concrete_playback_\w+\(\) \{(.*?)\n\}",
                         out, re.S):
        head, body = m.group(1), m.group(2)
        w = re.search(r"/// Check for `?([^`\n:]*)`?: \"+(.*?)\"+\s*$", head, re.S | re.M)
        what = w.group(2) if w else head.strip()
        kind = w.group(1) if w else ""
        vals = []
        vm = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*)\];", body, re.S)
        if vm:
            for x in re.finditer(r"vec!\[([0-9,\s]*)\]", vm.group(1)):
                vals.append([int(b) for b in x.group(1).split(",") if b.strip()])
        tests.append((kind, what, vals))
    return tests


def replay_native(binary, name, vals, timeout=60, miri=None):
    """-> (reproduced?, text)"""
    text = "\n".join(" ".join(map(str, v)) for v in vals) + "\n"
    try:
        p = subprocess.run([binary, name], input=text.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False, "native replay did not finish"
    return p.returncode, p.stdout.decode(errors="replace")
