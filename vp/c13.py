"""C13: the layout constants for a symbolic number of variants.

`T::NUM_VARIANTS` is a compile-time constant, so compiled code cannot be run with a
symbolic one.  /repo/enum_vec is therefore copied, and in the copy every associated
constant that depends on NUM_VARIANTS (found transitively) becomes a function of the
same name and body, and `T::NUM_VARIANTS` becomes `vp_sym::nv()`, a variable.  A
constant whose evaluation fails (a compile error in the real crate) becomes a panic.
Nothing else of the crate changes.  If the source has a form this cannot handle, the
copy does not build and concrete instances of the real crate are used instead.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import time

from . import kani
from .kani import H
from .registry import SBS, groups

MODS = {"U8": "vec_u8", "U16": "vec_u16", "U32": "vec_u32", "U64": "vec_u64", "U128": "vec_u128",
        "SM": "smallvec_u32"}
BLOCK = {"U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "U128": "u128", "SM": "u32"}
REPO = "/repo"


def top(b):
    return 1 << min(SBS[b], 63)


# ------------------------------------------------------------------ source transformation

def strip(src):
    """Without comments; string and char literals are kept."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        two = src[i:i + 2]
        if two == "//":
            while i < n and src[i] != "\n":
                i += 1
        elif two == "/*":
            depth = 1
            i += 2
            while i < n and depth:
                if src[i:i + 2] == "/*":
                    depth += 1
                    i += 2
                elif src[i:i + 2] == "*/":
                    depth -= 1
                    i += 2
                else:
                    i += 1
            out.append(" ")
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append(src[i:j + 1])
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                out.append(m.group(0))
                i += len(m.group(0))
            else:
                out.append(c)
                i += 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


def match_brace(s, i):
    depth = 0
    while i < len(s):
        if s[i] == "{":
            depth += 1
        elif s[i] == "}":
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError("unbalanced braces")


def drop_tests(s):
    while True:
        m = re.search(r"#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{", s)
        if not m:
            return s
        s = s[:m.start()] + s[match_brace(s, m.end() - 1) + 1:]


NV = re.compile(r"(?:<\s*\w+\s+as\s+(?:::)?(?:\w+::)*EnumLike\s*>|\b[A-Z]\w*)\s*::\s*NUM_VARIANTS\b")
CONST = re.compile(r"\bconst\s+([A-Z_]\w*)\s*:\s*([^=;]+?)\s*=\s*", re.S)


def end_of_expr(s, i):
    depth = 0
    while i < len(s):
        c = s[i]
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == ";" and depth == 0:
            return i
        i += 1
    raise ValueError("constant without end")


def function(name, ty, body):
    """The constant as a function; evaluated once per choice of the number of variants,
    as a constant is (there is one element type, so a static inside will do)."""
    head = f"#[allow(non_snake_case, dead_code, static_mut_refs)] fn {name}() -> {ty} {{ "
    if not re.fullmatch(r"\(\)|\w\w+", ty) or ty == "Self":
        return head + body + " }"
    return head + f"""static mut MEMO: Option<({ty}, usize)> = None;
        unsafe {{
            if let Some((v, t)) = MEMO {{ if t == crate::vp_sym::time() {{ return v; }} }}
            let v: {ty} = {{ {body} }};
            MEMO = Some((v, crate::vp_sym::time()));
            v
        }} }}"""


def transform(sources):
    """{path: text} -> {path: text}, {converted constants}"""
    src = {p: drop_tests(strip(t)) for p, t in sources.items()}
    dep = set()
    changed = True
    while changed:
        changed = False
        for p, s in src.items():
            for m in CONST.finditer(s):
                name = m.group(1)
                if name in dep or name == "_":
                    continue
                body = s[m.end():end_of_expr(s, m.end())]
                if NV.search(body) or any(re.search(r"::\s*%s\b" % d, body) for d in dep):
                    dep.add(name)
                    changed = True
            # const fns that reach NUM_VARIANTS
            for m in re.finditer(r"\bconst\s+((?:unsafe\s+)?fn\s+(\w+))", s):
                b = s.index("{", m.end())
                body = s[b:match_brace(s, b)]
                if "fn " + m.group(2) not in dep and (
                        NV.search(body) or any(re.search(r"::\s*%s\b" % re.escape(d.split(" ")[-1]), body) for d in dep)):
                    dep.add("fn " + m.group(2))
                    changed = True
    out = {}
    for p, s in src.items():
        # from the back, so that positions stay valid
        for m in reversed(list(CONST.finditer(s))):
            if m.group(1) in dep:
                e = end_of_expr(s, m.end())
                s = s[:m.start()] + function(m.group(1), m.group(2), s[m.end():e]) + s[e + 1:]
        for d in dep:
            if d.startswith("fn "):
                s = re.sub(r"\bconst\s+((?:unsafe\s+)?fn\s+%s\b)" % d[3:], r"\1", s)
            else:
                s = re.sub(r"::\s*%s\b(?!\s*\()" % d, f"::{d}()", s)
        s = NV.sub("crate::vp_sym::nv()", s)
        s = re.sub(r"\bconst\s*\{", "{", s)
        out[p] = s
    return out, dep


SYM = '''
#[allow(missing_docs, static_mut_refs)]
pub mod vp_sym {
    static mut NV: usize = 2;
    static mut TIME: usize = 0;
    pub fn nv() -> usize { unsafe { NV } }
    pub fn time() -> usize { unsafe { TIME } }
    pub fn set(n: usize) { unsafe { NV = n; TIME += 1; } }
}
'''


def prepare(work):
    """-> (harness crate directory, set of converted constants)"""
    crate = os.path.join(work, "sym", "enum_vec")
    shutil.copytree(os.path.join(REPO, "enum_vec"), crate, ignore=shutil.ignore_patterns("target", "benches", "tests"))
    paths = {}
    for d, _, fs in os.walk(os.path.join(crate, "src")):
        for f in fs:
            if f.endswith(".rs"):
                paths[os.path.join(d, f)] = open(os.path.join(d, f)).read()
    new, dep = transform(paths)
    root = os.path.join(crate, "src", "lib.rs")
    for p, t in new.items():
        open(p, "w").write(t.replace("#![deny(missing_docs)]", "") + (SYM if p == root else ""))
    h = os.path.join(work, "sym", "harness")
    crate_at(h, crate)
    return h, dep


def crate_at(h, enum_vec, features=""):
    """The harness crate, against the enum_vec in the given directory."""
    os.makedirs(os.path.join(h, "src"))
    t = open(os.path.join(kani.VERIF, "harness_sym", "lib.rs")).read().replace("@VERIF@", kani.VERIF)
    open(os.path.join(h, "src", "lib.rs"), "w").write(t)
    open(os.path.join(h, "Cargo.toml"), "w").write(f'''[package]
name = "vp_harness_sym"
version = "0.1.0"
edition = "2021"
[features]
default = [{features}]
concrete = []
[dependencies]
enum_vec = {{ path = "{enum_vec}", features = ["smallvec"] }}
enum_like = {{ path = "{REPO}/enum_like" }}
[patch.crates-io]
enum_like = {{ path = "{REPO}/enum_like" }}
enum_like_derive = {{ path = "{REPO}/enum_like_derive" }}
[lints.rust]
unexpected_cfgs = {{ level = "allow" }}
[workspace]
''')
    return h


def harnesses():
    out = []
    for b, m in MODS.items():
        t = top(b)
        for lo, hi in groups(b):
            ks = f"{m}, every number of variants from {(1 << (lo - 1)) + 1} to {1 << hi} ({lo} to {hi} bits)"
            out.append(H(f"layout_{b}_w{lo}", f"crate::{m}::layout::<{lo}, {hi}>", 3,
                         bounds=ks + ", every slot, every discriminant"))
            out.append(H(f"block_{b}_w{lo}", f"crate::{m}::block::<{lo}, {hi}>", 6, bounds=ks))
        out.append(H(f"reject_{b}", f"crate::{m}::reject::<0>", 6, mode="panics", wrap_ok=True,
                     bounds=f"{m}, every number of variants below 2 or above {t}"))
    return out


def concrete():
    """The same bodies on the crate itself, at the boundaries of every width."""
    out = []
    for b, m in MODS.items():
        ks = {k for lo, hi in groups(b) for w in (lo, hi) for k in ((1 << (w - 1)) + 1, 1 << w)}
        for k in sorted(k for k in ks if 2 <= k <= top(b)):
            out.append(H(f"layout_{b}_k{k}", f"crate::{m}::layout::<{k}, 0>", 3,
                         bounds=f"{m}, {k} variants, every slot, every discriminant"))
            out.append(H(f"block_{b}_k{k}", f"crate::{m}::block::<{k}, 0>", 6, bounds=f"{m}, {k} variants"))
    return out


# ------------------------------------------------------------------ the real crate, natively

PROBE = '''
use enum_like::EnumLike;
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct N<const K: usize>(pub usize);
unsafe impl<const K: usize> EnumLike for N<K> {
    const NUM_VARIANTS: usize = K;
    fn to_discr(self) -> usize { self.0 }
    fn from_discr(x: usize) -> Self { N(x) }
}
#[allow(unused_macros)]
macro_rules! probe { ($m:ident, $sbs:expr, $k:expr) => {{
    use enum_vec::$m::EnumVec;
    const K: usize = $k;
    let mut v = EnumVec::<N<K>>::new();
    unsafe { v.storage_mut().push(!0) };
    let w = if K > 1 { (usize::BITS - (K - 1).leading_zeros()) as usize } else { 0 };
    let epb = if w > 0 { $sbs / w } else { 0 };
    unsafe { v.set_raw_unchecked(0, 0) };
    let bits = v.storage()[0].count_zeros() as usize;
    let per_block = v.capacity() / v.storage().capacity();
    unsafe { v.storage_mut().clear(); v.set_len(0); }
    let mut n = 0;
    while v.storage().len() < 2 { v.push(N(K - 1)); n += 1; }
    let back = v.get(0) == Some(N(K - 1)) && v.get(n - 1) == Some(N(K - 1));
    println!("{} {} {} {} {} {} {} {} {}", stringify!($m), K, bits, w, per_block, epb, n - 1, back,
        if bits == w && per_block == epb && n - 1 == epb && back { "good" } else { "BAD" });
}}; }
'''


class Probe:
    """Compiles small programs against the real enum_vec with the stable compiler."""

    def __init__(self, work):
        self.work = os.path.join(work, "probe")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(self.work, "src"))
        with open(os.path.join(self.work, "Cargo.toml"), "w") as f:
            f.write(f'''[package]
name = "vp_probe"
version = "0.1.0"
edition = "2021"
[dependencies]
enum_vec = {{ path = "{REPO}/enum_vec", features = ["smallvec"] }}
enum_like = {{ path = "{REPO}/enum_like" }}
[patch.crates-io]
enum_like = {{ path = "{REPO}/enum_like" }}
enum_like_derive = {{ path = "{REPO}/enum_like_derive" }}
[workspace]
''')
        open(os.path.join(self.work, "src", "lib.rs"), "w").write("")
        rc, out = self.cargo(["cargo", "build", "--lib"])
        if rc != 0:
            raise kani.BuildError(out)
        self.deps = os.path.join(self.work, "target", "debug", "deps")
        # the probes' own enum_like must be the one enum_vec was built with
        self.ext = []
        for c in ("enum_vec", "enum_like"):
            libs = [f for f in os.listdir(self.deps) if re.match(r"lib%s-[0-9a-f]+\.rlib$" % c, f)]
            self.ext += ["--extern", f"{c}={os.path.join(self.deps, libs[0])}"]

    def cargo(self, cmd):
        e = kani.env("/dev/null")
        return kani.run(cmd, e, 200, cwd=self.work)

    def run(self, name, points):
        """points: [(backend, K)] -> (compiled, output)"""
        src = os.path.join(self.work, f"{name}.rs")
        exe = os.path.join(self.work, name)
        body = "".join(f"    probe!({MODS[b]}, {SBS[b]}, {k});\n" for b, k in points)
        open(src, "w").write(PROBE + "fn main() {\n" + body + "}\n")
        p = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", "-C", "debuginfo=0", "-o", exe, src,
                            "-L", f"dependency={self.deps}"] + self.ext,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        out = p.stdout.decode(errors="replace")
        if p.returncode != 0:
            return False, out
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            return True, p.stdout.decode(errors="replace") + (f"\nexit status {p.returncode}" if p.returncode else "")
        except subprocess.TimeoutExpired:
            return True, "does not finish"


def judge(b, k, compiled, out):
    """-> what is wrong with the real crate at (b, k), or None"""
    ok = 2 <= k <= top(b)
    if ok and not compiled:
        if "E0080" in out or "evaluation" in out:
            return f"a type with {k} variants is rejected at compile time: " + first_error(out)
        return None
    if ok and "good" not in out.split():
        return f"a type with {k} variants: module, K, bits, wanted, per block, wanted, measured, reads back = {out.strip()[:300]}"
    if not ok and compiled:
        return f"a type with {k} variants is accepted at compile time"
    return None


def first_error(out):
    return next((l for l in out.splitlines() if l.startswith("error")), "")[:200]


def points(deep):
    """Numbers of variants at which the transformed copy is compared with the compiled crate."""
    good, bad = [], []
    for b in MODS:
        ws = range(1, min(SBS[b], 63) + 1)
        ks = set()
        for w in ws:
            ks |= {1 << w}
            if deep or w % 4 == 1 or w >= min(SBS[b], 63) - 1:
                ks |= {(1 << w) - 1, (1 << w) + 1}
        good += [(b, k) for k in sorted(ks) if 2 <= k <= top(b)]
        bad += [(b, k) for k in (0, 1, top(b) + 1) if k <= (1 << 64) - 1]
        if SBS[b] < 63:
            bad.append((b, (1 << 64) - 1))
    return good, bad


def compare(work, deep):
    """-> list of (backend, K, what) where the real crate contradicts the claim"""
    pr = Probe(work)
    good, bad = points(deep)
    wrong = []
    groups = [[x for x in good if x[0] == b] for b in MODS]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(pr.run, f"good_{i}", g) for i, g in enumerate(groups)]
        fb = [ex.submit(pr.run, f"bad_{i}", [p]) for i, p in enumerate(bad)]
        for g, f in zip(groups, fs):
            compiled, out = f.result()
            if compiled:
                lines = {(l.split()[0], l.split()[1]): l for l in out.splitlines() if len(l.split()) == 9}
                for b, k in g:
                    w = judge(b, k, True, lines.get((MODS[b], str(k)), "no output: " + out[-200:]))
                    if w:
                        wrong.append((b, k, w))
            else:
                again = [(b, k, ex.submit(pr.run, f"one_{b}_{k}", [(b, k)])) for b, k in g]
                for b, k, f1 in again:
                    w = judge(b, k, *f1.result())
                    if w:
                        wrong.append((b, k, w))
        for (b, k), f in zip(bad, fb):
            w = judge(b, k, *f.result())
            if w:
                wrong.append((b, k, w))
    return wrong, len(good), len(bad)


def replay(work, h, vals):
    """A solver assignment against the real crate -> (what is wrong | None, output)"""
    p = h.name.split("_")
    b = p[1].upper()
    k = int(p[2][1:]) if len(p) > 2 and p[2][0] == "k" else int.from_bytes(bytes(vals[0]), "little")
    pr = Probe(work)
    compiled, out = pr.run("replay", [(b, k)])
    return judge(b, k, compiled, out), f"{MODS[b]}, {k} variants\n{out}"


def setup(work, tier, jobs):
    """-> (harnesses, Kani, other steps)"""
    t = time.time()
    wrong, good, bad = compare(work, tier == "thorough")
    extra = [{"name": "the compiled crate at the boundaries of every width",
              "what": "cross-check of the transformed copy: element width, elements per block and read-back "
                      "measured on the compiled crate, and acceptance or rejection by the compiler",
              "accepted_numbers_of_variants": good, "rejected_numbers_of_variants": bad,
              "wall_s": round(time.time() - t, 1)}]
    for b, k, what in wrong:
        extra.append({"name": f"{MODS[b]}, {k} variants", "contradicts": what, "b": b, "k": k})
    try:
        h, dep = prepare(work)
        k = kani.Kani(work, jobs, crate=h)
        k.prepare()
        extra[0]["constants_made_symbolic"] = sorted(dep)
        return harnesses(), k, extra
    except (kani.BuildError, ValueError) as e:
        print(str(e)[-1500:])
        print("  the transformed copy does not build: concrete numbers of variants instead")
        extra[0]["constants_made_symbolic"] = "none: the transformed copy did not build"
    h = crate_at(os.path.join(work, "concrete"), os.path.join(REPO, "enum_vec"), '"concrete"')
    k = kani.Kani(work, jobs, crate=h)
    return concrete(), k, extra
