"""Which harness instances decide which property.

Element types are written by their bit width w (2^w variants) or, with `k`, by an exact
number of variants.  EPB (elements per block) follows from it.
"""
from .kani import H

SBS = {"U8": 8, "U16": 16, "U32": 32, "U64": 64, "U128": 128, "SM": 32}
BACKENDS = list(SBS)


def bits(k):
    return (k - 1).bit_length()


def epb(b, k):
    return SBS[b] // bits(k)


def ty(b, k):
    return f"crate::ev::{b}<{k}>"


def kname(k):
    return f"w{bits(k)}" if k & (k - 1) == 0 else f"k{k}"


def W(w):
    return 1 << w


# Two or three element types per backend: one that leaves spare bits, one that fills
# the block, all with few elements per block so that two or three blocks cover every
# alignment case.
SMALL = {
    "U8": [W(3), W(8)],
    "U16": [W(5), W(16)],
    "U32": [W(11), W(32)],
    "U64": [W(21), W(40)],
    "U128": [W(43), W(60)],
    "SM": [W(11)],
}
# One per backend, two elements per block.
TWO = {"U8": W(3), "U16": W(7), "U32": W(11), "U64": W(25), "U128": W(50), "SM": W(15)}
WIDE = {"U8": W(8), "U16": W(16), "U32": W(32), "U64": W(40), "U128": None, "SM": W(32)}


def groups(b):
    """Widths with the same number of elements per block: [(lowest, highest)]"""
    out = []
    for w in range(1, min(SBS[b], 63) + 1):
        if out and SBS[b] // out[-1][0] == SBS[b] // w:
            out[-1] = (out[-1][0], w)
        else:
            out.append((w, w))
    return out


def inst(mod, fn, b, k, *consts):
    args = ", ".join([ty(b, k)] + [str(c) for c in consts])
    return f"crate::{mod}::{fn}::<{args}>"


def mk(out, mod, fn, b, k, consts, unwind, thorough=False, **kw):
    name = "_".join([fn, b, kname(k)] + [str(c) for c in consts])
    out.append(H(name, inst(mod, fn, b, k, *consts), unwind, thorough=thorough,
                 bounds=f"{b}, {k} variants ({bits(k)} bits, {epb(b, k)} per block), "
                        f"consts {list(consts)}, unwind {unwind}", **kw))


def wide(out, fn, args, most, mul=1, full=False, deep=lambda e: []):
    """One instance of a vec_wide harness per width class of every backend (the lowest
    width of the class, which uses the most spare bits, and in thorough the highest).
    `args(e)` gives the length arguments for e elements per block."""
    for b in BACKENDS:
        for lo, hi in groups(b):
            for w in sorted({lo, hi}):
                e = SBS[b] // w
                for a in args(e):
                    n = len(out)
                    mk(out, "vec_wide", fn, b, W(w), a, max(6, mul * e + 4, a[1] + 2 if full else 0),
                       thorough=e > most or (w == hi and lo < hi) or a in deep(e))
                    out[n].name = "wide_" + out[n].name


def c01():
    out = []
    for b in BACKENDS:
        nb = 5 if b == "SM" else 2
        for k in SMALL[b] + [{"U8": W(1), "U16": W(3), "U32": W(1), "U64": W(7), "U128": W(1), "SM": W(2)}[b]]:
            for fn in ["push", "pop", "set", "swap", "truncate", "shrink_then_push"]:
                mk(out, "vec_ops", fn, b, k, [nb], nb + 3)
            if k == TWO[b] or k == SMALL[b][0]:
                mk(out, "vec_ops", "push", b, k, [0], 4)
                mk(out, "vec_ops", "push2", b, k, [nb], max(nb + 3, nb * epb(b, k) + 2))
                mk(out, "vec_ops", "fresh", b, k, [0], 6)
                mk(out, "vec_ops", "push", b, k, [4], 7)
    for b in BACKENDS:
        top = min(SBS[b], 63)
        for w in range(1, top + 1):
            for fn in ["push", "set", "swap", "shrink_then_push"]:
                mk(out, "vec_ops", fn, b, W(w), [3], 6, thorough=True)
    return out


def c02():
    out = []
    # (blocks, length, position): full and part-filled last block, positions in the
    # middle of a block, at its start and in its last slot
    wide(out, "insert", lambda e: [(2, 2 * e, 1), (3, 2 * e + 1, e - 1), (3, 2 * e + 1, 0)] if e > 1 else [(2, 2, 0)], 16,
         deep=lambda e: [(3, 2 * e + 1, 0)])
    wide(out, "remove", lambda e: [(3, 3 * e, 1), (3, 2 * e + 1, e - 1), (3, 2 * e + 1, 0)] if e > 1 else [(3, 3, 0)], 16,
         deep=lambda e: [(3, 2 * e + 1, 0)])
    for b in BACKENDS:
        for k in SMALL[b]:
            e = epb(b, k)
            nb = 3
            for fn in ["insert", "remove"]:
                if b == "U128":
                    if fn == "insert":
                        mk(out, "vec_ops", "insert_room", b, k, [2], 6)
                        mk(out, "vec_ops", "insert_full", b, k, [2], 6)
                    else:
                        mk(out, "vec_ops", fn, b, k, [2], 6)
                else:
                    mk(out, "vec_ops", fn, b, k, [nb], max(nb + 3, e + 2))
            mk(out, "vec_ops", "swap_remove", b, k, [nb], nb + 3)
        mk(out, "vec_ops", "insert", b, TWO[b], [0], 5)
    for w in (5,):
        for fn in ["insert", "remove"]:
            mk(out, "vec_ops", fn, "U32", W(w), [2], 8)
    for b, k in [("U8", W(1)), ("U8", W(2)), ("U16", W(2)), ("U16", W(3)), ("U32", W(3)), ("U32", W(4)),
                 ("U64", W(7)), ("U64", W(9)), ("U128", W(13)), ("U128", W(20)), ("SM", W(5))]:
        e = epb(b, k)
        for fn in ["insert", "remove", "swap_remove"]:
            mk(out, "vec_ops", fn, b, k, [4], max(7, e + 2), thorough=True)
    return out


def c03():
    out = []
    wide(out, "append", lambda e: [(2, 2 * e - 1, 1, e - 1), (2, 2 * e, 2, e + 1)] if e > 2 else [(2, 2 * e, 2, e + 1)], 16)
    wide(out, "split_off", lambda e: [(3, 3 * e - 1, e + 1), (3, 3 * e, e)] if e > 2 else [(3, 3 * e, e)], 16, mul=2)
    for b in BACKENDS:
        k = TWO[b]
        mk(out, "vec_ops", "append", b, k, [2, 2], 4 * epb(b, k) + 3)
        mk(out, "vec_ops", "split_off", b, k, [2], 2 * epb(b, k) + 3)
    for b in ["U8", "U16", "U32"]:
        mk(out, "vec_ops", "append", b, WIDE[b], [2, 2], 7)
        mk(out, "vec_ops", "split_off", b, WIDE[b], [2], 7)
    mk(out, "vec_ops", "append", "SM", W(32), [3, 3], 9)
    return out


def c04():
    out = []
    for b in BACKENDS:
        k = TWO[b]
        e = epb(b, k)
        mk(out, "vec_bulk", "extend", b, k, [1, 3], 7)
        mk(out, "vec_bulk", "from_elem", b, k, [5 * e + 1], 5 * e + 4)
        mk(out, "vec_bulk", "from_seq", b, k, [5], 8)
        mk(out, "vec_bulk", "mac_list", b, k, [], 6)
        for l in range(0, e + 1):
            mk(out, "vec_bulk", "resize", b, k, [1, l, l + 4 * e + e + 1], 5 * e + 5)
        mk(out, "vec_bulk", "extend_overhint", b, k, [1, 2], 6)
        for lo, hi in groups(b):
            for w in {lo, hi}:
                e = SBS[b] // w
                l = 1 if e > 1 else 0
                c = l + 5 * e + 2
                mk(out, "vec_bulk", "fill", b, W(w), [l, c], max(12, e + 4),
                   thorough=w == hi and lo < hi)
    return out


def c05():
    out = []
    for b in BACKENDS:
        k = TWO[b]
        e = epb(b, k)
        mk(out, "vec_ops", "retain", b, k, [3, 3 * e], 3 * e + 3)
        mk(out, "vec_ops", "for_each", b, k, [3, 3 * e], 3 * e + 3)
    return out


def c06():
    out = []
    quick = {"U8": range(1, 9), "U16": [1, 3, 5, 7, 11, 16], "U32": [2, 3, 5, 8, 11, 17, 32],
             "U64": [5, 7, 13, 21, 40], "U128": [7, 15, 31, 43, 60], "SM": [3, 9, 11]}
    for b in BACKENDS:
        for w in range(1, min(SBS[b], 63) + 1):
            e = SBS[b] // w
            mk(out, "vec_ops", "any_all", b, W(w), [2], max(4, e + 2), thorough=w not in quick[b])
    return out


def c07():
    out = []
    wide(out, "eq_hash", lambda e: [(2, 2 * e - 1)], 8, full=True)
    for b in BACKENDS:
        k = TWO[b]
        e = epb(b, k)
        mk(out, "vec_ops", "eq_hash", b, k, [2, 2], 2 * e + 3)
        mk(out, "vec_ops", "eq_hash", b, k, [2, 1], 2 * e + 3)
        for l in range(2 * e + 1):
            mk(out, "vec_ops", "clone", b, k, [2, l], 2 * e + 4)
        mk(out, "vec_ops", "clone_from", b, k, [2, 1], 2 * e + 3)
    return out


def c08():
    out = []
    for b in BACKENDS:
        k = TWO[b]
        e = epb(b, k)
        m = 2 * e
        for fn in ["iter", "iter_ref", "iter_own"]:
            mk(out, "vec_bulk", fn, b, k, [2, m], m + 3)
        mk(out, "vec_bulk", "to_vec", b, k, [2], m + 3)
        mk(out, "vec_bulk", "iter_rev", b, k, [2, m], m + 3)
    return out


def c09():
    out = []
    for b in BACKENDS:
        k = TWO[b]
        e = epb(b, k)
        mk(out, "vec_bulk", "with_capacity_any", b, k, [], 6)
        mk(out, "vec_bulk", "with_capacity_push", b, k, [2 * e + 1], 2 * e + 4)
        mk(out, "vec_bulk", "reserve", b, k, [1, 1, 2 * e + 1], 2 * e + 5)
        mk(out, "vec_bulk", "reserve_huge", b, k, [1], 6, mode="panics")
        mk(out, "vec_bulk", "shrink", b, k, [2, 2], 7)
        for how in range(5):
            mk(out, "vec_bulk", "footprint", b, k, [how, 6 * e + 1], 6 * e + 4)
        mk(out, "vec_bulk", "footprint_move", b, k, [2], 7)
        for op in range(5):
            mk(out, "vec_bulk", "fits", b, k, [2, op], 4 * e + 3)
        for how in range(10):
            mk(out, "vec_bulk", "many", b, W(SBS[b] // 8), [18, how], 21, thorough=how in (4, 7, 8, 9))
        if WIDE[b]:
            mk(out, "vec_bulk", "reserve_huge", b, WIDE[b], [2], 6, mode="panics")
            mk(out, "vec_bulk", "with_capacity_any", b, WIDE[b], [], 6)
    return out


def c10():
    out = []
    for b in BACKENDS:
        for k in [TWO[b]] + ([WIDE[b]] if WIDE[b] else []):
            mk(out, "vec_bulk", "get_out", b, k, [2], 5)
            mk(out, "vec_bulk", "split_off_out", b, k, [2], 10, mode="panics")
            for op in range(6):
                if op == 5 and b == "SM":
                    continue
                mk(out, "vec_bulk", "out", b, k, [2, op], 7, mode="panics")
            mk(out, "vec_bulk", "swap_remove_out", b, k, [2], 7, mode="panics", wrap_ok=True)
    return out


# Not a power of two: some bit patterns are not valid values.
NP2 = {"U8": 5, "U16": 65, "U32": 1025, "U64": (1 << 24) + 1, "U128": (1 << 49) + 1, "SM": (1 << 14) + 1}
NP2_1 = {"U8": 129, "U16": 300, "U32": (1 << 20) + 1, "U64": (1 << 33) + 1, "U128": None, "SM": None}


def c11():
    out = []
    for b in BACKENDS:
        for k in [NP2[b], NP2_1[b]]:
            if not k:
                continue
            e = epb(b, k)
            some = {"U16": [2, 3, 7, 8], "U64": [0, 3, 7, 8]}.get(b, range(10))
            for op in range(12):
                if op in (8, 9) and b == "U128":
                    mk(out, "vec_wf", "step", b, k, [1, op], 5)
                else:
                    mk(out, "vec_wf", "step", b, k, [2, op], 2 * e + 3)
            mk(out, "vec_wf", "insert_room", b, k, [2], 6)
            mk(out, "vec_wf", "insert_full", b, k, [2], 6)
            for op in range(10):
                mk(out, "vec_wf", "bulk", b, k, [1, op], 3 * e + 4, 
                   thorough=b in ("U16", "U64") and (k == NP2_1[b] or op not in some))
    return out


def c12():
    out = []
    quick = [("U8", "U32", W(3), 4), ("U16", "U64", W(16), 3), ("SM", "U128", W(15), 3)]
    deep = [("U8", "U32", W(8), 5), ("U16", "U64", W(5), 6), ("U32", "U128", W(32), 5), ("SM", "U64", W(32), 6),
            ("U8", "U128", W(3), 6), ("SM", "U16", W(16), 6)]
    for pairs, thorough in ((quick, False), (deep, True)):
        for a, b, k, top in pairs:
            for i in range(5):
                for n in range(top + 1):
                    if not thorough and n > (1 if i == 0 else 2 if i == 4 else top):
                        continue
                    out.append(H(f"script{i}_{a}_{b}_{kname(k)}_{n}",
                                 f"crate::vec_hist::script{i}::<{ty(a, k)}, {ty(b, k)}, {n}>",
                                 max(n + 6, (2 << n) + 2 if i == 4 else 0), thorough=thorough,
                                 bounds=f"{a} and {b} side by side, {k} variants, a history around {n} elements"))
    return out


def c22():
    out = []
    wide(out, "reserve", lambda e: [(1, e - 1, e + 2)] if e > 1 else [(1, 1, 2)], 16)
    for b in BACKENDS:
        for k in SMALL[b]:
            mk(out, "vec_ops", "raw", b, k, [2], 5)
        mk(out, "vec_ops", "reserve_raw", b, TWO[b], [1], 8)
    return out


def n(k):
    return f"crate::ev::N<{k}>"


# Field sizes of the tuples of high arity: neighbours differ, the product fits in 64 bits.
POW2 = [2, 4, 1, 8, 2, 1, 4]
ODD = [3, 5, 2, 7, 4, 3]


def like_types():
    """[(name, Rust type, unwind, thorough)]"""
    out = [("unit", "()", 4, False), ("bool", "bool", 4, False), ("ex", "crate::like::Ex", 4, False)]
    for k in [0, 1, 2, 5, 256, (1 << 64) - 2]:
        out.append((f"option_{k}", f"Option<{n(k)}>", 4, False))
    for a, b in [(0, 5), (5, 0), (3, 5), (5, 3), (1, 1), (1 << 63, (1 << 63) - 1)]:
        out.append((f"result_{a}_{b}", f"Result<{n(a)}, {n(b)}>", 4, False))
    out.append(("option3", f"Option<Option<Option<{n(3)}>>>", 4, False))
    out.append(("mix1", f"Option<Result<(bool, {n(3)}), [{n(5)}; 2]>>", 8, False))
    out.append(("mix2", f"([Option<bool>; 3], Result<(), {n(5)}>, Option<({n(2)}, {n(3)})>)", 8, False))
    out.append(("mix3", f"[(Option<()>, {n(3)}); 2]", 8, False))
    for ar in range(1, 33):
        ks = [POW2[i % 7] for i in range(ar)]
        out.append((f"tuple{ar}", "(" + ", ".join(n(k) for k in ks) + ",)", 4, False))
        ks = [POW2[(i + 3) % 7] for i in range(ar)][::-1]
        out.append((f"tuple{ar}r", "(" + ", ".join(n(k) for k in ks) + ",)", 4, True))
    for ar in range(2, 6):
        ks = ODD[:ar]
        out.append((f"tuple{ar}odd", "(" + ", ".join(n(k) for k in ks) + ",)", 4, ar > 4))
        out.append((f"tuple{ar}rev", "(" + ", ".join(n(k) for k in ks[::-1]) + ",)", 4, ar > 3))
    out.append(("pair_big", f"({n(1 << 32)}, {n((1 << 31) + 1)})", 4, True))
    out.append(("pair_big2", f"({n(1 << 33)}, {n(1 << 30)})", 4, False))
    for ar in range(0, 33):
        k = 4 if ar <= 31 else 2
        if ar % 2 and ar > 12:
            k = 2
        out.append((f"array{ar}", f"[{n(k)}; {ar}]", ar + 2, False))
        out.append((f"array{ar}ex", f"[crate::like::Ex; {ar}]", ar + 2, ar not in (1, 2, 3, 8, 17, 32)))
    for ar in range(1, 5):
        out.append((f"array{ar}odd", f"[{n(3)}; {ar}]", ar + 2, ar > 3))
        out.append((f"array{ar}opt", f"[Option<bool>; {ar}]", ar + 2, ar > 3))
    return out


def c14():
    return [H(f"bij_{nm}", f"crate::like::bij::<{t}>", u, thorough=th, bounds=t.replace("crate::ev::", ""))
            for nm, t, u, th in like_types()]


def c15():
    out = [H(f"num_{nm}", f"crate::like::num::<{t}>", u, thorough=th, bounds=t.replace("crate::ev::", ""))
           for nm, t, u, th in like_types()]
    for a, b, c in [(2, 4, 8), (3, 5, 2), (7, 2, 5), (1, 3, 2)]:
        out.append(H(f"nested_{a}_{b}_{c}", f"crate::like::nested::<{n(a)}, {n(b)}, {n(c)}>", 5,
                     bounds=f"components of {a}, {b} and {c} values"))
    for k in (2, 3, 5, 16):
        out.append(H(f"array_tuple_{k}", f"crate::like::array_tuple::<{n(k)}>", 6, bounds=f"components of {k} values"))
    return out


def c16():
    ts = ["S0", "S0b", "S0p", "S1", "S2", "S3", "S4", "S6", "SZ", "SBig", "E0", "E1", "E3", "EX", "E17", "M1", "MD",
          "MS", "MZ", "MN", "MF", "MBig", f"SG<{n(3)}, {n(4)}>", f"SG<Option<bool>, crate::derived::M1>",
          f"SW<{n(5)}>", f"MG<{n(3)}, {n(4)}>", f"MG<bool, crate::derived::E0>", f"MG<{n(0)}, {n(2)}>",
          f"MG<crate::derived::MD, crate::derived::S2>", "SG<crate::derived::MZ, [crate::derived::EX; 2]>"]
    out = []
    for i, t in enumerate(ts):
        nm = t.replace("crate::derived::", "").replace("crate::ev::", "")
        for f in ("bij", "num"):
            out.append(H(f"{f}_{i}_{nm}", f"crate::like::{f}::<crate::derived::{t}>", 20, bounds=nm,
                         covers=t not in ("SZ", "E0")))
    return out


def c17():
    out = []
    for k in [0, 1, 2, 5, 256, 1 << 32, (1 << 64) - 1]:
        for steps in (0, 1, 3):
            out.append(H(f"values_{k}_{steps}", f"crate::misc::values::<{k}, {steps}>", steps + 2,
                         bounds=f"{k} variants, {steps} arbitrary next/nth steps, then every accessor"))
        out.append(H(f"values_{k}_6", f"crate::misc::values::<{k}, 6>", 8, thorough=True,
                     bounds=f"{k} variants, 6 arbitrary next/nth steps, then every accessor"))
    for t in ["()", "bool", n(0), n(5), "Option<bool>", f"({n(2)}, {n(3)})", "crate::derived::M1", "[bool; 3]",
              "crate::derived::EX", "crate::derived::E0", f"Result<{n(2)}, Option<{n(3)}>>"]:
        out.append(H(f"values_all_{t}".replace("crate::", ""), f"crate::misc::values_all::<{t}, 0>", 48,
                     bounds=f"all values of {t}"))
    return out


def c18():
    out = []
    for k in [1, 2, 5, 127, 200, 255, 256]:
        out.append(H(f"packed8_{k}", f"crate::misc::packed8::<{k}>", 4, bounds=f"{k} variants"))
    for k in [1, 2, 255, 256, 257, 1000, 65535, 65536]:
        out.append(H(f"packed16_{k}", f"crate::misc::packed16::<{k}>", 4, bounds=f"{k} variants"))
    for t in ["()", "bool", "Option<bool>", f"({n(16)}, {n(16)})", f"[{n(4)}; 4]", "crate::derived::M1",
              "crate::derived::EX", f"Result<Option<{n(100)}>, {n(155)}>", "[crate::like::Ex; 8]"]:
        out.append(H(f"packed_of_{t}".replace("crate::", ""), f"crate::misc::packed_of::<{t}>", 20, bounds=f"values of {t}"))
    return out


# (variants, lengths of the internal bit vector in bits)
UNI = [(7, [0, 3, 7]), (33, [0, 32, 33]), (70, [0, 33, 64, 70])]
UNI_DEEP = [(40, [0, 5, 33, 40]), (32, [0, 1, 32]), (128, [0, 31, 65, 96, 100, 128]), (96, [0, 64, 96]), (2, [0, 1, 2])]


def words(k):
    return (k + 31) // 32


def c19():
    out = []

    def add(f, k, l, rest, unwind, th, what=""):
        nm = "_".join([f, str(k), str(l)] + [str(r) for r in rest])
        out.append(H(nm, f"crate::set::{f}::<{', '.join(str(x).lower() for x in [k, l] + rest)}>", unwind, thorough=th,
                     bounds=f"{k} variants, internal length {l} bits{what}"))

    for unis, th in ((UNI, False), (UNI_DEEP, True)):
        for k, ls in unis:
            out.append(H(f"shrunk_{k}", f"crate::set::shrunk::<{k}>", 10, thorough=th, bounds=f"{k} variants, two values"))
            for l in ls:
                add("insert", k, l, [k < 10], 12, th, ", every value" if k < 10 else ", values at the word boundaries")
                add("insert", k, l, [True], k + 3, k != 7, ", every value")
                add("remove", k, l, [], 8, th)
                for op in range(3):
                    add("again", k, l, [op], 12, th)
                add("build", k, l, [], 8, th or l not in (0, 7, 32, 64), ", up to 2 values added, at the word boundaries")
                if l:
                    add("inner", k, l, [], 8, th)
    return out


def c20():
    out = []
    for unis, th in ((UNI, False), (UNI_DEEP, True)):
        for k, ls in unis:
            ls = [l for l in ls if l]
            for a in ls:
                for b in ls:
                    for op in range(5):
                        out.append(H(f"algebra_{k}_{a}_{b}_{op}", f"crate::set::algebra::<{k}, {a}, {b}, {op}>", words(k) + 3,
                                     thorough=th, bounds=f"{k} variants, internal lengths {a} and {b} bits"))
    for k, a, b, p, th in [(40, 33, 40, 3, False), (40, 40, 5, 3, False), (70, 64, 70, 3, False), (7, 7, 7, 7, False),
                           (70, 33, 70, 5, True), (128, 128, 96, 4, True), (40, 40, 40, 8, True)]:
        for op in range(4):
            out.append(H(f"algebra_iter_{k}_{a}_{b}_{op}", f"crate::set::algebra_iter::<{k}, {a}, {b}, {op}, {p}>",
                         max(words(k), p) + 2,
                         thorough=th, bounds=f"{k} variants, internal lengths {a} and {b} bits, at most {p} members"))
    return out


def c21():
    out = []
    for k, l, p, th in [(7, 7, 7, False), (40, 33, 5, False), (40, 40, 5, False), (70, 64, 4, False), (70, 70, 4, False),
                        (40, 40, 9, True), (128, 128, 6, True)]:
        out.append(H(f"iter_{k}_{l}", f"crate::set::iter::<{k}, {l}, {p}>", max(words(k), p) + 2, thorough=th,
                     bounds=f"{k} variants, internal length {l} bits, at most {p} members"))
    for k, a, b, p, th in [(7, 7, 7, 3, False), (40, 33, 40, 3, False), (40, 40, 33, 3, False), (70, 70, 64, 2, False),
                           (40, 40, 40, 5, True), (128, 128, 96, 4, True)]:
        for f in ("equal", "hash", "order"):
            out.append(H(f"{f}_{k}_{a}_{b}", f"crate::set::{f}::<{k}, {a}, {b}, {p}>", max(words(k), p) + 3, thorough=th,
                         bounds=f"{k} variants, internal lengths {a} and {b} bits, at most {p} members"))
    for k, l in [(7, 7), (40, 33), (40, 40), (70, 70)]:
        out.append(H(f"clone_{k}_{l}", f"crate::set::clone::<{k}, {l}, 0>", words(k) + 3, bounds=f"{k} variants, internal length {l} bits"))
    for k, a, b in [(40, 33, 40), (40, 40, 5), (70, 70, 33)]:
        out.append(H(f"clone_from_{k}_{a}_{b}", f"crate::set::clone_from::<{k}, {a}, {b}>", words(k) + 3,
                     bounds=f"{k} variants, internal lengths {a} and {b} bits"))
    return out


def c23():
    out = []
    for b in BACKENDS:
        k = TWO[b]
        e = epb(b, k)
        for l in (0, 1, 2, 3, 4):
            mk(out, "dbg", "list", b, k, [2, l, "false"], 42)
    for k, l in [(7, 7), (40, 34), (40, 40), (70, 70)]:
        out.append(H(f"set_{k}_{l}", f"crate::dbg::set::<{k}, {l}>", 42,
                     bounds=f"{k} variants, internal length {l} bits, every subset of 4 values around its boundaries"))
    return out


def c24():
    out = []
    for b in BACKENDS:
        k = TWO[b] - 1
        e = epb(b, k)
        mk(out, "vec_panic", "retain", b, k, [2, 2 * e], 2 * e + 3)
        mk(out, "vec_panic", "for_each", b, k, [2, 2 * e], 2 * e + 3)
        mk(out, "vec_panic", "extend", b, k, [1, 3], 7)
        mk(out, "vec_panic", "retain", b, k, [3, 3 * e], 3 * e + 3, thorough=True)
        mk(out, "vec_panic", "for_each", b, k, [3, 3 * e], 3 * e + 3, thorough=True)
        mk(out, "vec_panic", "extend", b, k, [2, 5], 9, thorough=True)
    return out


REG = {f.__name__.upper(): f for f in [c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c14, c15, c16, c17,
                                       c18, c19, c20, c21, c22,
                                       c23, c24]}
NOTE = {}

STEP = ("one operation (or two) from every well-formed state of up to 2-3 storage blocks (smallvec up to 5), with arbitrary "
        "block contents including spare bits and slots past the length, arbitrary length, arguments and values; six "
        "backends; element widths with 1 to 4 elements per block in the quick tier, many more in thorough")
BOUNDS = {
    "C01": STEP,
    "C02": STEP + "; u128 2 blocks; insert and remove also at every element width, at given lengths and positions (2-3 blocks)",
    "C03": "both vectors up to 2 blocks each with arbitrary contents, every pair of lengths and every split position; widths "
           "with 1 or 2 elements per block; every element width at given lengths (aligned and unaligned, up to 4 blocks); both "
           "results are used again afterwards",
    "C04": "up to 3-5 new elements of arbitrary value onto up to one block, every lower size hint; fills of up to 5 blocks from "
           "every length of the first block; two elements per block; fills of more than four blocks at every element width",
    "C05": "3 blocks of arbitrary contents (six elements), arbitrary verdicts and replacement values",
    "C06": "2 blocks of arbitrary contents and length; all 8 widths of u8 and 3-7 widths of each other backend (thorough: "
           "every width of every backend)",
    "C07": "two independent vectors of up to 2 blocks each with arbitrary contents; a recording hasher; one change after cloning; every element width at two blocks less one element",
    "C08": "2 blocks of arbitrary contents and length; any position reached by nth and next_back, any next call with any "
           "argument, then what follows; by-value, by-reference and iter()",
    "C09": "requests up to 2^44 elements (with_capacity), up to 5 elements onto 1 block (reserve), the largest 4 requests; "
           "fills up to 6 blocks; 18 single steps of 6 kinds (thorough: 10); any growing step on two blocks of storage; storage "
           "allowance 2*(blocks needed+1)+8",
    "C10": "every index and position of the whole usize range (split_off: the 4 positions past the end and the 3 largest "
           "classes), 2 blocks of arbitrary contents, every length",
    "C11": "variant counts that are not powers of two; 2 blocks of arbitrary valid contents; every safe operation; CBMC checks "
           "every memory access",
    "C12": "scripted histories of 5 kinds around 0-6 elements with arbitrary values and positions, two backends and a plain "
           "sequence side by side",
    "C13": "the number of variants is a 64-bit symbolic variable: every value from 0 to 2^64-1, split by elements per block; one "
           "and two blocks of storage, every slot, every discriminant",
    "C14": "61 type shapes quick (Option/Result nests, tuples of every arity up to 32, arrays of every length up to 32), every "
           "value and every discriminant of each",
    "C15": "the type shapes of C14 against a reference numbering; nested forms with 2-7 values per component",
    "C16": "30 derived types covering every accepted form, every value and every discriminant of each",
    "C17": "iterators of 0 to 2^64-1 values, 0, 1 or 3 arbitrary next/nth steps (thorough 6), then every accessor",
    "C18": "15 variant counts and 9 composite types, every value pair",
    "C19": "universes of 7, 33 and 70 values (thorough up to 128) with internal lengths around the word boundaries, arbitrary "
           "contents, values at the word boundaries (small universe: every value)",
    "C20": "universes of 7, 33 and 70 values, every pair of internal lengths around the word boundaries, arbitrary contents "
           "(lazy iterators: at most 3-7 members)",
    "C21": "universes of 7, 40 and 70 values, different internal lengths, at most 2-7 members",
    "C22": "2 blocks of arbitrary contents, every slot; reserve of up to 2 blocks' worth from every length of one block; reserve at every element width",
    "C23": "vectors of 0 to 4 elements of arbitrary value, two elements per block; sets of every subset of four values around "
           "the word boundaries, four internal lengths",
    "C24": "2 blocks of arbitrary contents (thorough 3), a panic at any call, arbitrary verdicts and values; extend: up to one "
           "block (thorough 2) and 3 (5) elements with any size hint up to that number",
}
OUTSIDE = {
    "C01": "vectors longer than a few blocks in one step; the induction over operations is argued in DESIGN.md, not mechanised",
    "C02": "as C01; insert/remove across more than three blocks",
    "C03": "runs longer than two blocks",
    "C04": "iterators whose upper size hint lies; a lower hint above the true count may panic (it must not make up elements)",
    "C05": "callbacks that panic (C24)",
    "C06": "vectors of more than two blocks",
    "C07": "vectors of more than two blocks; hashers that ignore the order of writes",
    "C08": "adaptors other than rev, for_each, collect",
    "C09": "allocation failure; growth factor of std's Vec beyond the sizes above",
    "C10": "release builds without overflow checks, where swap_remove on an empty vector still panics by other means",
    "C11": "misuse of the unsafe functions",
    "C12": "longer histories, and other mixes of operations (C01-C11 decide single steps from arbitrary states)",
    "C13": "the constants are evaluated in a copy of the crate in which they are functions of a variable (generated on every run, "
           "cross-checked against the compiled crate at the boundaries of every width); histories longer than the few calls made",
    "C14": "type shapes not listed; more than 2^64-1 values",
    "C15": "type shapes not listed",
    "C16": "derived types not listed; that unsupported inputs are refused",
    "C17": "more steps",
    "C18": "types not listed",
    "C19": "larger universes; the bit-set and bit-vec crates are encoded as they are",
    "C20": "larger universes; more members in the lazy iterators",
    "C21": "size_hint of set iterators (bit-set 0.5.3 itself gives a wrong upper bound)",
    "C22": "slots beyond the storage (documented as undefined)",
    "C23": "longer vectors and fuller sets; formatting flags ({:#?}); element types whose own rendering is longer than a letter",
    "C24": "callbacks called from inside other callbacks; code that runs while unwinding (the state is taken at the moment of the "
           "panic; no operation of the crate has a destructor that touches the vector); panics of the element type's own "
           "to_discr/from_discr",
}
LEVEL_NOTE = ("Decided by CBMC's SAT solver over all values within: {bounds}. Outside: {outside}. Trusts rustc, Kani 0.68, CBMC "
              "and the harness bodies; assumes 64-bit targets, allocation that succeeds, dev-profile overflow checks, and a "
              "bijective element mapping (C14, C16). Counterexamples are replayed natively before they are reported.")
TECHNIQUE = {
    "C13": "bounded symbolic execution (Kani/CBMC, SAT verdict) of the crate with its layout constants turned into functions of a "
           "symbolic number of variants; counterexamples replayed on the compiled crate",
    "C24": "bounded symbolic execution of the compiled Rust (Kani: MIR to CBMC, SAT verdict) with the panic point symbolic; "
           "counterexamples replayed with a real panic",
}
NOT_APPLICABLE = {}
ASSUME = [
    "the element type's EnumLike mapping is a bijection (C14, C16 decide that for the provided ones)",
    "allocation does not fail (Kani's model of the allocator)",
    "64-bit target; overflow checks as in the dev profile",
]
