//! C04, C08, C09, C10: bulk construction, iteration, capacity, out-of-range arguments.

use crate::ev::*;
use crate::nd::{any, assume, below, finish, upto};

// ---------------------------------------------------------------- C04

/// An iterator over the first `n` of `M` arbitrary values, giving `lo` as the lower
/// size hint and optionally an upper one.
pub struct Src<T, const M: usize> {
    pub items: [T; M],
    pub i: usize,
    pub n: usize,
    pub lo: usize,
    pub upper: bool,
}
impl<T: Copy, const M: usize> Iterator for Src<T, M> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.n {
            self.i += 1;
            Some(self.items[self.i - 1])
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let lo = if self.lo > self.i { self.lo - self.i } else { 0 };
        let hi = self.n - self.i;
        (lo, if self.upper { Some(if hi < lo { lo } else { hi }) } else { None })
    }
}

pub fn items<V: Ev, const M: usize>() -> [V::T; M] {
    let mut a = [V::T::of(0); M];
    let mut i = 0;
    while i < M {
        a[i] = val::<V>();
        i += 1;
    }
    a
}

/// extend from any state, by up to `M` values, with any lower size hint up to the
/// true count.
pub fn extend<V: Ev, const NB: usize, const M: usize>() {
    let mut v = arb_len::<V, NB, 0>(0);
    let it = items::<V, M>();
    let upper: bool = any();
    split(NB * V::EPB, |len| {
        split(M, |n| {
            split(n, |lo| {
                unsafe { v.set_len(len) };
                let mut m = Seq::of(&v);
                m.push_all(&it, n);
                cover!(n == M && lo == 0 && len == NB * V::EPB, "extend without a hint");
                cover!(n == M && lo == n && len == 0, "extend with an exact hint");
                v.extend(Src { items: it, i: 0, n, lo, upper });
                m.check(&v);
            })
        })
    });
}

/// A lower size hint above the true count: extend must not end up with elements the
/// iterator never gave.
pub fn extend_overhint<V: Ev, const NB: usize, const M: usize>() {
    let mut v = arb_len::<V, NB, 0>(0);
    let it = items::<V, M>();
    split(NB * V::EPB, |len| {
        split(M, |lo| {
            split(M, |n| {
                if n < lo {
                    unsafe { v.set_len(len) };
                    let mut m = Seq::of(&v);
                    m.push_all(&it, n);
                    cover!(n == 0 && lo == M, "hint of elements that never come");
                    v.extend(Src { items: it, i: 0, n, lo, upper: false });
                    m.check(&v);
                }
            })
        })
    });
}

/// resize from any state to any length up to `C`.
pub fn resize<V: Ev, const NB: usize, const L: usize, const C: usize>() {
    let mut v = arb_len::<V, NB, 0>(L);
    let x = val::<V>();
    split(C, |n| {
        let mut m = Seq::of(&v);
        if n < L {
            m.n = n;
        } else {
            m.push_n(x.d(), n - L);
        }
        cover!(n == C, "resize to the maximum");
        cover!(n == 0, "resize to nothing");
        v.resize(n, x);
        m.check(&v);
    });
}

/// resize from a given length to a given length, for widths with many elements per
/// block: any element of the result.
pub fn fill<V: Ev, const L: usize, const C: usize>() {
    let mut v = arb_len::<V, 1, 0>(L);
    let x = val::<V>();
    let j: usize = any();
    assume(j < C);
    let was = if j < L { at(&v, j) } else { x.d() };
    cover!(j + 1 == C && x.d() + 1 == V::K, "the last element");
    v.resize(C, x);
    check!(v.len() == C, "the length asked for");
    check!(at(&v, j) == was, "the old elements, then the value");
    check!(v.get(C).is_none(), "nothing past the end");
}

/// A second fill on top of a first, which may have left the storage in a new state.
pub fn resize_push<V: Ev, const NB: usize, const L: usize, const C: usize>() {
    let mut v = arb_len::<V, NB, 0>(L);
    let (x, y) = (val::<V>(), val::<V>());
    split(C, |n| {
        let mut m = Seq::of(&v);
        if n < L {
            m.n = n;
        } else {
            m.push_n(x.d(), n - L);
        }
        cover!(n == C && x.d() != y.d(), "push after a fill");
        v.resize(n, x);
        v.push(y);
        v.push(y);
        m.push_n(y.d(), 2);
        m.check(&v);
    });
}

pub fn from_elem<V: Ev, const C: usize>() {
    let x = val::<V>();
    let mac: bool = any();
    split(C, |n| {
        cover!(n == C && x.d() > 0, "fill to the maximum");
        let v = if mac { V::mac_fill(x, n) } else { V::from_elem(x, n) };
        let mut m = Seq::new();
        m.push_n(x.d(), n);
        m.check(&v);
    });
}

pub fn from_seq<V: Ev, const M: usize>() {
    let it = items::<V, M>();
    split(M, |n| {
        split(3, |how| {
            cover!(n == M && how == 0, "from_slice of the maximum");
            cover!(n == M && how == 3, "collect of the maximum");
            let v = match how {
                0 => V::from_slice(&it[..n]),
                1 => {
                    let mut w = Vec::with_capacity(n);
                    let mut i = 0;
                    while i < n {
                        w.push(it[i]);
                        i += 1;
                    }
                    V::from(w)
                }
                2 => Src { items: it, i: 0, n, lo: n, upper: true }.collect(),
                _ => Src { items: it, i: 0, n, lo: 0, upper: false }.collect(),
            };
            let mut m = Seq::new();
            m.push_all(&it, n);
            m.check(&v);
        })
    });
}

pub fn mac_list<V: Ev>() {
    let (a, b, c) = (val::<V>(), val::<V>(), val::<V>());
    cover!(a.d() != b.d() && b.d() != c.d(), "three values");
    let v = V::mac_list3(a, b, c);
    let mut m = Seq::new();
    m.push_all(&[a, b, c], 3);
    m.check(&v);
}

// ---------------------------------------------------------------- C08

fn walk<V: Ev, I, const M: usize>(v: &V, mut it: I)
where
    I: DoubleEndedIterator<Item = V::T> + ExactSizeIterator,
{
    let len = v.len();
    check!(it.len() == len && it.size_hint() == (len, Some(len)), "a fresh iterator covers the vector");
    let mut lo = upto(len);
    let mut hi = len - upto(len - lo);
    if lo > 0 {
        let r = it.nth(lo - 1);
        check!(r.map(|x| x.d()) == Some(at(v, lo - 1)), "nth skips and yields");
    }
    let mut k = 0;
    while k < M {
        if k < len - hi {
            let r = it.next_back();
            check!(r.map(|x| x.d()) == Some(at(v, len - 1 - k)), "next_back yields from the end");
        }
        k += 1;
    }
    check!(it.len() == hi - lo, "len after moves from both ends");
    check!(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint after moves from both ends");
    let op = below(7);
    let n: usize = any();
    cover!(op == 0 && lo > 0 && hi < len && lo < hi, "next from the middle");
    cover!(op == 2 && n > len && lo < hi, "nth far beyond the end");
    cover!(op == 1 && lo == hi && len > 0, "next_back after exhaustion");
    let mut idx = M;
    let mut some = false;
    let r = if op == 0 {
        if lo < hi {
            some = true;
            idx = lo;
            lo += 1;
        }
        it.next()
    } else if op == 1 {
        if lo < hi {
            some = true;
            hi -= 1;
            idx = hi;
        }
        it.next_back()
    } else if op == 2 {
        if n < hi - lo {
            some = true;
            idx = lo + n;
            lo = idx + 1;
        } else {
            lo = hi;
        }
        it.nth(n)
    } else if op == 3 {
        assume(n <= M + 1);
        if n < hi - lo {
            some = true;
            idx = hi - 1 - n;
            hi = idx;
        } else {
            hi = lo;
        }
        it.nth_back(n)
    } else if op == 4 {
        check!(it.count() == hi - lo, "count is the number of elements left");
        return;
    } else if op == 5 {
        let r = it.last();
        if lo < hi {
            check!(r.map(|x| x.d()) == Some(at(v, hi - 1)), "last is the last element left");
        } else {
            check!(r.is_none(), "last of nothing is None");
        }
        return;
    } else {
        let mut i = lo;
        it.for_each(|x| {
            check!(i < hi, "a full traversal ends at the end");
            check!(x.d() == at(v, i), "a full traversal yields in order");
            i += 1;
        });
        check!(i == hi, "a full traversal yields everything left");
        return;
    };
    if some {
        check!(r.map(|x| x.d()) == Some(at(v, idx)), "a step yields the element it should");
    } else {
        check!(r.is_none(), "a step past the end yields None");
    }
    check!(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint after one more step");
    check!(it.len() == hi - lo, "len after one more step");
    let r = it.next();
    if lo < hi {
        check!(r.map(|x| x.d()) == Some(at(v, lo)), "the following next");
    } else {
        check!(r.is_none(), "None after exhaustion");
        check!(it.next_back().is_none() && it.next().is_none(), "None for ever");
    }
}

pub fn iter<V: Ev, const NB: usize, const M: usize>() {
    let v = arb::<V, NB>();
    walk::<V, _, M>(&v, v.it());
}
pub fn iter_ref<V: Ev, const NB: usize, const M: usize>() {
    let v = arb::<V, NB>();
    walk::<V, _, M>(&v, v.it_ref());
}
pub fn iter_own<V: Ev, const NB: usize, const M: usize>() {
    let v = arb::<V, NB>();
    let w = v.clone();
    walk::<V, _, M>(&v, w.own());
}

pub fn to_vec<V: Ev, const NB: usize>() {
    let mut v = arb_len::<V, NB, 0>(0);
    split(NB * V::EPB, |len| {
        split(2, |how| {
            unsafe { v.set_len(len) };
            cover!(len == NB * V::EPB && how == 1, "convert a full vector");
            let w: Vec<V::T> = match how {
                0 => v.to_vec(),
                1 => v.clone().into(),
                _ => v.it().collect(),
            };
            check!(w.len() == len, "to_vec has the length");
            let mut j = 0;
            while j < len {
                check!(w[j].d() == at(&v, j), "to_vec has the elements in order");
                j += 1;
            }
        })
    });
}

/// Reversed and zipped adaptors see the same sequence.
pub fn iter_rev<V: Ev, const NB: usize, const M: usize>() {
    let v = arb::<V, NB>();
    let len = v.len();
    cover!(len == M, "reverse a full vector");
    let mut i = len;
    for x in v.it().rev() {
        check!(i > 0, "reverse iteration ends at the start");
        i -= 1;
        check!(x.d() == at(&v, i), "reverse iteration yields in reverse order");
    }
    check!(i == 0, "reverse iteration yields everything");
    let mut i = 0;
    for x in v.it() {
        check!(i < len && x.d() == at(&v, i), "iteration yields in order");
        i += 1;
    }
    check!(i == len, "iteration yields everything");
}

// ---------------------------------------------------------------- C09

/// The storage a vector may keep for `need` blocks: twice what it needs, and the
/// minimal allocation.
fn room<V: Ev>(need: usize) -> usize {
    2 * (need + 1) + 8 + V::INLINE
}
fn need<V: Ev>(n: usize) -> usize {
    n / V::EPB + (n % V::EPB != 0) as usize
}

/// Any requested capacity that an address space can hold.
pub fn with_capacity_any<V: Ev>() {
    let n = upto(1 << 44);
    let v = V::with_capacity(n);
    cover!(n > 1 << 40, "huge capacity");
    check!(v.capacity() >= n, "with_capacity gives at least the capacity asked for");
    check!(v.len() == 0 && v.is_empty(), "with_capacity gives an empty vector");
    check!(v.get(0).is_none(), "with_capacity makes no elements");
    check!(v.block_cap() <= room::<V>(need::<V>(n)), "with_capacity allocates about what is needed");
    core::mem::forget(v);
}

pub fn with_capacity_push<V: Ev, const C: usize>() {
    let it = items::<V, C>();
    split(C, |n| {
        let mut v = V::with_capacity(n);
        let cap = v.capacity();
        let p = v.ptr();
        cover!(n == C, "fill the requested capacity");
        check!(cap >= n, "with_capacity gives at least the capacity asked for");
        let mut i = 0;
        while i < n {
            v.push(it[i]);
            i += 1;
        }
        check!(v.capacity() == cap && v.ptr() == p, "filling the requested capacity does not reallocate");
        let mut m = Seq::new();
        m.push_all(&it, n);
        m.check(&v);
    });
}

pub fn reserve<V: Ev, const NB: usize, const EX: usize, const C: usize>() {
    let mut v = arb_len::<V, NB, EX>(0);
    let x = val::<V>();
    split(NB * V::EPB, |len| {
        split(C, |n| {
            unsafe { v.set_len(len) };
            let mut m = Seq::of(&v);
            cover!(n == C && len == NB * V::EPB, "reserve beyond full storage");
            v.reserve(n);
            let cap = v.capacity();
            check!(cap >= len + n, "reserve gives room for the elements asked for");
            check!(
                v.block_cap() <= room::<V>(if need::<V>(len + n) > NB + EX { need::<V>(len + n) } else { NB + EX }),
                "reserve allocates about what is needed"
            );
            m.check(&v);
            let p = v.ptr();
            let mut i = 0;
            while i < n {
                v.push(x);
                i += 1;
            }
            check!(v.capacity() == cap && v.ptr() == p, "filling the reserved room does not reallocate");
            m.push_n(x.d(), n);
            m.check(&v);
        })
    });
}

/// A request that no length can satisfy must not be granted.
pub fn reserve_huge<V: Ev, const NB: usize>() {
    let mut v = arb_len::<V, NB, 0>(0);
    split(NB * V::EPB, |len| {
        // with one element per block even len + n == usize::MAX is one block too many
        let first = if V::EPB == 1 { 0 } else { 1 };
        if len < first {
            finish();
        }
        split(len - first, |k| {
            unsafe { v.set_len(len) };
            cover!(k == 0, "reserve usize::MAX");
            v.reserve(usize::MAX - k);
            check!(false, "reserve returned although the request overflows");
        })
    });
}

pub fn shrink<V: Ev, const NB: usize, const EX: usize>() {
    let mut v = arb_len::<V, NB, EX>(0);
    split(NB * V::EPB, |len| {
        unsafe { v.set_len(len) };
        let mut m = Seq::of(&v);
        cover!(len == 1, "shrink to one element");
        cover!(len == NB * V::EPB, "shrink a full vector");
        v.shrink_to_fit();
        m.check(&v);
        let n = need::<V>(len);
        check!(
            v.block_cap() == if n > V::INLINE { n } else { V::INLINE },
            "shrink_to_fit leaves exactly the blocks needed"
        );
        check!(v.capacity() >= len, "capacity covers the length");
        let x = val::<V>();
        v.push(x);
        m.push(x.d());
        m.check(&v);
    });
}

/// Storage stays proportional however the vector was built.
pub fn footprint<V: Ev, const HOW: usize, const C: usize>() {
    let x = val::<V>();
    split(C, |n| {
        cover!(n == C, "the maximum");
        let v = match HOW {
            0 => V::from_elem(x, n),
            1 => {
                let mut v = V::new();
                v.push(x);
                v.resize(n, x);
                v
            }
            2 => std::iter::repeat(x).take(n).collect(),
            3 => {
                let mut v = V::new();
                let mut i = 0;
                while i < n {
                    v.push(x);
                    i += 1;
                }
                v
            }
            _ => {
                let mut v = V::new();
                v.extend(std::iter::repeat(x).take(n / 2));
                v.extend(std::iter::repeat(x).take(n - n / 2));
                v
            }
        };
        let n = if HOW == 1 && n == 0 { 1 } else { n };
        check!(v.block_cap() <= room::<V>(need::<V>(n)), "storage is proportional to the packed size");
        check!(v.blocks() * V::EPB >= v.len(), "storage covers the length");
        core::mem::forget(v);
    });
}

/// Many small steps do not inflate storage either.  (Lengths are concrete, the value is
/// not; N steps with at least eight elements per block need N / 8 + 1 blocks.)
pub fn many<V: Ev, const N: usize, const HOW: usize>() {
    let x = val::<V>();
    let mut v = V::new();
    let mut i = 0;
    while i < N {
        match HOW {
            0 => v.extend(Some(x)),
            1 => {
                v.reserve(1);
                v.push(x)
            }
            2 => v.resize(i + 1, x),
            3 => v.insert(i, x),
            4 => {
                let mut w = V::new();
                w.push(x);
                v.append(&mut w)
            }
            5 => {
                v.extend(Some(x));
                v.truncate(1)
            }
            6 => {
                v.push(x);
                v.push(x);
                v.pop();
            }
            7 => {
                v.insert(0, x);
                v.remove(0);
                v.push(x);
            }
            8 => {
                v.push(x);
                let mut w = v.split_off(i / 2);
                v.append(&mut w);
            }
            _ => {
                v.resize(N, x);
                v.resize(i + 1, x);
                v.shrink_to_fit();
            }
        }
        i += 1;
    }
    let n = if HOW == 5 { 1 } else { N };
    check!(v.len() == n, "the length");
    check!(v.block_cap() <= room::<V>(need::<V>(n)), "many small steps keep the storage proportional");
    check!(v.blocks() * V::EPB >= v.len(), "storage covers the length");
    let j = below(n);
    check!(at(&v, j) == x.d(), "every element is the value");
    cover!(x.d() > 0, "some value");
    core::mem::forget(v);
}

/// What fits the storage does not make it grow: the step from which it follows that no
/// number of steps inflates it.
pub fn fits<V: Ev, const NB: usize, const OP: usize>() {
    let mut v = arb_len::<V, NB, 0>(0);
    let x = val::<V>();
    let cap = v.block_cap();
    split(NB * V::EPB, |len| {
        split(NB * V::EPB - len, |n| {
            unsafe { v.set_len(len) };
            let m = V::from_elem(x, if OP == 3 { n } else { 0 });
            cover!(n > 0 && len + n == NB * V::EPB, "exactly full");
            match OP {
                0 => v.reserve(n),
                1 => v.extend(std::iter::repeat(x).take(n)),
                2 => v.resize(len + n, x),
                3 => {
                    let mut m = m;
                    v.append(&mut m)
                }
                _ => {
                    let mut i = 0;
                    while i < n {
                        v.insert(i, x);
                        i += 1;
                    }
                }
            }
            // (the code always keeps one block to spare)
            let most = need::<V>(len + n) + 1;
            check!(v.blocks() <= if most > NB { most } else { NB }, "what fits the storage does not make it grow");
            let most = room::<V>(most);
            check!(v.block_cap() <= if most > cap { most } else { cap }, "and allocates about what is needed");
        })
    });
}

/// Moving runs between vectors does not inflate storage.
pub fn footprint_move<V: Ev, const NB: usize>() {
    let mut a = arb_len::<V, NB, 0>(0);
    let mut b = arb_len::<V, NB, 0>(0);
    split(NB * V::EPB, |la| {
        split(NB * V::EPB, |lb| {
            unsafe {
                a.set_len(la);
                b.set_len(lb);
            }
            cover!(la == NB * V::EPB && lb == la, "append two full vectors");
            a.append(&mut b);
            check!(a.block_cap() <= room::<V>(need::<V>(la + lb) + NB), "append keeps storage proportional");
            let c = a.split_off(la);
            check!(c.block_cap() <= room::<V>(need::<V>(lb)), "split_off allocates about what is needed");
            check!(c.len() == lb, "split_off undoes append");
        })
    });
}

// ---------------------------------------------------------------- C10

pub fn get_out<V: Ev, const NB: usize>() {
    let v = arb::<V, NB>();
    let len = v.len();
    let i: usize = any();
    cover!(i == usize::MAX, "index usize::MAX");
    cover!(i == len && len < NB * V::EPB, "index just past the end, inside the storage");
    cover!(i < len || NB == 0, "live index");
    check!(v.get(i).is_some() == (i < len), "get is Some exactly for live indices");
}

/// OP: 0 set, 1 swap (first out), 2 swap (second out), 3 remove, 4 insert, 5 split_off.
pub fn out<V: Ev, const NB: usize, const OP: usize>() {
    let mut v = arb_len::<V, NB, 1>(0);
    let x = val::<V>();
    split(NB * V::EPB, |len| {
        unsafe { v.set_len(len) };
        let i: usize = any();
        assume(i >= len);
        if OP == 4 || OP == 5 {
            assume(i > len);
        }
        let k: usize = any();
        cover!(i == len + 1, "just past the end");
        cover!(i == usize::MAX, "usize::MAX");
        match OP {
            0 => v.set(i, x),
            1 => v.swap(i, k),
            2 => v.swap(k, i),
            3 => {
                let _ = v.remove(i);
            }
            4 => v.insert(i, x),
            _ => {
                let _ = v.split_off(i);
            }
        }
        check!(false, "an out-of-range position was accepted");
    });
}

/// split_off at each position just past the end and at the largest positions.
pub fn split_off_out<V: Ev, const NB: usize>() {
    let mut v = arb_len::<V, NB, 1>(0);
    split(NB * V::EPB, |len| {
        split(7, |i| {
            unsafe { v.set_len(len) };
            cover!(i == 0 && len > 0, "just past the end");
            let p = if i < 4 { len + 1 + i } else if i == 4 { usize::MAX / 2 } else { usize::MAX - (i - 5) };
            let _ = v.split_off(p);
            check!(false, "split_off accepted a position past the end");
        })
    });
}

pub fn swap_remove_out<V: Ev, const NB: usize>() {
    let mut v = arb_len::<V, NB, 1>(0);
    split(NB * V::EPB, |len| {
        unsafe { v.set_len(len) };
        let i: usize = any();
        assume(i >= len);
        cover!(i == len && len > 0, "just past the end");
        cover!(len == 0, "empty");
        let _ = v.swap_remove(i);
        check!(false, "swap_remove accepted an out-of-range position");
    });
}

