//! C01, C02, C03, C05, C06, C07, C22: one operation from an arbitrary well-formed state.
//! `NB` is the number of storage blocks of the pre-state.

use crate::ev::*;
use crate::nd::{any, assume, below, upto};

// ---------------------------------------------------------------- C01

pub fn push<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    let x = val::<V>();
    let j = below(len + 1);
    let want = if j == len { x.d() } else { at(&v, j) };
    cover!(len == NB * V::EPB && j == len, "push onto full storage");
    cover!(j < len || NB == 0, "push keeps an earlier element");
    v.push(x);
    check!(v.len() == len + 1, "push adds one element");
    check!(at(&v, j) == want, "push appends exactly the value");
}

/// Two pushes in a row: the first may leave storage in a new state.
pub fn push2<V: Ev, const NB: usize>() {
    let mut v = arb_len::<V, NB, 0>(0);
    let (x, y) = (val::<V>(), val::<V>());
    split(NB * V::EPB, |len| {
        unsafe { v.set_len(len) };
        let mut m = Seq::of(&v);
        m.push(x.d());
        m.push(y.d());
        cover!(len + 1 == NB * V::EPB && x.d() != y.d(), "second push crosses the storage end");
        v.push(x);
        v.push(y);
        m.check(&v);
    });
}

pub fn pop<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    if len == 0 {
        cover!(true, "pop on empty");
        check!(v.pop().is_none(), "pop on an empty vector is None");
        check!(v.len() == 0 && v.is_empty(), "pop on an empty vector keeps it empty");
        return;
    }
    let last = at(&v, len - 1);
    let j = below(len);
    let want = at(&v, j);
    let r = v.pop();
    check!(r.is_some(), "pop on a non-empty vector is Some");
    check!(r.unwrap().d() == last, "pop returns the last element");
    check!(v.len() == len - 1, "pop drops one element");
    cover!(j + 1 < len, "pop keeps an earlier element");
    if j < len - 1 {
        check!(at(&v, j) == want, "pop keeps the other elements");
    }
    check!(v.is_empty() == (len == 1), "is_empty means length zero");
}

pub fn set<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    assume(len > 0);
    let i = below(len);
    let x = val::<V>();
    let j = below(len);
    let want = if j == i { x.d() } else { at(&v, j) };
    cover!(j != i && len == NB * V::EPB, "set beside another element");
    cover!(j == i && i + 1 == NB * V::EPB, "set the last slot");
    v.set(i, x);
    check!(v.len() == len, "set keeps the length");
    check!(at(&v, j) == want, "set changes exactly the addressed element");
}

pub fn swap<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    assume(len > 0);
    let a = below(len);
    let b = below(len);
    let j = below(len);
    let src = if j == a { b } else if j == b { a } else { j };
    let want = at(&v, src);
    cover!(a != b && j == a, "swap two elements");
    cover!(a == b, "swap an element with itself");
    v.swap(a, b);
    check!(v.len() == len, "swap keeps the length");
    check!(at(&v, j) == want, "swap exchanges exactly the two elements");
}

pub fn truncate<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    let n: usize = any();
    let keep = if n < len { n } else { len };
    let j: usize = any();
    let want = if j < keep { at(&v, j) } else { 0 };
    cover!(n < len && j < keep, "truncate keeps a prefix");
    cover!(n > len, "truncate beyond the end");
    let clear: bool = any();
    if clear {
        v.clear();
        check!(v.len() == 0 && v.is_empty(), "clear empties the vector");
        check!(v.get(0).is_none(), "clear removes the first element");
    } else {
        v.truncate(n);
        check!(v.len() == keep, "truncate keeps min(n, len) elements");
        if j < keep {
            check!(at(&v, j) == want, "truncate keeps the prefix");
        }
    }
}

/// Growing again after shrinking: stale slots must not leak into new elements.
pub fn shrink_then_push<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    let n = upto(len);
    let x = val::<V>();
    let j = below(n + 1);
    let want = if j == n { x.d() } else { at(&v, j) };
    cover!(n + 1 < len, "truncate then push");
    v.truncate(n);
    v.push(x);
    check!(v.len() == n + 1, "push after truncate");
    check!(at(&v, j) == want, "push after truncate stores the value");
    let r = v.pop();
    check!(r.map(|r| r.d()) == Some(x.d()), "pop returns what was pushed");
}

/// get agrees with what set/push stored for any index, and empty vectors are empty.
pub fn fresh<V: Ev, const NB: usize>() {
    let v = V::new();
    check!(v.len() == 0 && v.is_empty(), "a new vector is empty");
    let i: usize = any();
    check!(v.get(i).is_none(), "a new vector has no elements");
    let mut v = V::default();
    check!(v.len() == 0 && v.pop().is_none(), "a default vector is empty");
    let (x, y, z) = (val::<V>(), val::<V>(), val::<V>());
    cover!(x.d() != y.d() && y.d() != z.d(), "three different values");
    v.push(x);
    v.push(y);
    v.push(z);
    check!(v.len() == 3, "three pushes");
    check!(at(&v, 0) == x.d() && at(&v, 1) == y.d() && at(&v, 2) == z.d(), "three pushed values");
    check!(v.pop().map(|t| t.d()) == Some(z.d()), "last in");
    check!(v.pop().map(|t| t.d()) == Some(y.d()), "middle");
    check!(v.pop().map(|t| t.d()) == Some(x.d()), "first in");
    check!(v.pop().is_none() && v.is_empty(), "empty again");
}

// ---------------------------------------------------------------- C02

pub fn insert<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    insert_body::<V, NB>(&mut v);
}

/// The same with room for one more block, so that nothing is reallocated.
pub fn insert_room<V: Ev, const NB: usize>() {
    let mut v = arb_cap::<V, NB, 1>();
    insert_body::<V, NB>(&mut v);
}

/// The same for full storage, which has to grow.
pub fn insert_full<V: Ev, const NB: usize>() {
    let mut v = arb_len::<V, NB, 0>(NB * V::EPB);
    insert_body::<V, NB>(&mut v);
}

fn insert_body<V: Ev, const NB: usize>(v: &mut V) {
    let len = v.len();
    let i = upto(len);
    let x = val::<V>();
    let j = below(len + 1);
    let want = if j < i {
        at(v, j)
    } else if j == i {
        x.d()
    } else {
        at(v, j - 1)
    };
    cover!(len == NB * V::EPB && i == 0 && j == len, "insert at the front of full storage");
    cover!(i == len, "insert at the end");
    v.insert(i, x);
    check!(v.len() == len + 1, "insert adds one element");
    check!(at(v, j) == want, "insert shifts exactly the tail");
}

pub fn remove<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    remove_body::<V, NB>(&mut v);
}

fn remove_body<V: Ev, const NB: usize>(v: &mut V) {
    let len = v.len();
    assume(len > 0);
    let i = below(len);
    let old = at(v, i);
    let j = below(len);
    let want = if j + 1 < len {
        if j < i {
            at(v, j)
        } else {
            at(v, j + 1)
        }
    } else {
        0
    };
    cover!(len == NB * V::EPB && i == 0 && (len == 1 || j + 2 == len), "remove the front of full storage");
    let r = v.remove(i);
    check!(r.d() == old, "remove returns the element");
    check!(v.len() == len - 1, "remove drops one element");
    if j + 1 < len {
        check!(at(v, j) == want, "remove shifts exactly the tail");
    }
}

pub fn swap_remove<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    assume(len > 0);
    let i = below(len);
    let old = at(&v, i);
    let j = below(len);
    let want = if j == i { at(&v, len - 1) } else { at(&v, j) };
    cover!(i + 1 == len, "swap_remove the last element");
    cover!(len == NB * V::EPB && i == 0, "swap_remove the first element");
    let r = v.swap_remove(i);
    check!(r.d() == old, "swap_remove returns the element");
    check!(v.len() == len - 1, "swap_remove drops one element");
    if j < len - 1 {
        check!(at(&v, j) == want, "swap_remove moves only the last element");
    }
}

// ---------------------------------------------------------------- C03

pub fn append<V: Ev, const NA: usize, const NB: usize>() {
    let mut a = arb_len::<V, NA, 0>(0);
    let mut b = arb_len::<V, NB, 0>(0);
    split(NA * V::EPB, |la| {
        split(NB * V::EPB, |lb| {
            unsafe {
                a.set_len(la);
                b.set_len(lb);
            }
            append_at(&mut a, &mut b)
        })
    });
}

fn append_at<V: Ev>(a: &mut V, b: &mut V) {
    let mut m = Seq::of(a);
    let old = Seq::of(b);
    cover!(m.n % V::EPB == 0 && old.n > 0, "append to a block-aligned vector");
    cover!(V::EPB == 1 || (m.n % V::EPB != 0 && old.n > 0), "append to an unaligned vector");
    m.append(&old);
    a.append(b);
    m.check(a);
    check!(b.len() == 0 && b.is_empty(), "append leaves the other vector empty");
    check!(b.get(0).is_none() && b.pop().is_none(), "append leaves no element behind");
    // both are fully usable afterwards
    let x = val::<V>();
    b.push(x);
    check!(b.len() == 1 && at(b, 0) == x.d(), "the emptied vector can be filled again");
    a.push(x);
    m.push(x.d());
    m.check(a);
}

pub fn split_off<V: Ev, const NB: usize>() {
    let mut a = arb_len::<V, NB, 0>(0);
    split(NB * V::EPB, |len| {
        split(len, |p| {
            unsafe { a.set_len(len) };
            split_off_at::<V, NB>(&mut a, p)
        })
    });
}

fn split_off_at<V: Ev, const NB: usize>(a: &mut V, p: usize) {
    let mut ma = Seq::of(a);
    cover!(p == 0 && ma.n == NB * V::EPB, "split everything off");
    cover!(p == ma.n, "split nothing off");
    let mut mb = ma.split_off(p);
    let mut b = a.split_off(p);
    ma.check(a);
    mb.check(&b);
    // both are fully usable afterwards
    let c = b.clone();
    mb.check(&c);
    let x = val::<V>();
    b.push(x);
    mb.push(x.d());
    mb.check(&b);
    a.push(x);
    ma.push(x.d());
    ma.check(a);
}

// ---------------------------------------------------------------- C05

pub fn retain<V: Ev, const NB: usize, const M: usize>() {
    // M = NB * EPB
    let mut v = arb::<V, NB>();
    let len = v.len();
    let mut mask = [false; M];
    let mut i = 0;
    while i < M {
        mask[i] = any();
        i += 1;
    }
    // expected position of the symbolic element j among the accepted ones
    let j: usize = any();
    assume(j < len || len == 0);
    let want = if len > 0 { at(&v, j) } else { 0 };
    let mut pos = 0;
    let mut total = 0;
    let mut i = 0;
    while i < M {
        if i < len && mask[i] {
            if i < j {
                pos += 1;
            }
            total += 1;
        }
        i += 1;
    }
    cover!(len == M && total > 0 && total < len, "retain some of a full vector");
    let before = v.clone();
    let mut calls = 0;
    v.retain(|x| {
        check!(calls < len, "retain visits only live elements");
        check!(x.d() == at(&before, calls), "retain visits the elements in order");
        calls += 1;
        mask[calls - 1]
    });
    check!(calls == len, "retain visits every element once");
    check!(v.len() == total, "retain keeps exactly the accepted elements");
    if len > 0 && mask[j] {
        check!(at(&v, pos) == want, "retain keeps the order");
    }
}

pub fn for_each<V: Ev, const NB: usize, const M: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    let mut new = [0usize; M];
    let mut keep = [false; M];
    let mut i = 0;
    while i < M {
        new[i] = val::<V>().d();
        keep[i] = any();
        i += 1;
    }
    let before = v.clone();
    let mut calls = 0;
    cover!(len == M && keep[0] && !keep[M - 1], "for_each changes some of a full vector");
    v.for_each(|x| {
        check!(calls < len, "for_each visits only live elements");
        check!(x.d() == at(&before, calls), "for_each visits the elements in order");
        if !keep[calls] {
            *x = V::T::of(new[calls]);
        }
        calls += 1;
    });
    check!(calls == len, "for_each visits every element once");
    check!(v.len() == len, "for_each keeps the length");
    let j: usize = any();
    if j < len {
        let want = if keep[j] { at(&before, j) } else { new[j] };
        check!(at(&v, j) == want, "for_each stores the value left by the function");
    }
}

// ---------------------------------------------------------------- C06

pub fn any_all<V: Ev, const NB: usize>() {
    let v = arb::<V, NB>();
    let len = v.len();
    let x = val::<V>();
    let mut some = false;
    let mut every = true;
    let mut b = 0;
    while b < NB {
        let mut s = 0;
        while s < V::EPB {
            let i = b * V::EPB + s;
            if i < len {
                if unsafe { v.get_raw_unchecked(i) } == x.d() {
                    some = true;
                } else {
                    every = false;
                }
            }
            s += 1;
        }
        b += 1;
    }
    cover!(some && !every && len == NB * V::EPB, "mixed full vector");
    cover!(!some && len == NB * V::EPB, "full vector without the value");
    cover!(len == 0, "empty vector");
    cover!(every && len == NB * V::EPB, "full vector of the value");
    check!(v.any(x) == some, "any is true exactly when the value occurs");
    check!(v.all(x) == every, "all is true exactly when every element is the value");
}

// ---------------------------------------------------------------- C07

const LOG: usize = 12;

/// Records everything written to it.
pub struct Rec {
    pub log: [u64; LOG],
    pub n: usize,
}
impl Rec {
    pub fn new() -> Self {
        Rec { log: [0; LOG], n: 0 }
    }
    fn put(&mut self, x: u64) {
        if self.n < LOG {
            self.log[self.n] = x;
        }
        self.n += 1;
    }
}
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.put(b.len() as u64 | 1 << 40);
        for x in b {
            self.put(*x as u64 | 1 << 41);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.put(x as u64);
    }
    fn write_u16(&mut self, x: u16) {
        self.put(x as u64);
    }
    fn write_u32(&mut self, x: u32) {
        self.put(x as u64);
    }
    fn write_u64(&mut self, x: u64) {
        self.put(x);
    }
    fn write_u128(&mut self, x: u128) {
        self.put(x as u64);
        self.put((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.put(x as u64);
    }
}

/// (Entries past the end are zero in both; written out to keep loops out of it.)
pub fn same_log(a: &Rec, b: &Rec) -> bool {
    let (x, y) = (&a.log, &b.log);
    a.n == b.n
        && x[0] == y[0]
        && x[1] == y[1]
        && x[2] == y[2]
        && x[3] == y[3]
        && x[4] == y[4]
        && x[5] == y[5]
        && x[6] == y[6]
        && x[7] == y[7]
        && x[8] == y[8]
        && x[9] == y[9]
        && x[10] == y[10]
        && x[11] == y[11]
}

pub fn eq_hash<V: Ev, const NA: usize, const NB: usize>() {
    let a = arb::<V, NA>();
    let b = arb::<V, NB>();
    let m = if NA < NB { NA } else { NB } * V::EPB;
    let mut same = a.len() == b.len();
    let mut i = 0;
    while i < m {
        if i < a.len() && i < b.len() {
            if unsafe { a.get_raw_unchecked(i) != b.get_raw_unchecked(i) } {
                same = false;
            }
        }
        i += 1;
    }
    cover!(same && a.len() == m, "two equal vectors of maximal length");
    cover!(!same && a.len() == b.len(), "two different vectors of one length");
    check!((a == b) == same, "equal exactly when lengths and elements are equal");
    check!((a != b) != same, "different exactly when not equal");
    check!((b == a) == same, "equality is symmetric");
    if same {
        let mut ha = Rec::new();
        let mut hb = Rec::new();
        a.hash(&mut ha);
        b.hash(&mut hb);
        check!(same_log(&ha, &hb), "equal vectors hash alike");
    }
}

pub fn clone<V: Ev, const NB: usize, const LEN: usize>() {
    let mut a = arb_len::<V, NB, 0>(LEN);
    let was = Seq::of(&a);
    let mut b = a.clone();
    was.check(&a);
    was.check(&b);
    check!(a == b, "a clone is equal");
    let x = val::<V>();
    let side: bool = any();
    split(LEN, |i| {
        let mut now = was;
        let (c, s) = if side { (&mut b, &a) } else { (&mut a, &b) };
        if i < LEN {
            c.set(i, x);
            now.a[i] = x.d();
        } else {
            c.push(x);
            now.push(x.d());
        }
        now.check(c);
        was.check(s);
        cover!(side && (LEN == 0 || was.a[0] != x.d()), "change the clone");
        let same = i < LEN && was.a[i] == x.d();
        check!((*c == *s) == same, "equality follows the changed element");
    });
}

pub fn clone_from<V: Ev, const NA: usize, const NB: usize>() {
    let a = arb::<V, NA>();
    let mut b = arb::<V, NB>();
    b.clone_from(&a);
    cover!(a.len() == NA * V::EPB, "clone_from a full vector");
    check!(b.len() == a.len() && a == b, "clone_from makes equal");
    let x = val::<V>();
    b.push(x);
    check!(at(&b, a.len()) == x.d(), "a vector overwritten by clone_from can be pushed to");
}

// ---------------------------------------------------------------- C22

pub fn raw<V: Ev, const NB: usize>() {
    let mut v = arb::<V, NB>();
    let cap = NB * V::EPB;
    let i = below(cap);
    let j = below(cap);
    let d = val::<V>().d();
    let len = v.len();
    let old = unsafe { v.get_raw_unchecked(j) };
    if j < len {
        check!(at(&v, j) == old, "get agrees with the raw read");
    }
    cover!(i != j && i >= len, "raw write past the length");
    cover!(i == j && i < len, "raw write of a live element");
    unsafe { v.set_raw_unchecked(i, d) };
    check!(v.len() == len, "a raw write keeps the length");
    let want = if i == j { d } else { old };
    check!(unsafe { v.get_raw_unchecked(j) } == want, "a raw write changes exactly its slot");
    if j < len {
        check!(at(&v, j) == want, "get agrees after the raw write");
    }
}

pub fn reserve_raw<V: Ev, const NB: usize>() {
    let mut v = arb_len::<V, NB, 0>(0);
    let x = val::<V>();
    split(NB * V::EPB, |len| {
        split(2 * V::EPB, |n| {
            unsafe { v.set_len(len) };
            let mut m = Seq::of(&v);
            cover!(len == NB * V::EPB && n == 2 * V::EPB, "reserve beyond full storage");
            v.reserve(n);
            m.check(&v);
            unsafe {
                let mut i = 0;
                while i < n {
                    v.set_raw_unchecked(len + i, x.d());
                    i += 1;
                }
                v.set_len(len + n);
            }
            m.push_n(x.d(), n);
            m.check(&v);
        })
    });
}
