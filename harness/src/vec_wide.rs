//! C02, C03, C07, C22 at every element width: vectors of a given length (so that widths
//! with many elements per block stay cheap) with arbitrary contents, in exactly the
//! blocks they need, and any element of the result.

use crate::ev::*;
use crate::nd::{any, below};

/// L elements of arbitrary value in NB blocks.
fn tight<V: Ev, const NB: usize, const L: usize>() -> V {
    arb_len::<V, NB, 0>(L)
}

pub fn insert<V: Ev, const NB: usize, const L: usize, const I: usize>() {
    let mut v = tight::<V, NB, L>();
    let i = I;
    let x = val::<V>();
    let j = below(L + 1);
    let want = if j < i { at(&v, j) } else if j == i { x.d() } else { at(&v, j - 1) };
    cover!(j == L, "the last element moves");
    v.insert(i, x);
    check!(v.len() == L + 1, "insert adds one element");
    check!(at(&v, j) == want, "insert shifts exactly the tail");
}

pub fn remove<V: Ev, const NB: usize, const L: usize, const I: usize>() {
    let mut v = tight::<V, NB, L>();
    let i = I;
    let old = at(&v, i);
    let j = below(L - 1);
    let want = if j < i { at(&v, j) } else { at(&v, j + 1) };
    cover!(j + 2 == L, "the last element moves");
    let r = v.remove(i);
    check!(r.d() == old, "remove returns the element");
    check!(v.len() == L - 1, "remove drops one element");
    check!(at(&v, j) == want, "remove shifts exactly the tail");
    // growing over what was left behind
    let x = val::<V>();
    v.push(x);
    check!(at(&v, L - 1) == x.d() && at(&v, j) == want, "the freed slot can be used again");
}

pub fn append<V: Ev, const NA: usize, const LA: usize, const NB: usize, const LB: usize>() {
    let mut a = tight::<V, NA, LA>();
    let mut b = tight::<V, NB, LB>();
    let j = below(LA + LB);
    let want = if j < LA { at(&a, j) } else { at(&b, j - LA) };
    cover!(j + 1 == LA + LB, "the last element");
    a.append(&mut b);
    check!(a.len() == LA + LB, "the lengths add up");
    check!(at(&a, j) == want, "the elements of both in order");
    check!(a.get(LA + LB).is_none(), "nothing past the end");
    check!(b.len() == 0 && b.get(0).is_none(), "the other vector is empty");
    let x = val::<V>();
    b.push(x);
    a.push(x);
    check!(b.len() == 1 && at(&b, 0) == x.d(), "the emptied vector can be filled again");
    check!(at(&a, j) == want && at(&a, LA + LB) == x.d(), "the joined vector can be pushed to");
}

pub fn split_off<V: Ev, const NB: usize, const L: usize, const P: usize>() {
    let mut a = tight::<V, NB, L>();
    let j = below(L);
    let want = at(&a, j);
    cover!(j == P, "the first element split off");
    let mut b = a.split_off(P);
    check!(a.len() == P && b.len() == L - P, "the lengths add up");
    check!(a.get(P).is_none() && b.get(L - P).is_none(), "nothing past the ends");
    let got = if j < P { at(&a, j) } else { at(&b, j - P) };
    check!(got == want, "every element is on its side");
    let x = val::<V>();
    b.push(x);
    a.push(x);
    check!(at(&a, P) == x.d() && at(&b, L - P) == x.d(), "both can be pushed to");
    let got = if j < P { at(&a, j) } else { at(&b, j - P) };
    check!(got == want, "and keep their elements");
}

/// After reserve(n) the next n slots can be written raw and become the elements.
pub fn reserve<V: Ev, const NB: usize, const L: usize, const N: usize>() {
    let mut v = tight::<V, NB, L>();
    let j = below(L + N);
    let x = val::<V>();
    let y = val::<V>();
    let k = L + below(N);
    let want = if j < L { at(&v, j) } else if j == k { y.d() } else { x.d() };
    cover!(j >= L && j != k && x.d() != y.d(), "a reserved slot");
    v.reserve(N);
    check!(v.capacity() >= L + N, "the room asked for");
    unsafe {
        let mut i = 0;
        while i < N {
            v.set_raw_unchecked(L + i, x.d());
            i += 1;
        }
        v.set_raw_unchecked(k, y.d());
        v.set_len(L + N);
    }
    check!(at(&v, j) == want, "the old elements, then what was written");
}

/// Equality and hash of two vectors of one length whose storage differs elsewhere.
pub fn eq_hash<V: Ev, const NB: usize, const L: usize>() {
    let a = tight::<V, NB, L>();
    // the other one has a block more than it needs
    let b = arb_len::<V, NB, 1>(L);
    let mut same = true;
    let mut i = 0;
    while i < L {
        same &= unsafe { a.get_raw_unchecked(i) == b.get_raw_unchecked(i) };
        i += 1;
    }
    cover!(same, "equal");
    cover!(!same && (L == 1 || at(&a, 0) == at(&b, 0)), "different");
    check!((a == b) == same && (b == a) == same, "equal exactly when the elements are");
    let c = a.clone();
    check!(c == a && (c == b) == same, "a clone is equal to the same vectors");
    let j = below(L);
    check!(at(&c, j) == at(&a, j), "a clone has the same elements");
}

pub fn any_all<V: Ev, const NB: usize, const L: usize>() {
    let v = tight::<V, NB, L>();
    let x = val::<V>();
    let (mut some, mut every) = (false, true);
    let mut i = 0;
    while i < L {
        let same = unsafe { v.get_raw_unchecked(i) } == x.d();
        some |= same;
        every &= same;
        i += 1;
    }
    cover!(some && !every, "mixed");
    cover!(every, "all");
    cover!(!some, "none");
    check!(v.any(x) == some, "any is true exactly when the value occurs");
    check!(v.all(x) == every, "all is true exactly when every element is the value");
    let _: bool = any();
}
