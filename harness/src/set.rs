//! C19 - C21: EnumSet against sets of discriminants.

use crate::ev::{split, N};
use crate::nd::{any, assume};
use crate::vec_ops::{same_log, Rec};
use bit_set::BitSet;
use bit_vec::BitVec;
use enum_set2::EnumSet;
use std::cmp::Ordering;
use std::hash::Hash;

pub type S<const K: usize> = EnumSet<N<K>>;

/// The members of a universe of at most 128 values.
pub type M = u128;

fn has(m: M, d: usize) -> bool {
    m >> d & 1 == 1
}

/// An arbitrary set whose internal bit vector is `BITS` long, as earlier operations
/// leave behind, and its members.
pub fn arb<const K: usize, const BITS: usize>() -> (S<K>, M) {
    let mut v = BitVec::from_elem(BITS, false);
    let mut m: M = 0;
    let mut w = 0;
    while w * 32 < BITS {
        let mut x: u32 = any();
        let rest = BITS - w * 32;
        if rest < 32 {
            x &= (1u32 << rest) - 1;
        }
        unsafe { v.storage_mut()[w] = x };
        m |= (x as M) << (w * 32);
        w += 1;
    }
    (EnumSet::from_bit_set(BitSet::from_bit_vec(v)), m)
}

/// The set has exactly the members `m`: one arbitrary value decides for all of them.
fn is<const K: usize>(s: &S<K>, m: M) {
    let j = N::<K>::arb();
    check!(s.contains(j) == has(m, j.0), "membership is exactly the model's");
    check!(s.len() == m.count_ones() as usize, "len counts the members");
    check!(s.is_empty() == (m == 0), "is_empty exactly when there is no member");
}

// ---------------------------------------------------------------- C19

/// Values around the word boundaries of any internal length.
fn cand<const K: usize, const BITS: usize>() -> [usize; 8] {
    [0, 1, 31, 32, 63, 64, BITS, K - 1]
}

/// Inserting a value may make the bit vector grow by an amount that depends on it, so
/// the values are split into cases: every value of the universe, or the ones at the
/// boundaries.
#[inline(always)]
fn values<const K: usize, const BITS: usize, const ALL: bool>(mut f: impl FnMut(usize)) {
    if ALL {
        split(K - 1, f);
    } else {
        split(7, |i| {
            let d = cand::<K, BITS>()[i];
            if d < K {
                f(d);
            }
        });
    }
}

pub fn insert<const K: usize, const BITS: usize, const ALL: bool>() {
    let (mut s, m) = arb::<K, BITS>();
    values::<K, BITS, ALL>(|d| {
        let x = N::<K>(d);
        let was = has(m, d);
        cover!(was || BITS == 0, "a member");
        cover!(!was, "not a member");
        check!(s.insert(x) == !was, "insert returns whether the value was absent");
        is(&s, m | 1 << d);
        check!(!s.insert(x), "the second insert returns false");
        check!(s.contains(x), "an inserted value is contained");
        is(&s, m | 1 << d);
    });
}

pub fn remove<const K: usize, const BITS: usize>() {
    let (mut s, m) = arb::<K, BITS>();
    let x = N::<K>::arb();
    let was = has(m, x.0);
    cover!(was || BITS == 0, "a member");
    cover!(!was && x.0 == K - 1, "the last value, not a member");
    check!(s.contains(x) == was, "contains reports membership");
    check!(s.remove(x) == was, "remove returns whether the value was present");
    let r = m & !(1 << x.0);
    is(&s, r);
    check!(!s.remove(x), "the second remove returns false");
    check!(!s.contains(x), "a removed value is not contained");
    is(&s, r);
}

/// clear, remove everything, shrink_to_fit; then the set can be used again.
pub fn again<const K: usize, const BITS: usize, const OP: usize>() {
    let (mut s, m) = arb::<K, BITS>();
    cover!(m != 0 || BITS == 0, "members");
    let r = match OP {
        0 => {
            s.clear();
            0
        }
        1 => {
            s.shrink_to_fit();
            m
        }
        _ => {
            s.clear();
            s.shrink_to_fit();
            0
        }
    };
    is(&s, r);
    if OP == 1 {
        // the length after shrinking depends on the members: no growing from here
        return;
    }
    values::<K, BITS, false>(|d| {
        check!(s.insert(N(d)) == !has(r, d), "the set can be used again");
        is(&s, r | 1 << d);
        s.remove(N(d));
        is(&s, r & !(1 << d));
    });
}

/// A set of one given member, shrunk, then another value inserted.
pub fn shrunk<const K: usize>() {
    let cand = [0, 31, 32, K - 1];
    split(3, |i| {
        split(3, |j| {
            let (a, b) = (cand[i], cand[j]);
            if a < K && b < K {
                let mut s = S::<K>::new();
                s.insert(N(K - 1));
                s.insert(N(a));
                if a != K - 1 {
                    s.remove(N(K - 1));
                }
                s.shrink_to_fit();
                is(&s, 1 << a);
                cover!(a < b, "a higher value after shrinking");
                check!(s.insert(N(b)) == (a != b), "a shrunk set can be used again");
                is(&s, 1 << a | 1 << b);
            }
        })
    });
}

/// new, default, collect, extend, with values at the word boundaries.
pub fn build<const K: usize, const BITS: usize>() {
    let (mut t, tm) = arb::<K, BITS>();
    let cand = [0, 31, 32, K - 1];
    let e = S::<K>::new();
    is(&e, 0);
    let e = S::<K>::default();
    is(&e, 0);
    let e: S<K> = None.into_iter().collect();
    is(&e, 0);
    t.extend(None);
    is(&t, tm);
    split(3, |i| {
        split(3, |j| {
            let (a, b) = (N::<K>(cand[i]), N::<K>(cand[j]));
            if a.0 < K && b.0 < K {
                let list = [a, b];
                let m = 1 << a.0 | 1 << b.0;
                cover!(a != b, "two values");
                if any() {
                    let s: S<K> = list.iter().cloned().collect();
                    is(&s, m);
                } else {
                    t.extend(list.iter().cloned());
                    is(&t, tm | m);
                }
            }
        })
    });
}

/// The inner bit set shows the same members, in both directions.
pub fn inner<const K: usize, const BITS: usize>() {
    let (s, m) = arb::<K, BITS>();
    let j = N::<K>::arb();
    cover!(has(m, j.0), "a member");
    check!(s.get_ref().contains(j.0) == has(m, j.0), "get_ref shows the members by discriminant");
    let b = s.into_bit_set();
    check!(b.contains(j.0) == has(m, j.0), "into_bit_set shows the members by discriminant");
    let s = S::<K>::from_bit_set(b);
    is(&s, m);
}

// ---------------------------------------------------------------- C20

/// OP: 0 union_with, 1 intersect_with, 2 difference_with, 3 symmetric_difference_with, 4 the predicates
pub fn algebra<const K: usize, const A: usize, const B: usize, const OP: usize>() {
    let (mut s, m) = arb::<K, A>();
    let (t, n) = arb::<K, B>();
    let l = if A < B { A } else { B };
    cover!(m != 0 && n != 0 && m != n && (l < 2 || m & n != 0), "overlapping sets");
    let r = match OP {
        0 => {
            s.union_with(&t);
            m | n
        }
        1 => {
            s.intersect_with(&t);
            m & n
        }
        2 => {
            s.difference_with(&t);
            m & !n
        }
        3 => {
            s.symmetric_difference_with(&t);
            m ^ n
        }
        _ => {
            check!(s.is_subset(&t) == (m & !n == 0), "is_subset is exact");
            check!(s.is_superset(&t) == (n & !m == 0), "is_superset is exact");
            check!(s.is_disjoint(&t) == (m & n == 0), "is_disjoint is exact");
            m
        }
    };
    is(&s, r);
    is(&t, n);
    // the result can be used further
    if OP < 4 {
        let x = N::<K>::arb();
        assume(x.0 < l);
        check!(s.remove(x) == has(r, x.0), "the result of an in-place operation can be used");
        is(&s, r & !(1 << x.0));
    }
}

/// The iterators: exactly the members of the result, in increasing order.  `P` bounds
/// the number of members of the result.
pub fn algebra_iter<const K: usize, const A: usize, const B: usize, const OP: usize, const P: usize>() {
    let (s, m) = arb::<K, A>();
    let (t, n) = arb::<K, B>();
    let r = match OP {
        0 => m | n,
        1 => m & n,
        2 => m & !n,
        _ => m ^ n,
    };
    assume(r.count_ones() as usize <= P);
    cover!(r.count_ones() as usize == P, "as many members as allowed");
    match OP {
        0 => each::<K, P>(s.union(&t), r),
        1 => each::<K, P>(s.intersection(&t), r),
        2 => each::<K, P>(s.difference(&t), r),
        _ => each::<K, P>(s.symmetric_difference(&t), r),
    }
    is(&s, m);
    is(&t, n);
}

/// The iterator yields exactly the members of `m`, lowest first.
fn each<const K: usize, const P: usize>(mut it: impl Iterator<Item = N<K>>, m: M) {
    let mut rest = m;
    let mut i = 0;
    while i < P {
        let want = if rest == 0 { None } else { Some(N(rest.trailing_zeros() as usize)) };
        let got = it.next();
        check!(got == want, "the next member, in increasing order");
        rest &= rest.wrapping_sub(1);
        i += 1;
    }
    check!(it.next().is_none(), "nothing after the last member");
}

// ---------------------------------------------------------------- C21

pub fn iter<const K: usize, const BITS: usize, const P: usize>() {
    let (s, m) = arb::<K, BITS>();
    assume(m.count_ones() as usize <= P);
    cover!(m.count_ones() as usize == P && has(m, BITS - 1), "as many members as allowed");
    each::<K, P>(s.iter(), m);
    each::<K, P>((&s).into_iter(), m);
}

pub fn equal<const K: usize, const A: usize, const B: usize, const P: usize>() {
    let (s, m) = arb::<K, A>();
    let (t, n) = arb::<K, B>();
    assume(m.count_ones() as usize <= P && n.count_ones() as usize <= P);
    cover!(m == n && m.count_ones() as usize == P, "equal sets");
    cover!(m != n && m.count_ones() == n.count_ones(), "different sets of one size");
    check!((s == t) == (m == n), "equal exactly when the members are");
    check!((s != t) == (m != n), "different exactly when the members are");
    check!((t == s) == (m == n), "equality is symmetric");
}

pub fn hash<const K: usize, const A: usize, const B: usize, const P: usize>() {
    let (s, m) = arb::<K, A>();
    let (t, n) = arb::<K, B>();
    assume(m == n && m.count_ones() as usize <= P);
    cover!(m.count_ones() as usize == P, "equal sets");
    let (mut h, mut g) = (Rec::new(), Rec::new());
    s.hash(&mut h);
    t.hash(&mut g);
    check!(same_log(&h, &g), "equal sets hash alike");
}

pub fn order<const K: usize, const A: usize, const B: usize, const P: usize>() {
    let (s, m) = arb::<K, A>();
    let (t, n) = arb::<K, B>();
    assume(m.count_ones() as usize <= P && n.count_ones() as usize <= P);
    cover!(m == n && m.count_ones() as usize == P, "equal sets");
    cover!(m != n, "different sets");
    let c = s.cmp(&t);
    check!((c == Ordering::Equal) == (m == n), "ordered as equal exactly when the members are equal");
    check!(t.cmp(&s) == c.reverse(), "the order is antisymmetric");
    check!(s.partial_cmp(&t) == Some(c), "the partial order agrees");
}

pub fn clone<const K: usize, const BITS: usize, const P: usize>() {
    let (mut s, m) = arb::<K, BITS>();
    let mut t = s.clone();
    is(&t, m);
    let x = N::<K>::arb();
    assume(x.0 < BITS);
    cover!(has(m, x.0), "a member");
    if any() {
        t.remove(x);
        is(&s, m);
        is(&t, m & !(1 << x.0));
    } else {
        s.remove(x);
        is(&t, m);
        is(&s, m & !(1 << x.0));
    }
    split(1, |i| {
        let d = if i == 0 { 0 } else { BITS - 1 };
        let (mt, ms) = (t.contains(N(d)), s.contains(N(d)));
        if any() {
            t.insert(N(d));
            check!(t.contains(N(d)) && s.contains(N(d)) == ms, "inserting into the clone leaves the source");
        } else {
            s.insert(N(d));
            check!(s.contains(N(d)) && t.contains(N(d)) == mt, "inserting into the source leaves the clone");
        }
    });
}

pub fn clone_from<const K: usize, const A: usize, const B: usize>() {
    let (s, m) = arb::<K, A>();
    let (mut t, _) = arb::<K, B>();
    t.clone_from(&s);
    cover!(m != 0, "members");
    is(&t, m);
    is(&s, m);
}
