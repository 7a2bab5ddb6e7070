//! C17 and C18: iterating over a type's values, and packed values.

use crate::ev::N;
use crate::nd::any;
use crate::vec_ops::{same_log, Rec};
use enum_like::{EnumValues, PackedU16, PackedU8};
use std::hash::Hash;

/// `STEPS` arbitrary steps from the start, then every way to look at what is left.
pub fn values<const K: usize, const STEPS: usize>() {
    let mut it = N::<K>::values();
    let mut pos: usize = 0; // values handed out so far
    let mut s = 0;
    while s < STEPS {
        let rest = K - pos;
        if any() {
            let n: usize = any();
            let got = it.nth(n);
            if n < rest {
                check!(got == Some(N(pos + n)), "nth yields the value n places on");
                pos += n + 1;
            } else {
                check!(got.is_none(), "nth past the end yields None");
                pos = K;
            }
        } else {
            let got = it.next();
            if rest > 0 {
                check!(got == Some(N(pos)), "next yields the next discriminant's value");
                pos += 1;
            } else {
                check!(got.is_none(), "next after the end yields None");
            }
        }
        s += 1;
    }
    cover!(pos == K || STEPS == 0, "reached the end");
    cover!(pos < K || K <= STEPS, "before the end");
    let rest = K - pos;
    check!(it.size_hint() == (rest, Some(rest)), "size_hint is what is left");
    check!(it.len() == rest, "len is what is left");
    let copy = it;
    check!(copy.count() == rest, "count is what is left");
    let copy = it.clone();
    check!(copy.last() == if rest > 0 { Some(N(K - 1)) } else { None }, "last is the last value");
    let got = it.next();
    check!(got == if rest > 0 { Some(N(pos)) } else { None }, "next after looking");
}

/// Iterating to the end: each value once, in order, then None for ever.
pub fn values_all<T: crate::like::Comp, const M: usize>() {
    let mut it = T::values();
    let mut i = 0;
    while i < T::COUNT {
        match it.next() {
            Some(x) => check!(x.num() == i && x.to_discr() == i, "values come in discriminant order"),
            None => check!(false, "values() ends too early"),
        }
        i += 1;
    }
    check!(it.next().is_none() && it.next().is_none(), "values() ends");
    check!(it.nth(any()).is_none(), "and stays ended");
    cover!(i == T::COUNT, "the end");
    let mut n = 0;
    for x in T::values() {
        check!(x.to_discr() == n, "a for loop yields the values in order");
        n += 1;
    }
    check!(n == T::COUNT, "a for loop yields every value");
}

macro_rules! packed {
    ($name:ident, $p:ident) => {
        pub fn $name<const K: usize>() {
            let (a, b) = (N::<K>::arb(), N::<K>::arb());
            let (p, q) = ($p::new(a), $p::new(b));
            cover!(a.0 == K - 1 && (K < 2 || b.0 == 1), "the last value");
            check!(p.get() == a && q.get() == b, "unpacking returns the packed value");
            check!((p == q) == (a.0 == b.0), "equal exactly when the discriminants are");
            check!((p != q) == (a.0 != b.0), "different exactly when the discriminants are");
            check!(p.cmp(&q) == a.0.cmp(&b.0), "ordered like the discriminants");
            check!(p.partial_cmp(&q) == Some(a.0.cmp(&b.0)), "partially ordered like the discriminants");
            check!((p < q) == (a.0 < b.0) && (p >= q) == (a.0 >= b.0), "the operators agree");
            let (mut h, mut g) = (Rec::new(), Rec::new());
            p.hash(&mut h);
            q.hash(&mut g);
            check!(same_log(&h, &g) == (a.0 == b.0), "hashed like the discriminants");
            let c = p;
            check!(c.get() == a, "a copy holds the same value");
        }
    };
}
packed!(packed8, PackedU8);
packed!(packed16, PackedU16);

/// Packing a type with structure.
pub fn packed_of<T: crate::like::Comp>() {
    let a = T::arb();
    let p = PackedU8::new(a);
    let q = PackedU16::new(a);
    cover!(a.num() == T::COUNT - 1, "the last value");
    check!(p.get().same(&a), "unpacking returns the packed value");
    check!(q.get().same(&a), "unpacking returns the packed value");
}
