//! C24: what a panic in a callback leaves behind.
//!
//! Kani ends a path at a panic, so the vector is looked at the moment the callback is
//! about to panic, through a raw pointer: unwinding only runs destructors from there,
//! and none of the vector's operations has one that touches the vector.  Natively the
//! callback really panics, the panic is caught, and the same checks are made afterwards.

use crate::ev::*;
use crate::nd::{any, assume, finish};

#[cfg(kani)]
fn guarded<V: Ev>(v: &mut V, run: impl FnOnce(&mut V, &dyn Fn()), _look: impl Fn(&V)) {
    let p = v as *mut V as *const V;
    run(v, &|| {
        _look(unsafe { &*p });
        finish();
    });
}
#[cfg(not(kani))]
fn guarded<V: Ev>(v: &mut V, run: impl FnOnce(&mut V, &dyn Fn()), look: impl Fn(&V)) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        run(v, &|| std::panic::resume_unwind(Box::new("the callback panics")))
    }));
    match r {
        Err(e) if e.is::<&str>() && *e.downcast_ref::<&str>().unwrap() == "the callback panics" => look(v),
        Err(e) => std::panic::resume_unwind(e),
        Ok(()) => {}
    }
}

fn covered<V: Ev>(v: &V) {
    let len = v.len();
    check!(v.blocks() >= len / V::EPB && (len % V::EPB == 0 || v.blocks() > len / V::EPB), "storage covers the length");
}

/// The first `n` elements.
fn old<V: Ev, const M: usize>(v: &V) -> [usize; M] {
    let mut a = [usize::MAX; M];
    let mut i = 0;
    while i < M {
        if i < v.len() {
            a[i] = at(v, i);
        }
        i += 1;
    }
    a
}

/// retain: whatever is left was there before.  M = NB * EPB.
pub fn retain<V: Ev, const NB: usize, const M: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    let a = old::<V, M>(&v);
    let when: usize = any();
    let keep: usize = any();
    cover!(when < len && when > 1 && keep & 3 == 2, "panics after one removal and one move");
    guarded(
        &mut v,
        |v, boom| {
            let mut n = 0;
            v.retain(|_| {
                if n == when {
                    boom();
                }
                n += 1;
                keep >> (n - 1) & 1 == 1
            });
        },
        |v| {
            covered(v);
            check!(v.len() <= len, "no element is added");
            let j: usize = any();
            if j < v.len() {
                let d = unsafe { v.get_raw_unchecked(j) };
                let mut found = false;
                let mut i = 0;
                while i < M {
                    found |= i < len && a[i] == d;
                    i += 1;
                }
                check!(found, "every element was there before");
                check!(at(v, j) == d, "it can be read");
            }
        },
    );
}

/// for_each: every element is the one before or the one assigned.
pub fn for_each<V: Ev, const NB: usize, const M: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    let a = old::<V, M>(&v);
    let mut given = [0; M];
    let mut i = 0;
    while i < M {
        given[i] = val::<V>().d();
        i += 1;
    }
    let when: usize = any();
    // whether the closure has already assigned when it panics
    let late: bool = any();
    cover!(when > 1 && when < len, "panics in the middle");
    guarded(
        &mut v,
        |v, boom| {
            let mut n = 0;
            v.for_each(|x| {
                if late {
                    *x = <V::T as El>::of(given[n]);
                }
                if n == when {
                    boom();
                }
                *x = <V::T as El>::of(given[n]);
                n += 1;
            });
        },
        |v| {
            covered(v);
            check!(v.len() == len, "the length stays");
            let j: usize = any();
            if j < len {
                let d = unsafe { v.get_raw_unchecked(j) };
                check!(d == a[j] || (j <= when && d == given[j]), "every element is the old or the new one");
                check!(at(v, j) == d, "it can be read");
            }
        },
    );
}

struct Bomb<'a, T, const M: usize> {
    items: &'a [T; M],
    i: usize,
    when: usize,
    lo: usize,
    boom: &'a dyn Fn(),
}
impl<'a, T: Copy, const M: usize> Iterator for Bomb<'a, T, M> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i == self.when {
            (self.boom)();
        }
        if self.i < M {
            self.i += 1;
            Some(self.items[self.i - 1])
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (if self.lo > self.i { self.lo - self.i } else { 0 }, None)
    }
}

/// extend: the old elements, then some of those the iterator gave, in order.
pub fn extend<V: Ev, const NB: usize, const M: usize>() {
    let mut v = arb_len::<V, NB, 0>(0);
    let given = crate::vec_bulk::items::<V, M>();
    split(NB * V::EPB, |len| {
        split(M, |lo| {
            unsafe { v.set_len(len) };
            let j: usize = any();
            let mut was = 0;
            if j < len {
                was = unsafe { v.get_raw_unchecked(j) };
                assume(was < V::K);
            }
            let when: usize = any();
            cover!(when == 1 && lo == M && len == 1, "panics at the second element");
            guarded(
                &mut v,
                |v, boom| v.extend(Bomb { items: &given, i: 0, when, lo, boom }),
                |v| {
                    covered(v);
                    check!(v.len() >= len && v.len() <= len + when, "no element is made up");
                    if j < v.len() {
                        let d = unsafe { v.get_raw_unchecked(j) };
                        check!(d < V::K, "every element is valid");
                        check!(d == if j < len { was } else { given[j - len].d() }, "the old elements, then the given ones");
                        check!(at(v, j) == d, "it can be read");
                    }
                },
            );
        })
    });
}
