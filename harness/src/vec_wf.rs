//! C11: every operation leads from a well-formed vector to well-formed vectors.
//! Well-formed: the storage covers the length and every live discriminant is below the
//! number of variants.  That is what every later unchecked access relies on.

use crate::ev::*;
use crate::nd::{any, assume, below, upto};
use crate::vec_bulk::{items, Src};

/// The storage covers the length, and the slot `j` holds a valid discriminant.
fn wf<V: Ev>(v: &V) {
    let len = v.len();
    check!(v.blocks() >= len / V::EPB && (len % V::EPB == 0 || v.blocks() > len / V::EPB), "storage covers the length");
    let j: usize = any();
    if j < len {
        check!(unsafe { v.get_raw_unchecked(j) } < V::K, "every element holds a valid discriminant");
    }
}

/// Operations whose allocations do not depend on the length.
pub fn step<V: Ev, const NB: usize, const OP: usize>() {
    let mut v = arb::<V, NB>();
    let len = v.len();
    let x = val::<V>();
    cover!(len == NB * V::EPB, "full storage");
    cover!(len > 0 && len < NB * V::EPB, "partial storage");
    match OP {
        0 => v.push(x),
        1 => {
            if let Some(r) = v.pop() {
                check!(r.d() < V::K, "pop yields a valid value");
            }
        }
        2 => {
            assume(len > 0);
            v.set(below(len), x)
        }
        3 => {
            assume(len > 0);
            v.swap(below(len), below(len))
        }
        4 => v.truncate(any()),
        5 => v.clear(),
        6 => {
            assume(len > 0);
            check!(v.remove(below(len)).d() < V::K, "remove yields a valid value")
        }
        7 => {
            assume(len > 0);
            check!(v.swap_remove(below(len)).d() < V::K, "swap_remove yields a valid value")
        }
        8 => v.retain(|y| {
            check!(y.d() < V::K, "retain sees valid values");
            any()
        }),
        9 => v.for_each(|y| {
            check!(y.d() < V::K, "for_each sees valid values");
            *y = val::<V>();
        }),
        10 => {
            let mut it = v.it();
            let a = it.nth(any());
            let b = it.next_back();
            check!(a.map_or(true, |y| y.d() < V::K) && b.map_or(true, |y| y.d() < V::K), "iteration yields valid values");
        }
        11 => {
            let i: usize = any();
            check!(v.get(i).map_or(true, |y| y.d() < V::K), "get yields a valid value");
        }
        _ => v.insert(upto(len), x),
    }
    wf(&v);
}

/// insert with room for one more block, and into full storage.
pub fn insert_room<V: Ev, const NB: usize>() {
    let mut v = arb_cap::<V, NB, 1>();
    let len = v.len();
    cover!(len == NB * V::EPB, "full storage");
    v.insert(upto(len), val::<V>());
    wf(&v);
}
pub fn insert_full<V: Ev, const NB: usize>() {
    let mut v = arb_len::<V, NB, 0>(NB * V::EPB);
    v.insert(upto(NB * V::EPB), val::<V>());
    cover!(true, "full storage");
    wf(&v);
}

/// Operations that allocate by length: a case split over the lengths.
pub fn bulk<V: Ev, const NB: usize, const OP: usize>() {
    let mut v = arb_len::<V, NB, 1>(NB * V::EPB);
    let x = val::<V>();
    let it = items::<V, 3>();
    split(NB * V::EPB, |len| {
        let top = match OP {
            0 | 1 => NB * V::EPB,
            4 | 9 => 3,
            5 => 0,
            6 => 2 * V::EPB,
            _ => 2 * V::EPB,
        };
        split(top, |n| {
            unsafe { v.set_len(len) };
            cover!(len == NB * V::EPB && n == top, "full storage");
            match OP {
                0 => {
                    if n <= len {
                        let w = v.split_off(n);
                        wf(&w);
                    }
                }
                1 => {
                    if n <= len {
                        v.truncate(n);
                        v.shrink_to_fit();
                    }
                }
                2 => v.reserve(n),
                3 => v.resize(n, x),
                4 => {
                    let m = if n < 3 { n } else { 3 };
                    v.extend(Src { items: it, i: 0, n: m, lo: m / 2, upper: false })
                }
                5 => {
                    let mut w = v.clone();
                    wf(&w);
                    w.push(x);
                    wf(&w);
                }
                6 => {
                    let mut w = V::from_elem(x, n);
                    wf(&w);
                    w.clone_from(&v);
                    wf(&w);
                }
                7 => {
                    let mut w = V::from_elem(x, n);
                    w.append(&mut v);
                    wf(&w);
                }
                8 => {
                    let mut w = V::from_elem(x, n);
                    v.append(&mut w);
                    wf(&w);
                }
                _ => {
                    let m = if n < 3 { n } else { 3 };
                    let w = V::from_slice(&it[..m]);
                    wf(&w);
                    if n == 0 {
                        let u: V = v.to_vec().into();
                        wf(&u);
                    }
                }
            }
            wf(&v);
        })
    });
}
