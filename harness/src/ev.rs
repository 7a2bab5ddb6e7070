//! One trait over the six storage backends, so that a harness body is written once
//! and instantiated per backend and element width.  It only forwards to the public
//! API of `enum_vec`.

use crate::nd::{any, assume, Any};
use enum_like::EnumLike;
use std::fmt::Debug;
use std::hash::Hash;

/// An element type with exactly `K` variants.
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct N<const K: usize>(pub usize);

pub const LETTERS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

impl<const K: usize> Debug for N<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        // a letter for each of the first values
        let d = if self.0 < LETTERS.len() { self.0 } else { LETTERS.len() - 1 };
        f.write_str(unsafe { LETTERS.get_unchecked(d..d + 1) })
    }
}

unsafe impl<const K: usize> EnumLike for N<K> {
    const NUM_VARIANTS: usize = K;
    #[inline(always)]
    fn to_discr(self) -> usize {
        self.0
    }
    #[inline(always)]
    fn from_discr(x: usize) -> Self {
        N(x)
    }
}

impl<const K: usize> N<K> {
    /// An arbitrary valid value.
    pub fn arb() -> Self {
        let x: usize = any();
        assume(x < K);
        N(x)
    }
}

pub const fn bits_for(k: usize) -> usize {
    (usize::BITS - (k - 1).leading_zeros()) as usize
}

pub trait El: EnumLike + PartialEq + Eq + Debug + Hash {
    fn arb() -> Self;
    fn d(self) -> usize;
    fn of(d: usize) -> Self;
}
impl<const K: usize> El for N<K> {
    #[inline(always)]
    fn arb() -> Self {
        N::<K>::arb()
    }
    #[inline(always)]
    fn d(self) -> usize {
        self.0
    }
    #[inline(always)]
    fn of(d: usize) -> Self {
        N(d)
    }
}

pub trait Ev:
    Sized
    + Clone
    + PartialEq
    + Eq
    + Hash
    + Debug
    + Default
    + Extend<<Self as Ev>::T>
    + std::iter::FromIterator<<Self as Ev>::T>
    + From<Vec<<Self as Ev>::T>>
    + Into<Vec<<Self as Ev>::T>>
    + IntoIterator<Item = <Self as Ev>::T>
{
    type T: El;
    type B: Any;
    const K: usize;
    const SBS: usize;
    const BITS: usize = bits_for(Self::K);
    const EPB: usize = Self::SBS / Self::BITS;
    /// Blocks that live inline, without allocation.
    const INLINE: usize;
    type OwnIter: DoubleEndedIterator<Item = <Self as Ev>::T> + ExactSizeIterator;

    fn new() -> Self;
    fn with_capacity(n: usize) -> Self;
    fn capacity(&self) -> usize;
    fn get(&self, i: usize) -> Option<Self::T>;
    fn set(&mut self, i: usize, x: Self::T);
    fn reserve(&mut self, n: usize);
    fn shrink_to_fit(&mut self);
    fn truncate(&mut self, n: usize);
    fn swap_remove(&mut self, i: usize) -> Self::T;
    fn insert(&mut self, i: usize, x: Self::T);
    fn remove(&mut self, i: usize) -> Self::T;
    fn retain<F: FnMut(&Self::T) -> bool>(&mut self, f: F);
    fn push(&mut self, x: Self::T);
    fn pop(&mut self) -> Option<Self::T>;
    fn append(&mut self, o: &mut Self);
    fn clear(&mut self);
    fn len(&self) -> usize;
    unsafe fn set_len(&mut self, n: usize);
    fn is_empty(&self) -> bool;
    fn split_off(&mut self, at: usize) -> Self;
    fn resize(&mut self, n: usize, x: Self::T);
    unsafe fn get_raw_unchecked(&self, i: usize) -> usize;
    unsafe fn set_raw_unchecked(&mut self, i: usize, d: usize);
    fn swap(&mut self, a: usize, b: usize);
    fn it(&self) -> impl DoubleEndedIterator<Item = Self::T> + ExactSizeIterator + '_;
    fn it_ref(&self) -> impl DoubleEndedIterator<Item = Self::T> + ExactSizeIterator + '_;
    fn own(self) -> Self::OwnIter;
    fn for_each<F: FnMut(&mut Self::T)>(&mut self, f: F);
    fn to_vec(&self) -> Vec<Self::T>;
    fn from_elem(x: Self::T, n: usize) -> Self;
    fn from_slice(x: &[Self::T]) -> Self;
    fn any(&self, x: Self::T) -> bool;
    fn all(&self, x: Self::T) -> bool;
    fn mac_list3(a: Self::T, b: Self::T, c: Self::T) -> Self;
    fn mac_fill(a: Self::T, n: usize) -> Self;

    // storage access, through storage()/storage_mut()
    fn push_block(&mut self, b: Self::B);
    fn grow_blocks(&mut self, extra: usize);
    fn blocks(&self) -> usize;
    fn block_cap(&self) -> usize;
    fn ptr(&self) -> *const u8;
}

macro_rules! backend {
    ($m:ident, $b:ty, $sbs:expr, $inline:expr) => {
        mod $m {
            use super::*;
            use enum_vec::enum_vec;
            use enum_vec::$m::EnumVec;
            impl<const K: usize> Ev for EnumVec<N<K>> {
                type T = N<K>;
                type B = $b;
                const K: usize = K;
                const SBS: usize = $sbs;
                const INLINE: usize = $inline;
                type OwnIter = <EnumVec<N<K>> as IntoIterator>::IntoIter;

                fn new() -> Self { EnumVec::new() }
                fn with_capacity(n: usize) -> Self { EnumVec::with_capacity(n) }
                fn capacity(&self) -> usize { EnumVec::capacity(self) }
                fn get(&self, i: usize) -> Option<N<K>> { EnumVec::get(self, i) }
                fn set(&mut self, i: usize, x: N<K>) { EnumVec::set(self, i, x) }
                fn reserve(&mut self, n: usize) { EnumVec::reserve(self, n) }
                fn shrink_to_fit(&mut self) { EnumVec::shrink_to_fit(self) }
                fn truncate(&mut self, n: usize) { EnumVec::truncate(self, n) }
                fn swap_remove(&mut self, i: usize) -> N<K> { EnumVec::swap_remove(self, i) }
                fn insert(&mut self, i: usize, x: N<K>) { EnumVec::insert(self, i, x) }
                fn remove(&mut self, i: usize) -> N<K> { EnumVec::remove(self, i) }
                fn retain<F: FnMut(&N<K>) -> bool>(&mut self, f: F) { EnumVec::retain(self, f) }
                fn push(&mut self, x: N<K>) { EnumVec::push(self, x) }
                fn pop(&mut self) -> Option<N<K>> { EnumVec::pop(self) }
                fn append(&mut self, o: &mut Self) { EnumVec::append(self, o) }
                fn clear(&mut self) { EnumVec::clear(self) }
                fn len(&self) -> usize { EnumVec::len(self) }
                unsafe fn set_len(&mut self, n: usize) { EnumVec::set_len(self, n) }
                fn is_empty(&self) -> bool { EnumVec::is_empty(self) }
                fn split_off(&mut self, at: usize) -> Self { EnumVec::split_off(self, at) }
                fn resize(&mut self, n: usize, x: N<K>) { EnumVec::resize(self, n, x) }
                unsafe fn get_raw_unchecked(&self, i: usize) -> usize { EnumVec::get_raw_unchecked(self, i) }
                unsafe fn set_raw_unchecked(&mut self, i: usize, d: usize) { EnumVec::set_raw_unchecked(self, i, d) }
                fn swap(&mut self, a: usize, b: usize) { EnumVec::swap(self, a, b) }
                fn it(&self) -> impl DoubleEndedIterator<Item = N<K>> + ExactSizeIterator + '_ { EnumVec::iter(self) }
                fn it_ref(&self) -> impl DoubleEndedIterator<Item = N<K>> + ExactSizeIterator + '_ { self.into_iter() }
                fn own(self) -> Self::OwnIter { self.into_iter() }
                fn for_each<F: FnMut(&mut N<K>)>(&mut self, f: F) { EnumVec::for_each(self, f) }
                fn to_vec(&self) -> Vec<N<K>> { EnumVec::to_vec(self) }
                fn from_elem(x: N<K>, n: usize) -> Self { EnumVec::from_elem(x, n) }
                fn from_slice(x: &[N<K>]) -> Self { EnumVec::from_slice(x) }
                fn any(&self, x: N<K>) -> bool { EnumVec::any(self, x) }
                fn all(&self, x: N<K>) -> bool { EnumVec::all(self, x) }
                fn mac_list3(a: N<K>, b: N<K>, c: N<K>) -> Self { enum_vec![a, b, c] }
                fn mac_fill(a: N<K>, n: usize) -> Self { enum_vec![a; n] }

                fn push_block(&mut self, b: $b) { unsafe { self.storage_mut().push(b) } }
                fn grow_blocks(&mut self, extra: usize) { unsafe { self.storage_mut().reserve_exact(extra) } }
                fn blocks(&self) -> usize { self.storage().len() }
                fn block_cap(&self) -> usize { self.storage().capacity() }
                fn ptr(&self) -> *const u8 { self.storage().as_ptr() as *const u8 }
            }
        }
    };
}
backend!(vec_u8, u8, 8, 0);
backend!(vec_u16, u16, 16, 0);
backend!(vec_u32, u32, 32, 0);
backend!(vec_u64, u64, 64, 0);
backend!(vec_u128, u128, 128, 0);
backend!(smallvec_u32, u32, 32, 4);

pub type U8<const K: usize> = enum_vec::vec_u8::EnumVec<N<K>>;
pub type U16<const K: usize> = enum_vec::vec_u16::EnumVec<N<K>>;
pub type U32<const K: usize> = enum_vec::vec_u32::EnumVec<N<K>>;
pub type U64<const K: usize> = enum_vec::vec_u64::EnumVec<N<K>>;
pub type U128<const K: usize> = enum_vec::vec_u128::EnumVec<N<K>>;
pub type SM<const K: usize> = enum_vec::smallvec_u32::EnumVec<N<K>>;

/// An arbitrary well-formed vector: `NB` storage blocks with arbitrary contents
/// (so the spare bits of each block, the slots past the length and whole unused
/// blocks are arbitrary garbage), an arbitrary length the storage covers, and every
/// live element below `K`.  The storage has no spare capacity, so growing reallocates.
pub fn arb<V: Ev, const NB: usize>() -> V {
    arb_cap::<V, NB, 0>()
}

/// As `arb`, with room for `EX` more blocks.
pub fn arb_cap<V: Ev, const NB: usize, const EX: usize>() -> V {
    let len: usize = any();
    assume(len <= NB * V::EPB);
    arb_len::<V, NB, EX>(len)
}

/// As `arb_cap`, with a given length.
pub fn arb_len<V: Ev, const NB: usize, const EX: usize>(len: usize) -> V {
    let mut v = V::new();
    if NB + EX > 0 {
        v.grow_blocks(NB + EX);
    }
    let mut i = 0;
    while i < NB {
        v.push_block(any::<V::B>());
        i += 1;
    }
    unsafe { v.set_len(len) };
    if !V::K.is_power_of_two() {
        // two loops, to keep the unwinding bound at max(NB, EPB) + 1
        let mut b = 0;
        while b < NB {
            let mut s = 0;
            while s < V::EPB {
                let i = b * V::EPB + s;
                if i < len {
                    assume(unsafe { v.get_raw_unchecked(i) } < V::K);
                }
                s += 1;
            }
            b += 1;
        }
    }
    v
}

/// Calls `f(n)` for the one `n <= max` that equals an arbitrary value, with `n` a
/// constant in each case, and never returns.  A case split: lengths and allocation
/// sizes stay concrete for the solver, and the cases do not burden each other.
#[inline(always)]
pub fn split(max: usize, mut f: impl FnMut(usize)) {
    let x: usize = any();
    assume(x <= max);
    let mut n = 0;
    while n <= max {
        if x == n {
            f(n);
            crate::nd::finish();
        }
        n += 1;
    }
}

/// The element at `i` (which must be live), read through the public API.
#[inline(always)]
pub fn at<V: Ev>(v: &V, i: usize) -> usize {
    match v.get(i) {
        Some(x) => x.d(),
        None => {
            check!(false, "a live index reads as None");
            0
        }
    }
}

#[inline(always)]
pub fn val<V: Ev>() -> V::T {
    V::T::arb()
}

/// A model sequence with a concrete length.  Model and vector are compared element by
/// element at concrete indices, which keeps the solver's work trivial where the length
/// is already split into cases.
#[derive(Clone, Copy)]
pub struct Seq {
    pub a: [usize; 32],
    pub n: usize,
}
impl Seq {
    pub fn new() -> Self {
        Seq { a: [0; 32], n: 0 }
    }
    pub fn of<V: Ev>(v: &V) -> Self {
        let mut s = Seq::new();
        let n = v.len();
        while s.n < n {
            s.push(at(v, s.n));
        }
        s
    }
    pub fn push(&mut self, d: usize) {
        self.a[self.n] = d;
        self.n += 1;
    }
    pub fn push_n(&mut self, d: usize, n: usize) {
        let mut i = 0;
        while i < n {
            self.push(d);
            i += 1;
        }
    }
    pub fn push_all<T: El>(&mut self, x: &[T], n: usize) {
        let mut i = 0;
        while i < n {
            self.push(x[i].d());
            i += 1;
        }
    }
    pub fn append(&mut self, o: &Seq) {
        let mut i = 0;
        while i < o.n {
            self.push(o.a[i]);
            i += 1;
        }
    }
    pub fn split_off(&mut self, p: usize) -> Seq {
        let mut o = Seq::new();
        let mut i = p;
        while i < self.n {
            o.push(self.a[i]);
            i += 1;
        }
        self.n = p;
        o
    }
    pub fn insert(&mut self, p: usize, d: usize) {
        let mut i = self.n;
        while i > p {
            self.a[i] = self.a[i - 1];
            i -= 1;
        }
        self.a[p] = d;
        self.n += 1;
    }
    pub fn remove(&mut self, p: usize) -> usize {
        let d = self.a[p];
        let mut i = p;
        while i + 1 < self.n {
            self.a[i] = self.a[i + 1];
            i += 1;
        }
        self.n -= 1;
        d
    }
    /// The vector holds exactly this sequence.
    pub fn check<V: Ev>(&self, v: &V) {
        check!(v.len() == self.n, "the length differs from the model");
        check!(v.is_empty() == (self.n == 0), "is_empty differs from the model");
        let mut i = 0;
        while i < self.n {
            check!(at(v, i) == self.a[i], "an element differs from the model");
            i += 1;
        }
        check!(v.get(self.n).is_none(), "an element past the end");
    }
}
