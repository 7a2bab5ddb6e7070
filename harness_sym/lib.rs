//! C13 with a symbolic number of variants.  `enum_vec` here is a copy of /repo/enum_vec
//! in which the associated constants that depend on `NUM_VARIANTS` have been turned into
//! functions of `vp_sym::nv()` (vp/c13.py); everything else is compiled as it is.
//!
//! With the feature `concrete` it is the crate itself, and A is the number of variants.
#![allow(static_mut_refs)]
#[path = "@VERIF@/harness/src/nd.rs"]
#[macro_use]
pub mod nd;
use enum_like::EnumLike;
use nd::{any, assume};

/// An element type whose number of variants is `vp_sym::nv()`, or A.
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Sy<const A: usize>(pub usize);
unsafe impl<const A: usize> EnumLike for Sy<A> {
    // Reading the constant instead of nv() must not go unnoticed.
    #[cfg(not(feature = "concrete"))]
    const NUM_VARIANTS: usize = panic!("NUM_VARIANTS used past the transformation");
    #[cfg(feature = "concrete")]
    const NUM_VARIANTS: usize = A;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        Sy(x)
    }
}

macro_rules! backend {
    ($m:ident, $b:ty, $sbs:expr) => {
        pub mod $m {
            use super::*;
            use enum_vec::$m::EnumVec;
            const SBS: usize = $sbs;
            const TOP: usize = if SBS < 63 { 1 << SBS } else { 1 << 63 };

            /// The numbers of variants whose elements are A to B bits wide; floor(SBS / A)
            /// elements fit a block for all of them.
            #[cfg(not(feature = "concrete"))]
            fn choose<const A: usize, const B: usize>() -> usize {
                let k: usize = any();
                assume(k > 1 << (A - 1) && k <= 1 << B);
                cover!(k == 1 << B, "a power of two");
                cover!(A == 1 && k == 2 || k == (1 << (A - 1)) + 1, "one more than a power of two");
                enum_vec::vp_sym::set(k);
                k
            }

            #[cfg(feature = "concrete")]
            fn choose<const A: usize, const B: usize>() -> usize {
                A
            }

            fn per_block<const A: usize>() -> usize {
                SBS / if cfg!(feature = "concrete") { width(A) } else { A }
            }

            fn width(k: usize) -> usize {
                // the smallest w with 2^w >= k
                (usize::BITS - (k - 1).leading_zeros()) as usize
            }

            /// Every accepted number of variants: packed at the minimum width.
            pub fn layout<const A: usize, const B: usize>() {
                // Kani loses track of objects allocated after a symbolic static is set,
                // so every harness allocates first.
                let mut v = EnumVec::<Sy<A>>::new();
                unsafe { v.storage_mut().push(!0) };
                let k = choose::<A, B>();
                let w = width(k);
                let epb = per_block::<A>();
                // a slot is exactly w bits wide, and two slots do not overlap
                let i: usize = any();
                assume(i < epb);
                unsafe { v.set_raw_unchecked(i, 0) };
                check!(v.storage()[0].count_zeros() as usize == w, "an element takes the minimum number of bits");
                let j: usize = any();
                assume(j < epb && j != i || epb == 1 && j == 0);
                unsafe { v.set_raw_unchecked(j, 0) };
                if i != j {
                    check!(v.storage()[0].count_zeros() as usize == 2 * w, "two elements of a block do not overlap");
                }
                // the largest discriminant fits
                let d: usize = any();
                assume(d < k);
                unsafe {
                    v.set_raw_unchecked(i, d);
                    check!(v.get_raw_unchecked(i) == d, "every discriminant fits its slot");
                }
                core::mem::forget(v);
            }

            /// A block holds floor(N / w) elements, no more and no fewer.
            pub fn block<const A: usize, const B: usize>() {
                let mut v = EnumVec::<Sy<A>>::new();
                unsafe {
                    v.storage_mut().push(0);
                    v.storage_mut().reserve(3);
                }
                let k = choose::<A, B>();
                let epb = per_block::<A>();
                unsafe { v.set_len(epb - 1) };
                check!(v.capacity() == v.storage().capacity() * epb, "capacity counts floor(N / w) elements per block");
                v.push(Sy(k - 1));
                check!(v.storage().len() == 1, "a block holds floor(N / w) elements");
                v.push(Sy(k - 1));
                check!(v.storage().len() == 2, "one more element needs another block");
                check!(v.get(epb - 1) == Some(Sy(k - 1)) && v.get(epb) == Some(Sy(k - 1)), "both read back");
                core::mem::forget(v);
            }

            #[cfg(not(feature = "concrete"))]
            /// Every other number of variants: no element can be stored.
            pub fn reject<const A: usize>() {
                let mut v = EnumVec::<Sy<A>>::new();
                unsafe {
                    v.storage_mut().push(0);
                    v.storage_mut().reserve(3);
                }
                let k: usize = any();
                assume(k < 2 || k > TOP);
                enum_vec::vp_sym::set(k);
                let how: usize = any();
                cover!(k == 0, "no variants");
                cover!(k == 1, "one variant");
                cover!(k == TOP + 1, "one too many");
                if how == 0 {
                    v.push(Sy(0));
                } else if how == 1 {
                    unsafe { v.set_len(1) };
                    v.set(0, Sy(0));
                } else {
                    v.insert(0, Sy(0));
                }
                core::mem::forget(v);
                check!(false, "an unsupported type was accepted");
            }
        }
    };
}
backend!(vec_u8, u8, 8);
backend!(vec_u16, u16, 16);
backend!(vec_u32, u32, 32);
backend!(vec_u64, u64, 64);
backend!(vec_u128, u128, 128);
backend!(smallvec_u32, u32, 32);

pub mod gen {
    include!(env!("VP_GEN"));
}
