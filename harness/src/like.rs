//! C14, C15, C16: a type's mapping against the numbering its shape dictates.

use crate::ev::N;
use crate::nd::{any, assume};
use enum_like::EnumLike;

/// The specification of a mapped type: how many values it has, an arbitrary one of
/// them, its number, and equality (tuples above 12 fields have no `==`).
pub trait Comp: EnumLike {
    const COUNT: usize;
    fn arb() -> Self;
    fn num(&self) -> usize;
    fn same(&self, o: &Self) -> bool;
}

impl<const K: usize> Comp for N<K> {
    const COUNT: usize = K;
    fn arb() -> Self {
        N::<K>::arb()
    }
    fn num(&self) -> usize {
        self.0
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Comp for () {
    const COUNT: usize = 1;
    fn arb() -> Self {}
    fn num(&self) -> usize {
        0
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl Comp for bool {
    const COUNT: usize = 2;
    fn arb() -> Self {
        any()
    }
    fn num(&self) -> usize {
        if *self { 1 } else { 0 }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<T: Comp> Comp for Option<T> {
    const COUNT: usize = T::COUNT + 1;
    fn arb() -> Self {
        if T::COUNT > 0 && any() { Some(T::arb()) } else { None }
    }
    fn num(&self) -> usize {
        match self {
            Some(x) => x.num(),
            None => T::COUNT,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<T: Comp, S: Comp> Comp for Result<T, S> {
    const COUNT: usize = T::COUNT + S::COUNT;
    fn arb() -> Self {
        if S::COUNT == 0 || T::COUNT > 0 && any() { Ok(T::arb()) } else { Err(S::arb()) }
    }
    fn num(&self) -> usize {
        match self {
            Ok(x) => x.num(),
            Err(x) => T::COUNT + x.num(),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
}

/// Mixed radix, the first field varying fastest.
macro_rules! comp_tuple {
    ($($T:ident $i:tt)+) => {
        impl<$($T: Comp),+> Comp for ($($T,)+) {
            const COUNT: usize = 1 $(* $T::COUNT)+;
            fn arb() -> Self { ($($T::arb(),)+) }
            #[allow(unused_assignments)]
            fn num(&self) -> usize {
                let mut weight = 1usize;
                let mut sum = 0usize;
                $(
                    sum += self.$i.num() * weight;
                    weight *= $T::COUNT;
                )+
                sum
            }
            fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))+ }
        }
    };
}
macro_rules! comp_tuples {
    ([$($T:ident $i:tt)*]) => {};
    ([$($T:ident $i:tt)*] $U:ident $j:tt $($rest:tt)*) => {
        comp_tuple!($($T $i)* $U $j);
        comp_tuples!([$($T $i)* $U $j] $($rest)*);
    };
}
comp_tuples!([] A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15
    A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 A25 25 A26 26 A27 27 A28 28 A29 29 A30 30
    A31 31);

macro_rules! comp_arrays {
    ($($n:literal)*) => {$(
        impl<T: Comp> Comp for [T; $n] {
            const COUNT: usize = T::COUNT.pow($n);
            fn arb() -> Self { core::array::from_fn(|_| T::arb()) }
            fn num(&self) -> usize {
                let mut weight = 1usize;
                let mut sum = 0usize;
                let mut i = 0;
                while i < $n {
                    sum += self[i].num() * weight;
                    if i + 1 < $n {
                        weight *= T::COUNT;
                    }
                    i += 1;
                }
                sum
            }
            fn same(&self, o: &Self) -> bool {
                let mut i = 0;
                while i < $n {
                    if !self[i].same(&o[i]) {
                        return false;
                    }
                    i += 1;
                }
                true
            }
        }
    )*};
}
comp_arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);

/// An enum whose values are not 0, 1, ...: zero is not a valid bit pattern of it.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Ex {
    A = 100,
    B = 7,
}
unsafe impl EnumLike for Ex {
    const NUM_VARIANTS: usize = 2;
    fn to_discr(self) -> usize {
        match self {
            Ex::A => 0,
            Ex::B => 1,
        }
    }
    fn from_discr(x: usize) -> Self {
        match x {
            0 => Ex::A,
            1 => Ex::B,
            _ => unreachable!(),
        }
    }
}
impl Comp for Ex {
    const COUNT: usize = 2;
    fn arb() -> Self {
        if any() { Ex::A } else { Ex::B }
    }
    fn num(&self) -> usize {
        match self {
            Ex::A => 0,
            Ex::B => 1,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// C14 (and the first half of C16): a bijection onto 0..COUNT.
pub fn bij<T: Comp>() {
    check!(T::NUM_VARIANTS == T::COUNT, "the number of variants follows from the shape");
    if T::COUNT == 0 {
        return;
    }
    let side: bool = any();
    if side {
        let v = T::arb();
        let d = v.to_discr();
        check!(d < T::COUNT, "a discriminant is below the number of variants");
        cover!(d == T::COUNT - 1, "the last value");
        let w = T::from_discr(d);
        check!(w.same(&v), "to_discr then from_discr is the identity");
    } else {
        let x: usize = any();
        assume(x < T::COUNT);
        let v = T::from_discr(x);
        cover!(x == T::COUNT - 1, "the last discriminant");
        check!(v.to_discr() == x, "from_discr then to_discr is the identity");
    }
}

/// C15 (and the second half of C16): the documented numbering.
pub fn num<T: Comp>() {
    check!(T::NUM_VARIANTS == T::COUNT, "the number of variants follows from the shape");
    if T::COUNT == 0 {
        return;
    }
    let v = T::arb();
    let d = v.to_discr();
    let want = v.num();
    cover!(d > 0 || T::COUNT == 1, "not the first value");
    check!(d == want, "the discriminant is the documented number");
    // the other direction: the value of a number is the value with that number
    let w = T::from_discr(want);
    check!(w.same(&v), "the value of a number has that number");
}

/// C15: a nested pair has the numbering of the flat triple.
pub fn nested<A: Comp, B: Comp, C: Comp>() {
    let (a, b, c) = (A::arb(), B::arb(), C::arb());
    let flat = (a, b, c).to_discr();
    check!(((a, b), c).to_discr() == flat, "((a, b), c) is numbered like (a, b, c)");
    check!((a, (b, c)).to_discr() == flat, "(a, (b, c)) is numbered like (a, b, c)");
    check!(((a,), (b,), (c,)).to_discr() == flat, "one-tuples do not matter");
    check!((a, (), b, [(); 3], c).to_discr() == flat, "unit fields do not matter");
    cover!(flat > 0, "not the first value");
}

/// C15: an array has the numbering of the tuple.
pub fn array_tuple<A: Comp>() {
    let (a, b, c, d) = (A::arb(), A::arb(), A::arb(), A::arb());
    check!([a].to_discr() == a.to_discr(), "[a] is numbered like a");
    check!([a, b].to_discr() == (a, b).to_discr(), "[a, b] is numbered like (a, b)");
    check!([a, b, c].to_discr() == (a, b, c).to_discr(), "[a, b, c] is numbered like the tuple");
    check!([a, b, c, d].to_discr() == (a, b, c, d).to_discr(), "[a, b, c, d] is numbered like the tuple");
    check!([[a, b], [c, d]].to_discr() == [a, b, c, d].to_discr(), "nested arrays are numbered like flat ones");
    cover!(!a.same(&d), "different components");
}
