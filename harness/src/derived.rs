//! C16: a family of types that covers each code path of the derive macro, with the
//! numbering that the documentation gives them.

use crate::ev::N;
use crate::like::Comp;
use crate::nd::{any, assume};
use enum_like_derive::EnumLike;

type N0 = N<0>;
type N2 = N<2>;
type N3 = N<3>;
type N4 = N<4>;
type N5 = N<5>;
type N8 = N<8>;
type N1073741824 = N<1073741824>;
type N2147483648 = N<2147483648>;
type N4294967296 = N<4294967296>;
type N4611686018427387904 = N<4611686018427387904>;

fn pick(n: usize) -> usize {
    let x: usize = any();
    assume(x < n);
    x
}

/// A struct: the product of its fields, the first varying fastest.
macro_rules! structs {
    ($($name:ident <$($g:ident),*> { $($f:tt : $t:ty),* })*) => {$(
        impl<$($g: Comp),*> Comp for $name<$($g),*> {
            const COUNT: usize = 1 $(* <$t as Comp>::COUNT)*;
            fn arb() -> Self { $name { $($f: <$t as Comp>::arb()),* } }
            #[allow(unused)]
            fn num(&self) -> usize {
                let mut weight = 1usize;
                let mut sum = 0usize;
                $(
                    sum += self.$f.num() * weight;
                    weight *= <$t as Comp>::COUNT;
                )*
                sum
            }
            #[allow(unused)]
            fn same(&self, o: &Self) -> bool { true $(&& self.$f.same(&o.$f))* }
        }
    )*};
}

/// An enum: first the unit variants in order, then the data variants in order.
macro_rules! enums {
    ($($name:ident <$($g:ident),*> [$($u:ident),*] [$($d:ident { $($f:tt $x:ident $y:ident : $t:ty),* }),*])*) => {$(
        impl<$($g: Comp),*> Comp for $name<$($g),*> {
            const COUNT: usize = 0 $(+ { let _ = stringify!($u); 1 })* $(+ (1 $(* <$t as Comp>::COUNT)*))*;
            #[allow(unused)]
            fn arb() -> Self {
                let which = pick(Self::VARIANTS);
                let mut k = 0;
                $( if which == k { return $name::$u; } k += 1; )*
                $(
                    if which == k {
                        assume((1 $(* <$t as Comp>::COUNT)*) > 0);
                        return $name::$d { $($f: <$t as Comp>::arb()),* };
                    }
                    k += 1;
                )*
                unreachable!()
            }
            #[allow(unused)]
            fn num(&self) -> usize {
                let mut base = 0usize;
                $( if let $name::$u = self { return base; } base += 1; )*
                $(
                    if let $name::$d { $($f: $x),* } = self {
                        let mut weight = 1usize;
                        let mut sum = base;
                        $(
                            sum += $x.num() * weight;
                            weight *= <$t as Comp>::COUNT;
                        )*
                        return sum;
                    }
                    base += 1 $(* <$t as Comp>::COUNT)*;
                )*
                unreachable!()
            }
            #[allow(unused)]
            fn same(&self, o: &Self) -> bool {
                match (self, o) {
                    $( ($name::$u, $name::$u) => true, )*
                    $( ($name::$d { $($f: $x),* }, $name::$d { $($f: $y),* }) => true $(&& $x.same($y))*, )*
                    _ => false,
                }
            }
        }
        #[allow(unused)]
        impl<$($g: Comp),*> $name<$($g),*> {
            const VARIANTS: usize = 0 $(+ { let _ = stringify!($u); 1 })* $(+ { let _ = stringify!($d); 1 })*;
        }
    )*};
}

// ---- structs

#[derive(Copy, Clone, EnumLike)]
pub struct S0;
#[derive(Copy, Clone, EnumLike)]
pub struct S0b {}
#[derive(Copy, Clone, EnumLike)]
pub struct S0p();
#[derive(Copy, Clone, EnumLike)]
pub struct S1(N3);
#[derive(Copy, Clone, EnumLike)]
pub struct S2(N2, N5);
#[derive(Copy, Clone, EnumLike)]
pub struct S3 {
    a: N3,
    b: bool,
    c: N4,
}
#[derive(Copy, Clone, EnumLike)]
pub struct S4(N2, N3, N4, N5);
#[derive(Copy, Clone, EnumLike)]
pub struct S6 {
    value: N2,
    x: N4,
    x0: (),
    z: N8,
    c: Option<N3>,
    _d: S0,
}
#[derive(Copy, Clone, EnumLike)]
pub struct SG<T, S> {
    b: S,
    a: T,
}
#[derive(Copy, Clone, EnumLike)]
pub struct SW<T>(T, T)
where
    T: Copy;
#[derive(Copy, Clone, EnumLike)]
pub struct SZ(N3, N0);
#[derive(Copy, Clone, EnumLike)]
pub struct SBig(N4294967296, N2147483648);

structs! {
    S0<> {}
    S0b<> {}
    S0p<> {}
    S1<> { 0: N3 }
    S2<> { 0: N2, 1: N5 }
    S3<> { a: N3, b: bool, c: N4 }
    S4<> { 0: N2, 1: N3, 2: N4, 3: N5 }
    S6<> { value: N2, x: N4, x0: (), z: N8, c: Option<N3>, _d: S0 }
    SG<T, S> { b: S, a: T }
    SW<T> { 0: T, 1: T }
    SZ<> { 0: N3, 1: N0 }
    SBig<> { 0: N4294967296, 1: N2147483648 }
}

// ---- C-like enums

#[derive(Copy, Clone, EnumLike)]
pub enum E0 {}
impl Comp for E0 {
    const COUNT: usize = 0;
    fn arb() -> Self {
        assume(false);
        unreachable!()
    }
    fn num(&self) -> usize {
        unreachable!()
    }
    fn same(&self, _: &Self) -> bool {
        unreachable!()
    }
}
#[derive(Copy, Clone, EnumLike)]
pub enum E1 {
    A,
}
#[derive(Copy, Clone, EnumLike)]
pub enum E3 {
    A,
    B,
    C,
}
#[derive(Copy, Clone, EnumLike)]
#[repr(i16)]
pub enum EX {
    A = 100,
    B = 3,
    C,
    D = -5,
    E = 0,
}
#[derive(Copy, Clone, EnumLike)]
pub enum E17 {
    A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q,
}

// ---- enums with data

#[derive(Copy, Clone, EnumLike)]
pub enum M1 {
    A(N3),
    B,
    C { x: N2, y: N5 },
    D,
    E(N4, N3, bool),
}
#[derive(Copy, Clone, EnumLike)]
pub enum MD {
    A(N3),
    B(N2),
    C(N5),
}
#[derive(Copy, Clone, EnumLike)]
pub enum MS {
    A(N3, N5),
}
#[derive(Copy, Clone, EnumLike)]
pub enum MG<T, S> {
    N,
    L(T),
    R { v: S },
    B(S, T),
}
#[derive(Copy, Clone, EnumLike)]
pub enum MZ {
    A(()),
    B(S0, N3, E1),
    C,
    D(N0),
    E(N2),
    F(N0, N2),
    G { a: N4, b: N0 },
    H(bool),
}
#[derive(Copy, Clone, EnumLike)]
pub enum MN {
    A(M1),
    B(Option<E3>),
    C([bool; 2], S2),
    D,
    E(Result<EX, S1>),
}
#[derive(Copy, Clone, EnumLike)]
pub enum MF {
    A { a: N2, b: N3, c: N2, d: N4, e: N3 },
    B,
    C { e: N5, value: N2, x: N3 },
}
#[derive(Copy, Clone, EnumLike)]
pub enum MBig {
    A(N4611686018427387904),
    B(N4294967296, N1073741824),
    C,
}

enums! {
    E1<> [A] []
    E3<> [A, B, C] []
    EX<> [A, B, C, D, E] []
    E17<> [A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q] []
    M1<> [B, D] [A { 0 x0 y0: N3 }, C { x x0 y0: N2, y x1 y1: N5 },
                 E { 0 x0 y0: N4, 1 x1 y1: N3, 2 x2 y2: bool }]
    MD<> [] [A { 0 x0 y0: N3 }, B { 0 x0 y0: N2 }, C { 0 x0 y0: N5 }]
    MS<> [] [A { 0 x0 y0: N3, 1 x1 y1: N5 }]
    MG<T, S> [N] [L { 0 x0 y0: T }, R { v x0 y0: S }, B { 0 x0 y0: S, 1 x1 y1: T }]
    MZ<> [C] [A { 0 x0 y0: () }, B { 0 x0 y0: S0, 1 x1 y1: N3, 2 x2 y2: E1 }, D { 0 x0 y0: N0 },
              E { 0 x0 y0: N2 }, F { 0 x0 y0: N0, 1 x1 y1: N2 }, G { a x0 y0: N4, b x1 y1: N0 },
              H { 0 x0 y0: bool }]
    MN<> [D] [A { 0 x0 y0: M1 }, B { 0 x0 y0: Option<E3> }, C { 0 x0 y0: [bool; 2], 1 x1 y1: S2 },
              E { 0 x0 y0: Result<EX, S1> }]
    MF<> [B] [A { a x0 y0: N2, b x1 y1: N3, c x2 y2: N2, d x3 y3: N4, e x4 y4: N3 },
              C { e x0 y0: N5, value x1 y1: N2, x x2 y2: N3 }]
    MBig<> [C] [A { 0 x0 y0: N4611686018427387904 }, B { 0 x0 y0: N4294967296, 1 x1 y1: N1073741824 }]
}
