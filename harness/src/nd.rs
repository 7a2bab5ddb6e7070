//! The source of nondeterminism.  Under Kani every `any()` is a fresh symbolic
//! variable; natively it pops the next value of a solver assignment, so that the
//! very same harness body replays a counterexample (or a cover witness) on the
//! real code.

pub trait Any: Sized + Copy {
    fn any() -> Self;
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Any for $t {
            #[cfg(kani)]
            #[inline(always)]
            fn any() -> Self { kani::any() }
            #[cfg(not(kani))]
            fn any() -> Self {
                let b = replay::pop(core::mem::size_of::<$t>());
                let mut a = [0u8; core::mem::size_of::<$t>()];
                a.copy_from_slice(&b);
                <$t>::from_le_bytes(a)
            }
        }
    )*};
}
ints!(u8 u16 u32 u64 u128 usize);

impl Any for bool {
    #[cfg(kani)]
    #[inline(always)]
    fn any() -> Self {
        kani::any()
    }
    #[cfg(not(kani))]
    fn any() -> Self {
        replay::pop(1)[0] != 0
    }
}

#[inline(always)]
pub fn any<T: Any>() -> T {
    T::any()
}

/// An arbitrary value below `n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    let x: usize = any();
    assume(x < n);
    x
}

/// An arbitrary value in `0..=n`.
#[inline(always)]
pub fn upto(n: usize) -> usize {
    let x: usize = any();
    assume(x <= n);
    x
}

#[cfg(kani)]
#[inline(always)]
pub fn assume(c: bool) {
    kani::assume(c)
}
#[cfg(not(kani))]
pub fn assume(c: bool) {
    if !c {
        println!("REPLAY assumption-violated");
        std::process::exit(77);
    }
}

/// The end of a path: nothing after it is explored.
#[cfg(kani)]
#[inline(always)]
pub fn finish() {
    kani::assume(false)
}
#[cfg(not(kani))]
pub fn finish() {
    println!("REPLAY completed");
    std::process::exit(0);
}

/// Reachability witness.  Kani must find the condition satisfiable; the witness
/// is replayed natively, where the condition has to come out true as well.
#[macro_export]
macro_rules! cover {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        if $c {
            println!("REPLAY covered {}", $m);
        }
    }};
}

/// A claim of the harness.  Its message starts with `VP:` so that it is told
/// apart from panics of the code under test (some harnesses allow those).
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {
        assert!($c, concat!("VP: ", $m))
    };
}

#[cfg(not(kani))]
pub mod replay {
    use std::cell::RefCell;
    thread_local! {
        static VALS: RefCell<std::collections::VecDeque<Vec<u8>>> = RefCell::new(Default::default());
    }
    pub fn load(v: Vec<Vec<u8>>) {
        VALS.with(|x| *x.borrow_mut() = v.into());
    }
    pub fn pop(n: usize) -> Vec<u8> {
        let b = VALS.with(|x| x.borrow_mut().pop_front());
        match b {
            Some(b) if b.len() == n => b,
            Some(b) => {
                println!("REPLAY desync: wanted {} bytes, have {}", n, b.len());
                std::process::exit(78);
            }
            None => {
                println!("REPLAY desync: no more values");
                std::process::exit(78);
            }
        }
    }
}
#[macro_export]
macro_rules! nocover { ($c:expr, $m:literal) => {{ let _ = $c; }}; }
