//! C12: two backends and a plain model sequence run the same operations side by side.

use crate::ev::*;
use crate::nd::{any, assume};

struct Pair<A, B> {
    a: A,
    b: B,
    m: Seq,
}

fn v<A: Ev>(d: usize) -> A::T {
    A::T::of(d)
}

impl<A: Ev, B: Ev> Pair<A, B> {
    fn new() -> Self {
        Pair { a: A::new(), b: B::new(), m: Seq::new() }
    }
    fn push(&mut self, d: usize) {
        self.a.push(v::<A>(d));
        self.b.push(v::<B>(d));
        self.m.push(d);
    }
    fn pop(&mut self) {
        let x = self.a.pop().map(|x| x.d());
        let y = self.b.pop().map(|x| x.d());
        let z = if self.m.n == 0 {
            None
        } else {
            self.m.n -= 1;
            Some(self.m.a[self.m.n])
        };
        check!(x == z && y == z, "pop agrees");
    }
    fn insert(&mut self, i: usize, d: usize) {
        self.a.insert(i, v::<A>(d));
        self.b.insert(i, v::<B>(d));
        self.m.insert(i, d);
    }
    fn remove(&mut self, i: usize) {
        let x = self.a.remove(i).d();
        let y = self.b.remove(i).d();
        let z = self.m.remove(i);
        check!(x == z && y == z, "remove agrees");
    }
    fn swap_remove(&mut self, i: usize) {
        let x = self.a.swap_remove(i).d();
        let y = self.b.swap_remove(i).d();
        let z = self.m.a[i];
        self.m.a[i] = self.m.a[self.m.n - 1];
        self.m.n -= 1;
        check!(x == z && y == z, "swap_remove agrees");
    }
    fn set(&mut self, i: usize, d: usize) {
        self.a.set(i, v::<A>(d));
        self.b.set(i, v::<B>(d));
        self.m.a[i] = d;
    }
    fn resize(&mut self, n: usize, d: usize) {
        self.a.resize(n, v::<A>(d));
        self.b.resize(n, v::<B>(d));
        if n < self.m.n {
            self.m.n = n;
        } else {
            let k = n - self.m.n;
            self.m.push_n(d, k);
        }
    }
    fn check(&self, d: usize) {
        self.m.check(&self.a);
        self.m.check(&self.b);
        let mut some = false;
        let mut every = true;
        let mut i = 0;
        while i < self.m.n {
            if self.m.a[i] == d {
                some = true;
            } else {
                every = false;
            }
            i += 1;
        }
        check!(self.a.any(v::<A>(d)) == some && self.b.any(v::<B>(d)) == some, "any agrees");
        check!(self.a.all(v::<A>(d)) == every && self.b.all(v::<B>(d)) == every, "all agrees");
    }
}

fn arbd<A: Ev>() -> usize {
    let d: usize = any();
    assume(d < A::K);
    d
}

/// fill, push, insert anywhere, remove anywhere
pub fn script0<A: Ev, B: Ev, const N: usize>() {
    let (x, y, z) = (arbd::<A>(), arbd::<A>(), arbd::<A>());
    split(N + 1, |i| {
        split(N + 1, |k| {
            let mut p = Pair::<A, B>::new();
            p.resize(N, x);
            p.push(y);
            p.insert(i, z);
            p.remove(k);
            cover!(i == 0 && k == N && x != y, "the case reaches its end");
            p.check(y);
        })
    });
}

/// build, split anywhere, append in the other order, pop, push
pub fn script1<A: Ev, B: Ev, const N: usize>() {
    let (x, y) = (arbd::<A>(), arbd::<A>());
    split(N, |at| {
        let mut p = Pair::<A, B>::new();
        let mut i = 0;
        while i < N {
            p.push(if i % 2 == 0 { x } else { y });
            i += 1;
        }
        let mut q = Pair { a: p.a.split_off(at), b: p.b.split_off(at), m: p.m.split_off(at) };
        p.check(x);
        q.check(y);
        q.a.append(&mut p.a);
        q.b.append(&mut p.b);
        q.m.append(&p.m);
        p.m.n = 0;
        q.pop();
        q.push(y);
        p.push(x);
        cover!(at == N && x != y, "the case reaches its end");
        p.check(x);
        q.a.append(&mut p.a);
        q.b.append(&mut p.b);
        q.m.append(&p.m);
        q.check(x);
    });
}

/// grow, shrink, grow again over stale slots, swap_remove
pub fn script2<A: Ev, B: Ev, const N: usize>() {
    let (x, y, z) = (arbd::<A>(), arbd::<A>(), arbd::<A>());
    split(N, |t| {
        let mut p = Pair::<A, B>::new();
        p.resize(N, x);
        if N > 0 {
            p.set(N - 1, y);
        }
        p.resize(t, z);
        p.resize(t + 2, z);
        p.push(x);
        p.swap_remove(t);
        cover!(t == N && x != z, "the case reaches its end");
        p.check(z);
    });
}

/// extend, clone, change one of them, compare
pub fn script3<A: Ev, B: Ev, const N: usize>() {
    let (x, y) = (arbd::<A>(), arbd::<A>());
    let mut p = Pair::<A, B>::new();
    p.push(y);
    p.a.extend(std::iter::repeat(v::<A>(x)).take(N));
    p.b.extend(std::iter::repeat(v::<B>(x)).take(N));
    p.m.push_n(x, N);
    p.check(x);
    let (ca, cb) = (p.a.clone(), p.b.clone());
    p.set(N, y);
    p.insert(0, x);
    p.remove(1);
    p.check(y);
    let same = ca == p.a;
    check!(same == (cb == p.b), "equality agrees");
    check!(same == (x == y), "equality follows the elements");
    cover!(!same, "the case reaches its end");
}

/// resize, retain an arbitrary subset, for_each, push
pub fn script4<A: Ev, B: Ev, const N: usize>() {
    let (x, y, z) = (arbd::<A>(), arbd::<A>(), arbd::<A>());
    split((1 << (N + 1)) - 1, |mask| {
        let mut p = Pair::<A, B>::new();
        p.push(x);
        p.resize(N + 1, y);
        let (mut i, mut j) = (0, 0);
        p.a.retain(|_| {
            i += 1;
            mask >> (i - 1) & 1 == 1
        });
        p.b.retain(|_| {
            j += 1;
            mask >> (j - 1) & 1 == 1
        });
        check!(i == N + 1 && j == N + 1, "retain asks once per element");
        let mut m = Seq::new();
        let mut i = 0;
        while i <= N {
            if mask >> i & 1 == 1 {
                m.push(p.m.a[i]);
            }
            i += 1;
        }
        p.m = m;
        p.a.for_each(|e| if e.d() == y { *e = v::<A>(z) });
        p.b.for_each(|e| if e.d() == y { *e = v::<B>(z) });
        let mut i = 0;
        while i < p.m.n {
            if p.m.a[i] == y {
                p.m.a[i] = z;
            }
            i += 1;
        }
        p.push(x);
        cover!(p.m.n == N + 1 && x != y && y != z, "the case reaches its end");
        p.check(z);
    });
}
