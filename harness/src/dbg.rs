//! C23: the debug rendering.

use crate::ev::*;
use crate::nd::assume;
use std::fmt::Write;

const MAX: usize = 40;

/// Collects what is written.
pub struct Out {
    pub b: [u8; MAX],
    pub n: usize,
}
impl Out {
    pub fn new() -> Self {
        Out { b: [0; MAX], n: 0 }
    }
    pub fn put(&mut self, c: u8) {
        if self.n < MAX {
            self.b[self.n] = c;
        }
        self.n += 1;
    }
    fn puts(&mut self, s: &[u8]) {
        let mut i = 0;
        while i < s.len() {
            self.put(s[i]);
            i += 1;
        }
    }
    /// The rendering of a list or a set of the given elements.
    fn expect(open: u8, close: u8, d: &[usize], alternate: bool) -> Self {
        let mut m = Out::new();
        m.put(open);
        let mut i = 0;
        while i < d.len() {
            if alternate {
                m.puts(b"\n    ");
            } else if i > 0 {
                m.puts(b", ");
            }
            m.put(LETTERS.as_bytes()[if d[i] < LETTERS.len() { d[i] } else { LETTERS.len() - 1 }]);
            if alternate {
                m.put(b',');
            }
            i += 1;
        }
        if alternate && d.len() > 0 {
            m.put(b'\n');
        }
        m.put(close);
        m
    }
    fn same(&self, m: &Out) {
        check!(self.n == m.n, "the rendering has the expected length");
        let mut i = 0;
        while i < MAX {
            check!(self.b[i] == m.b[i], "the rendering is that of the plain collection");
            i += 1;
        }
    }
}
impl Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.puts(s.as_bytes());
        Ok(())
    }
}

fn render<T: std::fmt::Debug>(x: &T, alternate: bool) -> Out {
    let mut o = Out::new();
    let r = if alternate { write!(o, "{:#?}", x) } else { write!(o, "{:?}", x) };
    check!(r.is_ok(), "formatting succeeds");
    o
}

/// A vector of L elements of arbitrary value.
pub fn list<V: Ev, const NB: usize, const L: usize, const ALT: bool>() {
    let v = arb_len::<V, NB, 0>(L);
    let mut d = [0; L];
    let mut i = 0;
    while i < L {
        d[i] = at(&v, i);
        i += 1;
    }
    let o = render(&v, ALT);
    cover!(L == 0 || o.n > 2 && o.b[if ALT { 6 } else { 1 }] == b'c', "the third value");
    o.same(&Out::expect(b'[', b']', &d, ALT));
}

/// A set of any of four values: around the word boundary, and the first and the last
/// that the internal bit vector has room for.  One case per subset, since the number of
/// members and the position of each decide how often the formatter is called.
pub fn set<const K: usize, const BITS: usize>() {
    let at = [0, if BITS > 32 { 31 } else { 2 }, if BITS > 33 { 32 } else { 4 }, BITS - 1];
    split(15, |mask| {
        let mut d = [0; 4];
        let mut n = 0;
        let mut v = bit_vec::BitVec::from_elem(BITS, false);
        let mut i = 0;
        while i < 4 {
            if mask >> i & 1 == 1 {
                v.set(at[i], true);
                d[n] = at[i];
                n += 1;
            }
            i += 1;
        }
        let s = enum_set2::EnumSet::<N<K>>::from_bit_set(bit_set::BitSet::from_bit_vec(v));
        let o = render(&s, false);
        cover!(mask == 15 && o.n == 12, "four members");
        o.same(&Out::expect(b'{', b'}', &d[..n], false));
    });
}
