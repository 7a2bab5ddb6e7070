"""The planted changes: edits to /repo and a demonstration each."""

N = '''#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct N<const K: usize>(pub usize);
unsafe impl<const K: usize> enum_like::EnumLike for N<K> {
    const NUM_VARIANTS: usize = K;
    fn to_discr(self) -> usize { self.0 }
    fn from_discr(x: usize) -> Self { assert!(x < K, "invalid discriminant"); N(x) }
}
'''
EV = "enum_vec/src/{}/mod.rs"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=N + demo, needs=needs, breaks=breaks))


seed("c01_swap_wide", "C01", [(EV.format("vec_u64"), '''        self.set_raw(ia, b);
        self.set_raw(ib, a);
''', '''        // Nothing to do if both are the same
        if a as u32 != b as u32 {
            self.set_raw(ia, b);
            self.set_raw(ib, a);
        }
''')], '''
fn main() {
    let mut v = enum_vec::vec_u64::EnumVec::<N<{ 1 << 40 }>>::new();
    v.push(N(5));
    v.push(N(5 + (1 << 35)));
    v.swap(0, 1);
    assert_eq!(v.get(0), Some(N(5 + (1 << 35))));
    assert_eq!(v.get(1), Some(N(5)));
}
''', "u64 storage, elements wider than 32 bits, two values that agree in their low 32 bits",
     "swap of two such elements does nothing")

seed("c02_insert_carry", "C02", [(EV.format("vec_u128"), '''            for i in ib..(last_ib + 1) {
                prev = shift_storage(&mut self.storage[i], prev);
            }
        }
    }
    /// Remove an''', '''            for i in ib..(last_ib + 1) {
                prev = shift_storage(&mut self.storage[i], prev) as u32 as StorageBlock;
            }
        }
    }
    /// Remove an''')], '''
fn main() {
    let mut v = enum_vec::vec_u128::EnumVec::<N<{ 1 << 40 }>>::new();
    for i in 0..9 { v.push(N(i + (1 << 39))); }
    v.insert(0, N(77));
    for i in 0..9 { assert_eq!(v.get(i + 1), Some(N(i + (1 << 39)))); }
}
''', "u128 storage, elements wider than 32 bits, insert followed by at least one full block",
     "the element carried from one block to the next loses its high bits")

seed("c03_append_room", "C03", [(EV.format("vec_u32"), '''            self.reserve(other_len);
            unsafe { // We just reserved space''', '''            let blocks = self.storage.len() + other_len / Self::ELEMS_PER_BLOCK;
            self.storage.resize(blocks, 0);
            unsafe { // We just reserved space''')], '''
fn main() {
    // 30 + 40 bits: one more block than other's full blocks
    let mut a: enum_vec::vec_u32::EnumVec<bool> = vec![true; 30].into();
    let mut b: enum_vec::vec_u32::EnumVec<bool> = vec![true; 40].into();
    a.shrink_to_fit();
    a.append(&mut b);
    assert_eq!(a.len(), 70);
    assert!(a.storage().len() * 32 >= 70, "storage covers the elements");
    let c = a.clone();
    assert_eq!(c.to_vec(), vec![true; 70]);
}
''', "an unaligned receiver without spare blocks, whose partial block and the other's partial block together overflow a block",
     "append writes past the end of the storage")

seed("c04_fill_width", "C04", [(EV.format("vec_u32"), '''            while i < STORAGE_BLOCK_SIZE {
                block_value |= block_value << i;''', '''            while i <= STORAGE_BLOCK_SIZE / 2 {
                block_value |= block_value << i;''')], '''
fn main() {
    let v = enum_vec::vec_u32::EnumVec::<N<1000>>::from_elem(N(700), 40);
    for i in 0..40 { assert_eq!(v.get(i), Some(N(700))); }
}
''', "a fill of more than four blocks with an element width whose doublings end between half a block and a full one", "slots in the upper half of the filled blocks keep the value 0")

seed("c05_for_each_skip", "C05", [(EV.format("vec_u32"), '''            f(&mut x);
            // if x changed?
            self.set(i, x);''', '''            let old = x.to_discr() as u8;
            f(&mut x);
            // Only if x changed
            if x.to_discr() as u8 != old {
                self.set(i, x);
            }''')], '''
fn main() {
    let mut v = enum_vec::vec_u32::EnumVec::<N<1000>>::new();
    for i in 0..20 { v.push(N(i)); }
    v.for_each(|x| x.0 += 512);
    for i in 0..20 { assert_eq!(v.get(i), Some(N(i + 512))); }
}
''', "more than 256 variants and a change by a multiple of 256", "for_each does not store the new value")

seed("c06_all_spare", "C06", [(EV.format("vec_u16"), '''            if self.storage[i] & valid_mask != x_mask {''',
      '''            if self.storage[i] != x_mask {'''),
      (EV.format("vec_u16"), '''        let valid_mask = !0 >> (STORAGE_BLOCK_SIZE % Self::BITS_PER_ELEM);
        // 2^BITS_PER_ELEM - 1
''', '''        // 2^BITS_PER_ELEM - 1
''')], '''
type V = enum_vec::vec_u16::EnumVec<N<8>>;
fn main() {
    // the fill leaves copies of the value in the spare bits of each block
    let v = V::from_elem(N(7), 200);
    assert!(v.all(N(7)));
}
''', "a width that does not divide the block, and spare bits that are not zero (as a long fill leaves them)",
     "all() answers false although every element is the value")

seed("c07_eq_blocks", "C07", [(EV.format("vec_u64"), '''            let l = self.len();
            for i in 0..l {
                unsafe { // Safe because we just checked the length''', '''            // Compare the complete blocks first
            let full = self.len() / Self::ELEMS_PER_BLOCK;
            if self.storage[..full] != other.storage[..full] {
                return false;
            }

            let l = self.len();
            for i in full * Self::ELEMS_PER_BLOCK..l {
                unsafe { // Safe because we just checked the length''')], '''
type V = enum_vec::vec_u64::EnumVec<N<8>>;
fn main() {
    let a = V::from_elem(N(7), 1000);
    let mut b = V::new();
    for _ in 0..1000 { b.push(N(7)); }
    assert_eq!(a.to_vec(), b.to_vec());
    assert!(a == b);
}
''', "a width that does not divide the block, one vector built by a long fill and the other by pushes",
     "equal vectors compare different because of the spare bits")

seed("c08_nth_overflow", "C08", [(EV.format("vec_u8"), '''impl<'a, T: EnumLike> Iterator for EnumVecIter<'a, T> {
    type Item = T;

    fn next(&mut self) -> Option<Self::Item> {
        self.range.next().map(|x| self.v.get(x).unwrap())
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.range.size_hint()
    }

    fn count(self) -> usize {
        self.size_hint().0
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.range.nth(n).map(|x| self.v.get(x).unwrap())
    }''', '''impl<'a, T: EnumLike> Iterator for EnumVecIter<'a, T> {
    type Item = T;

    fn next(&mut self) -> Option<Self::Item> {
        self.range.next().map(|x| self.v.get(x).unwrap())
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.range.size_hint()
    }

    fn count(self) -> usize {
        self.size_hint().0
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Past the end of the vector there is nothing, whatever the range
        let i = self.range.start.saturating_add(n);
        let x = self.v.get(i)?;
        self.range.start = i + 1;

        Some(x)
    }''')], '''
fn main() {
    let v: enum_vec::vec_u8::EnumVec<bool> = vec![true, false, true, false].into();
    let mut it = v.iter();
    assert_eq!(it.next_back(), Some(false));
    assert_eq!(it.nth(3), None);
    assert_eq!(it.next(), None);
    let mut it = v.iter();
    assert_eq!(it.nth(100), None);
    assert_eq!(it.next(), None);
}
''', "nth after next_back, or nth past the end followed by another call",
     "nth yields elements already taken from the back, and does not exhaust the iterator")

seed("c09_reserve_cap", "C09", [(EV.format("vec_u32"), '''        let desired_cap = self
            .len()
            .checked_add(additional)''', '''        let desired_cap = (self.storage.len() * Self::ELEMS_PER_BLOCK)
            .checked_add(additional)''')], '''
fn main() {
    let mut v = enum_vec::vec_u32::EnumVec::<bool>::new();
    for _ in 0..1000 { v.extend(Some(true)); }
    assert_eq!(v.len(), 1000);
    assert!(v.storage().capacity() <= 200, "storage of {} blocks for 1000 bits", v.storage().capacity());
}
''', "many small extends in a row", "every extend adds a block, so storage is 32 times what is needed")

seed("c10_swap_remove", "C10", [(EV.format("vec_u16"), '''        let length = self.len();
        self.swap(index, length - 1);

        self.pop().unwrap()''', '''        let last = self.pop().unwrap();
        match self.get(index) {
            Some(x) => {
                self.set(index, last);
                x
            }
            // It was the last one
            None => last,
        }''')], '''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut v: enum_vec::vec_u16::EnumVec<bool> = vec![true, false, true].into();
        v.swap_remove(3)
    });
    assert!(r.is_err(), "swap_remove accepted an index past the end");
}
''', "an index at or past the length", "swap_remove removes the last element instead of panicking")

seed("c12_small_append", "C12", [(EV.format("smallvec_u32"), '''            self.fix_storage();
            other.fix_storage();
            self.storage.extend_from_slice(&other.storage);''', '''            other.fix_storage();
            self.storage.extend_from_slice(&other.storage);''')], '''
fn main() {
    let mut a: enum_vec::smallvec_u32::EnumVec<bool> = vec![true; 70].into();
    let mut b: enum_vec::smallvec_u32::EnumVec<bool> = vec![false; 5].into();
    a.truncate(32);
    a.append(&mut b);
    let mut want = vec![true; 32];
    want.extend(vec![false; 5]);
    assert_eq!(a.to_vec(), want);
}
''', "inline storage, a receiver that was longer and now ends at a block boundary",
     "append puts the other's blocks behind stale ones, so the new elements are stale values")

seed("c13_width_2_21", "C13", [(EV.format("vec_u64"), "(T::NUM_VARIANTS > (1 << 21)) as usize",
                                "(T::NUM_VARIANTS >= (1 << 21)) as usize")], '''
fn main() {
    // 21 bits: three elements per block
    let mut v = enum_vec::vec_u64::EnumVec::<N<{ 1 << 21 }>>::new();
    for i in 0..3 { v.push(N((1 << 21) - 1 - i)); }
    assert_eq!(v.storage().len(), 1, "three elements of 21 bits fit one block");
}
''', "a type with exactly 2^21 variants", "elements take 22 bits instead of 21, so two fit a block instead of three")

seed("c14_pair_u32", "C14", [("enum_like/src/lib.rs", "self.0.to_discr() + self.1.to_discr() * T::NUM_VARIANTS",
                              "(self.0.to_discr() as u32 + self.1.to_discr() as u32 * T::NUM_VARIANTS as u32) as usize")],
     '''
use enum_like::EnumLike;
fn main() {
    type T = (N<{ 1 << 20 }>, N<5000>);
    let x = (N(3), N(4999));
    let d = x.to_discr();
    assert_eq!(d, 3 + (4999usize << 20));
    assert_eq!(T::from_discr(d), x);
}
''', "a product of more than 2^32 values", "the discriminant of a tuple is computed in 32 bits")

seed("c15_result_order", "C15", [("enum_like/src/lib.rs", '''            Ok(x) => x.to_discr(),
            Err(x) => T::NUM_VARIANTS + x.to_discr(),''', '''            // The smaller one first
            Ok(x) if S::NUM_VARIANTS < T::NUM_VARIANTS => S::NUM_VARIANTS + x.to_discr(),
            Err(x) if S::NUM_VARIANTS < T::NUM_VARIANTS => x.to_discr(),
            Ok(x) => x.to_discr(),
            Err(x) => T::NUM_VARIANTS + x.to_discr(),'''),
     ("enum_like/src/lib.rs", '''            x if x < T::NUM_VARIANTS => Ok(T::from_discr(x)),''', '''            x if S::NUM_VARIANTS < T::NUM_VARIANTS => if x < S::NUM_VARIANTS {
                Err(S::from_discr(x))
            } else {
                Ok(T::from_discr(x - S::NUM_VARIANTS))
            },
            x if x < T::NUM_VARIANTS => Ok(T::from_discr(x)),''')], '''
use enum_like::EnumLike;
fn main() {
    assert_eq!(Ok::<N<3>, N<2>>(N(0)).to_discr(), 0);
    assert_eq!(Err::<N<3>, N<2>>(N(1)).to_discr(), 4);
    assert_eq!(Ok::<bool, ()>(true).to_discr(), 1);
}
''', "a Result whose Ok type has more values than its Err type", "Err is numbered before Ok for such types")

seed("c16_rem_four", "C16", [("enum_like_derive/src/lib.rs", '''        .take(n - 1)
        .map(|tn| {''', '''        .take(if n > 4 { n - 2 } else { n - 1 })
        .map(|tn| {'''),
     ("enum_like_derive/src/lib.rs", '''        .chain(std::iter::once(quote!{}));''',
      '''        .chain(std::iter::repeat(quote!{}).take(if n > 4 { 2 } else { 1 }));''')], '''
use enum_like::EnumLike;
use enum_like_derive::EnumLike;
#[derive(Copy, Clone, PartialEq, Debug, EnumLike)]
struct S { a: bool, b: bool, c: bool, d: Option<bool>, e: bool }
fn main() {
    for i in 0..S::NUM_VARIANTS {
        assert_eq!(S::from_discr(i).to_discr(), i);
    }
}
''', "five or more fields", "the last but one field is rebuilt from a number beyond its range")

seed("c17_last_again", "C17", [("enum_like/src/lib.rs", "if self.max == 0 || self.current == self.max {", "if self.max == 0 {")], '''
use enum_like::EnumValues;
fn main() {
    let mut v = bool::values();
    assert_eq!(v.next(), Some(false));
    assert_eq!(v.next(), Some(true));
    assert_eq!(v.last(), None);
}
''', "last() on an iterator that is already exhausted", "it yields the last value a second time")

seed("c18_packed_order", "C18", [("enum_like/src/lib.rs", '''/// Packs an `EnumLike` value into a `u16`, if possible
#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]''', '''impl<T: Ord> Ord for PackedU16<T> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        (self.discr as i16).cmp(&(other.discr as i16))
    }
}

/// Packs an `EnumLike` value into a `u16`, if possible
#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd)]''')], '''
use enum_like::PackedU16;
fn main() {
    let (a, b) = (PackedU16::new(M(5)), PackedU16::new(M(40000)));
    assert!(a.cmp(&b) == std::cmp::Ordering::Less);
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct M(usize);
unsafe impl enum_like::EnumLike for M {
    const NUM_VARIANTS: usize = 65536;
    fn to_discr(self) -> usize { self.0 }
    fn from_discr(x: usize) -> Self { M(x) }
}
''', "discriminants of 32768 and more in a 16-bit pack", "cmp orders them before the smaller ones")

seed("c18_packed_get", "C18", [("enum_like/src/lib.rs", '''/// Packs an `EnumLike` value into a `u16`, if possible
#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct PackedU16<T> {
    discr: u16,''', '''/// Packs an `EnumLike` value into a `u16`, if possible
#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct PackedU16<T> {
    discr: i16,'''), ("enum_like/src/lib.rs", "discr: T::to_discr(a) as u16,", "discr: T::to_discr(a) as i16,")], '''
use enum_like::PackedU16;
fn main() {
    for i in 0..40000 {
        assert_eq!(PackedU16::new(N::<40000>(i)).get().0, i);
    }
}
''', "discriminants of 32768 and more", "get() sign-extends them to invalid discriminants")

seed("c19_shrink", "C19", [("enum_set/src/lib.rs", "self.inner.shrink_to_fit()", '''// The largest member decides the length
        let mut max = 0;
        for x in self.inner.iter() {
            max = x;
        }
        let mut v = std::mem::take(&mut self.inner).into_bit_vec();
        v.truncate(max + (max % 32 != 0) as usize);
        self.inner = BitSet::from_bit_vec(v);
        self.inner.shrink_to_fit()''')], '''
fn main() {
    let mut s = enum_set2::EnumSet::<N<100>>::new();
    for i in [3, 31, 64] { s.insert(N(i)); }
    s.shrink_to_fit();
    assert_eq!(s.iter().map(|x| x.0).collect::<Vec<_>>(), vec![3, 31, 64]);
}
''', "a largest member that is a multiple of 32", "shrink_to_fit drops it from the set")

seed("c20_disjoint", "C20", [("enum_set/src/lib.rs", "self.inner.is_disjoint(&other.inner)", '''let (a, b) = (self.inner.get_ref(), other.inner.get_ref());
        let common = std::cmp::min(a.len(), b.len()) / 32;
        if a.len() != b.len() {
            // Only the blocks that both have can meet
            a.storage().iter().zip(b.storage()).take(common).all(|(x, y)| x & y == 0)
        } else {
            self.inner.is_disjoint(&other.inner)
        }''')], '''
fn main() {
    let mut a = enum_set2::EnumSet::<N<100>>::new();
    let mut b = enum_set2::EnumSet::<N<100>>::new();
    a.insert(N(40));
    b.insert(N(40));
    b.insert(N(70));
    assert!(!a.is_disjoint(&b));
    assert!(!b.is_disjoint(&a));
}
''', "operands of different internal lengths that meet in the shorter one's last, partial block",
     "is_disjoint says they are disjoint")

seed("c21_eq_len", "C21", [("enum_set/src/lib.rs", "#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]\npub struct EnumSet",
                            "#[derive(Clone, Hash, Eq, PartialOrd, Ord)]\npub struct EnumSet"),
     ("enum_set/src/lib.rs", "impl<E: EnumLike> EnumSet<E> {", '''impl<E: EnumLike> PartialEq for EnumSet<E> {
    fn eq(&self, other: &Self) -> bool {
        // Compare the bits
        self.inner.get_ref() == other.inner.get_ref()
    }
}

impl<E: EnumLike> EnumSet<E> {''')], '''
fn main() {
    let mut a = enum_set2::EnumSet::<N<100>>::new();
    let mut b = enum_set2::EnumSet::<N<100>>::new();
    a.insert(N(4));
    b.insert(N(4));
    b.insert(N(70));
    b.remove(N(70));
    assert!(a == b);
}
''', "two sets of the same members, one of which once had a larger member", "they compare different")
