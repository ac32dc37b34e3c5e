//! ASSUMED CONTRACT of the external crate `bitvec` 1.x, used only when the Kani
//! back end builds the harnesses (through `[patch.crates-io]`).
//!
//! The real `bitvec` encodes a bit pointer by packing address bits into
//! integers and casting back, which the back end cannot track (an int-to-pointer
//! cast aliases every object).  This crate states the documented contract of the
//! operations as the obvious per-bit loops over the same bytes.  It is an
//! assumption about a dependency, never a statement about /repo's own code; the
//! check `bitvec_contract` compares it natively with the real crate.
use core::marker::PhantomData;
use core::ops::{Bound, Index, IndexMut, RangeBounds};

mod sealed { pub trait S {} }

pub trait BitStore: Copy + 'static { type Alias: BitStore; const BITS: usize; fn to8(self) -> u8; fn of8(v: u8) -> Self; fn rd(self, bit_from_lsb: usize) -> bool; fn wr(self, bit_from_lsb: usize, v: bool) -> Self; }
impl BitStore for u8 {
    type Alias = u8;
    const BITS: usize = 8;
    #[inline] fn to8(self) -> u8 { self }
    #[inline] fn of8(v: u8) -> u8 { v }
    #[inline] fn rd(self, b: usize) -> bool { (self >> b) & 1 == 1 }
    #[inline] fn wr(self, b: usize, v: bool) -> u8 { if v { self | (1u8 << b) } else { self & !(1u8 << b) } }
}

pub trait BitOrder: 'static { const MSB: bool; fn pos(i: usize, bits: usize) -> usize; }
pub struct Msb0;
pub struct Lsb0;
impl BitOrder for Msb0 { const MSB: bool = true; #[inline] fn pos(i: usize, bits: usize) -> usize { bits - 1 - i } }
impl BitOrder for Lsb0 { const MSB: bool = false; #[inline] fn pos(i: usize, _bits: usize) -> usize { i } }

pub struct BitSlice<T: BitStore = u8, O: BitOrder = Lsb0> { ptr: *mut T, start: usize, end: usize, _o: PhantomData<O> }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BitSpanError { TooLong(usize) }

fn mk<'a, T: BitStore, O: BitOrder>(ptr: *mut T, start: usize, end: usize) -> &'a mut BitSlice<T, O> {
    Box::leak(Box::new(BitSlice { ptr, start, end, _o: PhantomData }))
}

impl<T: BitStore, O: BitOrder> BitSlice<T, O> {
    pub fn from_slice(s: &[T]) -> &Self { mk(s.as_ptr() as *mut T, 0, s.len() * T::BITS) }
    pub fn from_slice_mut(s: &mut [T]) -> &mut Self { let n = s.len() * T::BITS; mk(s.as_mut_ptr(), 0, n) }
    pub fn try_from_slice(s: &[T]) -> Result<&Self, BitSpanError> { Ok(Self::from_slice(s)) }
    pub fn try_from_slice_mut(s: &mut [T]) -> Result<&mut Self, BitSpanError> { Ok(Self::from_slice_mut(s)) }
    pub fn from_element(s: &T) -> &Self { mk(s as *const T as *mut T, 0, T::BITS) }
    pub fn from_element_mut(s: &mut T) -> &mut Self { mk(s as *mut T, 0, T::BITS) }
    #[inline] pub fn len(&self) -> usize { self.end - self.start }
    #[inline] pub fn is_empty(&self) -> bool { self.len() == 0 }
    #[inline] fn at(&self, i: usize) -> bool {
        let k = self.start + i;
        unsafe { (*self.ptr.add(k / T::BITS)).rd(O::pos(k % T::BITS, T::BITS)) }
    }
    #[inline] fn put(&mut self, i: usize, v: bool) {
        let k = self.start + i;
        unsafe { let p = self.ptr.add(k / T::BITS); *p = (*p).wr(O::pos(k % T::BITS, T::BITS), v) }
    }
    pub fn get(&self, i: usize) -> Option<BitRefC> { if i < self.len() { Some(BitRefC(self.at(i))) } else { None } }
    pub fn set(&mut self, i: usize, v: bool) { assert!(i < self.len(), "bit index out of range"); self.put(i, v) }
    pub fn replace(&mut self, i: usize, v: bool) -> bool { assert!(i < self.len(), "bit index out of range"); let o = self.at(i); self.put(i, v); o }
    pub fn swap(&mut self, a: usize, b: usize) { assert!(a < self.len() && b < self.len()); let x = self.at(a); let y = self.at(b); self.put(a, y); self.put(b, x) }
    pub fn fill(&mut self, v: bool) { let n = self.len(); let mut i = 0; while i < n { self.put(i, v); i += 1; } }
    pub fn any(&self) -> bool { let mut i = 0; while i < self.len() { if self.at(i) { return true } i += 1 } false }
    pub fn all(&self) -> bool { let mut i = 0; while i < self.len() { if !self.at(i) { return false } i += 1 } true }
    pub fn not_any(&self) -> bool { !self.any() }
    pub fn not_all(&self) -> bool { !self.all() }
    pub fn count_ones(&self) -> usize { let mut c = 0; let mut i = 0; while i < self.len() { if self.at(i) { c += 1 } i += 1 } c }
    pub fn count_zeros(&self) -> usize { self.len() - self.count_ones() }

    /// The bits as one big-endian integer (first bit = most significant).
    fn load_be(&self) -> u128 {
        let mut acc: u128 = 0;
        let mut k = self.start;
        while k < self.end {
            let byte = k / 8;
            let hi = k % 8;                                    // first bit taken, from the top
            let stop = if (byte + 1) * 8 <= self.end { 8 } else { self.end % 8 };
            let n = stop - hi;
            let v = unsafe { (*self.ptr.add(byte)).to8() };
            let bits = (v >> (8 - stop)) & (((1u16 << n) - 1) as u8);
            acc = (acc << n) | bits as u128;
            k += n;
        }
        acc
    }
    fn store_be(&mut self, val: u128) {
        let mut left = self.end - self.start;
        let mut k = self.start;
        while k < self.end {
            let byte = k / 8;
            let hi = k % 8;
            let stop = if (byte + 1) * 8 <= self.end { 8 } else { self.end % 8 };
            let n = stop - hi;
            left -= n;
            let m = (((1u16 << n) - 1) as u8) << (8 - stop);
            let bits = ((val >> left) as u8) << (8 - stop) & m;
            unsafe { let p = self.ptr.add(byte); *p = T::of8(((*p).to8() & !m) | bits) }
            k += n;
        }
    }
    #[inline] fn wide(&self) -> bool { O::MSB && T::BITS == 8 && self.len() <= 127 }

    /// Towards the zero index; vacated bits become 0. Panics if `by > len`.
    pub fn shift_start(&mut self, by: usize) {
        if by == 0 { return; }
        let n = self.len();
        assert!(by <= n, "shift must be less than the length of the bit-slice");
        if self.wide() { let v = self.load_be(); self.store_be(if by == n { 0 } else { v << by }); return; }
        let mut i = 0;
        while i < n { let v = if i + by < n { self.at(i + by) } else { false }; self.put(i, v); i += 1; }
    }
    /// Away from the zero index; vacated bits become 0. Panics if `by > len`.
    pub fn shift_end(&mut self, by: usize) {
        if by == 0 { return; }
        let n = self.len();
        assert!(by <= n, "shift must be less than the length of the bit-slice");
        if self.wide() { let v = self.load_be(); self.store_be(if by == n { 0 } else { v >> by }); return; }
        let mut i = n;
        while i > 0 { i -= 1; let v = if i >= by { self.at(i - by) } else { false }; self.put(i, v); }
    }
    pub fn shift_left(&mut self, by: usize) { self.shift_start(by) }
    pub fn shift_right(&mut self, by: usize) { self.shift_end(by) }
    pub fn reverse(&mut self) { let n = self.len(); let mut i = 0; while i < n / 2 { self.swap(i, n - 1 - i); i += 1; } }
    pub fn rotate_left(&mut self, by: usize) {
        let n = self.len();
        assert!(by <= n);
        let mut k = 0;
        while k < by { let f = self.at(0); let mut i = 0; while i + 1 < n { let v = self.at(i + 1); self.put(i, v); i += 1; } self.put(n - 1, f); k += 1; }
    }
    pub fn rotate_right(&mut self, by: usize) { let n = self.len(); assert!(by <= n); if n > 0 { self.rotate_left(n - by) } }
    pub fn split_at(&self, mid: usize) -> (&BitSlice<T, O>, &BitSlice<T, O>) {
        assert!(mid <= self.len());
        (mk(self.ptr, self.start, self.start + mid), mk(self.ptr, self.start + mid, self.end))
    }
    pub fn split_at_mut(&mut self, mid: usize) -> (&mut BitSlice<T::Alias, O>, &mut BitSlice<T::Alias, O>) {
        assert!(mid <= self.len());
        let p = self.ptr as *mut T::Alias;
        (mk(p, self.start, self.start + mid), mk(p, self.start + mid, self.end))
    }
    pub fn copy_within<R: RangeBounds<usize>>(&mut self, src: R, dest: usize) {
        let (a, b) = bounds(src, self.len());
        assert!(a <= b && b <= self.len() && dest + (b - a) <= self.len());
        let n = b - a;
        if dest <= a { let mut i = 0; while i < n { let v = self.at(a + i); self.put(dest + i, v); i += 1; } }
        else { let mut i = n; while i > 0 { i -= 1; let v = self.at(a + i); self.put(dest + i, v); } }
    }
    pub fn copy_from_bitslice(&mut self, o: &Self) { assert!(self.len() == o.len()); let mut i = 0; while i < o.len() { self.put(i, o.at(i)); i += 1; } }
    pub fn clone_from_bitslice<T2: BitStore, O2: BitOrder>(&mut self, o: &BitSlice<T2, O2>) { assert!(self.len() == o.len()); let mut i = 0; while i < o.len() { self.put(i, o.at(i)); i += 1; } }
    pub fn iter(&self) -> Iter<'_, T, O> { Iter { s: self, a: 0, b: self.len() } }
    pub fn first(&self) -> Option<BitRefC> { self.get(0) }
    pub fn last(&self) -> Option<BitRefC> { if self.is_empty() { None } else { self.get(self.len() - 1) } }
}

pub struct BitRefC(bool);
impl core::ops::Deref for BitRefC { type Target = bool; fn deref(&self) -> &bool { &self.0 } }

pub struct Iter<'a, T: BitStore, O: BitOrder> { s: &'a BitSlice<T, O>, a: usize, b: usize }
impl<'a, T: BitStore, O: BitOrder> Iter<'a, T, O> {
    pub fn by_vals(self) -> Vals<'a, T, O> { Vals { i: self } }
    pub fn by_refs(self) -> Refs<'a, T, O> { Refs { i: self } }
}
impl<'a, T: BitStore, O: BitOrder> Iterator for Iter<'a, T, O> {
    type Item = BitRefC;
    fn next(&mut self) -> Option<BitRefC> { if self.a < self.b { let v = self.s.at(self.a); self.a += 1; Some(BitRefC(v)) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.b - self.a, Some(self.b - self.a)) }
}
impl<'a, T: BitStore, O: BitOrder> DoubleEndedIterator for Iter<'a, T, O> { fn next_back(&mut self) -> Option<BitRefC> { if self.a < self.b { self.b -= 1; Some(BitRefC(self.s.at(self.b))) } else { None } } }
impl<'a, T: BitStore, O: BitOrder> ExactSizeIterator for Iter<'a, T, O> {}
pub struct Vals<'a, T: BitStore, O: BitOrder> { i: Iter<'a, T, O> }
impl<'a, T: BitStore, O: BitOrder> Iterator for Vals<'a, T, O> { type Item = bool; fn next(&mut self) -> Option<bool> { self.i.next().map(|b| *b) } }
impl<'a, T: BitStore, O: BitOrder> DoubleEndedIterator for Vals<'a, T, O> { fn next_back(&mut self) -> Option<bool> { self.i.next_back().map(|b| *b) } }
pub struct Refs<'a, T: BitStore, O: BitOrder> { i: Iter<'a, T, O> }
impl<'a, T: BitStore, O: BitOrder> Iterator for Refs<'a, T, O> { type Item = &'a bool; fn next(&mut self) -> Option<&'a bool> { self.i.next().map(|b| if *b { &true } else { &false }) } }
impl<'a, T: BitStore, O: BitOrder> IntoIterator for &'a BitSlice<T, O> { type Item = BitRefC; type IntoIter = Iter<'a, T, O>; fn into_iter(self) -> Iter<'a, T, O> { self.iter() } }

fn bounds<R: RangeBounds<usize>>(r: R, len: usize) -> (usize, usize) {
    let a = match r.start_bound() { Bound::Included(x) => *x, Bound::Excluded(x) => *x + 1, Bound::Unbounded => 0 };
    let b = match r.end_bound() { Bound::Included(x) => *x + 1, Bound::Excluded(x) => *x, Bound::Unbounded => len };
    (a, b)
}
macro_rules! idx { ($($t:ty),*) => { $(
    impl<T: BitStore, O: BitOrder> Index<$t> for BitSlice<T, O> { type Output = BitSlice<T, O>;
        fn index(&self, r: $t) -> &BitSlice<T, O> { let (a, b) = bounds(r, self.len()); assert!(a <= b && b <= self.len()); mk(self.ptr, self.start + a, self.start + b) } }
    impl<T: BitStore, O: BitOrder> IndexMut<$t> for BitSlice<T, O> {
        fn index_mut(&mut self, r: $t) -> &mut BitSlice<T, O> { let (a, b) = bounds(r, self.len()); assert!(a <= b && b <= self.len()); mk(self.ptr, self.start + a, self.start + b) } }
)* } }
idx!(core::ops::Range<usize>, core::ops::RangeTo<usize>, core::ops::RangeFrom<usize>, core::ops::RangeInclusive<usize>, core::ops::RangeToInclusive<usize>, core::ops::RangeFull);
impl<T: BitStore, O: BitOrder> Index<usize> for BitSlice<T, O> { type Output = bool; fn index(&self, i: usize) -> &bool { assert!(i < self.len()); if self.at(i) { &true } else { &false } } }

pub trait BitView {
    type Store: BitStore;
    fn view_bits<O: BitOrder>(&self) -> &BitSlice<Self::Store, O>;
    fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<Self::Store, O>;
    fn try_view_bits<O: BitOrder>(&self) -> Result<&BitSlice<Self::Store, O>, BitSpanError> { Ok(self.view_bits()) }
    fn try_view_bits_mut<O: BitOrder>(&mut self) -> Result<&mut BitSlice<Self::Store, O>, BitSpanError> { Ok(self.view_bits_mut()) }
}
impl<T: BitStore> BitView for [T] { type Store = T; fn view_bits<O: BitOrder>(&self) -> &BitSlice<T, O> { BitSlice::from_slice(self) } fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<T, O> { BitSlice::from_slice_mut(self) } }
impl<T: BitStore, const N: usize> BitView for [T; N] { type Store = T; fn view_bits<O: BitOrder>(&self) -> &BitSlice<T, O> { BitSlice::from_slice(&self[..]) } fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<T, O> { BitSlice::from_slice_mut(&mut self[..]) } }
impl BitView for u8 { type Store = u8; fn view_bits<O: BitOrder>(&self) -> &BitSlice<u8, O> { BitSlice::from_element(self) } fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<u8, O> { BitSlice::from_element_mut(self) } }

pub mod slice { pub use crate::{BitSlice, Iter}; }
pub mod order { pub use crate::{BitOrder, Lsb0, Msb0}; }
pub mod store { pub use crate::BitStore; }
pub mod view { pub use crate::BitView; }
pub mod ptr { pub use crate::BitSpanError; }
pub mod prelude { pub use crate::{BitOrder, BitSlice, BitStore, BitView, Lsb0, Msb0}; }
