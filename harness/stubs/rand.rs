//! Stand-in for the `rand` crate: every draw is a fresh nondeterministic value in the range the real
//! crate guarantees.  The code under test is linked against this both symbolically and natively.
use std::ops::{Range, RangeInclusive};

pub trait RngCore {}
/// at most n more draws: longer sequences of draws are not explored
#[allow(static_mut_refs)]
pub fn limit(n: u64) { unsafe { LEFT = Some(n) } }
static mut LEFT: Option<u64> = None;
fn drawn() { unsafe { if let Some(n) = LEFT { if n == 0 { LEFT = None; vsym::reject() } LEFT = Some(n - 1); } } }
pub trait Draw: Copy { fn draw(lo: Self, hi_incl: Self) -> Self; fn dec(self) -> Self; fn lt(a: Self, b: Self) -> bool; }
macro_rules! ints { ($($t:ty)*) => { $(impl Draw for $t {
    fn draw(lo: Self, hi: Self) -> Self { crate::drawn(); lo + (vsym::sym(0, (hi - lo) as u64) as $t) }
    fn dec(self) -> Self { self - 1 }
    fn lt(a: Self, b: Self) -> bool { a < b }
})* } }
ints!(usize u64 u32 u16 u8 i32 i64);
// floats: eight representative points of the unit interval
macro_rules! floats { ($($t:ty)*) => { $(impl Draw for $t {
    fn draw(lo: Self, hi: Self) -> Self { lo + (hi - lo) * (vsym::pick(8) as $t) / 8.0 }
    fn dec(self) -> Self { self }
    fn lt(a: Self, b: Self) -> bool { a < b }
})* } }
floats!(f32 f64);
pub trait SampleRange<T> { fn one(self) -> T; }
impl<T: Draw> SampleRange<T> for Range<T> { fn one(self) -> T { if !T::lt(self.start, self.end) { panic!("cannot sample empty range") } T::draw(self.start, self.end.dec()) } }
impl<T: Draw> SampleRange<T> for RangeInclusive<T> { fn one(self) -> T { let (a, b) = self.into_inner(); if T::lt(b, a) { panic!("cannot sample empty range") } T::draw(a, b) } }
pub trait Std { fn any() -> Self; }
impl Std for bool { fn any() -> bool { vsym::sym(0, 1) == 1 } }
impl Std for u8 { fn any() -> u8 { vsym::sym(0, 255) as u8 } }
impl Std for u32 { fn any() -> u32 { vsym::sym(0, u32::MAX as u64) as u32 } }
impl Std for u64 { fn any() -> u64 { vsym::sym(0, u64::MAX) } }
impl Std for f64 { fn any() -> f64 { (vsym::pick(8) as f64) / 8.0 } }
impl Std for f32 { fn any() -> f32 { (vsym::pick(8) as f32) / 8.0 } }
impl Std for usize { fn any() -> usize { vsym::sym(0, u64::MAX) as usize } }
pub trait Rng: RngCore {
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T where Self: Sized { r.one() }
    fn gen_bool(&mut self, p: f64) -> bool { assert!((0.0..=1.0).contains(&p)); if p <= 0.0 { return false; } if p >= 1.0 { return true; } vsym::sym(0, 1) == 1 }
    fn gen_ratio(&mut self, n: u32, d: u32) -> bool { assert!(d > 0 && n <= d); if n == 0 { return false; } if n == d { return true; } vsym::sym(0, 1) == 1 }
    fn gen<T: Std>(&mut self) -> T where Self: Sized { T::any() }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T where Self: Sized { d.sample(self) }
}
impl<R: RngCore + ?Sized> Rng for R {}
impl<'a, R: RngCore + ?Sized> RngCore for &'a mut R {}
pub trait SeedableRng: Sized { type Seed; fn from_seed(s: Self::Seed) -> Self; fn seed_from_u64(s: u64) -> Self; fn from_entropy() -> Self; fn from_rng<R: RngCore>(_r: R) -> Result<Self, std::fmt::Error>; }
pub mod rngs {
    #[derive(Clone, Debug)] pub struct ThreadRng(pub(crate) ());
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct StdRng(());
    pub type SmallRng = StdRng;
    impl Default for ThreadRng { fn default() -> Self { ThreadRng(()) } }
    impl crate::RngCore for ThreadRng {}
    impl crate::RngCore for StdRng {}
    impl crate::SeedableRng for StdRng { type Seed = [u8; 32]; fn from_seed(_: [u8; 32]) -> Self { StdRng(()) } fn seed_from_u64(_: u64) -> Self { StdRng(()) } fn from_entropy() -> Self { StdRng(()) } fn from_rng<R: crate::RngCore>(_r: R) -> Result<Self, std::fmt::Error> { Ok(StdRng(())) } }
}
pub fn thread_rng() -> rngs::ThreadRng { rngs::ThreadRng(()) }
pub fn random<T: Std>() -> T { T::any() }
pub mod seq {
    pub trait SliceRandom {
        type Item;
        fn shuffle<R: crate::RngCore + ?Sized>(&mut self, rng: &mut R);
        fn choose<R: crate::RngCore + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: crate::RngCore + ?Sized>(&mut self, rng: &mut R) -> Option<&mut Self::Item>;
        fn choose_multiple<R: crate::RngCore + ?Sized>(&self, rng: &mut R, n: usize) -> std::vec::IntoIter<&Self::Item>;
        fn partial_shuffle<R: crate::RngCore + ?Sized>(&mut self, rng: &mut R, n: usize) -> (&mut [Self::Item], &mut [Self::Item]);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        /// every permutation is possible (Fisher-Yates with nondeterministic draws)
        fn shuffle<R: crate::RngCore + ?Sized>(&mut self, _rng: &mut R) {
            let mut i = self.len();
            while i > 1 { i -= 1; let j = vsym::sym(0, i as u64) as usize; self.swap(i, j); }
        }
        fn choose<R: crate::RngCore + ?Sized>(&self, _rng: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[vsym::sym(0, self.len() as u64 - 1) as usize]) } }
        fn choose_mut<R: crate::RngCore + ?Sized>(&mut self, _rng: &mut R) -> Option<&mut T> { if self.is_empty() { None } else { let n = self.len() as u64; Some(&mut self[vsym::sym(0, n - 1) as usize]) } }
        fn choose_multiple<R: crate::RngCore + ?Sized>(&self, _rng: &mut R, n: usize) -> std::vec::IntoIter<&T> {
            let mut v: Vec<&T> = self.iter().collect(); let n = n.min(v.len()); let mut i = 0;
            while i < n { let j = i + vsym::sym(0, (v.len() - 1 - i) as u64) as usize; v.swap(i, j); i += 1; }
            v.truncate(n); v.into_iter()
        }
        fn partial_shuffle<R: crate::RngCore + ?Sized>(&mut self, _rng: &mut R, n: usize) -> (&mut [T], &mut [T]) {
            let l = self.len(); let end = l.saturating_sub(n); let mut i = l;
            while i > end { i -= 1; let j = vsym::sym(0, i as u64) as usize; self.swap(i, j); }
            let (a, b) = self.split_at_mut(end); (b, a)
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: crate::RngCore + ?Sized>(self, _rng: &mut R) -> Option<Self::Item> { let v: Vec<Self::Item> = self.collect(); let n = v.len() as u64; if n == 0 { return None; } let k = vsym::sym(0, n - 1) as usize; v.into_iter().nth(k) }
    }
    impl<I: Iterator> IteratorRandom for I {}
    pub mod index {
        pub struct IndexVec(Vec<usize>);
        impl IndexVec { pub fn into_vec(self) -> Vec<usize> { self.0 } pub fn len(&self) -> usize { self.0.len() } pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, usize>> { self.0.iter().copied() } pub fn index(&self, k: usize) -> usize { self.0[k] } }
        impl IntoIterator for IndexVec { type Item = usize; type IntoIter = std::vec::IntoIter<usize>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
        pub fn sample<R: crate::RngCore + ?Sized>(_rng: &mut R, length: usize, amount: usize) -> IndexVec {
            if amount > length { panic!("`amount` of samples must be less than or equal to `length`") }
            let mut v: Vec<usize> = (0..length).collect(); let mut i = 0;
            while i < amount { let j = i + vsym::sym(0, (length - 1 - i) as u64) as usize; v.swap(i, j); i += 1; }
            v.truncate(amount); IndexVec(v)
        }
    }
}
pub mod distributions {
    pub trait Distribution<T> { fn sample<R: crate::RngCore + ?Sized>(&self, rng: &mut R) -> T; }
    #[derive(Clone, Copy, Debug)] pub struct Uniform<T> { lo: T, hi: T }
    impl<T: crate::Draw> Uniform<T> {
        pub fn new(lo: T, hi: T) -> Self { if !T::lt(lo, hi) { panic!("Uniform::new called with `low >= high`") } Uniform { lo, hi: hi.dec() } }
        pub fn new_inclusive(lo: T, hi: T) -> Self { if T::lt(hi, lo) { panic!("Uniform::new_inclusive called with `low > high`") } Uniform { lo, hi } }
    }
    impl<T: crate::Draw> Distribution<T> for Uniform<T> { fn sample<R: crate::RngCore + ?Sized>(&self, _rng: &mut R) -> T { T::draw(self.lo, self.hi) } }
    impl<'a, T, D: Distribution<T>> Distribution<T> for &'a D { fn sample<R: crate::RngCore + ?Sized>(&self, rng: &mut R) -> T { (*self).sample(rng) } }
    impl<T: crate::Draw> From<std::ops::Range<T>> for Uniform<T> { fn from(r: std::ops::Range<T>) -> Self { Uniform::new(r.start, r.end) } }
    impl<T: crate::Draw> From<std::ops::RangeInclusive<T>> for Uniform<T> { fn from(r: std::ops::RangeInclusive<T>) -> Self { let (a, b) = r.into_inner(); Uniform::new_inclusive(a, b) } }
    #[derive(Clone, Copy, Debug)] pub struct Standard;
    impl<T: crate::Std> Distribution<T> for Standard { fn sample<R: crate::RngCore + ?Sized>(&self, _rng: &mut R) -> T { T::any() } }
}
pub mod prelude {
    pub use crate::distributions::Distribution;
    pub use crate::rngs::{StdRng, ThreadRng};
    pub use crate::seq::{IteratorRandom, SliceRandom};
    pub use crate::{random, thread_rng, Rng, RngCore, SeedableRng};
}
