use num::{BigUint, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

/// Machine word abstraction: designs whose widest vector fits in 128 bits are simulated on
/// `u128`, everything else on `BigUint`.
pub trait Word: Clone + PartialEq + Eq + Hash + Debug + Send + Sync + PartialOrd + Ord + 'static {
    const MAXW: u32;
    fn zero() -> Self;
    fn ones(w: u32) -> Self;
    fn from_big(b: &BigUint) -> Self;
    fn from_u64(b: u64) -> Self;
    fn to_big(&self) -> BigUint;
    fn and(&self, o: &Self) -> Self;
    fn or(&self, o: &Self) -> Self;
    fn xor(&self, o: &Self) -> Self;
    fn shl(&self, n: u32) -> Self;
    fn shr(&self, n: u32) -> Self;
    /// wrapping arithmetic; results must be masked by the caller
    fn add(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn div(&self, o: &Self) -> Self;
    fn rem(&self, o: &Self) -> Self;
    fn cmpw(&self, o: &Self) -> Ordering;
    fn is_zero(&self) -> bool;
    fn bit(&self, i: u32) -> bool;
    fn to_u32_sat(&self) -> u32;
    fn count_ones(&self) -> u32;
    fn mask(&self, w: u32) -> Self {
        self.and(&Self::ones(w))
    }
    fn not(&self, w: u32) -> Self {
        self.xor(&Self::ones(w))
    }
    fn neg(&self, w: u32) -> Self {
        self.mask(w).not(w).add(&Self::from_u64(1)).mask(w)
    }
}

impl Word for u128 {
    const MAXW: u32 = 128;
    fn zero() -> Self {
        0
    }
    #[inline]
    fn ones(w: u32) -> Self {
        if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
    }
    fn from_big(b: &BigUint) -> Self {
        (b & BigUint::from(u128::MAX)).to_u128().unwrap()
    }
    fn from_u64(b: u64) -> Self {
        b as u128
    }
    fn to_big(&self) -> BigUint {
        BigUint::from(*self)
    }
    fn and(&self, o: &Self) -> Self {
        self & o
    }
    fn or(&self, o: &Self) -> Self {
        self | o
    }
    fn xor(&self, o: &Self) -> Self {
        self ^ o
    }
    fn shl(&self, n: u32) -> Self {
        if n >= 128 { 0 } else { self << n }
    }
    fn shr(&self, n: u32) -> Self {
        if n >= 128 { 0 } else { self >> n }
    }
    fn add(&self, o: &Self) -> Self {
        self.wrapping_add(*o)
    }
    fn mul(&self, o: &Self) -> Self {
        self.wrapping_mul(*o)
    }
    fn div(&self, o: &Self) -> Self {
        self / o
    }
    fn rem(&self, o: &Self) -> Self {
        self % o
    }
    fn cmpw(&self, o: &Self) -> Ordering {
        self.cmp(o)
    }
    fn is_zero(&self) -> bool {
        *self == 0
    }
    fn bit(&self, i: u32) -> bool {
        i < 128 && (self >> i) & 1 == 1
    }
    fn to_u32_sat(&self) -> u32 {
        if *self > u32::MAX as u128 { u32::MAX } else { *self as u32 }
    }
    fn count_ones(&self) -> u32 {
        u128::count_ones(*self)
    }
}

impl Word for BigUint {
    const MAXW: u32 = u32::MAX;
    fn zero() -> Self {
        Zero::zero()
    }
    fn ones(w: u32) -> Self {
        (BigUint::one() << w as usize) - BigUint::one()
    }
    fn from_big(b: &BigUint) -> Self {
        b.clone()
    }
    fn from_u64(b: u64) -> Self {
        BigUint::from(b)
    }
    fn to_big(&self) -> BigUint {
        self.clone()
    }
    fn and(&self, o: &Self) -> Self {
        self & o
    }
    fn or(&self, o: &Self) -> Self {
        self | o
    }
    fn xor(&self, o: &Self) -> Self {
        self ^ o
    }
    fn shl(&self, n: u32) -> Self {
        self << n as usize
    }
    fn shr(&self, n: u32) -> Self {
        self >> n as usize
    }
    fn add(&self, o: &Self) -> Self {
        self + o
    }
    fn mul(&self, o: &Self) -> Self {
        self * o
    }
    fn div(&self, o: &Self) -> Self {
        self / o
    }
    fn rem(&self, o: &Self) -> Self {
        self % o
    }
    fn cmpw(&self, o: &Self) -> Ordering {
        self.cmp(o)
    }
    fn is_zero(&self) -> bool {
        Zero::is_zero(self)
    }
    fn bit(&self, i: u32) -> bool {
        BigUint::bit(self, i as u64)
    }
    fn to_u32_sat(&self) -> u32 {
        self.to_u32().unwrap_or(u32::MAX)
    }
    fn count_ones(&self) -> u32 {
        BigUint::count_ones(self) as u32
    }
}

/// A four-state vector value; the width lives in the node that produced it.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct V4<W> {
    pub v: W,
    pub x: W,
}

impl<W: Word> V4<W> {
    pub fn all_x(w: u32) -> Self {
        V4 { v: W::zero(), x: W::ones(w) }
    }
    pub fn known(v: W) -> Self {
        V4 { v, x: W::zero() }
    }
    pub fn is_known(&self) -> bool {
        self.x.is_zero()
    }
    /// turn Z into X
    pub fn zx(mut self) -> Self {
        if !self.x.is_zero() {
            // clear v where x
            let both = self.v.and(&self.x);
            self.v = self.v.xor(&both);
        }
        self
    }
    pub fn show(&self, w: u32) -> String {
        if self.is_known() {
            format!("{}'d{}", w, self.v.to_big())
        } else {
            let mut s = format!("{}'b", w);
            for i in (0..w).rev() {
                s.push(match (self.x.bit(i), self.v.bit(i)) {
                    (false, false) => '0',
                    (false, true) => '1',
                    (true, false) => 'x',
                    (true, true) => 'z',
                });
            }
            s
        }
    }
}
