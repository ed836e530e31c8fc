//! Stand-in for the `fixed` crate (blockworks-foundation fork 1.11.0, branch
//! v1.11.0-borsh0_10-mango, feature `debug-assert-in-release`), which cannot be fetched offline.
//!
//! Semantics reproduced (this is part of the trusted base of every check that uses it):
//!  * value = bits / 2^FRAC, bits is an i128/u128
//!  * `a * b`  = floor(a.bits * b.bits / 2^FRAC)            (arithmetic shift right: rounds to -inf)
//!  * `a / b`  = trunc(a.bits * 2^FRAC / b.bits)            (rounds to zero)
//!  * fixed -> integer truncates by arithmetic shift right  (floor)
//!  * float -> fixed rounds to nearest, ties to even
//!  * operators panic on overflow (debug-assert-in-release), checked_* return None
#![allow(clippy::all)]
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;

pub mod wide;
pub mod traits {
    pub use crate::{CvtFrom as FromFixed, CvtInto as ToFixed};
    pub trait LossyInto<T> {
        fn lossy_into(self) -> T;
    }
    impl<S: crate::CvtInto<T>, T> LossyInto<T> for S {
        fn lossy_into(self) -> T {
            self.cvt().0
        }
    }
}
pub mod prelude {
    pub use crate::traits::*;
}

/// conversion returning (wrapped value, overflow)
pub trait CvtInto<D> {
    fn cvt(self) -> (D, bool);
    /// saturation target on overflow
    fn is_neg(&self) -> bool;
}
pub trait CvtFrom<S> {}
impl<S: CvtInto<D>, D> CvtFrom<S> for D {}

#[cold]
#[inline(never)]
fn overflow() -> ! {
    panic!("overflow")
}
#[cold]
#[inline(never)]
fn div_by_zero() -> ! {
    panic!("division by zero")
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ParseFixedError;
impl fmt::Display for ParseFixedError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid fixed-point literal")
    }
}
impl std::error::Error for ParseFixedError {}

pub mod types {
    pub use crate::{I64F64, I80F48, U64F64, U80F48, I68F60, I48F80};
    pub mod extra {
        pub struct U48;
        pub struct U64;
    }
}

macro_rules! fixed_type {
    ($T:ident, $Bits:ty, $UBits:ty, $frac:expr, $signed:expr, $mul:path, $mul_o:path, $div:path, $div_o:path) => {
        #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #[repr(transparent)]
        pub struct $T {
            bits: $Bits,
        }
        unsafe impl bytemuck::Zeroable for $T {}
        unsafe impl bytemuck::Pod for $T {}

        impl $T {
            pub const FRAC_NBITS: u32 = $frac;
            pub const INT_NBITS: u32 = 128 - $frac;
            pub const ZERO: Self = Self { bits: 0 };
            pub const ONE: Self = Self { bits: 1 << $frac };
            pub const DELTA: Self = Self { bits: 1 };
            pub const MIN: Self = Self { bits: <$Bits>::MIN };
            pub const MAX: Self = Self { bits: <$Bits>::MAX };
            const FRAC_MASK: $Bits = (1 << $frac) - 1;

            #[inline] pub const fn from_bits(bits: $Bits) -> Self { Self { bits } }
            #[inline] pub const fn to_bits(self) -> $Bits { self.bits }
            #[inline] pub fn from_num<S: CvtInto<Self>>(s: S) -> Self {
                let (v, o) = s.cvt();
                if o { overflow() }
                v
            }
            #[inline] pub fn checked_from_num<S: CvtInto<Self>>(s: S) -> Option<Self> {
                let (v, o) = s.cvt();
                if o { None } else { Some(v) }
            }
            #[inline] pub fn wrapping_from_num<S: CvtInto<Self>>(s: S) -> Self { s.cvt().0 }
            #[inline] pub fn overflowing_from_num<S: CvtInto<Self>>(s: S) -> (Self, bool) { s.cvt() }
            #[inline] pub fn saturating_from_num<S: CvtInto<Self>>(s: S) -> Self {
                let neg = s.is_neg();
                let (v, o) = s.cvt();
                if !o { v } else if neg { Self::MIN } else { Self::MAX }
            }
            #[inline] pub fn to_num<D>(self) -> D where Self: CvtInto<D> {
                let (v, o) = self.cvt();
                if o { overflow() }
                v
            }
            #[inline] pub fn checked_to_num<D>(self) -> Option<D> where Self: CvtInto<D> {
                let (v, o) = self.cvt();
                if o { None } else { Some(v) }
            }
            #[inline] pub fn wrapping_to_num<D>(self) -> D where Self: CvtInto<D> {
                <Self as CvtInto<D>>::cvt(self).0
            }
            #[inline] pub fn overflowing_to_num<D>(self) -> (D, bool) where Self: CvtInto<D> {
                <Self as CvtInto<D>>::cvt(self)
            }
            #[inline] pub fn saturating_to_num<D: Bounded>(self) -> D where Self: CvtInto<D> {
                let neg = CvtInto::<D>::is_neg(&self);
                let (v, o): (D, bool) = self.cvt();
                if !o { v } else if neg { D::BMIN } else { D::BMAX }
            }
            #[inline] pub fn unwrapped_to_num<D>(self) -> D where Self: CvtInto<D> { self.to_num() }
            #[inline] pub fn unwrapped_from_num<S: CvtInto<Self>>(s: S) -> Self { Self::from_num(s) }
            #[inline] pub const fn from_le_bytes(b: [u8; 16]) -> Self { Self { bits: <$Bits>::from_le_bytes(b) } }
            #[inline] pub const fn to_le_bytes(self) -> [u8; 16] { self.bits.to_le_bytes() }
            #[inline] pub const fn from_be_bytes(b: [u8; 16]) -> Self { Self { bits: <$Bits>::from_be_bytes(b) } }
            #[inline] pub const fn to_be_bytes(self) -> [u8; 16] { self.bits.to_be_bytes() }
            #[inline] pub const fn to_ne_bytes(self) -> [u8; 16] { self.bits.to_ne_bytes() }
            #[inline] pub const fn from_ne_bytes(b: [u8; 16]) -> Self { Self { bits: <$Bits>::from_ne_bytes(b) } }
            #[inline] pub const fn is_zero(self) -> bool { self.bits == 0 }
            #[inline] pub const fn leading_zeros(self) -> u32 { self.bits.leading_zeros() }
            #[inline] pub const fn trailing_zeros(self) -> u32 { self.bits.trailing_zeros() }
            #[inline] pub const fn count_ones(self) -> u32 { self.bits.count_ones() }
            #[inline] pub fn min(self, o: Self) -> Self { Ord::min(self, o) }
            #[inline] pub fn max(self, o: Self) -> Self { Ord::max(self, o) }

            /// integer part, rounds to -inf
            #[inline] pub fn int(self) -> Self { Self { bits: self.bits & !Self::FRAC_MASK } }
            #[inline] pub fn frac(self) -> Self { Self { bits: self.bits & Self::FRAC_MASK } }
            #[inline] pub fn floor(self) -> Self { self.int() }
            #[inline] pub fn checked_floor(self) -> Option<Self> { Some(self.int()) }
            #[inline] pub fn checked_ceil(self) -> Option<Self> {
                let i = self.int();
                if self.frac().bits == 0 { Some(i) } else { i.checked_add(Self::ONE) }
            }
            #[inline] pub fn ceil(self) -> Self {
                match self.checked_ceil() { Some(v) => v, None => overflow() }
            }
            /// to nearest, ties away from zero
            #[inline] pub fn checked_round(self) -> Option<Self> {
                let half: $Bits = 1 << ($frac - 1);
                let i = self.int();
                let f = self.bits & Self::FRAC_MASK;
                if f < half || (f == half && self.bits < (0 as $Bits)) { Some(i) } else { i.checked_add(Self::ONE) }
            }
            #[inline] pub fn round(self) -> Self {
                match self.checked_round() { Some(v) => v, None => overflow() }
            }
            #[inline] pub fn round_to_zero(self) -> Self {
                if self.bits < (0 as $Bits) && self.frac().bits != 0 { Self { bits: self.int().bits + (1 << $frac) } } else { self.int() }
            }
            #[inline] pub fn recip(self) -> Self { Self::ONE / self }
            #[inline] pub fn checked_recip(self) -> Option<Self> { Self::ONE.checked_div(self) }

            #[inline] pub fn checked_add(self, o: Self) -> Option<Self> { self.bits.checked_add(o.bits).map(Self::from_bits) }
            #[inline] pub fn checked_sub(self, o: Self) -> Option<Self> { self.bits.checked_sub(o.bits).map(Self::from_bits) }
            #[inline] pub fn checked_mul(self, o: Self) -> Option<Self> {
                if $mul_o(self.bits, o.bits, $frac) { None } else { Some(Self::from_bits($mul(self.bits, o.bits, $frac))) }
            }
            #[inline] pub fn checked_div(self, o: Self) -> Option<Self> {
                if o.bits == 0 || $div_o(self.bits, o.bits, $frac) { None } else { Some(Self::from_bits($div(self.bits, o.bits, $frac))) }
            }
            #[inline] pub fn checked_rem(self, o: Self) -> Option<Self> {
                if o.bits == 0 { None } else { Some(Self::from_bits(self.bits.wrapping_rem(o.bits))) }
            }
            #[inline] pub fn checked_neg(self) -> Option<Self> { self.bits.checked_neg().map(Self::from_bits) }
            #[inline] pub fn checked_mul_int(self, o: $Bits) -> Option<Self> { self.bits.checked_mul(o).map(Self::from_bits) }
            #[inline] pub fn checked_div_int(self, o: $Bits) -> Option<Self> { self.bits.checked_div(o).map(Self::from_bits) }
            #[inline] pub fn checked_rem_int(self, o: $Bits) -> Option<Self> { self.checked_rem(Self { bits: o.checked_shl($frac)? }) }
            #[inline] pub fn checked_shl(self, n: u32) -> Option<Self> { self.bits.checked_shl(n).map(Self::from_bits) }
            #[inline] pub fn checked_shr(self, n: u32) -> Option<Self> { self.bits.checked_shr(n).map(Self::from_bits) }
            #[inline] pub fn wrapping_add(self, o: Self) -> Self { Self::from_bits(self.bits.wrapping_add(o.bits)) }
            #[inline] pub fn wrapping_sub(self, o: Self) -> Self { Self::from_bits(self.bits.wrapping_sub(o.bits)) }
            #[inline] pub fn wrapping_neg(self) -> Self { Self::from_bits(self.bits.wrapping_neg()) }
            #[inline] pub fn wrapping_mul(self, o: Self) -> Self { Self::from_bits($mul(self.bits, o.bits, $frac)) }
            #[inline] pub fn wrapping_div(self, o: Self) -> Self {
                if o.bits == 0 { div_by_zero() }
                Self::from_bits($div(self.bits, o.bits, $frac))
            }
            #[inline] pub fn wrapping_mul_int(self, o: $Bits) -> Self { Self::from_bits(self.bits.wrapping_mul(o)) }
            #[inline] pub fn wrapping_div_int(self, o: $Bits) -> Self { Self::from_bits(self.bits.wrapping_div(o)) }
            #[inline] pub fn overflowing_add(self, o: Self) -> (Self, bool) { let (b, f) = self.bits.overflowing_add(o.bits); (Self::from_bits(b), f) }
            #[inline] pub fn overflowing_sub(self, o: Self) -> (Self, bool) { let (b, f) = self.bits.overflowing_sub(o.bits); (Self::from_bits(b), f) }
            #[inline] pub fn overflowing_mul(self, o: Self) -> (Self, bool) { (self.wrapping_mul(o), $mul_o(self.bits, o.bits, $frac)) }
            #[inline] pub fn overflowing_div(self, o: Self) -> (Self, bool) { (self.wrapping_div(o), $div_o(self.bits, o.bits, $frac)) }
            #[inline] pub fn saturating_add(self, o: Self) -> Self { Self::from_bits(self.bits.saturating_add(o.bits)) }
            #[inline] pub fn saturating_sub(self, o: Self) -> Self { Self::from_bits(self.bits.saturating_sub(o.bits)) }
            #[inline] pub fn saturating_mul(self, o: Self) -> Self {
                match self.checked_mul(o) { Some(v) => v, None => if (self.bits < (0 as $Bits)) != (o.bits < (0 as $Bits)) { Self::MIN } else { Self::MAX } }
            }
            #[inline] pub fn saturating_div(self, o: Self) -> Self {
                if o.bits == 0 { div_by_zero() }
                match self.checked_div(o) { Some(v) => v, None => if (self.bits < (0 as $Bits)) != (o.bits < (0 as $Bits)) { Self::MIN } else { Self::MAX } }
            }
            #[inline] pub fn saturating_mul_int(self, o: $Bits) -> Self { Self::from_bits(self.bits.saturating_mul(o)) }
            #[inline] pub fn unwrapped_add(self, o: Self) -> Self { self + o }
            #[inline] pub fn unwrapped_sub(self, o: Self) -> Self { self - o }
            #[inline] pub fn unwrapped_mul(self, o: Self) -> Self { self * o }
            #[inline] pub fn unwrapped_div(self, o: Self) -> Self { self / o }
            #[inline] pub fn mul_add(self, m: Self, a: Self) -> Self { self * m + a }
            #[inline] pub fn checked_mul_add(self, m: Self, a: Self) -> Option<Self> { self.checked_mul(m)?.checked_add(a) }
            #[inline] pub fn mean(self, o: Self) -> Self { Self::from_bits((self.bits & o.bits) + ((self.bits ^ o.bits) >> 1)) }
            #[inline] pub fn rem_euclid(self, o: Self) -> Self { Self::from_bits(self.bits.rem_euclid(o.bits)) }
            #[inline] pub fn div_euclid(self, o: Self) -> Self {
                let q = (self / o).round_to_zero();
                if (self % o).bits < (0 as $Bits) { if o.bits > (0 as $Bits) { q - Self::ONE } else { q + Self::ONE } } else { q }
            }
        }

        impl Add for $T { type Output = Self; #[inline] fn add(self, o: Self) -> Self { match self.checked_add(o) { Some(v) => v, None => overflow() } } }
        impl Sub for $T { type Output = Self; #[inline] fn sub(self, o: Self) -> Self { match self.checked_sub(o) { Some(v) => v, None => overflow() } } }
        impl Mul for $T { type Output = Self; #[inline] fn mul(self, o: Self) -> Self { match self.checked_mul(o) { Some(v) => v, None => overflow() } } }
        impl Div for $T { type Output = Self; #[inline] fn div(self, o: Self) -> Self {
            if o.bits == 0 { div_by_zero() }
            match self.checked_div(o) { Some(v) => v, None => overflow() } } }
        impl Rem for $T { type Output = Self; #[inline] fn rem(self, o: Self) -> Self {
            match self.checked_rem(o) { Some(v) => v, None => div_by_zero() } } }
        impl Mul<$Bits> for $T { type Output = Self; #[inline] fn mul(self, o: $Bits) -> Self { match self.checked_mul_int(o) { Some(v) => v, None => overflow() } } }
        impl Mul<$T> for $Bits { type Output = $T; #[inline] fn mul(self, o: $T) -> $T { o * self } }
        impl Div<$Bits> for $T { type Output = Self; #[inline] fn div(self, o: $Bits) -> Self { match self.checked_div_int(o) { Some(v) => v, None => overflow() } } }
        impl Rem<$Bits> for $T { type Output = Self; #[inline] fn rem(self, o: $Bits) -> Self { match self.checked_rem_int(o) { Some(v) => v, None => overflow() } } }
        impl BitAnd for $T { type Output = Self; #[inline] fn bitand(self, o: Self) -> Self { Self::from_bits(self.bits & o.bits) } }
        impl BitOr for $T { type Output = Self; #[inline] fn bitor(self, o: Self) -> Self { Self::from_bits(self.bits | o.bits) } }
        impl BitXor for $T { type Output = Self; #[inline] fn bitxor(self, o: Self) -> Self { Self::from_bits(self.bits ^ o.bits) } }
        impl Not for $T { type Output = Self; #[inline] fn not(self) -> Self { Self::from_bits(!self.bits) } }
        fixed_ref_ops!($T, $T, Add add, Sub sub, Mul mul, Div div, Rem rem, BitAnd bitand, BitOr bitor, BitXor bitxor);
        fixed_ref_ops!($T, $Bits, Mul mul, Div div, Rem rem);
        fixed_assign_ops!($T, $T, AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %, BitAndAssign bitand_assign &, BitOrAssign bitor_assign |, BitXorAssign bitxor_assign ^);
        fixed_assign_ops!($T, $Bits, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
        fixed_shifts!($T, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

        impl Sum for $T { fn sum<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::ZERO, |a, b| a + b) } }
        impl<'a> Sum<&'a $T> for $T { fn sum<I: Iterator<Item = &'a $T>>(it: I) -> Self { it.fold(Self::ZERO, |a, b| a + *b) } }
        impl Product for $T { fn product<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::ONE, |a, b| a * b) } }
        impl<'a> Product<&'a $T> for $T { fn product<I: Iterator<Item = &'a $T>>(it: I) -> Self { it.fold(Self::ONE, |a, b| a * *b) } }

        // integer -> fixed, fixed -> integer, comparisons with integers
        fixed_int!($T, $Bits, $frac, $signed; i8 true, i16 true, i32 true, i64 true, i128 true, isize true, u8 false, u16 false, u32 false, u64 false, u128 false, usize false);
        fixed_float!($T, $Bits, $frac, $signed; f32 u32 24 127, f64 u64 53 1023);

        impl CvtInto<$T> for bool {
            #[inline] fn cvt(self) -> ($T, bool) { ($T { bits: (self as $Bits) << $frac }, false) }
            #[inline] fn is_neg(&self) -> bool { false }
        }
        impl From<bool> for $T { #[inline] fn from(v: bool) -> Self { Self::from_num(v) } }

        impl fmt::Display for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let neg = self.bits < (0 as $Bits);
                let mag: u128 = if neg { (self.bits as u128).wrapping_neg() } else { self.bits as u128 };
                let int = mag >> $frac;
                let mut fr = mag & ((1u128 << $frac) - 1);
                // shortest decimal fraction that is within half a delta
                let (digits, carry) = wide::shortest_frac(&mut fr, $frac, f.precision());
                let s = if digits.is_empty() { format!("{}", int + carry as u128) } else { format!("{}.{}", int + carry as u128, digits) };
                f.pad_integral(!neg, "", &s)
            }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
        }
        impl FromStr for $T {
            type Err = ParseFixedError;
            fn from_str(s: &str) -> std::result::Result<Self, ParseFixedError> {
                let (neg, t) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
                let mag = wide::parse_dec(t, $frac).ok_or(ParseFixedError)?;
                if neg {
                    if !$signed && mag != 0 { return Err(ParseFixedError); }
                    if $signed && mag > (1u128 << 127) { return Err(ParseFixedError); }
                    Ok(Self::from_bits((mag as $Bits).wrapping_neg()))
                } else {
                    if $signed && mag >= (1u128 << 127) { return Err(ParseFixedError); }
                    Ok(Self::from_bits(mag as $Bits))
                }
            }
        }
        impl borsh::BorshSerialize for $T {
            #[inline] fn serialize<W: borsh::maybestd::io::Write>(&self, w: &mut W) -> borsh::maybestd::io::Result<()> { self.bits.serialize(w) }
        }
        impl borsh::BorshDeserialize for $T {
            #[inline] fn deserialize_reader<R: borsh::maybestd::io::Read>(r: &mut R) -> borsh::maybestd::io::Result<Self> {
                Ok(Self { bits: <$Bits as borsh::BorshDeserialize>::deserialize_reader(r)? })
            }
        }
        impl serde::Serialize for $T {
            fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
                use serde::ser::SerializeStruct;
                let mut st = s.serialize_struct(stringify!($T), 1)?;
                st.serialize_field("bits", &self.bits)?;
                st.end()
            }
        }
    };
}

macro_rules! fixed_ref_ops {
    ($T:ty, $R:ty, $($Tr:ident $m:ident),*) => {$(
        impl<'a> $Tr<$R> for &'a $T { type Output = $T; #[inline] fn $m(self, o: $R) -> $T { (*self).$m(o) } }
        impl<'a> $Tr<&'a $R> for $T { type Output = $T; #[inline] fn $m(self, o: &'a $R) -> $T { self.$m(*o) } }
        impl<'a, 'b> $Tr<&'a $R> for &'b $T { type Output = $T; #[inline] fn $m(self, o: &'a $R) -> $T { (*self).$m(*o) } }
    )*};
}
macro_rules! fixed_assign_ops {
    ($T:ty, $R:ty, $($Tr:ident $m:ident $op:tt),*) => {$(
        impl $Tr<$R> for $T { #[inline] fn $m(&mut self, o: $R) { *self = *self $op o; } }
        impl<'a> $Tr<&'a $R> for $T { #[inline] fn $m(&mut self, o: &'a $R) { *self = *self $op *o; } }
    )*};
}
macro_rules! fixed_shifts {
    ($T:ident, $($I:ty),*) => {$(
        impl Shl<$I> for $T { type Output = $T; #[inline] fn shl(self, n: $I) -> $T { $T::from_bits(self.bits << n) } }
        impl Shr<$I> for $T { type Output = $T; #[inline] fn shr(self, n: $I) -> $T { $T::from_bits(self.bits >> n) } }
        impl ShlAssign<$I> for $T { #[inline] fn shl_assign(&mut self, n: $I) { self.bits <<= n; } }
        impl ShrAssign<$I> for $T { #[inline] fn shr_assign(&mut self, n: $I) { self.bits >>= n; } }
    )*};
}

pub trait Bounded {
    const BMIN: Self;
    const BMAX: Self;
}
macro_rules! bounded { ($($I:ty),*) => {$( impl Bounded for $I { const BMIN: Self = <$I>::MIN; const BMAX: Self = <$I>::MAX; } )*}; }
bounded!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, I80F48, U80F48, U64F64, I64F64, I68F60, I48F80);

macro_rules! fixed_int {
    ($T:ident, $Bits:ty, $frac:expr, $signed:expr; $($I:ident $is:expr),*) => {$(
        impl CvtInto<$T> for $I {
            #[inline] fn cvt(self) -> ($T, bool) {
                let b: $Bits = (self as $Bits).wrapping_shl($frac);
                // exact unless the integer does not fit in the integer bits
                let fits = if <$I>::BITS <= 64 && ($signed || !$is) && (<$I>::BITS + ($signed && !$is) as u32) <= 128 - $frac {
                    true
                } else {
                    let neg = ($is) && (self as i128) < 0;
                    if neg {
                        $signed && (self as i128) >= (<$Bits>::MIN as i128) >> $frac
                    } else {
                        (self as u128) <= ((<$Bits>::MAX >> $frac) as u128)
                    }
                };
                ($T { bits: b }, !fits)
            }
            #[inline] fn is_neg(&self) -> bool { ($is) && (*self as i128) < 0 }
        }
        impl CvtInto<$I> for $T {
            #[inline] fn cvt(self) -> ($I, bool) {
                let v: $Bits = self.bits >> $frac;
                let r = v as $I;
                let neg = $signed && (v as i128) < 0;
                let fits = if neg {
                    $is && (v as i128) >= (<$I>::MIN as i128)
                } else {
                    (v as u128) <= (<$I>::MAX as u128)
                };
                (r, !fits)
            }
            #[inline] fn is_neg(&self) -> bool { self.bits < (0 as $Bits) }
        }
        impl PartialEq<$I> for $T {
            #[inline] fn eq(&self, o: &$I) -> bool { self.partial_cmp(o) == Some(Ordering::Equal) }
        }
        impl PartialEq<$T> for $I {
            #[inline] fn eq(&self, o: &$T) -> bool { o == self }
        }
        impl PartialOrd<$I> for $T {
            #[inline] fn partial_cmp(&self, o: &$I) -> Option<Ordering> {
                let (v, ovf): ($T, bool) = (*o).cvt();
                if ovf {
                    // the integer lies outside the range of the fixed type
                    return Some(if ($is) && (*o as i128) < 0 { Ordering::Greater } else { Ordering::Less });
                }
                Some(self.bits.cmp(&v.bits))
            }
        }
        impl PartialOrd<$T> for $I {
            #[inline] fn partial_cmp(&self, o: &$T) -> Option<Ordering> { o.partial_cmp(self).map(Ordering::reverse) }
        }
    )*};
}

macro_rules! fixed_from {
    ($T:ident; $($I:ty),*) => {$(
        impl From<$I> for $T { #[inline] fn from(v: $I) -> Self { let (r, _) = CvtInto::<$T>::cvt(v); r } }
    )*};
}

macro_rules! fixed_float {
    ($T:ident, $Bits:ty, $frac:expr, $signed:expr; $($F:ident $FB:ident $prec:literal $bias:literal),*) => {$(
        impl CvtInto<$T> for $F {
            #[inline] fn cvt(self) -> ($T, bool) {
                if !self.is_finite() { return ($T::ZERO, true); }
                let (neg, mag, ovf) = wide::float_to_mag(self as f64, $frac);
                if neg {
                    let o = ovf || (if $signed { mag > (1u128 << 127) } else { mag != 0 });
                    ($T { bits: (mag as $Bits).wrapping_neg() }, o)
                } else {
                    let o = ovf || ($signed && mag >= (1u128 << 127));
                    ($T { bits: mag as $Bits }, o)
                }
            }
            #[inline] fn is_neg(&self) -> bool { *self < 0.0 }
        }
        impl CvtInto<$F> for $T {
            #[inline] fn cvt(self) -> ($F, bool) {
                // round to nearest even; int -> float conversion in Rust does that, scaling by 2^-frac is exact
                let neg = self.bits < (0 as $Bits);
                let mag: u128 = if neg { (self.bits as u128).wrapping_neg() } else { self.bits as u128 };
                let f = (mag as $F) * (1.0 as $F / ((1u128 << $frac) as $F));
                (if neg { -f } else { f }, false)
            }
            #[inline] fn is_neg(&self) -> bool { self.bits < (0 as $Bits) }
        }
        impl PartialEq<$F> for $T {
            #[inline] fn eq(&self, o: &$F) -> bool { self.partial_cmp(o) == Some(Ordering::Equal) }
        }
        impl PartialEq<$T> for $F { #[inline] fn eq(&self, o: &$T) -> bool { o == self } }
        impl PartialOrd<$F> for $T {
            fn partial_cmp(&self, o: &$F) -> Option<Ordering> {
                let x = *o as f64;
                if x.is_nan() { return None; }
                if x == f64::INFINITY { return Some(Ordering::Less); }
                if x == f64::NEG_INFINITY { return Some(Ordering::Greater); }
                let neg = self.bits < (0 as $Bits);
                let mag: u128 = if neg { (self.bits as u128).wrapping_neg() } else { self.bits as u128 };
                Some(wide::cmp_mag_float(neg, mag, $frac, x))
            }
        }
        impl PartialOrd<$T> for $F {
            #[inline] fn partial_cmp(&self, o: &$T) -> Option<Ordering> { o.partial_cmp(self).map(Ordering::reverse) }
        }
    )*};
}

macro_rules! signed_extra {
    ($T:ident) => {
        impl Neg for $T { type Output = Self; #[inline] fn neg(self) -> Self { match self.checked_neg() { Some(v) => v, None => overflow() } } }
        impl<'a> Neg for &'a $T { type Output = $T; #[inline] fn neg(self) -> $T { -*self } }
        impl $T {
            #[inline] pub const fn is_negative(self) -> bool { self.bits < 0 }
            #[inline] pub const fn is_positive(self) -> bool { self.bits > 0 }
            #[inline] pub fn abs(self) -> Self { if self.bits < 0 { -self } else { self } }
            #[inline] pub fn checked_abs(self) -> Option<Self> { self.bits.checked_abs().map(Self::from_bits) }
            #[inline] pub fn wrapping_abs(self) -> Self { Self::from_bits(self.bits.wrapping_abs()) }
            #[inline] pub fn saturating_abs(self) -> Self { Self::from_bits(self.bits.saturating_abs()) }
            #[inline] pub fn saturating_neg(self) -> Self { Self::from_bits(self.bits.saturating_neg()) }
            #[inline] pub fn abs_diff(self, o: Self) -> u128 { self.bits.abs_diff(o.bits) }
            #[inline] pub fn signum(self) -> Self {
                if self.bits > 0 { Self::ONE } else if self.bits < 0 { -Self::ONE } else { Self::ZERO }
            }
        }
    };
}

fixed_type!(I80F48, i128, u128, 48, true, wide::__fx_mul_i, wide::__fx_mulo_i, wide::__fx_div_i, wide::__fx_divo_i);
fixed_type!(I64F64, i128, u128, 64, true, wide::__fx_mul_i, wide::__fx_mulo_i, wide::__fx_div_i, wide::__fx_divo_i);
fixed_type!(I68F60, i128, u128, 60, true, wide::__fx_mul_i, wide::__fx_mulo_i, wide::__fx_div_i, wide::__fx_divo_i);
fixed_type!(I48F80, i128, u128, 80, true, wide::__fx_mul_i, wide::__fx_mulo_i, wide::__fx_div_i, wide::__fx_divo_i);
fixed_type!(U80F48, u128, u128, 48, false, wide::__fx_mul_u, wide::__fx_mulo_u, wide::__fx_div_u, wide::__fx_divo_u);
fixed_type!(U64F64, u128, u128, 64, false, wide::__fx_mul_u, wide::__fx_mulo_u, wide::__fx_div_u, wide::__fx_divo_u);
signed_extra!(I80F48);
signed_extra!(I64F64);
signed_extra!(I68F60);
signed_extra!(I48F80);
fixed_from!(I80F48; i8, i16, i32, i64, u8, u16, u32, u64);
fixed_from!(I64F64; i8, i16, i32, i64, u8, u16, u32);
fixed_from!(U80F48; u8, u16, u32, u64);
fixed_from!(U64F64; u8, u16, u32, u64);

// fixed -> fixed
macro_rules! fixed_fixed {
    ($($S:ident $D:ident $sf:expr, $df:expr, $dsigned:expr);*) => {$(
        impl CvtInto<$D> for $S {
            #[inline] fn cvt(self) -> ($D, bool) {
                let neg = (self.bits as i128) < 0 && <$S>::MIN.bits != 0;
                let (r, lost) = wide::rescale(self.bits as u128, neg, $sf, $df);
                let o = lost || if neg { !$dsigned || (r as i128) >= 0 } else { $dsigned && (r as i128) < 0 };
                ($D::from_bits(r as _), o)
            }
            #[inline] fn is_neg(&self) -> bool { (self.bits as i128) < 0 && <$S>::MIN.bits != 0 }
        }
    )*};
}
fixed_fixed!(I80F48 I80F48 48, 48, true; U64F64 I80F48 64, 48, true; U80F48 I80F48 48, 48, true; I64F64 I80F48 64, 48, true;
             I80F48 U64F64 48, 64, false; I80F48 I64F64 48, 64, true; I80F48 U80F48 48, 48, false; U64F64 U64F64 64, 64, false;
             U80F48 U80F48 48, 48, false; I64F64 I64F64 64, 64, true);
