// Typed wrappers over the rsym_* primitives (crate rsym-api), included by every harness build.
#![allow(dead_code)]
use rsym_api::*;

/// mathematical integer of the specification
#[derive(Clone, Copy)]
pub struct Z(pub u32);
impl Z {
    #[inline] pub fn s(v: i128) -> Z { Z(rsym_z_s(v)) }
    #[inline] pub fn u(v: u128) -> Z { Z(rsym_z_u(v)) }
    #[inline] pub fn fx(v: fixed::types::I80F48) -> Z { Z(rsym_z_s(v.to_bits())) }
    /// n < 2^128 exponents are built from two halves
    #[inline] pub fn pow2(n: u32) -> Z { if n < 127 { Z::u(1u128 << n) } else { Z::u(1u128 << 126) * Z::u(1u128 << (n - 126)) } }
    #[inline] pub fn lt(self, o: Z) -> bool { rsym_z_cmp(0, self.0, o.0) }
    #[inline] pub fn le(self, o: Z) -> bool { rsym_z_cmp(1, self.0, o.0) }
    #[inline] pub fn gt(self, o: Z) -> bool { o.lt(self) }
    #[inline] pub fn ge(self, o: Z) -> bool { o.le(self) }
    #[inline] pub fn eq(self, o: Z) -> bool { rsym_z_cmp(2, self.0, o.0) }
    #[inline] pub fn div_floor(self, o: Z) -> Z { Z(rsym_z_op(3, self.0, o.0)) }
    #[inline] pub fn rem_floor(self, o: Z) -> Z { Z(rsym_z_op(4, self.0, o.0)) }
    #[inline] pub fn ite(c: bool, a: Z, b: Z) -> Z { Z(rsym_z_ite(c, a.0, b.0)) }
    #[inline] pub fn min(self, o: Z) -> Z { Z::ite(self.le(o), self, o) }
    #[inline] pub fn max(self, o: Z) -> Z { Z::ite(self.le(o), o, self) }
    #[inline] pub fn abs(self) -> Z { let n = Z::s(0) - self; self.max(n) }
}
impl std::ops::Add for Z { type Output = Z; #[inline] fn add(self, o: Z) -> Z { Z(rsym_z_op(0, self.0, o.0)) } }
impl std::ops::Sub for Z { type Output = Z; #[inline] fn sub(self, o: Z) -> Z { Z(rsym_z_op(1, self.0, o.0)) } }
impl std::ops::Mul for Z { type Output = Z; #[inline] fn mul(self, o: Z) -> Z { Z(rsym_z_op(2, self.0, o.0)) } }
impl std::ops::Neg for Z { type Output = Z; #[inline] fn neg(self) -> Z { Z::s(0) - self } }

macro_rules! sym_fns {
    ($($f:ident $r:ident $t:ty, $b:expr, $s:expr);* $(;)?) => {$(
        #[inline] pub fn $f(name: &'static str) -> $t { $r(name, <$t>::MIN, <$t>::MAX) }
        #[inline] pub fn $r(name: &'static str, lo: $t, hi: $t) -> $t {
            unsafe { rsym_input(name.as_ptr(), name.len(), $b, $s, lo as u128, hi as u128) as $t }
        }
    )*};
}
sym_fns!(
    sym_u8 in_u8 u8, 8, false; sym_i8 in_i8 i8, 8, true; sym_u16 in_u16 u16, 16, false; sym_i16 in_i16 i16, 16, true;
    sym_u32 in_u32 u32, 32, false; sym_i32 in_i32 i32, 32, true; sym_u64 in_u64 u64, 64, false; sym_i64 in_i64 i64, 64, true;
    sym_u128 in_u128 u128, 128, false; sym_i128 in_i128 i128, 128, true;
);
#[inline] pub fn sym_bool(name: &'static str) -> bool { unsafe { rsym_input(name.as_ptr(), name.len(), 1, false, 0, 1) as u8 & 1 == 1 } }
/// fixed-point input with raw bits in lo..=hi
#[inline] pub fn in_fx(name: &'static str, lo: i128, hi: i128) -> fixed::types::I80F48 { fixed::types::I80F48::from_bits(in_i128(name, lo, hi)) }
#[inline] pub fn sym_f64(name: &'static str) -> f64 { f64::from_bits(sym_u64(name)) }
#[inline] pub fn assume(c: bool) { rsym_assume(c) }
#[inline] pub fn check(c: bool, id: &'static str) { unsafe { rsym_check(c, id.as_ptr(), id.len()) } }
#[inline] pub fn reach(id: &'static str) { unsafe { rsym_reach(id.as_ptr(), id.len()) } }
#[inline] pub fn panic_is_violation(id: &'static str) { unsafe { rsym_panic_mode(id.as_ptr(), id.len()) } }
#[inline] pub fn panic_is_abort() { unsafe { rsym_panic_mode("".as_ptr(), 0) } }
#[inline] pub fn print(id: &'static str, v: i128) { unsafe { rsym_print(id.as_ptr(), id.len(), v as u128) } }
#[inline] pub fn stop() { rsym_stop() }
#[inline] pub fn concretize(v: u64) -> u64 { rsym_concretize(v) }
/// one of n cases, explored one by one
#[inline] pub fn case(name: &'static str, n: u32) -> u32 { rsym_concretize(in_u32(name, 0, n - 1) as u64) as u32 }
#[inline] pub fn symbolic() -> bool { rsym_symbolic() }
// branch-free logic
#[inline] pub fn and(a: bool, b: bool) -> bool { rsym_b(0, a, b) }
#[inline] pub fn or(a: bool, b: bool) -> bool { rsym_b(1, a, b) }
#[inline] pub fn implies(a: bool, b: bool) -> bool { rsym_b(2, a, b) }
#[inline] pub fn iff(a: bool, b: bool) -> bool { rsym_b(3, a, b) }
pub const ONE: i128 = 1 << 48;
