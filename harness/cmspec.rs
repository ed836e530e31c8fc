// Specification of checked integer arithmetic over the mathematical integers.
#![allow(dead_code)]
use super::api::*;

/// a mathematical value that may be undefined; `ty` bounds what is representable
#[derive(Clone, Copy)]
pub struct O { pub z: Z, pub ok: bool }
#[derive(Clone, Copy)]
pub struct Ty { pub lo: Z, pub hi: Z, pub bits: u32 }
pub fn o(z: Z) -> O { O { z, ok: true } }
pub fn fit(t: Ty, z: Z, ok: bool) -> O { O { z, ok: and(ok, and(t.lo.le(z), z.le(t.hi))) } }
pub fn add(t: Ty, a: O, b: O) -> O { fit(t, a.z + b.z, and(a.ok, b.ok)) }
pub fn sub(t: Ty, a: O, b: O) -> O { fit(t, a.z - b.z, and(a.ok, b.ok)) }
pub fn mul(t: Ty, a: O, b: O) -> O { fit(t, a.z * b.z, and(a.ok, b.ok)) }
pub fn neg(t: Ty, a: O) -> O { fit(t, -a.z, a.ok) }
pub fn abs(t: Ty, a: O) -> O { fit(t, a.z.abs(), a.ok) }
fn nz(b: Z) -> Z { Z::ite(b.eq(Z::s(0)), Z::s(1), b) }
fn quo(a: Z, b: Z) -> Z {
    let q = a.abs().div_floor(nz(b).abs());
    Z::ite(iff(a.lt(Z::s(0)), b.lt(Z::s(0))), q, -q)
}
pub fn div(t: Ty, a: O, b: O) -> O { fit(t, quo(a.z, b.z), and(and(a.ok, b.ok), !b.z.eq(Z::s(0)))) }
/// undefined also where the quotient overflows (MIN % -1)
pub fn rem(t: Ty, a: O, b: O) -> O {
    let q = quo(a.z, b.z);
    let d = fit(t, q, and(and(a.ok, b.ok), !b.z.eq(Z::s(0))));
    O { z: a.z - q * b.z, ok: d.ok }
}
/// value of the two's complement bits kept by a left shift by the constant k
pub fn pow(t: Ty, a: O, n: u32) -> O { let mut r = o(Z::s(1)); for _ in 0..n { r = mul(t, r, a); } r }
pub trait ZV { fn zv(self) -> Z; }
macro_rules! zv { ($($t:ty, $w:ident as $u:ty);*) => {$(impl ZV for $t { #[inline] fn zv(self) -> Z { Z::$w(self as $u) } })*} }
zv!(u8, u as u128; u16, u as u128; u32, u as u128; u64, u as u128; u128, u as u128; usize, u as u128; i8, s as i128; i16, s as i128; i32, s as i128; i64, s as i128; i128, s as i128; isize, s as i128);
