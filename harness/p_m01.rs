// M01: number conversions and low precision division
//@fn h_clamp_fx reach=in,out : every I80F48
//@fn h_clamp_f64 reach=in,out : every f64 except NaN
//@fn h_clamp_u64 reach=in,out : every u64
//@fn h_div30_b reach=ok : any dividend of the widths 1, 2, 31, 33, 63, 64, 65, 97, 126, 127 bits; divisor from a list of 12
//@fn h_div30_a reach=ok : dividend from a list of 8, any divisor of the widths 1, 31, 32, 33, 49, 64, 96, 127 bits
//@fn h_div30_zero reach=zero : division by zero, dividend any
use super::api::*;
use crate::i80f48::*;
use fixed::types::I80F48;

fn fx(b: i128) -> I80F48 { I80F48::from_bits(b) }
#[no_mangle]
pub extern "C" fn h_clamp_fx() {
    panic_is_violation("clamping cannot fail");
    let b = sym_i128("x");
    let (u, i) = (fx(b).clamp_to_u64(), fx(b).clamp_to_i64());
    let z = Z::s(b).div_floor(Z::s(ONE));
    let lim = |lo: i128, hi: i128| z.max(Z::s(lo)).min(Z::s(hi));
    // to_num rounds down
    check(Z::u(u as u128).eq(lim(0, u64::MAX as i128)), "clamp_to_u64 is the nearest u64 below");
    check(Z::s(i as i128).eq(lim(i64::MIN as i128, i64::MAX as i128)), "clamp_to_i64 is the nearest i64 below");
    if u == 0 { reach("out"); } else { reach("in"); }
}
#[no_mangle]
pub extern "C" fn h_clamp_f64() {
    panic_is_violation("clamping cannot fail");
    let x = sym_f64("x");
    assume(x == x);
    let (u, i) = (x.clamp_to_u64(), x.clamp_to_i64());
    check(implies(x >= 18446744073709551616.0, u == u64::MAX), "large values become the largest u64");
    check(implies(x <= 0.0, u == 0), "negative values become zero");
    check(implies(and(x > 0.0, x < 18446744073709551616.0), u == x as u64), "other values lose their fraction");
    check(implies(x >= 9223372036854775808.0, i == i64::MAX), "large values become the largest i64");
    check(implies(x <= -9223372036854775808.0, i == i64::MIN), "small values become the smallest i64");
    check(implies(and(x > -9223372036854775808.0, x < 9223372036854775808.0), i == x as i64), "other values lose their fraction");
    if x > 0.0 { reach("in"); } else { reach("out"); }
}
#[no_mangle]
pub extern "C" fn h_clamp_u64() {
    panic_is_violation("clamping cannot fail");
    let x = sym_u64("x");
    check(x.clamp_to_u64() == x, "clamp_to_u64 keeps a u64");
    check(Z::s(x.clamp_to_i64() as i128).eq(Z::u(x as u128).min(Z::s(i64::MAX as i128))), "clamp_to_i64 is the nearest i64");
    if x >> 63 == 0 { reach("in"); } else { reach("out"); }
}
fn div30(a: i128, b: i128) {
    let r = fx(a).checked_div_30bit_precision(fx(b));
    let (za, zb) = (Z::s(a), Z::s(b));
    let num = za * Z::s(ONE); // exact quotient in raw bits is num / b
    match r {
        Some(r) => {
            let err = (Z::fx(r) * zb - num).abs();
            // |r - exact| <= 2^-30 |exact| + 1 bit
            check((err * Z::s(1 << 30)).le(num.abs() + zb.abs() * Z::s(1 << 30)), "the quotient has thirty correct bits");
            check(or(r.is_zero(), (r.is_negative()) == ((a < 0) != (b < 0))), "the quotient has the right sign");
        }
        // at most thirty correct bits: a quotient this close to the limit may be refused
        None => check((num.abs() + (num.abs()).div_floor(Z::s(1 << 30)) + zb.abs()).ge(zb.abs() * Z::pow2(127)), "a quotient that fits is not refused"),
    }
    reach("ok");
}
fn width(name: &'static str, bits: u32) -> i128 { in_i128(name, 1i128 << (bits - 1), ((1u128 << bits) - 1) as i128) }
#[no_mangle]
pub extern "C" fn h_div30_b() {
    panic_is_violation("the division cannot fail");
    let bits = [1u32, 2, 31, 33, 63, 64, 65, 97, 126, 127][case("bits", 10) as usize];
    let a = width("a", bits);
    let b = [1i128, 3, 0xffff_ffff, 1 << 32, (1 << 32) + 1, ONE, -ONE, ONE / 3, 12345 * ONE + 678, -(1 << 95) - 1, i128::MAX, i128::MIN + 1][case("b", 12) as usize];
    div30(a, b);
    div30(-a, b);
}
#[no_mangle]
pub extern "C" fn h_div30_a() {
    panic_is_violation("the division cannot fail");
    let bits = [1u32, 31, 32, 33, 49, 64, 96, 127][case("bits", 8) as usize];
    let b = width("b", bits);
    let a = [0i128, 1, ONE, -ONE, 7777 * ONE + 1, (1 << 64) - 1, 1 << 100, i128::MAX][case("a", 8) as usize];
    div30(a, b);
    div30(a, -b);
}
#[no_mangle]
pub extern "C" fn h_div30_zero() {
    panic_is_violation("the division cannot fail");
    check(fx(sym_i128("a")).checked_div_30bit_precision(I80F48::ZERO).is_none(), "division by zero gives nothing");
    reach("zero");
}
