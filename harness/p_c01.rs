// C01: checked arithmetic expressions
//@crate cm-harness
//@mod cmspec
//@fn h_u8 reach=done tier=thorough : every value of u8 operands (shift amounts: any u32; exponents 0..3)
//@fn h_i8 reach=done tier=thorough : every value of i8 operands
//@fn h_u16 reach=done tier=thorough : every value of u16 operands
//@fn h_i16 reach=done tier=thorough : every value of i16 operands
//@fn h_u32 reach=done : every value of u32 operands
//@fn h_i32 reach=done tier=thorough : every value of i32 operands
//@fn h_u64 reach=done : every value of u64 operands
//@fn h_i64 reach=done : every value of i64 operands
//@fn h_u128 reach=done tier=thorough : every value of u128 operands
//@fn h_i128 reach=done : every value of i128 operands
//@fn h_mixed reach=done : casts between types, calls, fields, literals, I80F48::from; every operand value
//@fn h_fixed reach=done : fixed-point operands, all bit patterns
//@assume The battery of expression shapes below stands for the expression grammar the macro accepts
use super::api::*;
use super::cmspec::*;
use checked_math::checked_math;
use fixed::types::I80F48;

/// compare an Option result with the specification
macro_rules! same {
    ($got:expr, $t:ty, $want:expr, $id:expr) => {{
        let w = $want;
        match $got {
            Some(v) => check(and(w.ok, ZV::zv(v as $t).eq(w.z)), $id),
            None => check(!w.ok, $id),
        }
    }};
}
/// the plain operators where they are defined (nonzero divisor, no MIN / -1)
macro_rules! quorem {
    ($op:ident, $t:ty, $a:expr, $b:expr, $ok:expr) => {{
        let (a, b) = ($a, $b);
        let bad = or(b == 0, and(<$t>::MIN != 0, and(a == <$t>::MIN, b == (0 as $t).wrapping_sub(1))));
        let b = if bad { 1 } else { b };
        O { z: a.$op(b).zv(), ok: and($ok, !bad) }
    }};
}
macro_rules! battery {
    ($name:ident, $t:ty, $sym:ident, $signed:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            panic_is_violation("checked arithmetic never panics");
            let t = Ty { lo: ZV::zv(<$t>::MIN), hi: ZV::zv(<$t>::MAX), bits: <$t>::BITS };
            let (a, b, c, d) = ($sym("a"), $sym("b"), $sym("c"), $sym("d"));
            let (za, zb, zc, zd) = (o(a.zv()), o(b.zv()), o(c.zv()), o(d.zv()));
            // shifts: only the amount is checked, as for the plain operator
            let k = sym_u32("k");
            match sym_u32("expr") {
                0 => { same!(checked_math!(a), $t, za, "a"); }
                1 => { same!(checked_math!(a + b), $t, add(t, za, zb), "a + b"); }
                2 => { same!(checked_math!(a - b), $t, sub(t, za, zb), "a - b"); }
                3 => { same!(checked_math!(a * b), $t, mul(t, za, zb), "a * b"); }
                4 => { same!(checked_math!(a / b), $t, quorem!(wrapping_div, $t, a, b, true), "a / b"); }
                5 => { same!(checked_math!(a % b), $t, quorem!(wrapping_rem, $t, a, b, true), "a % b"); }
                6 => { same!(checked_math!(a + b - c), $t, sub(t, add(t, za, zb), zc), "a + b - c"); }
                7 => { same!(checked_math!(a - b + c), $t, add(t, sub(t, za, zb), zc), "a - b + c"); }
                8 => { same!(checked_math!(a - (b - c)), $t, sub(t, za, sub(t, zb, zc)), "a - (b - c)"); }
                9 => { same!(checked_math!(a + b * c), $t, add(t, za, mul(t, zb, zc)), "a + b * c"); }
                10 => { same!(checked_math!((a + b) * c), $t, mul(t, add(t, za, zb), zc), "(a + b) * c"); }
                11 => { same!(checked_math!(a * b - c), $t, sub(t, mul(t, za, zb), zc), "a * b - c"); }
                12 => { same!(checked_math!((a - b) / (c - d)), $t, quorem!(wrapping_div, $t, a.wrapping_sub(b), c.wrapping_sub(d), and(sub(t, za, zb).ok, sub(t, zc, zd).ok)), "(a - b) / (c - d)"); }
                13 => { same!(checked_math!((a + b) % c), $t, quorem!(wrapping_rem, $t, a.wrapping_add(b), c, add(t, za, zb).ok), "(a + b) % c"); }
                14 => { same!(checked_math!((a - b) + (c - d)), $t, add(t, sub(t, za, zb), sub(t, zc, zd)), "(a - b) + (c - d)"); }
                15 => { same!(checked_math!((a + 3) - 7), $t, sub(t, add(t, za, o(Z::s(3))), o(Z::s(7))), "(a + 3) - 7"); }
                16 => { same!(checked_math!(a.pow(2)), $t, pow(t, za, 2), "a.pow(2)"); }
                17 => { same!(checked_math!(a.pow(3) + b), $t, add(t, pow(t, za, 3), zb), "a.pow(3) + b"); }
                18 => { match checked_math!(a << k) { Some(v) => check(and(k < <$t>::BITS, v == a.wrapping_shl(k)), "a << k"), None => check(k >= <$t>::BITS, "a << k") } }
                19 => { match checked_math!(a >> k) { Some(v) => check(and(k < <$t>::BITS, v == a.wrapping_shr(k)), "a >> k"), None => check(k >= <$t>::BITS, "a >> k") } }
                _ => { reach("done"); }
            }
        }
    };
}
macro_rules! signed_battery {
    ($name:ident, $inner:ident, $t:ty, $sym:ident) => {
        battery!($inner, $t, $sym, true);
        #[no_mangle]
        pub extern "C" fn $name() {
            panic_is_violation("checked arithmetic never panics");
            let t = Ty { lo: ZV::zv(<$t>::MIN), hi: ZV::zv(<$t>::MAX), bits: <$t>::BITS };
            let (a, b) = ($sym("p"), $sym("q"));
            let (za, zb) = (o(a.zv()), o(b.zv()));
            match sym_u32("expr") {
                0 => { same!(checked_math!(-a), $t, neg(t, za), "-a"); }
                1 => { same!(checked_math!(-(a + b)), $t, neg(t, add(t, za, zb)), "-(a + b)"); }
                2 => { same!(checked_math!(a - -b), $t, sub(t, za, neg(t, zb)), "a - -b"); }
                3 => { same!(checked_math!(a.abs()), $t, abs(t, za), "a.abs()"); }
                4 => { same!(checked_math!(a.abs() + b), $t, add(t, abs(t, za), zb), "a.abs() + b"); }
                _ => { $inner(); }
            }
        }
    };
}
battery!(h_u8, u8, sym_u8, false);
battery!(h_u16, u16, sym_u16, false);
battery!(h_u32, u32, sym_u32, false);
battery!(h_u64, u64, sym_u64, false);
battery!(h_u128, u128, sym_u128, false);
signed_battery!(h_i8, h_i8_, i8, sym_i8);
signed_battery!(h_i16, h_i16_, i16, sym_i16);
signed_battery!(h_i32, h_i32_, i32, sym_i32);
signed_battery!(h_i64, h_i64_, i64, sym_i64);
signed_battery!(h_i128, h_i128_, i128, sym_i128);

macro_rules! twice { ($e:expr) => { checked_math!($e * 2) } }
macro_rules! minus { ($e:expr) => { checked_math!(u32::MAX - $e) } }
struct S { x: u32, y: i64 }
impl S {
    fn m(&self) -> u32 { self.x }
}
fn f() -> u32 { 5 }

#[no_mangle]
pub extern "C" fn h_mixed() {
    panic_is_violation("checked arithmetic never panics");
    let s = S { x: sym_u32("x"), y: sym_i64("y") };
    let a = sym_u32("a");
    let (u32t, i64t) = (Ty { lo: Z::s(0), hi: Z::u(u32::MAX as u128), bits: 32 }, Ty { lo: Z::s(i64::MIN as i128), hi: Z::s(i64::MAX as i128), bits: 64 });
    let (zx, zy, za) = (o(s.x.zv()), o(s.y.zv()), o(a.zv()));
            match sym_u32("expr") {
                0 => { same!(checked_math!(s.x + a), u32, add(u32t, zx, za), "field"); }
                1 => { same!(checked_math!(s.m() - f()), u32, sub(u32t, zx, o(Z::s(5))), "calls"); }
                2 => { same!(checked_math!(s.y + (a as i64)), i64, add(i64t, zy, za), "widening cast"); }
                3 => { same!(checked_math!((s.x * a) as i64 - s.y), i64, sub(i64t, mul(u32t, zx, za), zy), "the product is checked before the cast"); }
                4 => { same!(checked_math!((a as u64 * s.x as u64) as u128), u128, o(za.z * zx.z), "the cast is applied before the product"); }
                5 => { same!(checked_math!(s.y as u32), u32, o(zy.z.rem_floor(Z::u(1u128 << 32))), "narrowing cast keeps the low bits"); }
                6 => { let r = &s.x; same!(checked_math!(*r + a), u32, add(u32t, zx, za), "dereference"); }
                7 => { same!(checked_math!(u32::MAX - a), u32, sub(u32t, o(Z::u(u32::MAX as u128)), za), "constant path"); }
                8 => { let t = (a, s.x); same!(checked_math!(t.0 * t.1 - 1), u32, sub(u32t, mul(u32t, za, zx), o(Z::s(1))), "tuple fields"); }
                9 => { same!(twice!(a + s.x), u32, mul(u32t, add(u32t, za, zx), o(Z::s(2))), "a captured expression stays one operand"); }
                10 => { same!(minus!(a - s.x), u32, sub(u32t, o(Z::u(u32::MAX as u128)), sub(u32t, za, zx)), "a captured expression stays one operand"); }
                11 => { let t = (s.m(), [a]); same!(checked_math!((t.0 + f()) * f() - t.0), u32, sub(u32t, mul(u32t, add(u32t, zx, o(Z::s(5))), o(Z::s(5))), zx), "mixed operands"); }
                12 => { same!(checked_math!(((a as i64) - s.y) as i128 * 1000000007 - 13), i128, { let d = sub(i64t, za, zy); O { z: d.z * Z::s(1000000007) - Z::s(13), ok: d.ok } }, "cast of a difference"); }
                13 => { same!(checked_math!(a as u8), u8, o(za.z.rem_floor(Z::s(256))), "narrowing cast keeps the low bits"); }
                14 => { same!(checked_math!(s.y as u64 / 3), u64, o(Z::u((s.y as u64 / 3) as u128)), "cast before the quotient"); }
                15 => { check(checked_math!(1.5) == Some(1.5f64), "literals"); check(checked_math!(77) == Some(77u8), "literals"); check(checked_math!(0x10u64) == Some(16), "literals"); }
                _ => { reach("done"); }
            }
}
#[no_mangle]
pub extern "C" fn h_fixed() {
    panic_is_violation("checked arithmetic never panics");
    let (a, b) = (sym_u32("a"), sym_u32("b"));
    let p = in_fx("p", i128::MIN, i128::MAX);
    let t = Ty { lo: Z::s(i128::MIN), hi: Z::s(i128::MAX), bits: 128 };
    let sum = add(Ty { lo: Z::s(0), hi: Z::u(u32::MAX as u128), bits: 32 }, o(a.zv()), o(b.zv()));
    let w = add(t, O { z: sum.z * Z::s(ONE), ok: sum.ok }, o(Z::fx(p)));
    let m = fit(t, (Z::fx(p) * a.zv() * Z::s(ONE)).div_floor(Z::s(ONE)), true);
    let n = neg(t, o(Z::fx(p)));
    let ab = abs(t, o(Z::fx(p)));
    let d = sub(t, o(Z::fx(p)), O { z: sum.z * Z::s(ONE), ok: sum.ok });
            match sym_u32("expr") {
                0 => { match checked_math!(I80F48::from(a + b) + p) { Some(v) => check(and(w.ok, Z::fx(v).eq(w.z)), "I80F48::from(a + b) + p"), None => check(!w.ok, "I80F48::from(a + b) + p") } }
                1 => { match checked_math!(p * I80F48::from(a)) { Some(v) => check(and(m.ok, Z::fx(v).eq(m.z)), "p * I80F48::from(a)"), None => check(!m.ok, "p * I80F48::from(a)") } }
                3 => { match checked_math!(p - I80F48::from_num(a + b)) { Some(v) => check(and(d.ok, Z::fx(v).eq(d.z)), "p - I80F48::from_num(a + b)"), None => check(!d.ok, "p - I80F48::from_num(a + b)") } }
                4 => { match checked_math!(p.abs()) { Some(v) => check(and(ab.ok, Z::fx(v).eq(ab.z)), "p.abs()"), None => check(!ab.ok, "p.abs()") } }
                2 => { match checked_math!(-p) { Some(v) => check(and(n.ok, Z::fx(v).eq(n.z)), "-p"), None => check(!n.ok, "-p") } }
                _ => { reach("done"); }
            }
}
