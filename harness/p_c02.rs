// C02: method calls inside checked arithmetic; checked_math_or_panic and its assignment forms
//@crate cm-harness
//@mod cmspec
//@fn h_recv_i64 reach=done : receivers and arguments of pow/abs/other methods that contain arithmetic; every i64 operand
//@fn h_recv_u32 reach=done : the same, u32
//@fn h_recv_i8 reach=done tier=thorough : the same, i8
//@fn h_recv_i128 reach=done tier=thorough : the same, i128
//@fn h_panic_i64 reach=done : checked_math_or_panic on expressions and += -= *= /=, every i64 operand
//@fn h_panic_u64 reach=done : the same, u64
//@fn h_panic_u8 reach=done tier=thorough : the same, u8
//@fn h_panic_i128 reach=done tier=thorough : the same, i128
//@fn h_once reach=done : operands with side effects: evaluated once and in the order of the plain expression; every u64 operand
//@assume The battery of expression shapes below stands for the expression grammar the macro accepts
use super::api::*;
use super::cmspec::*;
use checked_math::{checked_math, checked_math_or_panic};

/// compare an Option result with the specification
macro_rules! same {
    ($got:expr, $t:ty, $want:expr, $id:expr) => {{
        let w = $want;
        match $got {
            Some(v) => check(and(w.ok, ZV::zv(v as $t).eq(w.z)), $id),
            None => check(!w.ok, $id),
        }
    }};
}
/// the plain operators where they are defined (nonzero divisor, no MIN / -1)
macro_rules! quorem {
    ($op:ident, $t:ty, $a:expr, $b:expr, $ok:expr) => {{
        let (a, b) = ($a, $b);
        let bad = or(b == 0, and(<$t>::MIN != 0, and(a == <$t>::MIN, b == (0 as $t).wrapping_sub(1))));
        let b = if bad { 1 } else { b };
        O { z: a.$op(b).zv(), ok: and($ok, !bad) }
    }};
}

trait Half { fn half(&self) -> Self; fn inv(&self) -> Self; }
macro_rules! half { ($($t:ty)*) => {$(impl Half for $t { fn half(&self) -> $t { *self / 2 } fn inv(&self) -> $t { !*self } })*} }
half!(i8 i64 i128 u8 u32 u64);

macro_rules! recv {
    ($name:ident, $t:ty, $sym:ident, $abs:ident) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            panic_is_violation("checked arithmetic never panics");
            let t = Ty { lo: ZV::zv(<$t>::MIN), hi: ZV::zv(<$t>::MAX), bits: <$t>::BITS };
            let (a, b) = ($sym("a"), $sym("b"));
            let (za, zb) = (o(a.zv()), o(b.zv()));
            let e = in_u32("e", 0, 2);
            let big = sym_u32("big");
            let receiver = b;
            let arg0 = 1u32;
            match sym_u32("expr") {
                0 => { same!(checked_math!((a + b).pow(2)), $t, pow(t, add(t, za, zb), 2), "(a + b).pow(2)"); }
                1 => { same!(checked_math!((a - receiver).pow(2) + receiver), $t, add(t, pow(t, sub(t, za, zb), 2), zb), "(a - b).pow(2) + b"); }
                2 => { same!(checked_math!((a - b).half()), $t, { let d = sub(t, za, zb); O { z: (a.wrapping_sub(b)).half().zv(), ok: d.ok } }, "(a - b).half()"); }
                3 => { same!(checked_math!((a * b).inv() - b), $t, { let d = mul(t, za, zb); sub(t, O { z: (a.wrapping_mul(b)).inv().zv(), ok: d.ok }, zb) }, "(a * b).inv() - b"); }
                4 => { let n = big.wrapping_add(e).wrapping_sub(big); same!(checked_math!(a.pow(n + arg0)), $t, { if n == 0 { pow(t, za, 1) } else if n == 1 { pow(t, za, 2) } else { pow(t, za, 3) } }, "a.pow(n + 1)"); }
                5 => { assume(big > 0); check(checked_math!(a.pow(big + 4294967295)).is_none(), "a.pow(n + MAX) is undefined for n > 0"); }
                6 => { same!(checked_math!((a.pow(2)).pow(2)), $t, pow(t, pow(t, za, 2), 2), "a.pow(2).pow(2)"); }
                7 => { same!(checked_math!(((a + b) as $t).half() + a), $t, { let d = add(t, za, zb); add(t, O { z: (a.wrapping_add(b)).half().zv(), ok: d.ok }, za) }, "((a + b) as T).half() + a"); }
                8 => { same!(checked_math!((a / b).half()), $t, { let d = quorem!(wrapping_div, $t, a, b, true); O { z: (a.wrapping_div(if d.ok { b } else { 1 })).half().zv(), ok: d.ok } }, "(a / b).half()"); }
                _ => { $abs(a, b, t); reach("done"); }
            }
        }
    };
}
macro_rules! abs { ($f:ident, $t:ty) => { fn $f(a: $t, b: $t, t: Ty) {
    let (za, zb) = (o(a.zv()), o(b.zv()));
    match sym_u32("expr_abs") {
        0 => { same!(checked_math!((a + b).abs()), $t, abs(t, add(t, za, zb)), "(a + b).abs()"); }
        1 => { same!(checked_math!((-a).abs() - b), $t, sub(t, abs(t, neg(t, za)), zb), "(-a).abs() - b"); }
        2 => { same!(checked_math!(a.abs().pow(2)), $t, pow(t, abs(t, za), 2), "a.abs().pow(2)"); }
        3 => { same!(checked_math!(-(a - b).abs()), $t, neg(t, abs(t, sub(t, za, zb))), "-(a - b).abs()"); }
        _ => {}
    }
} } }
abs!(abs_i8, i8);
abs!(abs_i64, i64);
abs!(abs_i128, i128);
fn noabs<T>(_: T, _: T, _: Ty) {}
recv!(h_recv_i8, i8, sym_i8, abs_i8);
recv!(h_recv_i64, i64, sym_i64, abs_i64);
recv!(h_recv_i128, i128, sym_i128, abs_i128);
recv!(h_recv_u32, u32, sym_u32, noabs);

/// the statement returns with the specified value exactly when that value is defined
macro_rules! same_p {
    ($t:ty, $want:expr, $id:expr, $got:expr) => {{
        let w = $want;
        if w.ok { panic_is_violation($id) } else { panic_is_abort() }
        let v: $t = $got;
        check(and(w.ok, v.zv().eq(w.z)), $id);
    }};
}
macro_rules! times { ($e:expr, $f:expr) => { checked_math_or_panic!($e * $f) } }
macro_rules! whole { ($e:expr) => { checked_math_or_panic!($e) } }
struct F { pub x: u64, y: i32 }
macro_rules! panics {
    ($name:ident, $t:ty, $sym:ident) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t = Ty { lo: ZV::zv(<$t>::MIN), hi: ZV::zv(<$t>::MAX), bits: <$t>::BITS };
            let (a, b, c) = ($sym("a"), $sym("b"), $sym("c"));
            let (za, zb, zc) = (o(a.zv()), o(b.zv()), o(c.zv()));
            match sym_u32("expr") {
                0 => { same_p!($t, add(t, za, zb), "a + b", checked_math_or_panic!(a + b)); }
                1 => { same_p!($t, sub(t, mul(t, za, zb), zc), "a * b - c", checked_math_or_panic!(a * b - c)); }
                2 => { same_p!($t, quorem!(wrapping_div, $t, a, b, true), "a / b", checked_math_or_panic!(a / b)); }
                3 => { same_p!($t, add(t, za, zb), "a += b", { let mut m = a; checked_math_or_panic!(m += b); m }); }
                4 => { same_p!($t, sub(t, za, zb), "a -= b", { let mut m = a; checked_math_or_panic!(m -= b); m }); }
                5 => { same_p!($t, mul(t, za, zb), "a *= b", { let mut m = a; checked_math_or_panic!(m *= b); m }); }
                6 => { same_p!($t, quorem!(wrapping_div, $t, a, b, true), "a /= b", { let mut m = a; checked_math_or_panic!(m /= b); m }); }
                7 => { same_p!($t, sub(t, za, sub(t, zb, zc)), "a -= b - c", { let mut m = a; checked_math_or_panic!(m -= b - c); m }); }
                8 => { same_p!($t, add(t, za, za), "m += m", { let mut m = a; checked_math_or_panic!(m += m); m }); }
                9 => { same_p!($t, mul(t, add(t, za, zb), zc), "a captured expression stays one operand", times!(a + b, c)); }
                12 => { same_p!($t, sub(t, za, sub(t, zb, zc)), "tuple.1 -= b - c", { let mut t2 = (b, a); checked_math_or_panic!(t2.1 -= b - c); check(t2.0 == b, "other fields keep their value"); t2.1 }); }
                13 => { same_p!($t, sub(t, add(t, za, zb), zc), "((a + b) - c)", checked_math_or_panic!(((a + b) - c))); }
                14 => { same_p!($t, za, "a", whole!(a)); }
                15 => { same_p!($t, add(t, za, mul(t, zb, zc)), "captured assignment", { let mut m = a; whole!(m += b * c); m }); }
                10 => { same_p!($t, add(t, za, zb), "target += value", { let mut target = a; let value = b; checked_math_or_panic!(target += value); target }); }
                11 => { same_p!($t, add(t, za, zb), "s.x += b", { struct S<T> { x: T } let mut s = S { x: a }; checked_math_or_panic!(s.x += b); s.x }); }
                _ => { reach("done"); }
            }
        }
    };
}
panics!(h_panic_u8, u8, sym_u8);
panics!(h_panic_u64, u64, sym_u64);
panics!(h_panic_i64, i64, sym_i64);
panics!(h_panic_i128, i128, sym_i128);

static mut TRACE: [u8; 8] = [0; 8];
static mut N: usize = 0;
static mut CELL: u64 = 0;
static mut OTHER: u64 = 0;
static mut V: [u64; 3] = [0; 3];
fn log(k: u8) { unsafe { TRACE[N & 7] = k; N += 1; } }
fn fa() -> u64 { log(1); unsafe { V[0] } }
fn fb() -> u64 { log(2); unsafe { V[1] } }
fn fc() -> u64 { log(3); unsafe { V[2] } }
/// a place that is a different one every time it is evaluated
fn place() -> &'static mut u64 { unsafe { let first = N == 0 || TRACE[0] != 9 && (N < 2 || TRACE[1] != 9) && (N < 3 || TRACE[2] != 9); log(9); if first { &mut CELL } else { &mut OTHER } } }
fn trace(want: &[u8], id: &'static str) { unsafe { let mut r = N == want.len(); for i in 0..want.len() { r = r && TRACE[i] == want[i]; } check(r, id); } }
#[no_mangle]
pub extern "C" fn h_once() {
    let (a, b, c) = (sym_u64("a"), sym_u64("b"), sym_u64("c"));
    unsafe { V = [a, b, c]; CELL = a; OTHER = c; N = 0; }
    let t = Ty { lo: Z::s(0), hi: Z::u(u64::MAX as u128), bits: 64 };
    let (za, zb, zc) = (o(a.zv()), o(b.zv()), o(c.zv()));
    match sym_u32("expr") {
        0 => { same!(checked_math!(fa() + fb() * fc()), u64, add(t, za, mul(t, zb, zc)), "fa() + fb() * fc()"); trace(&[1, 2, 3], "operands are evaluated once and in order"); }
        1 => { same!(checked_math!((fa() - fb()) / fc()), u64, quorem!(wrapping_div, u64, a.wrapping_sub(b), c, sub(t, za, zb).ok), "(fa() - fb()) / fc()"); trace(&[1, 2, 3], "operands are evaluated once and in order"); }
        2 => { same!(checked_math!((fa() + fb()).pow(2)), u64, pow(t, add(t, za, zb), 2), "(fa() + fb()).pow(2)"); trace(&[1, 2], "operands are evaluated once and in order"); }
        3 => { let w = add(t, za, zb); assume(w.ok); checked_math_or_panic!(*place() += fb()); trace(&[2, 9], "an assignment evaluates the right side, then the left side once"); unsafe { check(Z::u(CELL as u128).eq(w.z), "*place() += fb()"); check(OTHER == c, "no other place is written"); } }
        4 => { let w = sub(t, za, mul(t, zb, zc)); assume(w.ok); checked_math_or_panic!(*place() -= fb() * fc()); trace(&[2, 3, 9], "an assignment evaluates the right side, then the left side once"); unsafe { check(Z::u(CELL as u128).eq(w.z), "*place() -= fb() * fc()"); check(OTHER == c, "no other place is written"); } }
        _ => { reach("done"); }
    }
}
