//! 256-bit kernels. The `__fx_*` functions are the multiplication/division intrinsics: the symbolic
//! executor replaces them with exact 256-bit terms; natively this code runs.
use std::cmp::Ordering;

#[inline]
fn mul_u128(a: u128, b: u128) -> (u128, u128) {
    let m = u64::MAX as u128;
    let (a0, a1, b0, b1) = (a & m, a >> 64, b & m, b >> 64);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
    let lo = (p00 & m) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}
fn mul_i128(a: i128, b: i128) -> (i128, u128) {
    let (hi, lo) = mul_u128(a.unsigned_abs(), b.unsigned_abs());
    if (a < 0) != (b < 0) {
        let lo2 = lo.wrapping_neg();
        let hi2 = (!hi).wrapping_add((lo == 0) as u128);
        (hi2 as i128, lo2)
    } else {
        (hi as i128, lo)
    }
}
/// (hi:lo) / d -> quotient (256 bit)
fn div_256(mut hi: u128, mut lo: u128, d: u128) -> (u128, u128) {
    if hi == 0 {
        return (0, lo / d);
    }
    let mut rem: u128 = 0;
    let (mut qh, mut ql) = (0u128, 0u128);
    for _ in 0..256 {
        let top = rem >> 127;
        rem = (rem << 1) | (hi >> 127);
        hi = (hi << 1) | (lo >> 127);
        lo <<= 1;
        qh = (qh << 1) | (ql >> 127);
        ql <<= 1;
        if top == 1 || rem >= d {
            rem = rem.wrapping_sub(d);
            ql |= 1;
        }
    }
    (qh, ql)
}

#[no_mangle]
#[inline(never)]
pub fn __fx_mul_i(a: i128, b: i128, s: u32) -> i128 {
    let (hi, lo) = mul_i128(a, b);
    ((lo >> s) | ((hi as u128) << (128 - s))) as i128
}
#[no_mangle]
#[inline(never)]
pub fn __fx_mulo_i(a: i128, b: i128, s: u32) -> bool {
    let (hi, lo) = mul_i128(a, b);
    let r = ((lo >> s) | ((hi as u128) << (128 - s))) as i128;
    (hi >> s) != (r >> 127)
}
#[no_mangle]
#[inline(never)]
pub fn __fx_div_i(a: i128, b: i128, s: u32) -> i128 {
    let (n, d) = (a.unsigned_abs(), b.unsigned_abs());
    let (_, q) = div_256(n >> (128 - s), n << s, d);
    (if (a < 0) != (b < 0) { q.wrapping_neg() } else { q }) as i128
}
#[no_mangle]
#[inline(never)]
pub fn __fx_divo_i(a: i128, b: i128, s: u32) -> bool {
    let (n, d) = (a.unsigned_abs(), b.unsigned_abs());
    let (h, q) = div_256(n >> (128 - s), n << s, d);
    if h != 0 {
        return true;
    }
    if (a < 0) != (b < 0) {
        q > 1u128 << 127
    } else {
        q >= 1u128 << 127
    }
}
#[no_mangle]
#[inline(never)]
pub fn __fx_mul_u(a: u128, b: u128, s: u32) -> u128 {
    let (hi, lo) = mul_u128(a, b);
    (lo >> s) | (hi << (128 - s))
}
#[no_mangle]
#[inline(never)]
pub fn __fx_mulo_u(a: u128, b: u128, s: u32) -> bool {
    let (hi, _) = mul_u128(a, b);
    (hi >> s) != 0
}
#[no_mangle]
#[inline(never)]
pub fn __fx_div_u(a: u128, b: u128, s: u32) -> u128 {
    div_256(a >> (128 - s), a << s, b).1
}
#[no_mangle]
#[inline(never)]
pub fn __fx_divo_u(a: u128, b: u128, s: u32) -> bool {
    div_256(a >> (128 - s), a << s, b).0 != 0
}

/// two's complement value `v` with `sf` fraction bits -> `df` fraction bits; (bits, lost high bits)
#[inline]
pub fn rescale(v: u128, neg: bool, sf: u32, df: u32) -> (u128, bool) {
    if sf == df {
        (v, false)
    } else if sf > df {
        let r = if neg { ((v as i128) >> (sf - df)) as u128 } else { v >> (sf - df) };
        (r, false)
    } else {
        let k = df - sf;
        let r = v << k;
        let back = if neg { ((r as i128) >> k) as u128 } else { r >> k };
        (r, back != v)
    }
}

/// |f| * 2^frac rounded to nearest even: (negative, magnitude, overflow of u128)
#[no_mangle]
#[inline(never)]
pub fn float_to_mag(f: f64, frac: u32) -> (bool, u128, bool) {
    let bits = f.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1u64 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let sh = e + frac as i32;
    if m == 0 {
        return (neg, 0, false);
    }
    if sh >= 0 {
        if sh > 75 {
            // 53-bit mantissa no longer fits in 128 bits
            let lz = 64 - (m.leading_zeros() as i32);
            if sh + lz > 128 {
                return (neg, if sh < 128 { (m as u128) << sh } else { 0 }, true);
            }
        }
        (neg, (m as u128) << sh, false)
    } else {
        let k = -sh;
        if k > 54 {
            return (neg, 0, false);
        }
        let q = m >> k;
        let rem = m & ((1u64 << k) - 1);
        let half = 1u64 << (k - 1);
        let up = rem > half || (rem == half && q & 1 == 1);
        (neg, q as u128 + up as u128, false)
    }
}

/// exact comparison of (-1)^neg * mag / 2^frac with x
pub fn cmp_mag_float(neg: bool, mag: u128, frac: u32, x: f64) -> Ordering {
    let bits = x.to_bits();
    let xneg = bits >> 63 == 1 && x != 0.0;
    let neg = neg && mag != 0;
    if neg != xneg {
        return if neg { Ordering::Less } else { Ordering::Greater }.then(Ordering::Equal);
    }
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1u64 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let sh = e + frac as i32;
    let ord = if m == 0 {
        mag.cmp(&0)
    } else if sh >= 0 {
        if sh + (64 - m.leading_zeros() as i32) > 128 {
            Ordering::Less
        } else {
            mag.cmp(&((m as u128) << sh))
        }
    } else {
        let k = -sh;
        if k >= 64 {
            if mag == 0 { Ordering::Less } else { Ordering::Greater }
        } else {
            let q = m >> k;
            let rem = m & ((1u64 << k) - 1);
            match mag.cmp(&(q as u128)) {
                Ordering::Equal => if rem != 0 { Ordering::Less } else { Ordering::Equal },
                o => o,
            }
        }
    };
    if neg { ord.reverse() } else { ord }
}

/// shortest decimal digits for fraction `fr`/2^frac that identify it to within half a unit
pub fn shortest_frac(fr: &mut u128, frac: u32, prec: Option<usize>) -> (String, bool) {
    // fr * 10^k may exceed u128 for frac 64.. so use u64-limb arithmetic through (u128 hi, u128 lo)
    let mut out: Vec<u8> = vec![];
    if let Some(p) = prec {
        let mut f = *fr;
        for _ in 0..p {
            let (h, l) = mul_u128(f, 10);
            let d = (l >> frac) | if frac == 0 { 0 } else { h << (128 - frac) };
            out.push(d as u8);
            f = l & ((1u128 << frac) - 1);
        }
        let half = 1u128 << (frac - 1);
        let mut carry = f > half || (f == half && out.last().map(|d| d & 1 == 1).unwrap_or(false));
        for d in out.iter_mut().rev() {
            if carry {
                if *d == 9 { *d = 0 } else { *d += 1; carry = false }
            }
        }
        return (out.iter().map(|d| (b'0' + d) as char).collect(), carry);
    }
    let mut f = *fr;
    let mut err2: u128 = 1; // twice the tolerance in units of 2^-frac, scaled by 10 each step
    let one = 1u128 << frac;
    let mut carry = false;
    while f != 0 {
        if out.len() > 40 { break; }
        let (h, l) = mul_u128(f, 10);
        let d = (l >> frac) | (h << (128 - frac));
        f = l & (one - 1);
        err2 = err2.saturating_mul(10);
        out.push(d as u8);
        if f.saturating_mul(2) < err2 {
            if f > one / 2 { carry = true; }
            break;
        }
        if (one - f).saturating_mul(2) < err2 {
            carry = true;
            break;
        }
    }
    if carry {
        for d in out.iter_mut().rev() {
            if carry {
                if *d == 9 { *d = 0 } else { *d += 1; carry = false }
            }
        }
    }
    while out.last() == Some(&0) { out.pop(); }
    (out.iter().map(|d| (b'0' + d) as char).collect(), carry)
}

/// unsigned decimal literal -> value * 2^frac rounded to nearest even
pub fn parse_dec(t: &str, frac: u32) -> Option<u128> {
    let mut it = t.splitn(2, '.');
    let ip = it.next()?;
    let fp = it.next().unwrap_or("");
    if ip.is_empty() && fp.is_empty() { return None; }
    let mut int: u128 = 0;
    for c in ip.bytes() {
        if !c.is_ascii_digit() { return None; }
        int = int.checked_mul(10)?.checked_add((c - b'0') as u128)?;
    }
    if int >> (128 - frac) != 0 { return None; }
    // fraction by repeated doubling of the decimal digits
    let mut digits: Vec<u8> = vec![];
    for c in fp.bytes() {
        if !c.is_ascii_digit() { return None; }
        digits.push(c - b'0');
    }
    let mut bits: u128 = 0;
    for _ in 0..frac {
        let mut carry = 0;
        for d in digits.iter_mut().rev() {
            let v = *d * 2 + carry;
            *d = v % 10;
            carry = v / 10;
        }
        bits = bits << 1 | carry as u128;
    }
    // round the remaining fraction to nearest even
    let first = digits.first().copied().unwrap_or(0);
    let rest = digits.iter().skip(1).any(|d| *d != 0);
    let up = first > 5 || (first == 5 && (rest || bits & 1 == 1));
    (int << frac).checked_add(bits)?.checked_add(up as u128)
}
