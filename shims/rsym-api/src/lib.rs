//! Harness primitives. The symbolic executor replaces every function here by name; natively (replay)
//! the inputs come from the file named by RSYM_INPUTS ("name value" per line).
mod bigz;
use std::cell::RefCell;
use std::collections::BTreeMap;

struct Native {
    inputs: BTreeMap<String, u128>,
    count: BTreeMap<String, u32>,
    z: Vec<bigz::BigZ>,
}
thread_local! {
    static N: RefCell<Option<Native>> = RefCell::new(None);
}
fn native<R>(f: impl FnOnce(&mut Native) -> R) -> R {
    N.with(|n| {
        let mut g = n.borrow_mut();
        if g.is_none() {
            let mut inputs = BTreeMap::new();
            if let Ok(p) = std::env::var("RSYM_INPUTS") {
                for l in std::fs::read_to_string(p).unwrap().lines() {
                    let mut it = l.split_whitespace();
                    if let (Some(k), Some(v)) = (it.next(), it.next()) {
                        inputs.insert(k.to_string(), v.parse::<u128>().unwrap());
                    }
                }
            }
            *g = Some(Native { inputs, count: BTreeMap::new(), z: vec![] });
        }
        f(g.as_mut().unwrap())
    })
}
unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}
/// The n-th use of `name` on a path is the input `name#n`: any value of `bits` bits in lo..=hi
/// (compared as signed or unsigned), extended to 128 bits.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn rsym_input(p: *const u8, n: usize, bits: u32, signed: bool, lo: u128, hi: u128) -> u128 {
    let name = s(p, n);
    let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let _ = hi;
    let v = native(|x| {
        let c = x.count.entry(name.to_string()).or_insert(0);
        let key = format!("{}#{}", name, *c);
        *c += 1;
        x.inputs.get(&key).copied()
    });
    let v = match v {
        Some(v) => v & m,
        None if signed => {
            if (lo as i128) <= 0 && (hi as i128) >= 0 { 0 } else { lo & m }
        }
        None => lo & m,
    };
    if signed && bits < 128 {
        (((v << (128 - bits)) as i128) >> (128 - bits)) as u128
    } else {
        v
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_assume(c: bool) {
    if !c {
        eprintln!("RSYM-ASSUME-FALSE");
        std::process::exit(78);
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn rsym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        eprintln!("RSYM-CHECK-FAILED {}", s(p, n));
        std::process::exit(77);
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn rsym_reach(p: *const u8, n: usize) {
    eprintln!("RSYM-REACH {}", s(p, n));
}
/// from here on a panic is a violation with this name; empty: a panic is an aborted transaction
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn rsym_panic_mode(p: *const u8, n: usize) {
    let name = s(p, n).to_string();
    std::panic::set_hook(Box::new(move |i| {
        if !name.is_empty() {
            eprintln!("RSYM-PANIC {}", i);
            eprintln!("RSYM-CHECK-FAILED {}", name);
            std::process::exit(77);
        } else {
            eprintln!("RSYM-PANIC {}", i);
            std::process::exit(79);
        }
    }));
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn rsym_print(p: *const u8, n: usize, v: u128) {
    eprintln!("RSYM-PRINT {} = {} ({})", s(p, n), v, v as i128);
}
/// true in the symbolic executor only
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_symbolic() -> bool {
    false
}
/// engine hint: case-split on the value (natively the identity)
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_concretize(v: u64) -> u64 {
    v
}
/// end of this path
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_stop() {
    std::process::exit(0)
}

// ---- mathematical integers (specification side) ----
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_z_s(v: i128) -> u32 {
    native(|x| {
        x.z.push(bigz::BigZ::from_i128(v));
        x.z.len() as u32 - 1
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_z_u(v: u128) -> u32 {
    native(|x| {
        x.z.push(bigz::BigZ::from_u128(v));
        x.z.len() as u32 - 1
    })
}
/// op: 0 add, 1 sub, 2 mul, 3 floor-div, 4 mod (floor)
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_z_op(op: u32, a: u32, b: u32) -> u32 {
    native(|x| {
        let (p, q) = (x.z[a as usize].clone(), x.z[b as usize].clone());
        let r = match op {
            0 => p.add(&q),
            1 => p.sub(&q),
            2 => p.mul(&q),
            3 => p.div_floor(&q),
            _ => p.sub(&q.mul(&p.div_floor(&q))),
        };
        x.z.push(r);
        x.z.len() as u32 - 1
    })
}
/// op: 0 lt, 1 le, 2 eq
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_z_cmp(op: u32, a: u32, b: u32) -> bool {
    native(|x| {
        let (p, q) = (&x.z[a as usize], &x.z[b as usize]);
        let c = p.cmp(q);
        match op {
            0 => c.is_lt(),
            1 => c.is_le(),
            _ => c.is_eq(),
        }
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_z_ite(c: bool, a: u32, b: u32) -> u32 {
    if c { a } else { b }
}
// branch-free logic, so that the executor does not fork on specifications
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_b(op: u32, a: bool, b: bool) -> bool {
    match op {
        0 => a & b,
        1 => a | b,
        2 => !a | b,
        _ => a == b,
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_ite128(c: bool, a: u128, b: u128) -> u128 {
    if c { a } else { b }
}
