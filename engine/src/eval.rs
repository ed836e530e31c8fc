//! Concrete evaluation of terms under a model.
use crate::big::Big;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Model = HashMap<u32, u128>; // var index -> value

pub fn fx_eval(op: Op, x: u128, y: u128, k: u32) -> Option<u128> {
    use Op::*;
    Some(match op {
        FxMulS => Big::s(x as i128).mul(&Big::s(y as i128)).shr(k).wrap128(),
        FxMulU => Big::u(x).mul(&Big::u(y)).shr(k).wrap128(),
        FxMulOS => Big::s(x as i128).mul(&Big::s(y as i128)).shr(k).to_i128().is_none() as u128,
        FxMulOU => Big::u(x).mul(&Big::u(y)).shr(k).to_u128().is_none() as u128,
        _ if y == 0 => return None,
        FxDivS => Big::s(x as i128).shl(k).div_trunc(&Big::s(y as i128)).wrap128(),
        FxDivU => Big::u(x).shl(k).div_trunc(&Big::u(y)).wrap128(),
        FxDivOS => Big::s(x as i128).shl(k).div_trunc(&Big::s(y as i128)).to_i128().is_none() as u128,
        FxDivOU => Big::u(x).shl(k).div_trunc(&Big::u(y)).to_u128().is_none() as u128,
        _ => return None,
    })
}
pub fn fbin(op: Op, w: u32, x: u128, y: u128) -> u128 {
    use Op::*;
    if w == 64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        let r = match op { FAdd => a + b, FSub => a - b, FMul => a * b, FDiv => a / b, FRem => a % b, _ => unreachable!() };
        r.to_bits() as u128
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op { FAdd => a + b, FSub => a - b, FMul => a * b, FDiv => a / b, FRem => a % b, _ => unreachable!() };
        r.to_bits() as u128
    }
}
fn fv(w: u32, x: u128) -> f64 {
    if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 }
}
fn fb(w: u32, x: f64) -> u128 {
    if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 }
}
pub fn round_mode(k: u128, x: f64) -> f64 {
    match k {
        0 => x.trunc(),
        1 => x.floor(),
        2 => x.ceil(),
        3 => x.round(),
        _ => {
            // nearest even
            let r = x.round();
            if (x - x.trunc()).abs() == 0.5 { 2.0 * (x / 2.0).round() } else { r }
        }
    }
}
/// float ops on constants
pub fn fold_f(n: &Node, args: &[u128], aw: u32) -> Option<u128> {
    use Op::*;
    Some(match n.op {
        FAdd | FSub | FMul | FDiv | FRem => fbin(n.op, n.w, args[0], args[1]),
        FSqrt => if n.w == 64 { f64::from_bits(args[0] as u64).sqrt().to_bits() as u128 } else { f32::from_bits(args[0] as u32).sqrt().to_bits() as u128 },
        FEq => (fv(aw, args[0]) == fv(aw, args[1])) as u128,
        FLt => (fv(aw, args[0]) < fv(aw, args[1])) as u128,
        FLe => (fv(aw, args[0]) <= fv(aw, args[1])) as u128,
        // k = 1: saturating is applied by the caller; plain conversion here
        F2S => {
            let v = fv(aw, args[0]);
            let r = v as i128;
            (r.max(smin(n.w)).min(smax(n.w)) as u128) & mask(n.w)
        }
        F2U => {
            let v = fv(aw, args[0]);
            (v as u128).min(mask(n.w))
        }
        S2F => {
            let v = sx(args[0], aw);
            if n.w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 }
        }
        U2F => if n.w == 64 { (args[0] as f64).to_bits() as u128 } else { (args[0] as f32).to_bits() as u128 },
        FCvt => fb(n.w, fv(aw, args[0])),
        FRnd => fb(n.w, round_mode(n.k, fv(n.w, args[0]))),
        _ => return None,
    })
}

/// all nodes reachable from roots, ascending (children before parents)
pub fn reach(roots: &[T]) -> Vec<T> {
    let c = cx();
    let mut seen: std::collections::HashSet<T, BuildFx> = Default::default();
    let mut st: Vec<T> = roots.to_vec();
    let mut out = vec![];
    while let Some(t) = st.pop() {
        if t == 0 || !seen.insert(t) {
            continue;
        }
        out.push(t);
        let n = c.n(t);
        st.push(n.a);
        st.push(n.b);
        st.push(n.c);
    }
    out.sort_unstable();
    out
}
#[derive(Clone, Debug, PartialEq)]
pub enum EV {
    B(u128),
    I(Rc<Big>),
}
pub fn ovf_const(f: Op, w: u32, x: u128, y: u128) -> bool {
    let (a, b) = (sx(x, w), sx(y, w));
    let sg = |r: Option<i128>| r.map_or(true, |s| s < smin(w) || s > smax(w));
    match f {
        Op::UAddO => x.checked_add(y).map_or(true, |s| s > mask(w)),
        Op::USubO => x < y,
        Op::UMulO => x.checked_mul(y).map_or(true, |s| s > mask(w)),
        Op::SAddO => sg(a.checked_add(b)),
        Op::SSubO => sg(a.checked_sub(b)),
        _ => sg(a.checked_mul(b)),
    }
}
/// all nodes below t that are not memoized yet, ascending
fn missing(t: T, v: &HashMap<T, Option<EV>, BuildFx>) -> Vec<T> {
    let c = cx();
    let mut seen: std::collections::HashSet<T, BuildFx> = Default::default();
    let mut st = vec![t];
    let mut out = vec![];
    while let Some(t) = st.pop() {
        if t == 0 || v.contains_key(&t) || !seen.insert(t) {
            continue;
        }
        out.push(t);
        let n = c.n(t);
        st.push(n.a);
        st.push(n.b);
        st.push(n.c);
    }
    out.sort_unstable();
    out
}
/// None when a value is undefined under the model (division by zero, opaque function)
pub fn eval_memo(root: T, m: &Model, v: &mut HashMap<T, Option<EV>, BuildFx>) -> Option<EV> {
    if let Some(x) = v.get(&root) {
        return x.clone();
    }
    let order = missing(root, v);
    eval_order(&order, m, v);
    v.get(&root).cloned().flatten()
}
pub fn eval_many(roots: &[T], m: &Model) -> Vec<Option<EV>> {
    let order = reach(roots);
    let mut v: HashMap<T, Option<EV>, BuildFx> = HashMap::with_hasher(BuildFx);
    eval_order(&order, m, &mut v);
    roots.iter().map(|t| v.get(t).cloned().flatten()).collect()
}
pub fn eval_order(order: &[T], m: &Model, v: &mut HashMap<T, Option<EV>, BuildFx>) {
    use Op::*;
    let c = cx();
    for &t in order {
        let n = c.n(t);
        let b = |x: T| -> Option<u128> { match v.get(&x) { Some(Some(EV::B(z))) => Some(*z), _ => None } };
        let i = |x: T| -> Option<Rc<Big>> {
            match v.get(&x) {
                Some(Some(EV::I(z))) => Some(z.clone()),
                _ => None,
            }
        };
        let wide = n.w > 128 || (n.op == Extract && c.w(n.a) > 128) || (matches!(n.op, Eq) && c.w(n.a) > 128);
        let r: Option<EV> = (|| {
            if wide {
                // wide vectors are carried as unsigned Big
                let wv = |x: T| -> Option<Big> { match v.get(&x) { Some(Some(EV::B(z))) => Some(Big::u(*z)), Some(Some(EV::I(z))) => Some((**z).clone()), _ => None } };
                return Some(match n.op {
                    Concat => EV::I(Rc::new(wv(n.a)?.shl(c.w(n.b)).add(&wv(n.b)?))),
                    Zext => EV::I(Rc::new(wv(n.a)?)),
                    Extract => {
                        let x = wv(n.a)?.shr(n.k as u32);
                        if n.w <= 128 { EV::B(x.wrap128() & mask(n.w)) } else { EV::I(Rc::new(x.rem_floor(&Big::pow2(n.w)))) }
                    }
                    Eq => EV::B((wv(n.a)? == wv(n.b)?) as u128),
                    Ite => if b(n.a)? == 1 { EV::I(Rc::new(wv(n.b)?)) } else { EV::I(Rc::new(wv(n.c)?)) },
                    _ => return None,
                });
            }
            let w = n.w;
            let aw = if n.a != 0 { c.w(n.a) } else { 0 };
            Some(EV::B(match n.op {
                Const => n.k,
                Var => m.get(&(n.k as u32)).copied().unwrap_or_else(|| cx().vars[n.k as usize].dflt) & mask(w),
                Add | Sub | Mul | UDiv | SDiv | URem | SRem | Shl | LShr | AShr => Ctx::fold(n.op, w, b(n.a)?, b(n.b)?)?,
                And => {
                    if w == 1 {
                        // short-circuit so that undefined parts behind a false guard do not matter
                        match (b(n.a), b(n.b)) {
                            (Some(0), _) | (_, Some(0)) => 0,
                            (Some(x), Some(y)) => x & y,
                            _ => return None,
                        }
                    } else { b(n.a)? & b(n.b)? }
                }
                Or => {
                    if w == 1 {
                        match (b(n.a), b(n.b)) {
                            (Some(1), _) | (_, Some(1)) => 1,
                            (Some(x), Some(y)) => x | y,
                            _ => return None,
                        }
                    } else { b(n.a)? | b(n.b)? }
                }
                Xor => b(n.a)? ^ b(n.b)?,
                Not => b(n.a)? ^ 1,
                Eq => (b(n.a)? == b(n.b)?) as u128,
                Ult => (b(n.a)? < b(n.b)?) as u128,
                Ule => (b(n.a)? <= b(n.b)?) as u128,
                Slt => (sx(b(n.a)?, aw) < sx(b(n.b)?, aw)) as u128,
                Sle => (sx(b(n.a)?, aw) <= sx(b(n.b)?, aw)) as u128,
                UAddO => b(n.a)?.checked_add(b(n.b)?).map_or(true, |s| s > mask(aw)) as u128,
                USubO => (b(n.a)? < b(n.b)?) as u128,
                UMulO => b(n.a)?.checked_mul(b(n.b)?).map_or(true, |s| s > mask(aw)) as u128,
                SAddO => sx(b(n.a)?, aw).checked_add(sx(b(n.b)?, aw)).map_or(true, |s| s < smin(aw) || s > smax(aw)) as u128,
                SSubO => sx(b(n.a)?, aw).checked_sub(sx(b(n.b)?, aw)).map_or(true, |s| s < smin(aw) || s > smax(aw)) as u128,
                SMulO => sx(b(n.a)?, aw).checked_mul(sx(b(n.b)?, aw)).map_or(true, |s| s < smin(aw) || s > smax(aw)) as u128,
                Ite => return v.get(if b(n.a)? == 1 { &n.b } else { &n.c }).cloned().flatten(),
                Zext => b(n.a)?,
                Sext => sx(b(n.a)?, aw) as u128 & mask(w),
                Extract => if n.k >= 128 { 0 } else { (b(n.a)? >> n.k) & mask(w) },
                Concat => (b(n.a)? << c.w(n.b)) | b(n.b)?,
                FxMulS | FxMulU | FxMulOS | FxMulOU | FxDivS | FxDivU | FxDivOS | FxDivOU => fx_eval(n.op, b(n.a)?, b(n.b)?, n.k as u32)?,
                IConst => return Some(EV::I(Rc::new(c.bigs[n.k as usize].clone()))),
                IS => return Some(EV::I(Rc::new(Big::s(sx(b(n.a)?, aw))))),
                IU => return Some(EV::I(Rc::new(Big::u(b(n.a)?)))),
                IAdd => return Some(EV::I(Rc::new(i(n.a)?.add(&*i(n.b)?)))),
                ISub => return Some(EV::I(Rc::new(i(n.a)?.sub(&*i(n.b)?)))),
                IMul => return Some(EV::I(Rc::new(i(n.a)?.mul(&*i(n.b)?)))),
                IDiv => { let d = i(n.b)?; if d.is_zero() { return None } return Some(EV::I(Rc::new(i(n.a)?.div_floor(&d)))) }
                IMod => { let d = i(n.b)?; if d.is_zero() { return None } return Some(EV::I(Rc::new(i(n.a)?.rem_floor(&d)))) }
                ILt => (i(n.a)? < i(n.b)?) as u128,
                ILe => (i(n.a)? <= i(n.b)?) as u128,
                IEq => (i(n.a)? == i(n.b)?) as u128,
                Uf => return None,
                _ => {
                    let mut args = vec![];
                    if n.a != 0 { args.push(b(n.a)?) }
                    if n.b != 0 { args.push(b(n.b)?) }
                    fold_f(&n, &args, aw)?
                }
            }))
        })();
        v.insert(t, r);
    }
}
pub fn eval1(t: T, m: &Model) -> Option<u128> {
    match eval_many(&[t], m).pop().flatten() {
        Some(EV::B(x)) => Some(x),
        _ => None,
    }
}
pub fn all_true(ts: &[T], m: &Model) -> bool {
    eval_many(ts, m).iter().all(|x| *x == Some(EV::B(1)))
}
