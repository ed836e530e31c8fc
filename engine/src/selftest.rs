//! Randomised self-check of the term builder and the encoders against plain machine arithmetic.
//! Terms are built next to their value under a random assignment; the builder, the evaluator and the
//! ranges must agree with the value, and no set of conditions that are true under the assignment may be
//! reported unsatisfiable.
use crate::big::Big;
use crate::eval::*;
use crate::smt::*;
use crate::term::*;

struct R(u64);
impl R {
    fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn k(&mut self, n: u64) -> u64 {
        (self.n() >> 11) % n
    }
    fn val(&mut self, w: u32) -> u128 {
        let x = (self.n() as u128) << 64 | self.n() as u128;
        let v = match self.k(6) {
            0 => x & 3,
            1 => (self.k(7) as u128).wrapping_sub(3),
            2 => 1u128 << (self.k(w as u64) as u32),
            3 => (1u128 << (self.k(w as u64) as u32)).wrapping_sub(self.k(3) as u128),
            4 => x >> self.k(127),
            _ => x,
        };
        v & mask(w)
    }
}
fn refbin(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    use Op::*;
    let (sxv, syv) = (sx(x, w), sx(y, w));
    Some(match op {
        Add => x.wrapping_add(y),
        Sub => x.wrapping_sub(y),
        Mul => x.wrapping_mul(y),
        UDiv => x.checked_div(y)?,
        URem => x.checked_rem(y)?,
        SDiv => { if y == 0 || (sxv == smin(w) && syv == -1) { return None } (sxv / syv) as u128 }
        SRem => { if y == 0 || (sxv == smin(w) && syv == -1) { return None } (sxv % syv) as u128 }
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        Shl => if y < w as u128 { x << y } else { return None },
        LShr => if y < w as u128 { x >> y } else { return None },
        AShr => if y < w as u128 { (sxv >> y) as u128 } else { return None },
        Eq => (x == y) as u128,
        Ult => (x < y) as u128,
        Ule => (x <= y) as u128,
        Slt => (sxv < syv) as u128,
        Sle => (sxv <= syv) as u128,
        UAddO => (Big::u(x).add(&Big::u(y)) > Big::u(mask(w))) as u128,
        USubO => (x < y) as u128,
        UMulO => (Big::u(x).mul(&Big::u(y)) > Big::u(mask(w))) as u128,
        SAddO => { let r = Big::s(sxv).add(&Big::s(syv)); (r > Big::s(smax(w)) || r < Big::s(smin(w))) as u128 }
        SSubO => { let r = Big::s(sxv).sub(&Big::s(syv)); (r > Big::s(smax(w)) || r < Big::s(smin(w))) as u128 }
        SMulO => { let r = Big::s(sxv).mul(&Big::s(syv)); (r > Big::s(smax(w)) || r < Big::s(smin(w))) as u128 }
        _ => return None,
    })
}
pub fn run(rounds: u64, seed: u64) -> Result<String, String> {
    use Op::*;
    let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..20 { r.n(); }
    let mut z3 = Persist::new();
    let mut counts = [0u64; 4];
    for round in 0..rounds {
        let ws: &[u32] = match r.k(4) { 0 => &[8], 1 => &[64], 2 => &[128], _ => &[8, 16, 64, 128] };
        let mut pool: Vec<(T, u32, u128)> = vec![];
        let mut m = Model::default();
        for i in 0..3 {
            let w = ws[r.k(ws.len() as u64) as usize];
            let v = r.val(w);
            let range = match r.k(3) {
                0 => None,
                1 => { let (lo, hi) = (v - r.val(w).min(v), v + r.val(w).min(mask(w) - v)); Some((lo, hi, false)) }
                _ => {
                    let s = sx(v, w);
                    let d = (r.val(w) & mask(w - 1)) as i128;
                    let e = (r.val(w) & mask(w - 1)) as i128;
                    let lo = s.checked_sub(d).map_or(smin(w), |x| x.max(smin(w)));
                    let hi = s.checked_add(e).map_or(smax(w), |x| x.min(smax(w)));
                    Some((lo as u128, hi as u128, true))
                }
            };
            let t = cx().var(&format!("s{}_{}", round, i), w, range);
            let k = cx().n(t).k as u32;
            m.insert(k, v);
            pool.push((t, w, v));
        }
        for _ in 0..6 + r.k(14) {
            let (a, w, x) = pool[r.k(pool.len() as u64) as usize];
            let same: Vec<(T, u32, u128)> = pool.iter().filter(|p| p.1 == w).cloned().collect();
            let (b, _, y) = if r.k(3) == 0 { let v = r.val(w); (cx().con(w, v), w, v) } else { same[r.k(same.len() as u64) as usize] };
            let (a, x, b, y) = if r.k(4) == 0 { (b, y, a, x) } else { (a, x, b, y) };
            let new: Option<(T, u32, u128)> = match r.k(12) {
                0..=4 if w > 1 => {
                    let op = [Add, Sub, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr][r.k(15) as usize];
                    refbin(op, w, x, y).map(|v| (cx().bin(op, a, b), w, v & mask(w)))
                }
                5 | 6 if w > 1 => {
                    let op = [Eq, Ult, Ule, Slt, Sle][r.k(5) as usize];
                    refbin(op, w, x, y).map(|v| (cx().cmp(op, a, b), 1, v))
                }
                7 if w > 1 => {
                    let op = [UAddO, SAddO, USubO, SSubO, UMulO, SMulO][r.k(6) as usize];
                    refbin(op, w, x, y).map(|v| (cx().ovf(op, a, b), 1, v))
                }
                8 => {
                    let cs: Vec<(T, u32, u128)> = pool.iter().filter(|p| p.1 == 1).cloned().collect();
                    if cs.is_empty() { None } else {
                        let c = cs[r.k(cs.len() as u64) as usize];
                        Some((cx().ite(c.0, a, b), w, if c.2 == 1 { x } else { y }))
                    }
                }
                9 => {
                    let tw = [8, 16, 64, 128][r.k(4) as usize];
                    if tw > w {
                        if r.k(2) == 0 || w == 1 { Some((cx().zext(a, tw), tw, x)) } else { Some((cx().sext(a, tw), tw, sx(x, w) as u128 & mask(tw))) }
                    } else if tw < w {
                        let lo = if r.k(2) == 0 { 0 } else { r.k((w - tw + 1) as u64) as u32 };
                        Some((cx().extract(a, lo, tw), tw, x >> lo & mask(tw)))
                    } else { None }
                }
                10 if w == 64 => Some((cx().concat(a, b), 128, x << 64 | y)),
                10 if w == 8 => Some((cx().concat(a, b), 16, x << 8 | y)),
                11 if w == 128 => {
                    let op = [FxMulS, FxMulU, FxMulOS, FxMulOU, FxDivS, FxDivU][r.k(6) as usize];
                    let tw = if matches!(op, FxMulOS | FxMulOU) { 1 } else { 128 };
                    fx_eval(op, x, y, 48).map(|v| (cx().fx(op, a, b, 48), tw, v))
                }
                11 if w == 1 => Some((cx().not(a), 1, x ^ 1)),
                _ => None,
            };
            if let Some((t, w, v)) = new {
                let e = eval1(t, &m);
                if e != Some(v) {
                    return Err(format!("round {}: {} evaluates to {:?}, reference {}", round, crate::exec::show(t, 8), e, v));
                }
                let g = cx().r(t);
                if w > 1 && !(g.ul <= v && v <= g.uh && g.sl <= sx(v, w) && sx(v, w) <= g.sh) {
                    return Err(format!("round {}: {} = {} outside its range {:?}", round, crate::exec::show(t, 8), v, g));
                }
                pool.push((t, w, v));
            }
        }
        // conditions true under the assignment
        let mut conj: Vec<T> = vec![];
        for (t, w, v) in pool.clone() {
            if w == 1 {
                conj.push(if v == 1 { t } else { cx().not(t) });
            } else if r.k(2) == 0 {
                let k = r.val(w);
                let kc = cx().con(w, k);
                let op = if r.k(2) == 0 { Ule } else { Sle };
                let (c, holds) = match refbin(op, w, v, k) { Some(1) => (cx().cmp(op, t, kc), true), _ => (cx().cmp(op, kc, t), refbin(op, w, k, v) == Some(1)) };
                if holds { conj.push(c); }
            } else if r.k(3) == 0 {
                let kc = cx().con(w, v);
                conj.push(cx().cmp(Eq, t, kc));
            }
        }
        conj.retain(|t| *t != TRUE);
        while conj.len() > 6 { let i = r.k(conj.len() as u64) as usize; conj.remove(i); }
        conj.sort_unstable();
        conj.dedup();
        if conj.is_empty() { continue; }
        if conj.contains(&FALSE) { return Err(format!("round {}: a true condition folded to false", round)); }
        let q = encode_int(&conj);
        match z3.ask(&q, 300) {
            Ans::Unsat => return Err(format!("round {}: integer encoding refutes true conditions: {}\n{}", round, conj.iter().map(|t| crate::exec::show(*t, 9)).collect::<Vec<_>>().join(" ; "), q.text)),
            Ans::Sat(mut mm) => { for (k, v) in &m { mm.entry(*k).or_insert(*v); }
                counts[0] += 1; if !q.abs && !all_true(&conj, &mm) && reach(&conj).iter().all(|t| { let n = cx().n(*t); if matches!(n.op, Shl | LShr | AShr) { eval1(n.b, &mm).map_or(false, |v| v < n.w as u128) } else { !matches!(n.op, UDiv | SDiv | URem | SRem | FxDivS | FxDivU) || eval1(n.b, &mm).map_or(false, |v| v != 0) } }) { return Err(format!("round {}: integer model does not satisfy {}\n{}", round, conj.iter().map(|t| crate::exec::show(*t, 9)).collect::<Vec<_>>().join(" ; "), q.text)); } }
            _ => counts[1] += 1,
        }
        if r.k(4) == 0 {
            if let Some(q) = encode_bv(&conj) {
                match z3.ask(&q, 300) {
                    Ans::Unsat => return Err(format!("round {}: bit-vector encoding refutes true conditions: {}\n{}", round, conj.iter().map(|t| crate::exec::show(*t, 9)).collect::<Vec<_>>().join(" ; "), q.text)),
                    Ans::Sat(_) => counts[2] += 1,
                    _ => counts[3] += 1,
                }
            }
        }
    }
    Ok(format!("{} rounds: integer sat {} unknown {}, bit-vector sat {} unknown {}", rounds, counts[0], counts[1], counts[2], counts[3]))
}
