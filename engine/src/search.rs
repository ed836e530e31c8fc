//! Concrete model search by hill climbing. It only ever *finds* models (which are then exact evidence
//! that a branch is feasible); infeasibility is left to the solver.
use crate::eval::*;
use crate::term::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

pub struct Rnd(pub u64);
impl Rnd {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}
type Vals = HashMap<T, Option<EV>, BuildFx>;

fn lg(x: u128) -> f64 {
    if x == 0 { 0.0 } else { (128 - x.leading_zeros()) as f64 + (x as f64 / 2f64.powi(127 - x.leading_zeros() as i32) - 1.0) * 0.5 }
}
fn dist(t: T, want: bool, v: &Vals, depth: u32) -> f64 {
    use Op::*;
    let c = cx();
    let n = c.n(t);
    let val = v.get(&t).cloned().flatten();
    if let Some(EV::B(x)) = &val {
        if (*x == 1) == want {
            return 0.0;
        }
    }
    if depth > 24 {
        return 60.0;
    }
    let b = |x: T| -> Option<u128> { match v.get(&x) { Some(Some(EV::B(z))) => Some(*z), _ => None } };
    match n.op {
        Not => dist(n.a, !want, v, depth + 1),
        And | Or => {
            let (x, y) = (dist(n.a, want, v, depth + 1), dist(n.b, want, v, depth + 1));
            if (n.op == And) == want { x + y } else { x.min(y) }
        }
        Ite => match b(n.a) {
            Some(1) => dist(n.b, want, v, depth + 1).min(30.0 + dist(n.c, want, v, depth + 1)),
            Some(_) => dist(n.c, want, v, depth + 1).min(30.0 + dist(n.b, want, v, depth + 1)),
            None => 200.0,
        },
        Eq => match (b(n.a), b(n.b)) {
            (Some(x), Some(y)) if want => {
                let w = c.w(n.a);
                let d = x.wrapping_sub(y) & mask(w);
                let e = y.wrapping_sub(x) & mask(w);
                1.0 + lg(d.min(e))
            }
            (Some(_), Some(_)) => 1.0,
            _ => 200.0,
        },
        Ult | Ule => match (b(n.a), b(n.b)) {
            (Some(x), Some(y)) => 1.0 + lg(if want { x - y.min(x) } else { y - x.min(y) }),
            _ => 200.0,
        },
        Slt | Sle => match (b(n.a), b(n.b)) {
            (Some(x), Some(y)) => {
                let w = c.w(n.a);
                let (x, y) = (sx(x, w), sx(y, w));
                let d = if want { x.wrapping_sub(y) } else { y.wrapping_sub(x) };
                1.0 + lg(d.max(0) as u128)
            }
            _ => 200.0,
        },
        ILt | ILe | IEq => {
            let i = |x: T| match v.get(&x) { Some(Some(EV::I(z))) => Some(z.clone()), _ => None };
            match (i(n.a), i(n.b)) {
                (Some(x), Some(y)) => {
                    let d = x.sub(&*y);
                    1.0 + if n.op == IEq && !want { 0.0 } else { d.log2() }
                }
                _ => 200.0,
            }
        }
        _ => 64.0,
    }
}
pub struct Search {
    conj: Vec<T>,
    vars: Vec<u32>,
    order: Vec<T>,
    dep: HashMap<u32, (Vec<T>, Vec<usize>)>,
}
impl Search {
    fn new(conj: &[T]) -> Search {
        let order = reach(conj);
        let c = cx();
        let vars: Vec<u32> = order.iter().filter(|t| c.n(**t).op == Op::Var).map(|t| c.n(*t).k as u32).collect();
        Search { conj: conj.to_vec(), vars, order, dep: HashMap::new() }
    }
    fn deps(&mut self, v: u32) -> (Vec<T>, Vec<usize>) {
        if let Some(d) = self.dep.get(&v) {
            return d.clone();
        }
        let c = cx();
        let mut s: std::collections::HashSet<T, BuildFx> = Default::default();
        let mut o = vec![];
        for &t in &self.order {
            let n = c.n(t);
            if (n.op == Op::Var && n.k as u32 == v) || (n.a != 0 && s.contains(&n.a)) || (n.b != 0 && s.contains(&n.b)) || (n.c != 0 && s.contains(&n.c)) {
                s.insert(t);
                o.push(t);
            }
        }
        let cj = (0..self.conj.len()).filter(|i| s.contains(&self.conj[*i])).collect();
        self.dep.insert(v, (o.clone(), cj));
        self.dep[&v].clone()
    }
}
/// the range of the value of variable `v` as inclusive bounds in its own signedness
fn var_term(order: &[T]) -> HashMap<u32, T> {
    let c = cx();
    order.iter().filter(|t| c.n(**t).op == Op::Var).map(|t| (c.n(*t).k as u32, *t)).collect()
}
fn clampv(x: i128, r: &Rng, signed: bool, w: u32) -> u128 {
    if signed { (x.max(r.sl).min(r.sh) as u128) & mask(w) } else { (x.max(0) as u128).max(r.ul).min(r.uh) }
}
/// Look for an assignment making every conjunct true. `base`: where to start.
pub fn search(conj: &[T], base: Option<&Model>, ms: u64, rnd: &mut Rnd) -> Option<Model> {
    let t0 = Instant::now();
    let lim = Duration::from_millis(ms);
    let mut s = Search::new(conj);
    if s.vars.is_empty() {
        return None;
    }
    let vt = var_term(&s.order);
    let c = cx();
    let mut m: Model = Model::new();
    for &v in &s.vars {
        let t = vt[&v];
        let r = c.r(t);
        let info = &c.vars[v as usize];
        let x = match base.and_then(|b| b.get(&v)) {
            Some(x) => *x,
            None => clampv(if info.w >= 100 { 1 << 48 } else if info.w == 64 { 1000 } else { 1 }, &r, info.signed, info.w),
        };
        m.insert(v, x);
    }
    let order = s.order.clone();
    let mut vals: Vals = HashMap::with_hasher(BuildFx);
    crate::eval::eval_order(&order, &m, &mut vals);
    let mut d: Vec<f64> = s.conj.iter().map(|t| dist(*t, true, &vals, 0)).collect();
    let mut stall = 0;
    let mut cvars: HashMap<usize, Vec<u32>> = HashMap::new();
    loop {
        let bad: Vec<usize> = (0..d.len()).filter(|i| d[*i] > 0.0).collect();
        if bad.is_empty() {
            return Some(m);
        }
        if t0.elapsed() > lim {
            return None;
        }
        let ci = bad[rnd.below(bad.len())];
        let vs = cvars.entry(ci).or_insert_with(|| reach(&[s.conj[ci]]).iter().filter(|t| c.n(**t).op == Op::Var).map(|t| c.n(*t).k as u32).collect()).clone();
        if vs.is_empty() {
            return None;
        }
        let v = vs[rnd.below(vs.len())];
        let info = c.vars[v as usize].clone();
        let r = c.r(vt[&v]);
        let w = info.w;
        let cur = m[&v];
        let x = if info.signed { sx(cur, w) } else { cur as i128 };
        let mut cand: Vec<i128> = vec![0, 1, -1, 2, 1 << 48, -(1 << 48), 1000 << 48, 1_000_000, 1_000_000_000, if info.signed { r.sl } else { r.ul as i128 }, if info.signed { r.sh } else { r.uh.min(i128::MAX as u128) as i128 }];
        for k in [1u32, 2, 4, 8, 16, 32] {
            cand.push(x >> k);
            cand.push(x.checked_mul(1i128 << k).unwrap_or(i128::MAX));
        }
        cand.push(x.wrapping_neg());
        for _ in 0..10 {
            let k = rnd.below(w.min(127) as usize) as u32;
            cand.push(x.wrapping_add(1i128 << k));
            cand.push(x.wrapping_sub(1i128 << k));
        }
        cand.push(x.wrapping_add(1));
        cand.push(x.wrapping_sub(1));
        for _ in 0..4 {
            let k = rnd.below(w.min(127) as usize) as u32;
            let z = ((rnd.next() as u128) << 64 | rnd.next() as u128) & mask(k + 1);
            cand.push(z as i128);
            if info.signed {
                cand.push(-(z as i128 >> 1));
            }
        }
        let (dv, dc) = s.deps(v);
        let before: f64 = dc.iter().map(|i| d[*i]).sum();
        let save: Vec<(T, Option<EV>)> = dv.iter().map(|t| (*t, vals.get(t).cloned().flatten())).collect();
        let mut best: Option<(f64, u128)> = None;
        let mut tried = std::collections::HashSet::new();
        tried.insert(cur);
        for z in cand {
            let z = clampv(z, &r, info.signed, w) & mask(w);
            if !tried.insert(z) {
                continue;
            }
            m.insert(v, z);
            crate::eval::eval_order(&dv, &m, &mut vals);
            let after: f64 = dc.iter().map(|i| dist(s.conj[*i], true, &vals, 0)).sum();
            if best.map_or(true, |b| after < b.0) {
                best = Some((after, z));
            }
            if after == 0.0 || t0.elapsed() > lim * 2 {
                break;
            }
        }
        let take = match best {
            Some((a, z)) if a < before || (a == before && rnd.below(2) == 0) || (stall > 20 && rnd.below(4) == 0) => {
                if a < before - 1e-9 { stall = 0 } else { stall += 1 }
                Some(z)
            }
            _ => {
                stall += 1;
                None
            }
        };
        match take {
            Some(z) => {
                m.insert(v, z);
                crate::eval::eval_order(&dv, &m, &mut vals);
                for i in dc {
                    d[i] = dist(s.conj[i], true, &vals, 0);
                }
            }
            None => {
                m.insert(v, cur);
                for (t, x) in save {
                    vals.insert(t, x);
                }
            }
        }
    }
}
