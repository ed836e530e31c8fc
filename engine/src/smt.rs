//! SMT-LIB encodings of term queries (integers and bit-vectors) and the solver processes.
use crate::big::Big;
use crate::eval::{self, Model};
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

fn p2(k: u32) -> String {
    format!("{}", Big::pow2(k))
}
fn lit(v: i128) -> String {
    Big::s(v).smt()
}
fn ulit(v: u128) -> String {
    Big::u(v).smt()
}

/// ranges of all terms under the top-level conjuncts
pub struct CtxRng {
    pub m: HashMap<T, Rng, BuildFx>,
    pub contradiction: bool,
}
fn inter(a: Rng, b: Rng, w: u32) -> Rng {
    tighten(Rng { ul: a.ul.max(b.ul), uh: a.uh.min(b.uh), sl: a.sl.max(b.sl), sh: a.sh.min(b.sh) }, w)
}
fn bad(r: &Rng) -> bool {
    r.ul > r.uh || r.sl > r.sh
}
pub fn ctx_ranges(conj: &[T], order: &[T]) -> CtxRng {
    use Op::*;
    let c = cx();
    let mut m: HashMap<T, Rng, BuildFx> = HashMap::with_hasher(BuildFx);
    let mut contradiction = false;
    let get = |m: &HashMap<T, Rng, BuildFx>, t: T| -> Rng { m.get(&t).copied().unwrap_or_else(|| c.r(t)) };
    for round in 0..3 {
        let mut changed = false;
        // bounds from conjuncts
        let mut set = |m: &mut HashMap<T, Rng, BuildFx>, t: T, r: Rng, ch: &mut bool| {
            let w = c.w(t);
            if w == 0 || w > 128 {
                return;
            }
            let o = m.get(&t).copied().unwrap_or_else(|| c.r(t));
            let n = inter(o, r, w);
            if bad(&n) {
                contradiction = true;
                return;
            }
            if n != o {
                m.insert(t, n);
                *ch = true;
            }
        };
        for &t in conj {
            let n = c.n(t);
            let fullr = |w: u32| Rng { ul: 0, uh: mask(w), sl: smin(w), sh: smax(w) };
            match n.op {
                Slt | Sle | Ult | Ule | Eq => {
                    let w = c.w(n.a);
                    if w == 0 || w > 128 || w == 1 {
                        continue;
                    }
                    let (ra, rb) = (get(&m, n.a), get(&m, n.b));
                    match n.op {
                        Slt | Sle => {
                            let d = (n.op == Slt) as i128;
                            let mut x = fullr(w);
                            x.sh = rb.sh.saturating_sub(d);
                            set(&mut m, n.a, x, &mut changed);
                            let mut y = fullr(w);
                            y.sl = ra.sl.saturating_add(d);
                            set(&mut m, n.b, y, &mut changed);
                        }
                        Ult | Ule => {
                            let d = (n.op == Ult) as u128;
                            let mut x = fullr(w);
                            x.uh = rb.uh.saturating_sub(d);
                            set(&mut m, n.a, x, &mut changed);
                            let mut y = fullr(w);
                            y.ul = ra.ul.saturating_add(d);
                            set(&mut m, n.b, y, &mut changed);
                        }
                        _ => {
                            set(&mut m, n.a, rb, &mut changed);
                            set(&mut m, n.b, ra, &mut changed);
                        }
                    }
                }
                Not => {
                    let e = c.n(n.a);
                    if e.op == Eq {
                        let w = c.w(e.a);
                        if w > 1 && w <= 128 {
                            if let Some(v) = c.cv(e.b) {
                                let r = get(&m, e.a);
                                let mut x = r;
                                if r.ul == v && r.ul < r.uh {
                                    x.ul += 1;
                                }
                                if r.uh == v && r.ul < r.uh {
                                    x.uh -= 1;
                                }
                                let s = sx(v, w);
                                if r.sl == s && r.sl < r.sh {
                                    x.sl += 1;
                                }
                                if r.sh == s && r.sl < r.sh {
                                    x.sh -= 1;
                                }
                                set(&mut m, e.a, x, &mut changed);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // propagate upward
        for &t in order {
            let n = c.n(t);
            if n.w == 0 || n.w > 128 || n.op == Var || n.op == Const {
                continue;
            }
            let r = c.range_of(&n, &|x| get(&m, x));
            set(&mut m, t, r, &mut changed);
        }
        if !changed {
            break;
        }
        let _ = round;
    }
    CtxRng { m, contradiction }
}

pub struct IntEnc {
    pub out: String,
    views: HashMap<(T, bool), String>,
    bools: HashMap<T, String>,
    ints: HashMap<T, String>,
    rng: CtxRng,
    facts: HashSet<T>,
    pub vars: Vec<(T, String)>,
    pub abs: bool,
    pub nonlin: bool,
    k: u32,
}
impl IntEnc {
    pub fn new(conj: &[T]) -> IntEnc {
        let order = eval::reach(conj);
        let rng = ctx_ranges(conj, &order);
        let mut facts = HashSet::new();
        for t in conj {
            facts.insert(*t);
        }
        IntEnc { out: String::new(), views: HashMap::new(), bools: HashMap::new(), ints: HashMap::new(), rng, facts, vars: vec![], abs: false, nonlin: false, k: 0 }
    }
    fn r(&self, t: T) -> Rng {
        self.rng.m.get(&t).copied().unwrap_or_else(|| cx().r(t))
    }
    fn def(&mut self, e: String, sort: &str) -> String {
        if !e.starts_with('(') || e.starts_with("(- ") && !e.contains('x') {
            return e;
        }
        self.k += 1;
        let n = format!("x{}", self.k);
        let _ = writeln!(self.out, "(define-fun {} () {} {})", n, sort, e);
        n
    }
    fn fresh(&mut self, sort: &str) -> String {
        self.k += 1;
        let n = format!("f{}", self.k);
        let _ = writeln!(self.out, "(declare-fun {} () {})", n, sort);
        n
    }
    fn fact(&self, op: Op, a: T, b: T) -> bool {
        // Not(ovf(a,b)) among the conjuncts
        let c = cx();
        let (a, b) = if matches!(op, Op::UAddO | Op::SAddO | Op::UMulO | Op::SMulO) && a > b { (b, a) } else { (a, b) };
        let o = c.raw(op, 1, a, b, 0, 0);
        let n = c.raw(Op::Not, 1, o, 0, 0, 0);
        self.facts.contains(&n)
    }
    fn fx_fact(&self, op: Op, a: T, b: T, k: u128) -> bool {
        let c = cx();
        let o = c.raw(op, 1, a, b, 0, k);
        let n = c.raw(Op::Not, 1, o, 0, 0, 0);
        self.facts.contains(&n)
    }
    fn le_fact(&self, b: T, a: T) -> bool {
        let c = cx();
        for op in [Op::Ule, Op::Ult] {
            let o = c.raw(op, 1, b, a, 0, 0);
            if self.facts.contains(&o) {
                return true;
            }
        }
        let (ra, rb) = (self.r(a), self.r(b));
        if rb.uh <= ra.ul {
            return true;
        }
        if ra.sl >= 0 && rb.sl >= 0 {
            for op in [Op::Sle, Op::Slt] {
                let o = c.raw(op, 1, b, a, 0, 0);
                if self.facts.contains(&o) {
                    return true;
                }
            }
        }
        false
    }
    fn conv(&mut self, e: String, w: u32, from_signed: bool) -> String {
        // other view of a w-bit value
        let m = p2(w);
        if from_signed {
            format!("(ite (< {e} 0) (+ {e} {m}) {e})")
        } else {
            let h = p2(w - 1);
            format!("(ite (>= {e} {h}) (- {e} {m}) {e})")
        }
    }
    fn wrap(&mut self, e: String, w: u32, signed: bool, once: bool) -> String {
        let e = self.def(e, "Int");
        let m = p2(w);
        if signed {
            let h = p2(w - 1);
            if once {
                format!("(ite (>= {e} {h}) (- {e} {m}) (ite (< {e} (- {h})) (+ {e} {m}) {e}))")
            } else {
                format!("(- (mod (+ {e} {h}) {m}) {h})")
            }
        } else if once {
            format!("(ite (>= {e} {m}) (- {e} {m}) (ite (< {e} 0) (+ {e} {m}) {e}))")
        } else {
            format!("(mod {e} {m})")
        }
    }
    /// (quotient, remainder) of nonnegative a by positive b (guarded)
    fn divrem(&mut self, a: &str, b: &str, bconst: bool) -> (String, String) {
        if bconst {
            let q = self.def(format!("(div {a} {b})"), "Int");
            return (q.clone(), format!("(- {a} (* {b} {q}))"));
        }
        self.nonlin = true;
        let q = self.fresh("Int");
        let r = self.fresh("Int");
        let _ = writeln!(self.out, "(assert (=> (> {b} 0) (and (= {a} (+ (* {b} {q}) {r})) (<= 0 {r}) (< {r} {b}) (<= 0 {q}) (<= {q} {a}))))");
        (q, r)
    }
    fn absval(&mut self, e: &str, r: (bool, bool)) -> String {
        // r = (known nonneg, known nonpos)
        if r.0 {
            e.to_string()
        } else if r.1 {
            self.def(format!("(- {e})"), "Int")
        } else {
            self.def(format!("(ite (>= {e} 0) {e} (- {e}))"), "Int")
        }
    }
    pub fn view(&mut self, t: T, signed: bool) -> String {
        let c = cx();
        let n = c.n(t);
        let w = n.w;
        let r = self.r(t);
        if let Some(v) = c.cv(t) {
            return if signed { lit(sx(v, w)) } else { ulit(v) };
        }
        if w == 1 {
            let b = self.b(t);
            return if signed { format!("(ite {b} (- 1) 0)") } else { format!("(ite {b} 1 0)") };
        }
        let signed = if r.sl >= 0 { false } else { signed };
        if let Some(s) = self.views.get(&(t, signed)) {
            return s.clone();
        }
        let e = self.view0(t, &n, signed, r);
        let e = self.def(e, "Int");
        let mut res = e.clone();
        if n.op != Op::Var {
            // bounds that come from the conjuncts, not from the operands, must stay asserted:
            // the choice of view may have used them up
            let base = c.range_of(&n, &|x| self.r(x));
            if base != r {
                let (l, h) = if signed { (lit(r.sl), lit(r.sh)) } else { (ulit(r.ul), ulit(r.uh)) };
                let _ = writeln!(self.out, "(assert (and (<= {l} {e}) (<= {e} {h})))");
            }
            if r.ul == r.uh {
                res = if signed { lit(r.sl) } else { ulit(r.ul) };
            }
        }
        self.views.insert((t, signed), res.clone());
        res
    }
    fn abstracted(&mut self, t: T, signed: bool) -> String {
        // unconstrained value within its range
        self.abs = true;
        let r = self.r(t);
        let nat = r.sl < 0 && r.sh <= smax(cx().w(t)) && signed;
        let key = (t, !nat);
        let f = self.fresh("Int");
        let (l, h) = if nat { (lit(r.sl), lit(r.sh)) } else { (ulit(r.ul), ulit(r.uh)) };
        let _ = writeln!(self.out, "(assert (and (<= {l} {f}) (<= {f} {h})))");
        // keep both views consistent
        if r.sl < 0 {
            let w = cx().w(t);
            let o = self.conv(f.clone(), w, nat);
            let o = self.def(o, "Int");
            self.views.insert(key, o);
        }
        f
    }
    fn view0(&mut self, t: T, n: &Node, s: bool, r: Rng) -> String {
        use Op::*;
        let c = cx();
        let w = n.w;
        let nonneg = r.sl >= 0;
        match n.op {
            Var => {
                let vs = c.vars[n.k as usize].signed && !nonneg;
                let name = format!("v{}", n.k);
                if let Some(v) = self.views.get(&(t, vs)).cloned() {
                    return self.conv(v, w, vs);
                }
                let _ = writeln!(self.out, "(declare-fun {} () Int)", name);
                let (l, h) = if vs { (lit(r.sl), lit(r.sh)) } else { (ulit(r.ul), ulit(r.uh)) };
                let _ = writeln!(self.out, "(assert (and (<= {l} {name}) (<= {name} {h})))");
                self.vars.push((t, name.clone()));
                self.views.insert((t, vs), name.clone());
                if vs == s || nonneg {
                    return name;
                }
                self.conv(name, w, vs)
            }
            Add => {
                let (ra, rb) = (self.r(n.a), self.r(n.b));
                let f = (smin(w), smax(w));
                let ex_s = self.fact(SAddO, n.a, n.b) || matches!((ra.sl.checked_add(rb.sl), ra.sh.checked_add(rb.sh)), (Some(l), Some(h)) if l >= f.0 && h <= f.1);
                let negc = c.cv(n.b).map_or(false, |v| v > smax(w) as u128);
                let no_carry = self.fact(UAddO, n.a, n.b) || ra.uh.checked_add(rb.uh).map_or(false, |h| h <= mask(w));
                // a constant subtrahend is taken as such unless the unsigned sum itself fits
                let negc = negc && !no_carry;
                let ex_u = no_carry || (negc && ra.ul >= sx(c.cv(n.b).unwrap(), w).unsigned_abs());
                if s || (nonneg && ex_s && !ex_u) {
                    if ex_s || !ex_u {
                        let (a, b) = (self.view(n.a, true), self.view(n.b, true));
                        let e = format!("(+ {a} {b})");
                        if ex_s { e } else { self.wrap(e, w, true, true) }
                    } else {
                        let u = self.view(t, false);
                        self.conv(u, w, false)
                    }
                } else if ex_u || !ex_s || negc {
                    let (a, b) = (self.view(n.a, false), self.view(n.b, negc));
                    let e = format!("(+ {a} {b})");
                    if ex_u { e } else { self.wrap(e, w, false, true) }
                } else {
                    let u = self.view(t, true);
                    self.conv(u, w, true)
                }
            }
            Sub => {
                let (ra, rb) = (self.r(n.a), self.r(n.b));
                let f = (smin(w), smax(w));
                let ex_s = self.fact(SSubO, n.a, n.b) || matches!((ra.sl.checked_sub(rb.sh), ra.sh.checked_sub(rb.sl)), (Some(l), Some(h)) if l >= f.0 && h <= f.1);
                let ex_u = self.le_fact(n.b, n.a);
                if s || (nonneg && ex_s && !ex_u) {
                    if ex_s || !ex_u {
                        let (a, b) = (self.view(n.a, true), self.view(n.b, true));
                        let e = format!("(- {a} {b})");
                        if ex_s { e } else { self.wrap(e, w, true, true) }
                    } else {
                        let u = self.view(t, false);
                        self.conv(u, w, false)
                    }
                } else if ex_u || !ex_s {
                    let (a, b) = (self.view(n.a, false), self.view(n.b, false));
                    let e = format!("(- {a} {b})");
                    if ex_u { e } else { self.wrap(e, w, false, true) }
                } else {
                    let u = self.view(t, true);
                    self.conv(u, w, true)
                }
            }
            Mul => {
                let (ra, rb) = (self.r(n.a), self.r(n.b));
                if c.cv(n.b).is_none() {
                    self.nonlin = true;
                }
                let f = (smin(w), smax(w));
                let p = [ra.sl.checked_mul(rb.sl), ra.sl.checked_mul(rb.sh), ra.sh.checked_mul(rb.sl), ra.sh.checked_mul(rb.sh)];
                let ex_s = self.fact(SMulO, n.a, n.b) || p.iter().all(|q| q.map_or(false, |v| v >= f.0 && v <= f.1));
                let ex_u = self.fact(UMulO, n.a, n.b) || ra.uh.checked_mul(rb.uh).map_or(false, |h| h <= mask(w));
                if (s || nonneg) && ex_s {
                    let (a, b) = (self.view(n.a, true), self.view(n.b, true));
                    return format!("(* {a} {b})");
                }
                if !s && ex_u {
                    let (a, b) = (self.view(n.a, false), self.view(n.b, false));
                    return format!("(* {a} {b})");
                }
                if !s && ex_s {
                    let e = self.view(t, true);
                    return self.conv(e, w, true);
                }
                if s && ex_u {
                    let e = self.view(t, false);
                    return self.conv(e, w, false);
                }
                let (a, b) = (self.view(n.a, s), self.view(n.b, s));
                self.wrap(format!("(* {a} {b})"), w, s, false)
            }
            UDiv | URem => {
                if s && !nonneg {
                    let u = self.view(t, false);
                    return self.conv(u, w, false);
                }
                let (a, b) = (self.view(n.a, false), self.view(n.b, false));
                let bc = c.cv(n.b).map_or(false, |v| v > 0);
                let (q, rr) = self.udivrem(n.a, n.b, &a, &b, bc);
                if n.op == UDiv { q } else { rr }
            }
            SDiv | SRem => {
                if !s && !nonneg {
                    let u = self.view(t, true);
                    return self.conv(u, w, true);
                }
                let (ra, rb) = (self.r(n.a), self.r(n.b));
                let (a, b) = (self.view(n.a, true), self.view(n.b, true));
                let (aa, ab) = (self.absval(&a, (ra.sl >= 0, ra.sh <= 0)), self.absval(&b, (rb.sl >= 0, rb.sh <= 0)));
                let bc = rb.sl == rb.sh && rb.sl != 0;
                let (q, rr) = self.udivrem(n.a, n.b, &aa, &ab, bc);
                if n.op == SDiv {
                    // negated when the signs differ
                    if ra.sl >= 0 && rb.sl >= 0 {
                        q
                    } else if ra.sl >= 0 {
                        format!("(ite (< {b} 0) (- {q}) {q})")
                    } else if rb.sl >= 0 {
                        format!("(ite (< {a} 0) (- {q}) {q})")
                    } else {
                        format!("(ite (= (< {a} 0) (< {b} 0)) {q} (- {q}))")
                    }
                } else if ra.sl >= 0 {
                    rr
                } else {
                    let rr = self.def(rr, "Int");
                    format!("(ite (< {a} 0) (- {rr}) {rr})")
                }
            }
            And | Or | Xor => {
                if s {
                    if n.op == Xor && c.cv(n.b) == Some(mask(w)) {
                        let a = self.view(n.a, true);
                        return format!("(- (- 1) {a})");
                    }
                    let u = self.view(t, false);
                    return self.conv(u, w, false);
                }
                let a = self.view(n.a, false);
                if let (Xor, Some(y)) = (n.op, c.cv(n.b)) {
                    if y == mask(w) {
                        return format!("(- {} {a})", ulit(y));
                    }
                }
                if let (And, Some(y)) = (n.op, c.cv(n.b)) {
                    let lo = y.trailing_zeros();
                    let top = y >> lo;
                    if (top.wrapping_add(1)) & top == 0 {
                        let len = 128 - top.leading_zeros();
                        let mut e = a;
                        if lo > 0 {
                            e = format!("(div {e} {})", p2(lo));
                        }
                        if lo + len < w {
                            e = format!("(mod {e} {})", p2(len));
                        }
                        if lo > 0 {
                            e = format!("(* {e} {})", p2(lo));
                        }
                        return e;
                    }
                }
                let b = self.view(n.b, false);
                let f = self.abstracted(t, false);
                match n.op {
                    And => {
                        let _ = writeln!(self.out, "(assert (and (<= {f} {a}) (<= {f} {b})))");
                    }
                    Or => {
                        let _ = writeln!(self.out, "(assert (and (>= {f} {a}) (>= {f} {b}) (<= {f} (+ {a} {b}))))");
                    }
                    _ => {
                        let _ = writeln!(self.out, "(assert (and (<= {f} (+ {a} {b})) (= (= {f} 0) (= {a} {b}))))");
                    }
                }
                f
            }
            Shl | LShr | AShr => {
                let rb = self.r(n.b);
                if rb.ul == rb.uh && rb.ul < w as u128 {
                    let k = rb.ul as u32;
                    match n.op {
                        Shl => {
                            let ra = self.r(n.a);
                            let ex_s = ra.sl >= smin(w) >> k && ra.sh <= smax(w) >> k;
                            let ex_u = ra.uh <= mask(w) >> k;
                            if (s || nonneg) && ex_s {
                                let a = self.view(n.a, true);
                                return format!("(* {a} {})", p2(k));
                            }
                            if !s && ex_u {
                                let a = self.view(n.a, false);
                                return format!("(* {a} {})", p2(k));
                            }
                            let a = self.view(n.a, s);
                            return self.wrap(format!("(* {a} {})", p2(k)), w, s, false);
                        }
                        LShr => {
                            if s && !nonneg {
                                let u = self.view(t, false);
                                return self.conv(u, w, false);
                            }
                            let a = self.view(n.a, false);
                            return format!("(div {a} {})", p2(k));
                        }
                        _ => {
                            if !s && !nonneg {
                                let u = self.view(t, true);
                                return self.conv(u, w, true);
                            }
                            let a = self.view(n.a, true);
                            return format!("(div {a} {})", p2(k));
                        }
                    }
                }
                // symbolic shift amount: case split on the amount
                if rb.uh.saturating_sub(rb.ul) <= 128 {
                    let mut e: T = 0;
                    let hi = rb.uh.min(w as u128 - 1);
                    let mut k = rb.ul;
                    while k <= hi {
                        let kc = c.con(w, k);
                        let x = c.bin(n.op, n.a, kc);
                        if e == 0 {
                            e = x;
                        } else {
                            let cond = c.cmp(Eq, n.b, kc);
                            e = c.raw(Ite, w, cond, x, e, 0);
                        }
                        k += 1;
                    }
                    if e != 0 {
                        return self.view(e, s);
                    }
                }
                self.abstracted(t, s)
            }
            Ite => {
                let b = self.b(n.a);
                // nonneg: any view of the arms agrees only if both arms do
                let (ra, rb) = (self.r(n.b), self.r(n.c));
                let s2 = s || (nonneg && (ra.sl < 0 || rb.sl < 0) && ra.sh >= 0 && false);
                let x = self.view(n.b, s2);
                let y = self.view(n.c, s2);
                format!("(ite {b} {x} {y})")
            }
            Zext => self.view(n.a, false),
            Sext => {
                if s || nonneg {
                    self.view(n.a, true)
                } else {
                    let e = self.view(n.a, true);
                    self.conv(e, w, true)
                }
            }
            Extract => {
                if c.w(n.a) > 128 {
                    return self.abstracted(t, s);
                }
                let ra = self.r(n.a);
                let k = n.k as u32;
                if k == 0 && ra.sl >= smin(w) && ra.sh <= smax(w) {
                    if s || nonneg {
                        return self.view(n.a, true);
                    }
                    let e = self.view(n.a, true);
                    return self.conv(e, w, true);
                }
                if s {
                    let u = self.view(t, false);
                    return self.conv(u, w, false);
                }
                let mut e = self.view(n.a, false);
                if k > 0 {
                    e = format!("(div {e} {})", p2(k));
                }
                if k < 128 && (ra.uh >> k) > mask(w) {
                    e = format!("(mod {e} {})", p2(w));
                }
                e
            }
            Concat => {
                let wl = c.w(n.b);
                let h = self.view(n.a, s);
                let l = self.view(n.b, false);
                format!("(+ (* {h} {}) {l})", p2(wl))
            }
            FxMulS | FxMulU => {
                let k = n.k as u32;
                let sg = n.op == FxMulS;
                if c.cv(n.a).is_none() && c.cv(n.b).is_none() {
                    self.nonlin = true;
                }
                let (ra, rb) = (self.r(n.a), self.r(n.b));
                let ex = self.fx_fact(if sg { FxMulOS } else { FxMulOU }, n.a, n.b, n.k)
                    || if sg {
                        [(ra.sl, rb.sl), (ra.sl, rb.sh), (ra.sh, rb.sl), (ra.sh, rb.sh)].iter().all(|(p, q)| Big::s(*p).mul(&Big::s(*q)).shr(k).to_i128().is_some())
                    } else {
                        Big::u(ra.uh).mul(&Big::u(rb.uh)).shr(k).to_u128().is_some()
                    };
                if s != sg && !nonneg {
                    let e = self.view(t, sg);
                    return self.conv(e, w, sg);
                }
                let (a, b) = (self.view(n.a, sg), self.view(n.b, sg));
                let e = format!("(div (* {a} {b}) {})", p2(k));
                if ex { e } else { self.wrap(e, w, sg, false) }
            }
            FxDivS | FxDivU => {
                let k = n.k as u32;
                let sg = n.op == FxDivS;
                if s != sg && !nonneg {
                    let e = self.view(t, sg);
                    return self.conv(e, w, sg);
                }
                let (ra, rb) = (self.r(n.a), self.r(n.b));
                let ex = self.fx_fact(if sg { FxDivOS } else { FxDivOU }, n.a, n.b, n.k)
                    || if sg {
                        rb.sl > 0 && [ra.sl, ra.sh].iter().all(|p| Big::s(*p).shl(k).div_trunc(&Big::s(rb.sl)).to_i128().is_some())
                    } else {
                        rb.ul > 0 && Big::u(ra.uh).shl(k).div_trunc(&Big::u(rb.ul)).to_u128().is_some()
                    };
                let q = self.fxdiv(n.a, n.b, k, sg);
                if ex { q } else { self.wrap(q, w, sg, false) }
            }
            _ => self.abstracted(t, s),
        }
    }
    fn udivrem(&mut self, a: T, b: T, ae: &str, be: &str, bc: bool) -> (String, String) {
        // shared between UDiv/URem and SDiv/SRem of the same operands (same views)
        let key = format!("d:{}:{}:{}:{}", a, b, ae, be);
        let id = hash_key(&key);
        if let (Some(q), Some(r)) = (self.ints.get(&id), self.ints.get(&(id ^ 1))) {
            return (q.clone(), r.clone());
        }
        let (q, r) = self.divrem(ae, be, bc);
        self.ints.insert(id, q.clone());
        self.ints.insert(id ^ 1, r.clone());
        (q, r)
    }
    /// truncated quotient of a*2^k by b, unwrapped
    fn fxdiv(&mut self, a: T, b: T, k: u32, sg: bool) -> String {
        let id = hash_key(&format!("fx:{}:{}:{}:{}", a, b, k, sg));
        if let Some(q) = self.ints.get(&id) {
            return q.clone();
        }
        let (ra, rb) = (self.r(a), self.r(b));
        let (ea, eb) = (self.view(a, sg), self.view(b, sg));
        let bc = cx().cv(b).map_or(false, |v| v != 0);
        let e = if sg {
            let aa = self.absval(&ea, (ra.sl >= 0, ra.sh <= 0));
            let ab = self.absval(&eb, (rb.sl >= 0, rb.sh <= 0));
            let num = self.def(format!("(* {aa} {})", p2(k)), "Int");
            let (q, _) = self.divrem(&num, &ab, bc);
            if ra.sl >= 0 && rb.sl >= 0 {
                q
            } else if ra.sl >= 0 {
                format!("(ite (< {eb} 0) (- {q}) {q})")
            } else if rb.sl >= 0 {
                format!("(ite (< {ea} 0) (- {q}) {q})")
            } else {
                format!("(ite (= (< {ea} 0) (< {eb} 0)) {q} (- {q}))")
            }
        } else {
            let num = self.def(format!("(* {ea} {})", p2(k)), "Int");
            self.divrem(&num, &eb, bc).0
        };
        let e = self.def(e, "Int");
        self.ints.insert(id, e.clone());
        e
    }
    pub fn b(&mut self, t: T) -> String {
        if t == TRUE {
            return "true".into();
        }
        if t == FALSE {
            return "false".into();
        }
        if let Some(s) = self.bools.get(&t) {
            return s.clone();
        }
        let e = self.b0(t);
        let e = self.def(e, "Bool");
        self.bools.insert(t, e.clone());
        e
    }
    fn b0(&mut self, t: T) -> String {
        use Op::*;
        let c = cx();
        let n = c.n(t);
        let w = if n.a != 0 { c.w(n.a) } else { 0 };
        match n.op {
            Var => {
                let name = format!("v{}", n.k);
                let _ = writeln!(self.out, "(declare-fun {} () Bool)", name);
                self.vars.push((t, name.clone()));
                name
            }
            Not => format!("(not {})", self.b(n.a)),
            And => format!("(and {} {})", self.b(n.a), self.b(n.b)),
            Or => format!("(or {} {})", self.b(n.a), self.b(n.b)),
            Xor => format!("(xor {} {})", self.b(n.a), self.b(n.b)),
            Ite => format!("(ite {} {} {})", self.b(n.a), self.b(n.b), self.b(n.c)),
            Eq if w == 1 => format!("(= {} {})", self.b(n.a), self.b(n.b)),
            Eq => {
                let (ra, rb) = (self.r(n.a), self.r(n.b));
                let s = if ra.sl >= 0 && rb.sl >= 0 { false } else { self.prefers_signed(n.a) || (c.cv(n.a).is_some() && self.prefers_signed(n.b)) };
                format!("(= {} {})", self.view(n.a, s), self.view(n.b, s))
            }
            Ult => format!("(< {} {})", self.view(n.a, false), self.view(n.b, false)),
            Ule => format!("(<= {} {})", self.view(n.a, false), self.view(n.b, false)),
            Slt => format!("(< {} {})", self.view(n.a, true), self.view(n.b, true)),
            Sle => format!("(<= {} {})", self.view(n.a, true), self.view(n.b, true)),
            UAddO => format!("(>= (+ {} {}) {})", self.view(n.a, false), self.view(n.b, false), p2(w)),
            USubO => format!("(< {} {})", self.view(n.a, false), self.view(n.b, false)),
            UMulO => {
                if c.cv(n.a).is_none() && c.cv(n.b).is_none() {
                    self.nonlin = true;
                }
                format!("(>= (* {} {}) {})", self.view(n.a, false), self.view(n.b, false), p2(w))
            }
            SAddO | SSubO | SMulO => {
                let o = match n.op { SAddO => "+", SSubO => "-", _ => "*" };
                if o == "*" && c.cv(n.a).is_none() && c.cv(n.b).is_none() {
                    self.nonlin = true;
                }
                let e = format!("({} {} {})", o, self.view(n.a, true), self.view(n.b, true));
                let e = self.def(e, "Int");
                format!("(or (< {e} (- {h})) (>= {e} {h}))", h = p2(w - 1))
            }
            FxMulOS | FxMulOU => {
                let sg = n.op == FxMulOS;
                if c.cv(n.a).is_none() && c.cv(n.b).is_none() {
                    self.nonlin = true;
                }
                let e = format!("(* {} {})", self.view(n.a, sg), self.view(n.b, sg));
                let e = self.def(e, "Int");
                if sg {
                    let h = p2(127 + n.k as u32);
                    format!("(or (< {e} (- {h})) (>= {e} {h}))")
                } else {
                    format!("(>= {e} {})", p2(128 + n.k as u32))
                }
            }
            FxDivOS | FxDivOU => {
                let sg = n.op == FxDivOS;
                let q = self.fxdiv(n.a, n.b, n.k as u32, sg);
                if sg {
                    let h = p2(127);
                    format!("(or (< {q} (- {h})) (>= {q} {h}))")
                } else {
                    format!("(>= {q} {})", p2(128))
                }
            }
            Extract => {
                if w > 128 {
                    self.abs = true;
                    return self.fresh("Bool");
                }
                if n.k as u32 == w - 1 {
                    return format!("(< {} 0)", self.view(n.a, true));
                }
                let mut e = self.view(n.a, false);
                if n.k > 0 {
                    e = format!("(div {e} {})", p2(n.k as u32));
                }
                format!("(= (mod {e} 2) 1)")
            }
            ILt => format!("(< {} {})", self.int(n.a), self.int(n.b)),
            ILe => format!("(<= {} {})", self.int(n.a), self.int(n.b)),
            IEq => format!("(= {} {})", self.int(n.a), self.int(n.b)),
            _ => {
                self.abs = true;
                self.fresh("Bool")
            }
        }
    }
    fn prefers_signed(&self, t: T) -> bool {
        use Op::*;
        let c = cx();
        let n = c.n(t);
        match n.op {
            Var => c.vars[n.k as usize].signed,
            FxMulS | FxDivS | SDiv | SRem | Sext | AShr => true,
            Add => self.fact(SAddO, n.a, n.b) || self.prefers_signed(n.a),
            Sub => self.fact(SSubO, n.a, n.b) || self.prefers_signed(n.a),
            Ite => self.prefers_signed(n.b) || self.prefers_signed(n.c),
            _ => false,
        }
    }
    pub fn int(&mut self, t: T) -> String {
        use Op::*;
        if let Some(s) = self.ints.get(&t) {
            return s.clone();
        }
        let c = cx();
        if let Some(b) = c.icv(t) {
            return b.smt();
        }
        let n = c.n(t);
        let e = match n.op {
            IS => self.view(n.a, true),
            IU => self.view(n.a, false),
            IAdd => format!("(+ {} {})", self.int(n.a), self.int(n.b)),
            ISub => format!("(- {} {})", self.int(n.a), self.int(n.b)),
            IMul => {
                if c.icv(n.a).is_none() && c.icv(n.b).is_none() {
                    self.nonlin = true;
                }
                format!("(* {} {})", self.int(n.a), self.int(n.b))
            }
            IDiv | IMod => {
                let (a, b) = (self.int(n.a), self.int(n.b));
                let pos = c.icv(n.b).map_or(false, |b| !b.is_neg() && !b.is_zero());
                if pos {
                    if n.op == IDiv { format!("(div {a} {b})") } else { format!("(mod {a} {b})") }
                } else {
                    self.nonlin = true;
                    // floor division for positive divisors; other divisors are left unconstrained
                    let id = hash_key(&format!("idiv:{}:{}", n.a, n.b));
                    let (q, r) = if let (Some(q), Some(r)) = (self.ints.get(&id), self.ints.get(&(id ^ 1))) {
                        (q.clone(), r.clone())
                    } else {
                        let q = self.fresh("Int");
                        let r = self.fresh("Int");
                        let _ = writeln!(self.out, "(assert (=> (> {b} 0) (and (= {a} (+ (* {b} {q}) {r})) (<= 0 {r}) (< {r} {b}))))");
                        self.ints.insert(id, q.clone());
                        self.ints.insert(id ^ 1, r.clone());
                        (q, r)
                    };
                    self.abs = true;
                    if n.op == IDiv { q } else { r }
                }
            }
            Ite => {
                let b = self.b(n.a);
                format!("(ite {b} {} {})", self.int(n.b), self.int(n.c))
            }
            _ => panic!("int term {:?}", n.op),
        };
        let e = self.def(e, "Int");
        self.ints.insert(t, e.clone());
        e
    }
}
/// private key space (bit 31 set) for the memo tables
fn hash_key(s: &str) -> T {
    use std::hash::Hasher;
    thread_local! { static K: std::cell::RefCell<HashMap<String, u32>> = Default::default(); }
    let _ = Fx::finish;
    K.with(|k| {
        let mut k = k.borrow_mut();
        let n = k.len() as u32;
        0x8000_0000 | (*k.entry(s.to_string()).or_insert(n) << 1)
    })
}

#[derive(Clone)]
pub struct Query {
    pub text: String,
    pub vars: Vec<(u32, u32, String)>, // var index, width, smt name
    pub logic: &'static str,
    pub trivially_unsat: bool,
    pub nonlin: bool,
    pub abs: bool,
}
pub fn encode_int(conj: &[T]) -> Query {
    let c = cx();
    let mut e = IntEnc::new(conj);
    let mut asserts = String::new();
    for t in conj {
        let s = e.b(*t);
        // definitions are emitted before the assertion that needs them
        let _ = writeln!(asserts, "(assert {})", s);
    }
    let unsat = e.rng.contradiction;
    // re-assert contextual ranges only through the conjuncts: Var bounds are contextual and implied
    let vars = e.vars.iter().map(|(t, n)| (c.n(*t).k as u32, c.w(*t), n.clone())).collect();
    let text = format!("{}{}", e.out, asserts);
    Query { text, vars, logic: "QF_NIA", trivially_unsat: unsat, nonlin: e.nonlin, abs: e.abs }
}

// ------------------------------------------------------------------ bit-vector encoding
pub struct BvEnc {
    out: String,
    memo: HashMap<T, String>,
    pub vars: Vec<(u32, u32, String)>,
    k: u32,
    pub fail: Option<String>,
    iw: u32,
    pub fp: bool,
}
impl BvEnc {
    fn def(&mut self, e: String, sort: String) -> String {
        self.k += 1;
        let n = format!("x{}", self.k);
        let _ = writeln!(self.out, "(define-fun {} () {} {})", n, sort, e);
        n
    }
    fn bvc(w: u32, v: &Big) -> String {
        // two's complement of v mod 2^w
        let m = v.rem_floor(&Big::pow2(w));
        format!("(_ bv{} {})", m, w)
    }
    fn f(&mut self, t: T, w: u32) -> String {
        // float view of a bit-vector term
        let s = self.t(t);
        self.fp = true;
        if w == 64 { format!("((_ to_fp 11 53) {s})") } else { format!("((_ to_fp 8 24) {s})") }
    }
    /// bit-vector produced from a float expression
    fn from_f(&mut self, e: String, w: u32) -> String {
        self.k += 1;
        let n = format!("fb{}", self.k);
        let _ = writeln!(self.out, "(declare-fun {} () (_ BitVec {}))", n, w);
        let fp = if w == 64 { format!("((_ to_fp 11 53) {n})") } else { format!("((_ to_fp 8 24) {n})") };
        let nan = if w == 64 { "#x7ff8000000000000" } else { "#x7fc00000" };
        let d = self.def(e, if w == 64 { "(_ FloatingPoint 11 53)".into() } else { "(_ FloatingPoint 8 24)".into() });
        let _ = writeln!(self.out, "(assert (ite (fp.isNaN {d}) (= {n} {nan}) (= {fp} {d})))");
        n
    }
    pub fn t(&mut self, t: T) -> String {
        if let Some(s) = self.memo.get(&t) {
            return s.clone();
        }
        let c = cx();
        let n = c.n(t);
        let (e, sort) = self.t0(t, &n);
        let e = if e.starts_with('(') && n.op != Op::Const { self.def(e, sort) } else { e };
        self.memo.insert(t, e.clone());
        e
    }
    fn wide(&mut self, e: &str, w: u32, to: u32, s: bool) -> String {
        if to == w { e.to_string() } else if to > w { format!("((_ {} {}) {})", if s { "sign_extend" } else { "zero_extend" }, to - w, e) } else { format!("((_ extract {} 0) {})", to - 1, e) }
    }
    fn t0(&mut self, _t: T, n: &Node) -> (String, String) {
        use Op::*;
        let c = cx();
        let w = n.w;
        let bsort = if w == 1 { "Bool".to_string() } else if w == 0 { format!("(_ BitVec {})", self.iw) } else { format!("(_ BitVec {})", w) };
        let aw = if n.a != 0 { c.w(n.a) } else { 0 };
        let e = match n.op {
            Const if w == 1 => (if n.k == 1 { "true" } else { "false" }).to_string(),
            Const => format!("(_ bv{} {})", n.k, w),
            Var => {
                let name = format!("v{}", n.k);
                let _ = writeln!(self.out, "(declare-fun {} () {})", name, bsort);
                let r = c.r(_t);
                if w > 1 && w <= 128 {
                    if r.sl > smin(w) || r.sh < smax(w) {
                        let (l, h) = (Self::bvc(w, &Big::s(r.sl)), Self::bvc(w, &Big::s(r.sh)));
                        let _ = writeln!(self.out, "(assert (and (bvsle {l} {name}) (bvsle {name} {h})))");
                    }
                    if r.ul > 0 || r.uh < mask(w) {
                        let (l, h) = (Self::bvc(w, &Big::u(r.ul)), Self::bvc(w, &Big::u(r.uh)));
                        let _ = writeln!(self.out, "(assert (and (bvule {l} {name}) (bvule {name} {h})))");
                    }
                }
                self.vars.push((n.k as u32, w, name.clone()));
                name
            }
            Add | Sub | Mul | UDiv | SDiv | URem | SRem | Shl | LShr | AShr => {
                let o = match n.op { Add => "bvadd", Sub => "bvsub", Mul => "bvmul", UDiv => "bvudiv", SDiv => "bvsdiv", URem => "bvurem", SRem => "bvsrem", Shl => "bvshl", LShr => "bvlshr", _ => "bvashr" };
                format!("({o} {} {})", self.t(n.a), self.t(n.b))
            }
            And | Or | Xor => {
                let o = match (n.op, w == 1) { (And, true) => "and", (Or, true) => "or", (Xor, true) => "xor", (And, _) => "bvand", (Or, _) => "bvor", _ => "bvxor" };
                format!("({o} {} {})", self.t(n.a), self.t(n.b))
            }
            Not => format!("(not {})", self.t(n.a)),
            Eq => format!("(= {} {})", self.t(n.a), self.t(n.b)),
            Ult => format!("(bvult {} {})", self.t(n.a), self.t(n.b)),
            Ule => format!("(bvule {} {})", self.t(n.a), self.t(n.b)),
            Slt => format!("(bvslt {} {})", self.t(n.a), self.t(n.b)),
            Sle => format!("(bvsle {} {})", self.t(n.a), self.t(n.b)),
            UAddO => {
                let (a, b) = (self.t(n.a), self.t(n.b));
                let (x, y) = (self.wide(&a, aw, aw + 1, false), self.wide(&b, aw, aw + 1, false));
                format!("(= ((_ extract {aw} {aw}) (bvadd {x} {y})) #b1)")
            }
            USubO => format!("(bvult {} {})", self.t(n.a), self.t(n.b)),
            SAddO | SSubO => {
                let (a, b) = (self.t(n.a), self.t(n.b));
                let (x, y) = (self.wide(&a, aw, aw + 1, true), self.wide(&b, aw, aw + 1, true));
                let o = if n.op == SAddO { "bvadd" } else { "bvsub" };
                let e = self.def(format!("({o} {x} {y})"), format!("(_ BitVec {})", aw + 1));
                format!("(not (= ((_ extract {aw} {aw}) {e}) ((_ extract {l} {l}) {e})))", l = aw - 1)
            }
            UMulO | SMulO => {
                let sg = n.op == SMulO;
                let (a, b) = (self.t(n.a), self.t(n.b));
                let (x, y) = (self.wide(&a, aw, 2 * aw, sg), self.wide(&b, aw, 2 * aw, sg));
                let e = self.def(format!("(bvmul {x} {y})"), format!("(_ BitVec {})", 2 * aw));
                let lo = self.wide(&e, 2 * aw, aw, sg);
                let back = self.wide(&lo, aw, 2 * aw, sg);
                format!("(not (= {e} {back}))")
            }
            Ite => format!("(ite {} {} {})", self.t(n.a), self.t(n.b), self.t(n.c)),
            Zext if aw == 1 => format!("(ite {} (_ bv1 {w}) (_ bv0 {w}))", self.t(n.a)),
            Sext if aw == 1 => format!("(ite {} (bvnot (_ bv0 {w})) (_ bv0 {w}))", self.t(n.a)),
            Zext => format!("((_ zero_extend {}) {})", w - aw, self.t(n.a)),
            Sext => format!("((_ sign_extend {}) {})", w - aw, self.t(n.a)),
            Extract => {
                let a = self.t(n.a);
                if w == 1 {
                    format!("(= ((_ extract {k} {k}) {a}) #b1)", k = n.k)
                } else {
                    format!("((_ extract {} {}) {a})", n.k as u32 + w - 1, n.k)
                }
            }
            Concat => {
                let mut p = |x: T| { let s = self.t(x); if c.w(x) == 1 { format!("(ite {s} #b1 #b0)") } else { s } };
                let (a, b) = (p(n.a), p(n.b));
                format!("(concat {a} {b})")
            }
            FxMulS | FxMulU | FxMulOS | FxMulOU => {
                let sg = matches!(n.op, FxMulS | FxMulOS);
                let (a, b) = (self.t(n.a), self.t(n.b));
                let key = hash_key(&format!("bvfx:{}:{}:{}", a, b, sg));
                let p = match self.memo.get(&key) {
                    Some(p) => p.clone(),
                    None => {
                        let (x, y) = (self.wide(&a, 128, 256, sg), self.wide(&b, 128, 256, sg));
                        let e = self.def(format!("(bvmul {x} {y})"), "(_ BitVec 256)".into());
                        self.memo.insert(key, e.clone());
                        e
                    }
                };
                let k = n.k as u32;
                if matches!(n.op, FxMulS | FxMulU) {
                    format!("((_ extract {} {k}) {p})", 127 + k)
                } else {
                    let sh = self.def(format!("({} {p} (_ bv{k} 256))", if sg { "bvashr" } else { "bvlshr" }), "(_ BitVec 256)".into());
                    let lo = self.wide(&sh, 256, 128, sg);
                    let back = self.wide(&lo, 128, 256, sg);
                    format!("(not (= {sh} {back}))")
                }
            }
            FxDivS | FxDivU | FxDivOS | FxDivOU => {
                let sg = matches!(n.op, FxDivS | FxDivOS);
                let (a, b) = (self.t(n.a), self.t(n.b));
                let (x, y) = (self.wide(&a, 128, 256, sg), self.wide(&b, 128, 256, sg));
                let q = self.def(format!("({} (bvshl {x} (_ bv{} 256)) {y})", if sg { "bvsdiv" } else { "bvudiv" }, n.k), "(_ BitVec 256)".into());
                if matches!(n.op, FxDivS | FxDivU) {
                    format!("((_ extract 127 0) {q})")
                } else {
                    let lo = self.wide(&q, 256, 128, sg);
                    let back = self.wide(&lo, 128, 256, sg);
                    format!("(not (= {q} {back}))")
                }
            }
            IConst => Self::bvc(self.iw, &c.bigs[n.k as usize]),
            IS | IU => {
                let a = self.t(n.a);
                let a = if aw == 1 { format!("(ite {a} #b1 #b0)") } else { a };
                let iw = self.iw;
                self.wide(&a, aw, iw, n.op == IS)
            }
            IAdd => format!("(bvadd {} {})", self.t(n.a), self.t(n.b)),
            ISub => format!("(bvsub {} {})", self.t(n.a), self.t(n.b)),
            IMul => format!("(bvmul {} {})", self.t(n.a), self.t(n.b)),
            ILt => format!("(bvslt {} {})", self.t(n.a), self.t(n.b)),
            ILe => format!("(bvsle {} {})", self.t(n.a), self.t(n.b)),
            IEq => format!("(= {} {})", self.t(n.a), self.t(n.b)),
            IMod => format!("(bvsmod {} {})", self.t(n.a), self.t(n.b)),
            IDiv => {
                let (a, b) = (self.t(n.a), self.t(n.b));
                let m = self.def(format!("(bvsmod {a} {b})"), bsort.clone());
                format!("(bvsdiv (bvsub {a} {m}) {b})")
            }
            FAdd | FSub | FMul | FDiv => {
                let o = match n.op { FAdd => "fp.add", FSub => "fp.sub", FMul => "fp.mul", _ => "fp.div" };
                let (a, b) = (self.f(n.a, w), self.f(n.b, w));
                self.from_f(format!("({o} RNE {a} {b})"), w)
            }
            FSqrt => {
                let a = self.f(n.a, w);
                self.from_f(format!("(fp.sqrt RNE {a})"), w)
            }
            FEq | FLt | FLe => {
                let o = match n.op { FEq => "fp.eq", FLt => "fp.lt", _ => "fp.leq" };
                let (a, b) = (self.f(n.a, aw), self.f(n.b, aw));
                format!("({o} {a} {b})")
            }
            S2F | U2F => {
                let a = self.t(n.a);
                let o = if n.op == S2F { "to_fp" } else { "to_fp_unsigned" };
                self.fp = true;
                self.from_f(if w == 64 { format!("((_ {o} 11 53) RNE {a})") } else { format!("((_ {o} 8 24) RNE {a})") }, w)
            }
            FCvt => {
                let a = self.f(n.a, aw);
                self.from_f(if w == 64 { format!("((_ to_fp 11 53) RNE {a})") } else { format!("((_ to_fp 8 24) RNE {a})") }, w)
            }
            FRnd => {
                let a = self.f(n.a, w);
                let rm = match n.k { 0 => "RTZ", 1 => "RTN", 2 => "RTP", 3 => "RNA", _ => "RNE" };
                self.from_f(format!("(fp.roundToIntegral {rm} {a})"), w)
            }
            F2S | F2U => {
                // saturating, NaN -> 0 (as Rust `as`)
                let a = self.f(n.a, aw);
                let a = self.def(a, if aw == 64 { "(_ FloatingPoint 11 53)".into() } else { "(_ FloatingPoint 8 24)".into() });
                let fp = if aw == 64 { "(_ to_fp 11 53)" } else { "(_ to_fp 8 24)" };
                let (lo, hi, o) = if n.op == F2S { (Big::s(smin(w)), Big::s(smax(w)), "fp.to_sbv") } else { (Big::zero(), Big::u(mask(w)), "fp.to_ubv") };
                let up = hi.add(&Big::u(1)); // power of two: exact
                let upf = format!("({fp} RNE {}.0)", up);
                let lof = if lo.is_zero() { format!("({fp} RNE 0.0)") } else { format!("({fp} RNE (- {}.0))", lo.abs()) };
                format!("(ite (fp.isNaN {a}) (_ bv0 {w}) (ite (fp.geq {a} {upf}) {h} (ite (fp.leq {a} {lof}) {l} ((_ {o} {w}) RTZ {a}))))", h = Self::bvc(w, &hi), l = Self::bvc(w, &lo))
            }
            _ => {
                self.fail = Some(format!("{:?}", n.op));
                if w == 1 { "false".into() } else { format!("(_ bv0 {})", w.max(1)) }
            }
        };
        (e, bsort)
    }
}
pub fn encode_bv(conj: &[T]) -> Option<Query> {
    let c = cx();
    let order = eval::reach(conj);
    // width needed by the mathematical integers
    let mut bits: HashMap<T, u32> = HashMap::new();
    let mut iw = 2;
    for t in order {
        let n = c.n(t);
        let g = |x: T| bits.get(&x).copied().unwrap_or(1);
        if n.w == 0 && n.op != Op::Const {
            let b = match n.op {
                Op::IConst => {
                    let mut k = 1;
                    while Big::pow2(k) <= c.bigs[n.k as usize].abs() {
                        k += 1;
                    }
                    k + 1
                }
                Op::IS | Op::IU => c.w(n.a) + 1,
                Op::IAdd | Op::ISub => g(n.a).max(g(n.b)) + 1,
                Op::IMul => g(n.a) + g(n.b),
                Op::IDiv | Op::IMod => g(n.a).max(g(n.b)) + 1,
                Op::Ite => g(n.b).max(g(n.c)),
                _ => 2,
            };
            iw = iw.max(b + 1);
            bits.insert(t, b);
        }
    }
    if iw > 600 {
        return None;
    }
    let mut e = BvEnc { out: String::new(), memo: HashMap::new(), vars: vec![], k: 0, fail: None, iw, fp: false };
    let mut asserts = String::new();
    for t in conj {
        let s = e.t(*t);
        let _ = writeln!(asserts, "(assert {})", s);
    }
    if e.fail.is_some() {
        return None;
    }
    Some(Query { text: format!("{}{}", e.out, asserts), vars: e.vars, logic: if e.fp { "QF_BVFP" } else { "QF_BV" }, trivially_unsat: false, nonlin: false, abs: false })
}

// ------------------------------------------------------------------ solver processes
#[derive(Clone, Debug)]
pub enum Ans {
    Unsat,
    Sat(Model),
    Unknown,
}
fn parse_value(s: &str, w: u32) -> Option<u128> {
    let s = s.trim();
    if s == "true" {
        return Some(1);
    }
    if s == "false" {
        return Some(0);
    }
    if let Some(h) = s.strip_prefix("#x") {
        return u128::from_str_radix(h, 16).ok();
    }
    if let Some(h) = s.strip_prefix("#b") {
        return u128::from_str_radix(h, 2).ok();
    }
    if let Some(r) = s.strip_prefix("(_ bv") {
        return r.split_whitespace().next()?.parse().ok();
    }
    let t = s.trim_start_matches('(').trim_end_matches(')').trim();
    let b = if let Some(r) = t.strip_prefix('-') { Big::parse(r.trim())?.neg() } else { Big::parse(t)? };
    Some(b.wrap128() & mask(w))
}
/// parses `((v1 5) (v2 (- 3)))`
pub fn parse_model(s: &str, vars: &[(u32, u32, String)]) -> Option<Model> {
    let b = s.as_bytes();
    let mut m = Model::new();
    let byname: HashMap<&str, (u32, u32)> = vars.iter().map(|(i, w, n)| (n.as_str(), (*i, *w))).collect();
    let mut i = 0;
    let mut depth = 0;
    let mut st = 0;
    while i < b.len() {
        match b[i] {
            b'(' => {
                depth += 1;
                if depth == 2 {
                    st = i + 1;
                }
            }
            b')' => {
                if depth == 2 {
                    let ent = s[st..i].trim();
                    if let Some(p) = ent.find(char::is_whitespace) {
                        let (n, v) = (&ent[..p], &ent[p + 1..]);
                        if let Some((ix, w)) = byname.get(n) {
                            m.insert(*ix, parse_value(v, *w)?);
                        }
                    }
                }
                depth -= 1;
            }
            _ => {}
        }
        i += 1;
    }
    Some(m)
}
fn render(q: &Query, header: &str) -> String {
    let mut s = String::new();
    s.push_str(header);
    s.push_str(&q.text);
    s.push_str("(check-sat)\n");
    s
}
fn getval(q: &Query) -> String {
    if q.vars.is_empty() {
        return String::new();
    }
    let names: Vec<&str> = q.vars.iter().map(|v| v.2.as_str()).collect();
    format!("(get-value ({}))\n", names.join(" "))
}
/// persistent z3 for branch feasibility
pub struct Persist {
    child: Option<(Child, ChildStdin, mpsc::Receiver<String>)>,
    pub queries: u64,
    pub time: Duration,
}
impl Persist {
    pub fn new() -> Persist {
        Persist { child: None, queries: 0, time: Duration::ZERO }
    }
    fn start(&mut self) {
        let mut c = tool_command("z3-new").args(["-in", "-smt2", "-memory:4000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3-new");
        let i = c.stdin.take().unwrap();
        let o: ChildStdout = c.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let r = BufReader::new(o);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((c, i, rx));
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    pub fn ask(&mut self, q: &Query, ms: u64) -> Ans {
        self.queries += 1;
        let t0 = Instant::now();
        let r = self.ask0(q, ms);
        self.time += t0.elapsed();
        r
    }
    fn ask0(&mut self, q: &Query, ms: u64) -> Ans {
        if q.trivially_unsat {
            return Ans::Unsat;
        }
        if self.child.is_none() {
            self.start();
        }
        let text = format!("(reset)\n(set-option :timeout {ms})\n{}(echo \"--\")\n", render(q, ""));
        {
            let (_, i, _) = self.child.as_mut().unwrap();
            if i.write_all(text.as_bytes()).and_then(|_| i.flush()).is_err() {
                self.kill();
                return Ans::Unknown;
            }
        }
        let deadline = Instant::now() + Duration::from_millis(ms * 2 + 1000);
        let mut lines = vec![];
        let mut read = |s: &mut Persist, lines: &mut Vec<String>| -> bool {
            loop {
                let left = deadline.saturating_duration_since(Instant::now());
                let r = s.child.as_mut().unwrap().2.recv_timeout(left);
                match r {
                    Ok(l) => {
                        if l.trim().trim_matches('"') == "--" {
                            return true;
                        }
                        lines.push(l);
                    }
                    Err(_) => return false,
                }
            }
        };
        if !read(self, &mut lines) {
            self.kill();
            return Ans::Unknown;
        }
        let out = lines.join("\n");
        if out.contains("error") {
            eprintln!("z3: {}", out);
            dump_failed(&text);
            return Ans::Unknown;
        }
        match out.trim() {
            "unsat" => Ans::Unsat,
            "sat" => {
                if q.vars.is_empty() {
                    return Ans::Sat(Model::new());
                }
                let g = format!("{}(echo \"--\")\n", getval(q));
                let (_, i, _) = self.child.as_mut().unwrap();
                if i.write_all(g.as_bytes()).and_then(|_| i.flush()).is_err() {
                    self.kill();
                    return Ans::Unknown;
                }
                lines.clear();
                if !read(self, &mut lines) {
                    self.kill();
                    return Ans::Unknown;
                }
                match parse_model(&lines.join(" "), &q.vars) {
                    Some(m) => Ans::Sat(m),
                    None => Ans::Unknown,
                }
            }
            _ => Ans::Unknown,
        }
    }
}
impl Drop for Persist {
    fn drop(&mut self) {
        self.kill();
    }
}
fn dump_failed(t: &str) {
    if let Ok(d) = std::env::var("RSYM_DUMP") {
        let _ = std::fs::write(format!("{}/failed.smt2", d), t);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tool {
    Z3New,
    Z3Nl, // z3-new, nla solver seeds
    Z3Old,
    Cvc5,
    Z3Bv,
    Cvc5Bv,
    Z3OldBv,
}
impl Tool {
    pub fn name(self) -> &'static str {
        match self {
            Tool::Z3New => "z3-5.3 int",
            Tool::Z3Nl => "z3-5.3 int (nlsat)",
            Tool::Z3Old => "z3-4.8 int",
            Tool::Cvc5 => "cvc5 int",
            Tool::Z3Bv => "z3-5.3 bv",
            Tool::Cvc5Bv => "cvc5 bv",
            Tool::Z3OldBv => "z3-4.8 bv",
        }
    }
    pub fn bv(self) -> bool {
        matches!(self, Tool::Z3Bv | Tool::Cvc5Bv | Tool::Z3OldBv)
    }
}
/// run one solver on one query; `stop` aborts it
pub fn run_tool(tool: Tool, q: &Query, ms: u64, stop: &AtomicBool) -> Ans {
    if q.trivially_unsat {
        return Ans::Unsat;
    }
    let (cmd, args): (&str, Vec<String>) = match tool {
        Tool::Z3New | Tool::Z3Bv => ("z3-new", vec!["-in".into(), "-smt2".into(), "-memory:6000".into()]),
        Tool::Z3Nl => ("z3-new", vec!["-in".into(), "-smt2".into(), "-memory:6000".into(), "smt.random_seed=7".into(), "smt.arith.nl.order=false".into()]),
        Tool::Z3Old | Tool::Z3OldBv => ("z3", vec!["-in".into(), "-smt2".into(), "-memory:6000".into()]),
        Tool::Cvc5 => ("cvc5", vec!["--lang=smt2".into(), "--produce-models".into(), "--incremental".into(), format!("--tlimit={}", ms + 500)]),
        Tool::Cvc5Bv => ("cvc5", vec!["--lang=smt2".into(), "--produce-models".into(), "--incremental".into(), format!("--tlimit={}", ms + 500)]),
    };
    let header = match tool {
        Tool::Cvc5 => "(set-logic QF_NIA)\n".to_string(),
        Tool::Cvc5Bv => format!("(set-logic {})\n", q.logic),
        _ => String::new(),
    };
    let mut c = match tool_command(cmd).args(&args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => return Ans::Unknown,
    };
    let mut si = c.stdin.take().unwrap();
    let mut so = c.stdout.take().unwrap();
    let text = format!("{}{}{}(exit)\n", render(q, &header), getval(q), "");
    let wr = std::thread::spawn(move || {
        let _ = si.write_all(text.as_bytes());
    });
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let t0 = Instant::now();
    let out = loop {
        match rx.recv_timeout(Duration::from_millis(10)) {
            Ok(s) => break Some(s),
            Err(mpsc::RecvTimeoutError::Disconnected) => break None,
            Err(_) => {
                if stop.load(Ordering::Relaxed) || t0.elapsed() > Duration::from_millis(ms) {
                    break None;
                }
            }
        }
    };
    let _ = c.kill();
    let _ = c.wait();
    let _ = wr.join();
    let out = match out {
        Some(o) => o,
        None => return Ans::Unknown,
    };
    let mut it = out.splitn(2, '\n');
    match it.next().unwrap_or("").trim() {
        "unsat" => Ans::Unsat,
        "sat" => {
            let rest = it.next().unwrap_or("");
            if q.vars.is_empty() {
                return Ans::Sat(Model::new());
            }
            match parse_model(&rest.replace('\n', " "), &q.vars) {
                Some(m) if m.len() == q.vars.len() => Ans::Sat(m),
                _ => Ans::Unknown,
            }
        }
        _ => Ans::Unknown,
    }
}

pub struct JobResult {
    pub ans: Ans,
    pub tool: Option<Tool>,
    pub time: Duration,
    pub cpu: Duration,
    pub candidates: Vec<Model>,
}
extern "C" {
    fn prctl(option: i32, arg2: u64, arg3: u64, arg4: u64, arg5: u64) -> i32;
}
/// a solver process that ends with the thread that started it
fn tool_command(cmd: &str) -> Command {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(cmd);
    unsafe {
        c.pre_exec(|| {
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
    c
}
/// run several tools concurrently; the first Unsat wins, Sat answers are candidates validated by the caller
pub fn portfolio(tasks: Vec<(Tool, Query)>, ms: u64, done: mpsc::Sender<(usize, JobResult)>, id: usize, sem: Arc<Sem>) {
    std::thread::spawn(move || {
        let stop = Arc::new(AtomicBool::new(false));
        let t0 = Instant::now();
        let (tx, rx) = mpsc::channel();
        let n = tasks.len();
        let cpu = Arc::new(Mutex::new(Duration::ZERO));
        for (tool, q) in tasks {
            let (tx, stop, sem, cpu) = (tx.clone(), stop.clone(), sem.clone(), cpu.clone());
            std::thread::spawn(move || {
                sem.acquire();
                let t = Instant::now();
                // a short slice first, so that every tool gets a turn before the long runs
                let slice = ms.min(2500);
                let mut a = if stop.load(Ordering::Relaxed) { Ans::Unknown } else { run_tool(tool, &q, slice, &stop) };
                *cpu.lock().unwrap() += t.elapsed();
                sem.release();
                if matches!(a, Ans::Unknown) && slice < ms && !stop.load(Ordering::Relaxed) && t.elapsed().as_millis() as u64 + 300 > slice {
                    sem.acquire();
                    let t = Instant::now();
                    if !stop.load(Ordering::Relaxed) {
                        a = run_tool(tool, &q, ms, &stop);
                    }
                    *cpu.lock().unwrap() += t.elapsed();
                    sem.release();
                }
                let _ = tx.send((tool, q.abs, a));
            });
        }
        drop(tx);
        let mut res = JobResult { ans: Ans::Unknown, tool: None, time: Duration::ZERO, cpu: Duration::ZERO, candidates: vec![] };
        let mut seen = 0;
        while let Ok((tool, abs, a)) = rx.recv() {
            seen += 1;
            match a {
                Ans::Unsat => {
                    res.ans = Ans::Unsat;
                    res.tool = Some(tool);
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
                Ans::Sat(m) => {
                    res.candidates.push(m);
                    if res.tool.is_none() {
                        res.tool = Some(tool);
                    }
                    if !abs {
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                _ => {}
            }
            if seen == n {
                break;
            }
        }
        res.time = t0.elapsed();
        res.cpu = *cpu.lock().unwrap();
        let _ = done.send((id, res));
    });
}
/// fair (first come, first served) counting semaphore
pub struct Sem {
    m: Mutex<(usize, u64, u64)>, // free, next ticket, ticket being served
    c: std::sync::Condvar,
}
impl Sem {
    pub fn new(n: usize) -> Sem {
        Sem { m: Mutex::new((n, 0, 0)), c: std::sync::Condvar::new() }
    }
    pub fn acquire(&self) {
        let mut g = self.m.lock().unwrap();
        let my = g.1;
        g.1 += 1;
        while g.0 == 0 || g.2 != my {
            g = self.c.wait(g).unwrap();
        }
        g.0 -= 1;
        g.2 += 1;
        self.c.notify_all();
    }
    pub fn release(&self) {
        self.m.lock().unwrap().0 += 1;
        self.c.notify_all();
    }
}
