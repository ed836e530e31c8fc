//! Hash-consed term DAG: bit-vectors (width w>0, Bool is width 1) and mathematical integers (w = 0).
use crate::big::Big;
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Not,
    Eq, Ult, Ule, Slt, Sle,
    UAddO, SAddO, USubO, SSubO, UMulO, SMulO,
    Ite, Zext, Sext, Extract, Concat,
    FxMulS, FxMulU, FxMulOS, FxMulOU, FxDivS, FxDivU, FxDivOS, FxDivOU,
    IConst, IS, IU, IAdd, ISub, IMul, IDiv, IMod, ILt, ILe, IEq,
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FEq, FLt, FLe, F2S, F2U, S2F, U2F, FCvt, FRnd,
    /// opaque total function of its arguments: k = id
    Uf,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}
#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub signed: bool,
    pub dflt: u128,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rng {
    pub ul: u128,
    pub uh: u128,
    pub sl: i128,
    pub sh: i128,
}
pub struct Ctx {
    pub nodes: Vec<Node>,
    pub rng: Vec<Rng>,
    map: HashMap<Node, T, BuildFx>,
    pub bigs: Vec<Big>,
    bigmap: HashMap<Big, u32>,
    pub vars: Vec<VarInfo>,
    pub ufs: Vec<String>,
}
#[derive(Default, Clone)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

static mut CX: *mut Ctx = std::ptr::null_mut();
/// The engine's executor is single-threaded; solver threads only see rendered text.
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CX.is_null() {
            CX = Box::into_raw(Box::new(Ctx::new()));
        }
        &mut *CX
    }
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
pub fn smin(w: u32) -> i128 {
    if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) }
}
pub fn smax(w: u32) -> i128 {
    if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 }
}
fn full(w: u32) -> Rng {
    Rng { ul: 0, uh: mask(w), sl: smin(w.max(1)), sh: smax(w.max(1)) }
}
/// intersect the unsigned and signed views
pub fn tighten(mut r: Rng, w: u32) -> Rng {
    if w == 0 || w > 128 {
        return r;
    }
    let m = smax(w);
    // from signed to unsigned
    if r.sl >= 0 {
        r.ul = r.ul.max(r.sl as u128);
        r.uh = r.uh.min(r.sh as u128);
    } else if r.sh < 0 {
        r.ul = r.ul.max((r.sl as u128) & mask(w));
        r.uh = r.uh.min((r.sh as u128) & mask(w));
    }
    if r.uh <= m as u128 {
        r.sl = r.sl.max(r.ul as i128);
        r.sh = r.sh.min(r.uh as i128);
    } else if r.ul > m as u128 {
        r.sl = r.sl.max(sx(r.ul, w));
        r.sh = r.sh.min(sx(r.uh, w));
    }
    r
}

pub const FALSE: T = 1;
pub const TRUE: T = 2;

impl Ctx {
    fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], rng: vec![], map: HashMap::with_hasher(BuildFx), bigs: vec![], bigmap: HashMap::new(), vars: vec![], ufs: vec![] };
        // id 0 is reserved ("no term")
        c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        c.rng.push(full(1));
        assert_eq!(c.con(1, 0), FALSE);
        assert_eq!(c.con(1, 1), TRUE);
        c
    }
    pub fn raw(&mut self, op: Op, w: u32, a: T, b: T, c: T, k: u128) -> T {
        let n = Node { op, w, a, b, c, k };
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let t = self.nodes.len() as T;
        let r = self.range_of(&n, &|x: T| self.rng[x as usize]);
        self.nodes.push(n);
        self.rng.push(r);
        self.map.insert(n, t);
        t
    }
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    pub fn r(&self, t: T) -> Rng {
        self.rng[t as usize]
    }
    pub fn con(&mut self, w: u32, v: u128) -> T {
        self.raw(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn bool(&self, b: bool) -> T {
        if b { TRUE } else { FALSE }
    }
    pub fn cv(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const && n.w > 0 { Some(n.k) } else { None }
    }
    pub fn var(&mut self, name: &str, w: u32, range: Option<(u128, u128, bool)>) -> T {
        let idx = self.vars.len() as u128;
        let signed = range.map_or(false, |r| r.2);
        // the value of a variable a model leaves open: the one of its range next to 0
        let dflt = match range {
            Some((lo, hi, true)) => (sx(lo & mask(w), w).max(0).min(sx(hi & mask(w), w)).max(sx(lo & mask(w), w)) as u128) & mask(w),
            Some((lo, _, false)) => lo,
            None => 0,
        };
        self.vars.push(VarInfo { name: name.to_string(), w, signed, dflt });
        let t = self.raw(Op::Var, w, 0, 0, 0, idx);
        if let Some((lo, hi, s)) = range {
            let mut r = full(w);
            if s {
                r.sl = sx(lo & mask(w), w);
                r.sh = sx(hi & mask(w), w);
            } else {
                r.ul = lo;
                r.uh = hi;
            }
            self.rng[t as usize] = tighten(r, w);
        }
        t
    }
    /// context-free or contextual range from the ranges of the children
    pub fn range_of(&self, n: &Node, g: &dyn Fn(T) -> Rng) -> Rng {
        use Op::*;
        let w = n.w;
        if w == 0 {
            return full(1);
        }
        if w > 128 {
            return Rng { ul: 0, uh: u128::MAX, sl: i128::MIN, sh: i128::MAX };
        }
        let f = full(w);
        let m = mask(w);
        let wd = |t: T| self.nodes[t as usize].w;
        let mut r = f;
        match n.op {
            Const => {
                r = Rng { ul: n.k, uh: n.k, sl: sx(n.k, w), sh: sx(n.k, w) };
            }
            Add => {
                let (x, y) = (g(n.a), g(n.b));
                if let Some(h) = x.uh.checked_add(y.uh) {
                    if h <= m {
                        r.ul = x.ul + y.ul;
                        r.uh = h;
                    }
                }
                if let (Some(l), Some(h)) = (x.sl.checked_add(y.sl), x.sh.checked_add(y.sh)) {
                    if l >= f.sl && h <= f.sh {
                        r.sl = l;
                        r.sh = h;
                    }
                }
            }
            Sub => {
                let (x, y) = (g(n.a), g(n.b));
                if x.ul >= y.uh {
                    r.ul = x.ul - y.uh;
                    r.uh = x.uh - y.ul;
                }
                if let (Some(l), Some(h)) = (x.sl.checked_sub(y.sh), x.sh.checked_sub(y.sl)) {
                    if l >= f.sl && h <= f.sh {
                        r.sl = l;
                        r.sh = h;
                    }
                }
            }
            Mul => {
                let (x, y) = (g(n.a), g(n.b));
                if let Some(h) = x.uh.checked_mul(y.uh) {
                    if h <= m {
                        r.ul = x.ul * y.ul;
                        r.uh = h;
                    }
                }
                let p = [x.sl.checked_mul(y.sl), x.sl.checked_mul(y.sh), x.sh.checked_mul(y.sl), x.sh.checked_mul(y.sh)];
                if p.iter().all(|q| q.is_some()) {
                    let l = p.iter().map(|q| q.unwrap()).min().unwrap();
                    let h = p.iter().map(|q| q.unwrap()).max().unwrap();
                    if l >= f.sl && h <= f.sh {
                        r.sl = l;
                        r.sh = h;
                    }
                }
            }
            UDiv => {
                let (x, y) = (g(n.a), g(n.b));
                if y.ul > 0 {
                    r.ul = x.ul / y.uh;
                    r.uh = x.uh / y.ul;
                }
            }
            URem => {
                let (x, y) = (g(n.a), g(n.b));
                if y.ul > 0 {
                    r.uh = x.uh.min(y.uh - 1);
                }
            }
            SDiv => {
                let (x, y) = (g(n.a), g(n.b));
                if y.sl > 0 && (x.sl > f.sl || true) {
                    let c = [x.sl / y.sl, x.sl / y.sh, x.sh / y.sl, x.sh / y.sh];
                    r.sl = *c.iter().min().unwrap();
                    r.sh = *c.iter().max().unwrap();
                }
            }
            SRem => {
                let (x, y) = (g(n.a), g(n.b));
                if y.sl > 0 {
                    r.sl = if x.sl >= 0 { 0 } else { -(y.sh - 1) };
                    r.sh = if x.sh <= 0 { 0 } else { y.sh - 1 };
                }
            }
            And => {
                let (x, y) = (g(n.a), g(n.b));
                r.uh = x.uh.min(y.uh);
            }
            Or => {
                let (x, y) = (g(n.a), g(n.b));
                let hb = 128 - (x.uh | y.uh).leading_zeros();
                r.uh = mask(hb).min(m);
                if hb == 0 {
                    r.uh = 0;
                }
                r.ul = x.ul.max(y.ul);
            }
            Xor => {
                let (x, y) = (g(n.a), g(n.b));
                let hb = 128 - (x.uh | y.uh).leading_zeros();
                r.uh = if hb == 0 { 0 } else { mask(hb).min(m) };
            }
            Shl => {
                let (x, y) = (g(n.a), g(n.b));
                if y.ul == y.uh && y.uh < w as u128 {
                    let s = y.uh as u32;
                    if x.uh <= m >> s {
                        r.ul = x.ul << s;
                        r.uh = x.uh << s;
                    }
                    if x.sh <= f.sh >> s && x.sl >= f.sl >> s {
                        r.sl = x.sl << s;
                        r.sh = x.sh << s;
                    }
                }
            }
            LShr => {
                let (x, y) = (g(n.a), g(n.b));
                if y.ul < 128 {
                    r.uh = x.uh >> y.ul;
                    if y.ul == y.uh {
                        r.ul = x.ul >> y.ul;
                    }
                }
            }
            AShr => {
                let (x, y) = (g(n.a), g(n.b));
                if y.ul == y.uh && y.ul < w as u128 {
                    r.sl = x.sl >> y.ul;
                    r.sh = x.sh >> y.ul;
                }
            }
            Ite => {
                let (x, y) = (g(n.b), g(n.c));
                r = Rng { ul: x.ul.min(y.ul), uh: x.uh.max(y.uh), sl: x.sl.min(y.sl), sh: x.sh.max(y.sh) };
            }
            Zext => {
                let x = g(n.a);
                if wd(n.a) <= 128 {
                    r.ul = x.ul;
                    r.uh = x.uh;
                }
            }
            Sext => {
                let x = g(n.a);
                r.sl = x.sl;
                r.sh = x.sh;
            }
            Extract => {
                let x = g(n.a);
                if n.k < 128 && wd(n.a) <= 128 {
                    let (l, h) = (x.ul >> n.k, x.uh >> n.k);
                    if h <= m {
                        r.ul = l;
                        r.uh = h;
                    }
                    if n.k == 0 && x.sl >= f.sl && x.sh <= f.sh {
                        r.sl = x.sl;
                        r.sh = x.sh;
                    }
                }
            }
            Concat => {
                let (x, y) = (g(n.a), g(n.b));
                let wl = wd(n.b);
                if wl < 128 {
                    r.ul = (x.ul << wl) | y.ul;
                    r.uh = (x.uh << wl) | y.uh;
                }
            }
            FxMulS | FxDivS => {
                // only when it cannot overflow
                let (x, y) = (g(n.a), g(n.b));
                let k = n.k as u32;
                if n.op == FxMulS {
                    let v: Vec<Big> = [(x.sl, y.sl), (x.sl, y.sh), (x.sh, y.sl), (x.sh, y.sh)].iter().map(|(p, q)| Big::s(*p).mul(&Big::s(*q)).shr(k)).collect();
                    if let (Some(l), Some(h)) = (v.iter().min().unwrap().to_i128(), v.iter().max().unwrap().to_i128()) {
                        r.sl = l;
                        r.sh = h;
                    }
                } else if y.sl > 0 {
                    let v: Vec<Big> = [(x.sl, y.sl), (x.sl, y.sh), (x.sh, y.sl), (x.sh, y.sh)].iter().map(|(p, q)| Big::s(*p).shl(k).div_trunc(&Big::s(*q))).collect();
                    if let (Some(l), Some(h)) = (v.iter().min().unwrap().to_i128(), v.iter().max().unwrap().to_i128()) {
                        r.sl = l;
                        r.sh = h;
                    }
                }
            }
            FxMulU | FxDivU => {
                let (x, y) = (g(n.a), g(n.b));
                let k = n.k as u32;
                if n.op == FxMulU {
                    if let (Some(l), Some(h)) = (Big::u(x.ul).mul(&Big::u(y.ul)).shr(k).to_u128(), Big::u(x.uh).mul(&Big::u(y.uh)).shr(k).to_u128()) {
                        r.ul = l;
                        r.uh = h;
                    }
                } else if y.ul > 0 {
                    if let (Some(l), Some(h)) = (Big::u(x.ul).shl(k).div_trunc(&Big::u(y.uh)).to_u128(), Big::u(x.uh).shl(k).div_trunc(&Big::u(y.ul)).to_u128()) {
                        r.ul = l;
                        r.uh = h;
                    }
                }
            }
            _ => {}
        }
        tighten(r, w)
    }

    pub fn not(&mut self, a: T) -> T {
        if a == TRUE {
            return FALSE;
        }
        if a == FALSE {
            return TRUE;
        }
        let n = self.n(a);
        match n.op {
            Op::Not => n.a,
            Op::Ult => self.raw(Op::Ule, 1, n.b, n.a, 0, 0),
            Op::Ule => self.raw(Op::Ult, 1, n.b, n.a, 0, 0),
            Op::Slt => self.raw(Op::Sle, 1, n.b, n.a, 0, 0),
            Op::Sle => self.raw(Op::Slt, 1, n.b, n.a, 0, 0),
            Op::ILt => self.raw(Op::ILe, 1, n.b, n.a, 0, 0),
            Op::ILe => self.raw(Op::ILt, 1, n.b, n.a, 0, 0),
            _ => self.raw(Op::Not, 1, a, 0, 0, 0),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.cmp(Op::Eq, a, b)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let cn = self.n(c);
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if a == TRUE && b == FALSE {
                return c;
            }
            if a == FALSE && b == TRUE {
                return self.not(c);
            }
            if a == TRUE {
                return self.or(c, b);
            }
            if b == FALSE {
                return self.and(c, a);
            }
            if a == FALSE {
                let nc = self.not(c);
                return self.and(nc, b);
            }
            if b == TRUE {
                let nc = self.not(c);
                return self.or(nc, a);
            }
        }
        let an = self.n(a);
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let bn = self.n(b);
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        if bn.op == Op::Ite && bn.b == a {
            let cc = self.or(c, bn.a);
            return self.ite(cc, a, bn.c);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let (Some(v), true) = (self.cv(a), w <= 128) {
            return self.con(w, v);
        }
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        self.raw(Op::Zext, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let (Some(v), true) = (self.cv(a), w <= 128) {
            return self.con(w, sx(v, n.w) as u128);
        }
        if self.r(a).sl >= 0 && n.w > 1 && n.w <= 128 {
            return self.zext(a, w);
        }
        if n.op == Op::Sext {
            return self.sext(n.a, w);
        }
        self.raw(Op::Sext, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.con(w, if lo >= 128 { 0 } else { n.k >> lo });
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::Zext | Op::Sext => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if n.op == Op::Zext {
                    if lo >= wa {
                        return self.con(w, 0);
                    }
                    let e = self.extract(n.a, lo, wa - lo);
                    return self.zext(e, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::LShr if n.w <= 128 => {
                if let Some(s) = self.cv(n.b) {
                    if s as u32 + lo + w <= n.w {
                        return self.extract(n.a, s as u32 + lo, w);
                    }
                }
            }
            Op::Shl => {
                if let Some(s) = self.cv(n.b) {
                    let s = s as u32;
                    if lo >= s {
                        return self.extract(n.a, lo - s, w);
                    }
                    if lo + w <= s {
                        return self.con(w, 0);
                    }
                }
            }
            Op::And | Op::Or | Op::Xor if w <= 128 => {
                if let Some(c) = self.cv(n.b) {
                    if lo < 128 {
                        let c2 = self.con(w, c >> lo);
                        let x = self.extract(n.a, lo, w);
                        return self.bin(n.op, x, c2);
                    }
                }
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // low bits only depend on low bits; keeps constants visible
                if self.cv(n.b).is_some() && w >= 8 && false {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if w <= 128 {
            if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
                return self.con(w, (x << wl) | y);
            }
            if self.cv(h) == Some(0) {
                return self.zext(l, w);
            }
        }
        let (hn, ln) = (self.n(h), self.n(l));
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.k == ln.k + wl as u128 {
            return self.extract(hn.a, ln.k as u32, w);
        }
        if hn.op == Op::Extract && hn.a == l && hn.k == wl as u128 {
            // extract(x, wl, ..) ++ x  with x of width wl: impossible, widths differ
        }
        if ln.op == Op::Concat {
            // right-assoc -> try to merge the inner high part
            let m = self.try_merge(h, ln.a);
            if let Some(m) = m {
                return self.concat(m, ln.b);
            }
        }
        if hn.op == Op::Concat {
            if let Some(m) = self.try_merge(hn.b, l) {
                return self.concat(hn.a, m);
            }
        }
        self.raw(Op::Concat, w, h, l, 0, 0)
    }
    fn try_merge(&mut self, h: T, l: T) -> Option<T> {
        let (hn, ln) = (self.n(h), self.n(l));
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.k == ln.k + ln.w as u128 {
            return Some(self.extract(hn.a, ln.k as u32, hn.w + ln.w));
        }
        if hn.w + ln.w <= 128 && hn.op == Op::Const && ln.op == Op::Const {
            return Some(self.con(hn.w + ln.w, (hn.k << ln.w) | ln.k));
        }
        None
    }

    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
        use Op::*;
        let (a, b) = (sx(x, w), sx(y, w));
        let r = match op {
            Add => x.wrapping_add(y),
            Sub => x.wrapping_sub(y),
            Mul => x.wrapping_mul(y),
            UDiv => { if y == 0 { return None } x / y }
            URem => { if y == 0 { return None } x % y }
            SDiv => { if y == 0 { return None } a.wrapping_div(b) as u128 }
            SRem => { if y == 0 { return None } a.wrapping_rem(b) as u128 }
            And => x & y,
            Or => x | y,
            Xor => x ^ y,
            Shl => if y >= w as u128 { 0 } else { x << y },
            LShr => if y >= w as u128 { 0 } else { x >> y },
            AShr => (a >> y.min(w as u128 - 1)) as u128,
            _ => return None,
        };
        Some(r & mask(w))
    }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if w > 128 {
            return self.raw(op, w, a, b, 0, 0);
        }
        let (mut ca, mut cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = Self::fold(op, w, x, y) {
                return self.con(w, v);
            }
        }
        let comm = matches!(op, Add | Mul | And | Or | Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        let (an, bn) = (self.n(a), self.n(b));
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                if let Some(y) = cb {
                    if an.op == Add {
                        if let Some(x) = self.cv(an.b) {
                            let c = self.con(w, x.wrapping_add(y));
                            return self.bin(Add, an.a, c);
                        }
                    }
                }
                // x + (y - x) = y
                if bn.op == Sub && bn.b == a {
                    return bn.a;
                }
                if an.op == Sub && an.b == b {
                    return an.a;
                }
                // keep constants outermost: (x + c) + y = (x + y) + c
                if w <= 64 && an.op == Add && self.cv(an.b).is_some() {
                    let t = self.bin(Add, an.a, b);
                    return self.bin(Add, t, an.b);
                }
                if w <= 64 && bn.op == Add && self.cv(bn.b).is_some() {
                    let t = self.bin(Add, a, bn.a);
                    return self.bin(Add, t, bn.b);
                }
            }
            Sub => {
                if a == b {
                    return self.con(w, 0);
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                if let Some(y) = cb {
                    let c = self.con(w, y.wrapping_neg());
                    return self.bin(Add, a, c);
                }
                if an.op == Add && an.a == b {
                    return an.b;
                }
                if an.op == Add && an.b == b {
                    return an.a;
                }
                if w <= 64 && an.op == Add && self.cv(an.b).is_some() {
                    let t = self.bin(Sub, an.a, b);
                    return self.bin(Add, t, an.b);
                }
                if w <= 64 && bn.op == Add {
                    if let Some(y) = self.cv(bn.b) {
                        let t = self.bin(Sub, a, bn.a);
                        let c = self.con(w, y.wrapping_neg());
                        return self.bin(Add, t, c);
                    }
                }
                if bn.op == Sub && bn.a == a {
                    return bn.b;
                }
            }
            Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if w == 1 {
                    return self.bin(And, a, b);
                }
            }
            // a division by zero is undefined: the code under test checks the divisor first
            UDiv | SDiv | URem | SRem if self.cv(a) == Some(0) => return a,
            UDiv | SDiv => {
                if cb == Some(1) && w > 1 {
                    return a;
                }
                if op == UDiv {
                    if let Some(y) = cb {
                        if y.is_power_of_two() {
                            let s = self.con(w, y.trailing_zeros() as u128);
                            return self.bin(LShr, a, s);
                        }
                        if self.r(a).uh < y {
                            return self.con(w, 0);
                        }
                    }
                }
            }
            URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.con(w, y - 1);
                        return self.bin(And, a, c);
                    }
                    if self.r(a).uh < y {
                        return a;
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if w == 1 {
                    if an.op == Not && an.a == b || bn.op == Not && bn.a == a {
                        return FALSE;
                    }
                    // absorption
                    if bn.op == And && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if an.op == And && (an.a == b || an.b == b) {
                        return a;
                    }
                    let na = self.not(a);
                    if na == b {
                        return FALSE;
                    }
                } else if let Some(y) = cb {
                    if an.op == And {
                        if let Some(x) = self.cv(an.b) {
                            let c = self.con(w, x & y);
                            return self.bin(And, an.a, c);
                        }
                    }
                    // low mask that covers the range
                    if (y + 1).is_power_of_two() || y == u128::MAX {
                        if self.r(a).uh <= y {
                            return a;
                        }
                        let k = 128 - y.leading_zeros();
                        let e = self.extract(a, 0, k);
                        return self.zext(e, w);
                    }
                    if an.op == Zext {
                        let wa = self.w(an.a);
                        let c = self.con(wa, y);
                        let t = self.bin(And, an.a, c);
                        return self.zext(t, w);
                    }
                    if an.op == Ite && self.cv(an.b).is_some() && self.cv(an.c).is_some() {
                        let x = self.bin(And, an.b, b);
                        let z = self.bin(And, an.c, b);
                        return self.ite(an.a, x, z);
                    }
                    // bits shifted in as zero
                    if an.op == Shl {
                        if let Some(s) = self.cv(an.b) {
                            let live = (m << s) & m;
                            if y & live == live {
                                return a;
                            }
                        }
                    }
                }
            }
            Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return TRUE;
                    }
                    if bn.op == Or && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if an.op == Or && (an.a == b || an.b == b) {
                        return a;
                    }
                } else {
                    // (x << k) | zext(y), y below k bits: concatenation
                    for (p, q) in [(a, b), (b, a)] {
                        let pn = self.n(p);
                        if pn.op == Shl {
                            if let Some(s) = self.cv(pn.b) {
                                let s = s as u32;
                                if s > 0 && s < w && self.r(q).uh <= mask(s) {
                                    let h = self.extract(pn.a, 0, w - s);
                                    let l = self.extract(q, 0, s);
                                    return self.concat(h, l);
                                }
                            }
                        }
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.con(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 && cb == Some(1) {
                    return self.not(a);
                }
                if let Some(y) = cb {
                    if an.op == Xor {
                        if let Some(x) = self.cv(an.b) {
                            let c = self.con(w, x ^ y);
                            return self.bin(Xor, an.a, c);
                        }
                    }
                }
            }
            Shl | LShr | AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        if op != AShr {
                            return self.con(w, 0);
                        }
                    } else if op == LShr {
                        let s = y as u32;
                        let e = self.extract(a, s, w - s);
                        return self.zext(e, w);
                    } else if op == AShr {
                        if self.r(a).sl >= 0 {
                            return self.bin(LShr, a, b);
                        }
                        if an.op == AShr {
                            if let Some(x) = self.cv(an.b) {
                                let c = self.con(w, (x + y).min(w as u128 - 1));
                                return self.bin(AShr, an.a, c);
                            }
                        }
                    } else if op == Shl {
                        if an.op == Shl {
                            if let Some(x) = self.cv(an.b) {
                                let c = self.con(w, x + y);
                                return self.bin(Shl, an.a, c);
                            }
                        }
                        // zext(extract(x,0,k)) << s  with s + k >= w : the mask is redundant
                        if an.op == Zext {
                            let e = self.n(an.a);
                            if e.op == Extract && e.k == 0 && y as u32 + e.w >= w && self.w(e.a) == w {
                                return self.bin(Shl, e.a, b);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        self.raw(op, w, a, b, 0, 0)
    }
    pub fn cmp(&mut self, op: Op, mut a: T, mut b: T) -> T {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w > 128 {
            if op == Eq {
                if a == b {
                    return TRUE;
                }
                // split
                let (ah, al) = (self.extract(a, 128, w - 128), self.extract(a, 0, 128));
                let (bh, bl) = (self.extract(b, 128, w - 128), self.extract(b, 0, 128));
                let x = self.cmp(Eq, ah, bh);
                let y = self.cmp(Eq, al, bl);
                return self.and(x, y);
            }
            return self.raw(op, 1, a, b, 0, 0);
        }
        if a == b {
            return self.bool(matches!(op, Eq | Ule | Sle));
        }
        let (ra, rb) = (self.r(a), self.r(b));
        match op {
            Eq => {
                if ra.ul > rb.uh || rb.ul > ra.uh || ra.sl > rb.sh || rb.sl > ra.sh {
                    return FALSE;
                }
                if ra.ul == ra.uh && rb.ul == rb.uh && ra.ul == rb.ul {
                    return TRUE;
                }
            }
            Ult => {
                if ra.uh < rb.ul {
                    return TRUE;
                }
                if ra.ul >= rb.uh {
                    return FALSE;
                }
            }
            Ule => {
                if ra.uh <= rb.ul {
                    return TRUE;
                }
                if ra.ul > rb.uh {
                    return FALSE;
                }
            }
            Slt => {
                if ra.sh < rb.sl {
                    return TRUE;
                }
                if ra.sl >= rb.sh {
                    return FALSE;
                }
            }
            Sle => {
                if ra.sh <= rb.sl {
                    return TRUE;
                }
                if ra.sl > rb.sh {
                    return FALSE;
                }
            }
            _ => {}
        }
        if op == Eq && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (an, bn) = (self.n(a), self.n(b));
        let cb = self.cv(b);
        let ca = self.cv(a);
        // distribute over ite with constant arms
        if cb.is_some() && an.op == Ite {
            let (p, q) = (self.cv(an.b).is_some(), self.cv(an.c).is_some());
            if p || q {
                let x = self.cmp(op, an.b, b);
                let y = self.cmp(op, an.c, b);
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    return self.ite(an.a, x, y);
                }
            }
        }
        if ca.is_some() && bn.op == Ite {
            let (p, q) = (self.cv(bn.b).is_some(), self.cv(bn.c).is_some());
            if p || q {
                let x = self.cmp(op, a, bn.b);
                let y = self.cmp(op, a, bn.c);
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    return self.ite(bn.a, x, y);
                }
            }
        }
        if op == Eq {
            if let Some(y) = cb {
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                match an.op {
                    Zext => {
                        let wa = self.w(an.a);
                        if y > mask(wa) {
                            return FALSE;
                        }
                        let c = self.con(wa, y);
                        return self.cmp(Eq, an.a, c);
                    }
                    Sext => {
                        let wa = self.w(an.a);
                        let v = sx(y, w);
                        if v < smin(wa) || v > smax(wa) {
                            return FALSE;
                        }
                        let c = self.con(wa, y);
                        return self.cmp(Eq, an.a, c);
                    }
                    Add => {
                        if let Some(x) = self.cv(an.b) {
                            let c = self.con(w, y.wrapping_sub(x));
                            return self.cmp(Eq, an.a, c);
                        }
                    }
                    Sub if y == 0 => return self.cmp(Eq, an.a, an.b),
                    Xor => {
                        if let Some(x) = self.cv(an.b) {
                            let c = self.con(w, y ^ x);
                            return self.cmp(Eq, an.a, c);
                        }
                        if y == 0 {
                            return self.cmp(Eq, an.a, an.b);
                        }
                    }
                    Concat => {
                        let wl = self.w(an.b);
                        let wh = self.w(an.a);
                        let h = self.con(wh, y >> wl);
                        let l = self.con(wl, y);
                        let p = self.cmp(Eq, an.a, h);
                        let q = self.cmp(Eq, an.b, l);
                        return self.and(p, q);
                    }
                    Or if y == 0 => {
                        let z = b;
                        let p = self.cmp(Eq, an.a, z);
                        let q = self.cmp(Eq, an.b, z);
                        return self.and(p, q);
                    }
                    Shl => {
                        if let Some(s) = self.cv(an.b) {
                            let s = s as u32;
                            if y & mask(s) != 0 {
                                return FALSE;
                            }
                            if self.r(an.a).uh <= mask(w) >> s {
                                let c = self.con(w, y >> s);
                                return self.cmp(Eq, an.a, c);
                            }
                        }
                    }
                    _ => {}
                }
            } else {
                if w == 1 {
                    // keep as Eq of bools
                }
                if (an.op == Zext && bn.op == Zext || an.op == Sext && bn.op == Sext) && self.w(an.a) == self.w(bn.a) {
                    return self.cmp(Eq, an.a, bn.a);
                }
                if an.op == Concat && bn.op == Concat && self.w(an.b) == self.w(bn.b) {
                    let p = self.cmp(Eq, an.a, bn.a);
                    let q = self.cmp(Eq, an.b, bn.b);
                    return self.and(p, q);
                }
                if an.op == Add && bn.op == Add && an.b == bn.b {
                    return self.cmp(Eq, an.a, bn.a);
                }
                if an.op == Add && an.a == b {
                    let z = self.con(w, 0);
                    return self.cmp(Eq, an.b, z);
                }
            }
        } else {
            // comparisons of extended values with constants / each other
            match (an.op, bn.op) {
                (Zext, Zext) if self.w(an.a) == self.w(bn.a) => {
                    let o = match op { Slt => Ult, Sle => Ule, o => o };
                    return self.cmp(o, an.a, bn.a);
                }
                (Sext, Sext) if self.w(an.a) == self.w(bn.a) => return self.cmp(op, an.a, bn.a),
                (Zext, Const) => {
                    let wa = self.w(an.a);
                    if let Some(y) = cb {
                        if y <= mask(wa) && wa < w {
                            let c = self.con(wa, y);
                            let o = match op { Slt => Ult, Sle => Ule, o => o };
                            return self.cmp(o, an.a, c);
                        }
                    }
                }
                (Const, Zext) => {
                    let wb = self.w(bn.a);
                    if let Some(x) = ca {
                        if x <= mask(wb) && wb < w {
                            let c = self.con(wb, x);
                            let o = match op { Slt => Ult, Sle => Ule, o => o };
                            return self.cmp(o, c, bn.a);
                        }
                    }
                }
                _ => {}
            }
            // Ult(x, 1) = (x == 0); Ult(0, x) = x != 0
            if op == Ult && cb == Some(1) {
                let z = self.con(w, 0);
                return self.cmp(Eq, a, z);
            }
            if op == Ult && ca == Some(0) {
                let e = self.cmp(Eq, b, a);
                return self.not(e);
            }
            if op == Ule && cb == Some(0) {
                return self.cmp(Eq, a, b);
            }
            if w == 1 {
                let (op2, x, y) = match op {
                    Ult => (And, self.not(a), b),
                    Ule => (Or, self.not(a), b),
                    Slt => (And, a, self.not(b)),
                    _ => (Or, a, self.not(b)),
                };
                return self.bin(op2, x, y);
            }
            // both sides in the same half: use the signed view canonically
            if (op == Ult || op == Ule) && ra.sl >= 0 && rb.sl >= 0 && w > 1 {
                return self.cmp(if op == Ult { Slt } else { Sle }, a, b);
            }
        }
        self.raw(op, 1, a, b, 0, 0)
    }
    pub fn ovf(&mut self, op: Op, a: T, b: T) -> T {
        use Op::*;
        let w = self.w(a);
        let (x, y) = (self.r(a), self.r(b));
        let m = mask(w);
        match op {
            UAddO => {
                match x.uh.checked_add(y.uh) {
                    Some(h) if h <= m => return FALSE,
                    _ => {}
                }
                match x.ul.checked_add(y.ul) {
                    Some(l) if l <= m => {}
                    _ => return TRUE,
                }
            }
            USubO => {
                return self.cmp(Ult, a, b);
            }
            UMulO => {
                match x.uh.checked_mul(y.uh) {
                    Some(h) if h <= m => return FALSE,
                    _ => {}
                }
                match x.ul.checked_mul(y.ul) {
                    Some(l) if l <= m => {}
                    _ => return TRUE,
                }
            }
            SAddO => {
                let l = x.sl.checked_add(y.sl);
                let h = x.sh.checked_add(y.sh);
                if l.map_or(false, |v| v >= smin(w)) && h.map_or(false, |v| v <= smax(w)) {
                    return FALSE;
                }
                if x.ul == x.uh && y.ul == y.uh {
                    return TRUE;
                }
            }
            SSubO => {
                let l = x.sl.checked_sub(y.sh);
                let h = x.sh.checked_sub(y.sl);
                if l.map_or(false, |v| v >= smin(w)) && h.map_or(false, |v| v <= smax(w)) {
                    return FALSE;
                }
                if x.ul == x.uh && y.ul == y.uh {
                    return TRUE;
                }
            }
            SMulO => {
                let p = [x.sl.checked_mul(y.sl), x.sl.checked_mul(y.sh), x.sh.checked_mul(y.sl), x.sh.checked_mul(y.sh)];
                if p.iter().all(|q| q.map_or(false, |v| v >= smin(w) && v <= smax(w))) {
                    return FALSE;
                }
                if x.ul == x.uh && y.ul == y.uh {
                    return TRUE;
                }
            }
            _ => unreachable!(),
        }
        let (a, b) = if matches!(op, UAddO | SAddO | UMulO | SMulO) && a > b { (b, a) } else { (a, b) };
        self.raw(op, 1, a, b, 0, 0)
    }
    pub fn fx(&mut self, op: Op, a: T, b: T, k: u32) -> T {
        use Op::*;
        let (mut a, mut b) = (a, b);
        let w1 = matches!(op, FxMulOS | FxMulOU | FxDivOS | FxDivOU);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let v = crate::eval::fx_eval(op, x, y, k);
            if let Some(v) = v {
                return self.con(if w1 { 1 } else { 128 }, v);
            }
        }
        let (x, y) = (self.r(a), self.r(b));
        let one = 1u128 << k;
        match op {
            FxMulS | FxMulU | FxMulOS | FxMulOU => {
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                let (ca, cb) = (self.cv(a), self.cv(b));
                if !w1 {
                    if ca == Some(one) {
                        return b;
                    }
                    if cb == Some(one) {
                        return a;
                    }
                    if ca == Some(0) {
                        return a;
                    }
                    if cb == Some(0) {
                        return b;
                    }
                } else {
                    if ca == Some(one) || cb == Some(one) || ca == Some(0) || cb == Some(0) {
                        return FALSE;
                    }
                    let ok = if op == FxMulOS {
                        [(x.sl, y.sl), (x.sl, y.sh), (x.sh, y.sl), (x.sh, y.sh)].iter().all(|(p, q)| Big::s(*p).mul(&Big::s(*q)).shr(k).to_i128().is_some())
                    } else {
                        Big::u(x.uh).mul(&Big::u(y.uh)).shr(k).to_u128().is_some()
                    };
                    if ok {
                        return FALSE;
                    }
                }
            }
            _ => {
                if self.cv(b) == Some(one) {
                    return if w1 { FALSE } else { a };
                }
                if w1 {
                    let ok = if op == FxDivOS {
                        y.sl > 0 && [x.sl, x.sh].iter().all(|p| Big::s(*p).shl(k).div_trunc(&Big::s(y.sl)).to_i128().is_some())
                    } else {
                        y.ul > 0 && Big::u(x.uh).shl(k).div_trunc(&Big::u(y.ul)).to_u128().is_some()
                    };
                    if ok {
                        return FALSE;
                    }
                }
            }
        }
        self.raw(op, if w1 { 1 } else { 128 }, a, b, 0, k as u128)
    }

    // ---- integers ----
    pub fn big(&mut self, b: Big) -> T {
        let i = match self.bigmap.get(&b) {
            Some(i) => *i,
            None => {
                let i = self.bigs.len() as u32;
                self.bigs.push(b.clone());
                self.bigmap.insert(b, i);
                i
            }
        };
        self.raw(Op::IConst, 0, 0, 0, 0, i as u128)
    }
    pub fn icv(&self, t: T) -> Option<&Big> {
        let n = &self.nodes[t as usize];
        if n.op == Op::IConst { Some(&self.bigs[n.k as usize]) } else { None }
    }
    pub fn iview(&mut self, signed: bool, a: T) -> T {
        if let Some(v) = self.cv(a) {
            let w = self.w(a);
            let b = if signed { Big::s(sx(v, w)) } else { Big::u(v) };
            return self.big(b);
        }
        let n = self.n(a);
        match (n.op, signed) {
            (Op::Zext, false) => return self.iview(false, n.a),
            (Op::Zext, true) if n.w > self.w(n.a) => return self.iview(false, n.a),
            (Op::Sext, true) => return self.iview(true, n.a),
            _ => {}
        }
        let s = signed && self.r(a).sl < 0;
        // canonical: nonnegative values use the unsigned view
        self.raw(if s { Op::IS } else { Op::IU }, 0, a, 0, 0, 0)
    }
    fn const_choice(&self, t: T, depth: u32) -> bool {
        if self.icv(t).is_some() { return true }
        let n = self.n(t);
        depth > 0 && n.op == Op::Ite && self.const_choice(n.b, depth - 1) && self.const_choice(n.c, depth - 1)
    }
    pub fn iop(&mut self, op: Op, a: T, b: T) -> T {
        use Op::*;
        let (ka, kb) = (self.icv(a).cloned(), self.icv(b).cloned());
        if let (Some(x), Some(y)) = (&ka, &kb) {
            match op {
                IAdd => { let r = x.add(y); return self.big(r) }
                ISub => { let r = x.sub(y); return self.big(r) }
                IMul => { let r = x.mul(y); return self.big(r) }
                IDiv if !y.is_zero() => { let r = x.div_floor(y); return self.big(r) }
                IMod if !y.is_zero() => { let r = x.rem_floor(y); return self.big(r) }
                ILt => return self.bool(x < y),
                ILe => return self.bool(x <= y),
                IEq => return self.bool(x == y),
                _ => {}
            }
        }
        match op {
            IAdd => {
                if kb.as_ref().map_or(false, |v| v.is_zero()) { return a }
                if ka.as_ref().map_or(false, |v| v.is_zero()) { return b }
            }
            ISub => {
                if kb.as_ref().map_or(false, |v| v.is_zero()) { return a }
                if a == b { return self.big(Big::zero()) }
            }
            IMul => {
                if kb.as_ref().map_or(false, |v| v.is_zero() ) { return b }
                if ka.as_ref().map_or(false, |v| v.is_zero()) { return a }
                if kb == Some(Big::u(1)) { return a }
                if ka == Some(Big::u(1)) { return b }
                // a choice between constants: multiply each, keeping products linear
                for (x, y) in [(a, b), (b, a)] {
                    if self.icv(x).is_none() && self.const_choice(y, 4) && self.n(y).op == Ite {
                        let n = self.n(y).clone();
                        let (p, q) = (self.iop(IMul, x, n.b), self.iop(IMul, x, n.c));
                        return if p == q { p } else { self.raw(Ite, 0, n.a, p, q, 0) };
                    }
                }
            }
            ILe | IEq if a == b => return TRUE,
            ILt if a == b => return FALSE,
            _ => {}
        }
        let (a, b) = if matches!(op, IAdd | IMul | IEq) && a > b { (b, a) } else { (a, b) };
        let w = if matches!(op, ILt | ILe | IEq) { 1 } else { 0 };
        self.raw(op, w, a, b, 0, 0)
    }
}
