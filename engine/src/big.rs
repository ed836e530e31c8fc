//! Arbitrary-precision signed integers (sign + magnitude).
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big {
    neg: bool,
    m: Vec<u64>,
}
fn trim(v: &mut Vec<u64>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn cmp_m(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_m(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut c = 0u128;
    for i in 0..a.len().max(b.len()) {
        let s = *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128 + c;
        r.push(s as u64);
        c = s >> 64;
    }
    if c > 0 {
        r.push(c as u64);
    }
    r
}
fn sub_m(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len());
    let mut bw = false;
    for i in 0..a.len() {
        let (x, o1) = a[i].overflowing_sub(*b.get(i).unwrap_or(&0));
        let (x, o2) = x.overflowing_sub(bw as u64);
        bw = o1 || o2;
        r.push(x);
    }
    trim(&mut r);
    r
}
fn divrem_m(a: &[u64], b: &[u64]) -> (Vec<u64>, Vec<u64>) {
    assert!(!b.is_empty());
    if cmp_m(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u128;
        let mut q = vec![0u64; a.len()];
        let mut r = 0u128;
        for i in (0..a.len()).rev() {
            let cur = (r << 64) | a[i] as u128;
            q[i] = (cur / d) as u64;
            r = cur % d;
        }
        trim(&mut q);
        return (q, if r == 0 { vec![] } else { vec![r as u64] });
    }
    let mut q = vec![0u64; a.len()];
    let mut r: Vec<u64> = vec![];
    for i in (0..a.len() * 64).rev() {
        let mut c = (a[i / 64] >> (i % 64)) & 1;
        for x in r.iter_mut() {
            let n = *x >> 63;
            *x = (*x << 1) | c;
            c = n;
        }
        if c > 0 {
            r.push(c);
        }
        if cmp_m(&r, b) != Ordering::Less {
            r = sub_m(&r, b);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    trim(&mut q);
    (q, r)
}
impl Big {
    pub fn zero() -> Big {
        Big { neg: false, m: vec![] }
    }
    fn mk(neg: bool, mut m: Vec<u64>) -> Big {
        trim(&mut m);
        Big { neg: neg && !m.is_empty(), m }
    }
    pub fn u(v: u128) -> Big {
        Big::mk(false, vec![v as u64, (v >> 64) as u64])
    }
    pub fn s(v: i128) -> Big {
        let mut b = Big::u(v.unsigned_abs());
        b.neg = v < 0;
        b
    }
    pub fn pow2(n: u32) -> Big {
        let mut m = vec![0u64; n as usize / 64 + 1];
        m[n as usize / 64] = 1 << (n % 64);
        Big { neg: false, m }
    }
    pub fn is_neg(&self) -> bool {
        self.neg
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
    /// about log2(|x| + 1)
    pub fn log2(&self) -> f64 {
        match self.m.last() {
            None => 0.0,
            Some(x) => (self.m.len() as f64 - 1.0) * 64.0 + (*x as f64 + 1.0).log2(),
        }
    }
    pub fn neg(&self) -> Big {
        Big::mk(!self.neg, self.m.clone())
    }
    pub fn abs(&self) -> Big {
        Big { neg: false, m: self.m.clone() }
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big::mk(self.neg, add_m(&self.m, &o.m));
        }
        match cmp_m(&self.m, &o.m) {
            Ordering::Less => Big::mk(o.neg, sub_m(&o.m, &self.m)),
            _ => Big::mk(self.neg, sub_m(&self.m, &o.m)),
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = vec![0u64; self.m.len() + o.m.len() + 1];
        for i in 0..self.m.len() {
            let mut c = 0u128;
            for j in 0..o.m.len() {
                let t = self.m[i] as u128 * o.m[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.m.len()] = c as u64;
        }
        Big::mk(self.neg != o.neg, r)
    }
    pub fn div_trunc(&self, o: &Big) -> Big {
        let (q, _) = divrem_m(&self.m, &o.m);
        Big::mk(self.neg != o.neg, q)
    }
    pub fn div_floor(&self, o: &Big) -> Big {
        let (q, r) = divrem_m(&self.m, &o.m);
        let q = Big::mk(self.neg != o.neg, q);
        if self.neg != o.neg && !r.is_empty() {
            q.sub(&Big::u(1))
        } else {
            q
        }
    }
    pub fn rem_floor(&self, o: &Big) -> Big {
        self.sub(&o.mul(&self.div_floor(o)))
    }
    pub fn shl(&self, n: u32) -> Big {
        self.mul(&Big::pow2(n))
    }
    /// arithmetic shift right (floor)
    pub fn shr(&self, n: u32) -> Big {
        self.div_floor(&Big::pow2(n))
    }
    /// value mod 2^128
    pub fn wrap128(&self) -> u128 {
        let v = *self.m.first().unwrap_or(&0) as u128 | (*self.m.get(1).unwrap_or(&0) as u128) << 64;
        if self.neg {
            v.wrapping_neg()
        } else {
            v
        }
    }
    pub fn to_i128(&self) -> Option<i128> {
        let w = self.wrap128() as i128;
        if &Big::s(w) == self {
            Some(w)
        } else {
            None
        }
    }
    pub fn to_u128(&self) -> Option<u128> {
        let w = self.wrap128();
        if &Big::u(w) == self {
            Some(w)
        } else {
            None
        }
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t.trim()),
            None => (false, s),
        };
        let mut r = Big::zero();
        let ten = Big::u(10);
        if t.is_empty() {
            return None;
        }
        for c in t.bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            r = r.mul(&ten).add(&Big::u((c - b'0') as u128));
        }
        Some(if neg { r.neg() } else { r })
    }
    pub fn smt(&self) -> String {
        if self.neg {
            format!("(- {})", self.abs())
        } else {
            format!("{}", self)
        }
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_m(&self.m, &o.m),
            (true, true) => cmp_m(&o.m, &self.m),
        }
    }
}
impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.m.is_empty() {
            return f.write_str("0");
        }
        let mut parts = vec![];
        let mut cur = self.m.clone();
        let d = vec![10_000_000_000_000_000_000u64];
        while !cur.is_empty() {
            let (q, r) = divrem_m(&cur, &d);
            parts.push(*r.first().unwrap_or(&0));
            cur = q;
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s += &format!("{}", parts.pop().unwrap());
        while let Some(p) = parts.pop() {
            s += &format!("{:019}", p);
        }
        f.write_str(&s)
    }
}
