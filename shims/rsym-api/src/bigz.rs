// Small arbitrary-precision integers for replaying specifications natively.
#![allow(dead_code)]
use std::cmp::Ordering;
#[derive(Clone, Debug)]
pub struct BigZ { neg: bool, m: Vec<u32> }
fn trim(mut v: Vec<u32>) -> Vec<u32> { while v.last() == Some(&0) { v.pop(); } v }
fn cmp_m(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() { return a.len().cmp(&b.len()); }
    for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } }
    Ordering::Equal
}
fn add_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![]; let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32); c = s >> 32;
    }
    if c > 0 { r.push(c as u32); }
    r
}
fn sub_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![]; let mut c = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c;
        c = 0; if s < 0 { s += 1 << 32; c = 1; }
        r.push(s as u32);
    }
    trim(r)
}
impl BigZ {
    fn new(neg: bool, m: Vec<u32>) -> Self { let m = trim(m); BigZ { neg: neg && !m.is_empty(), m } }
    pub fn from_u128(v: u128) -> Self { BigZ::new(false, (0..4).map(|i| (v >> (32 * i)) as u32).collect()) }
    pub fn from_i128(v: i128) -> Self { let mut z = BigZ::from_u128(v.unsigned_abs()); z.neg = v < 0; z }
    pub fn negate(&self) -> Self { BigZ::new(!self.neg, self.m.clone()) }
    pub fn add(&self, o: &Self) -> Self {
        if self.neg == o.neg { return BigZ::new(self.neg, add_m(&self.m, &o.m)); }
        match cmp_m(&self.m, &o.m) {
            Ordering::Less => BigZ::new(o.neg, sub_m(&o.m, &self.m)),
            _ => BigZ::new(self.neg, sub_m(&self.m, &o.m)),
        }
    }
    pub fn sub(&self, o: &Self) -> Self { self.add(&o.negate()) }
    pub fn mul(&self, o: &Self) -> Self {
        let mut r = vec![0u32; self.m.len() + o.m.len() + 1];
        for i in 0..self.m.len() {
            let mut c = 0u64;
            for j in 0..o.m.len() {
                let t = self.m[i] as u64 * o.m[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32; c = t >> 32;
            }
            r[i + o.m.len()] = c as u32;
        }
        BigZ::new(self.neg != o.neg, r)
    }
    fn divrem_m(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
        assert!(!b.is_empty(), "Z division by zero");
        let mut q = vec![0u32; a.len()]; let mut r: Vec<u32> = vec![];
        for i in (0..a.len() * 32).rev() {
            let mut c = (a[i / 32] >> (i % 32)) & 1;
            for x in r.iter_mut() { let n = (*x >> 31) & 1; *x = (*x << 1) | c; c = n; }
            if c > 0 { r.push(c); }
            if cmp_m(&r, b) != Ordering::Less { r = sub_m(&r, b); q[i / 32] |= 1 << (i % 32); }
        }
        (trim(q), r)
    }
    pub fn div_floor(&self, o: &Self) -> Self {
        let (q, r) = Self::divrem_m(&self.m, &o.m);
        let q = BigZ::new(self.neg != o.neg, q);
        if self.neg != o.neg && !r.is_empty() { q.sub(&BigZ::from_u128(1)) } else { q }
    }
    pub fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_m(&self.m, &o.m),
            (true, true) => cmp_m(&o.m, &self.m),
        }
    }
}
