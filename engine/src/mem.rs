//! Byte-addressed memory objects with copy-on-write pages; each byte is concrete or a byte of a term.
use crate::term::*;
use std::rc::Rc;

pub const PG: usize = 512;
#[derive(Clone)]
pub struct Page {
    pub d: [u8; PG],
    pub s: Option<Box<[(T, u8); PG]>>,
}
#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub pages: Vec<Option<Rc<Page>>>,
    pub dead: bool,
    pub readonly: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    C(u8),
    S(T, u8),
}
impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, pages: vec![None; (size as usize + PG - 1) / PG], dead: false, readonly: false }
    }
    pub fn from_bytes(b: &[u8]) -> Obj {
        let mut o = Obj::new(b.len() as u64);
        for (i, x) in b.iter().enumerate() {
            if *x != 0 {
                o.set(i as u64, B::C(*x));
            }
        }
        o
    }
    pub fn get(&self, off: u64) -> B {
        match &self.pages[off as usize / PG] {
            None => B::C(0),
            Some(p) => {
                let i = off as usize % PG;
                if let Some(s) = &p.s {
                    if s[i].0 != 0 {
                        return B::S(s[i].0, s[i].1);
                    }
                }
                B::C(p.d[i])
            }
        }
    }
    fn page(&mut self, k: usize) -> &mut Page {
        let p = &mut self.pages[k];
        if p.is_none() {
            *p = Some(Rc::new(Page { d: [0; PG], s: None }));
        }
        Rc::make_mut(p.as_mut().unwrap())
    }
    pub fn set(&mut self, off: u64, b: B) {
        let (k, i) = (off as usize / PG, off as usize % PG);
        if self.pages[k].is_none() && b == B::C(0) {
            return;
        }
        let p = self.page(k);
        match b {
            B::C(x) => {
                p.d[i] = x;
                if let Some(s) = &mut p.s {
                    s[i] = (0, 0);
                }
            }
            B::S(t, n) => {
                if p.s.is_none() {
                    p.s = Some(Box::new([(0, 0); PG]));
                }
                p.s.as_mut().unwrap()[i] = (t, n);
            }
        }
    }
    /// fast path: n concrete bytes, little endian
    pub fn get_c(&self, off: u64, n: u64) -> Option<u128> {
        let (k, i) = (off as usize / PG, off as usize % PG);
        if i + n as usize <= PG {
            match &self.pages[k] {
                None => return Some(0),
                Some(p) => {
                    if let Some(s) = &p.s {
                        if s[i..i + n as usize].iter().any(|x| x.0 != 0) {
                            return None;
                        }
                    }
                    let mut v = 0u128;
                    for j in (0..n as usize).rev() {
                        v = v << 8 | p.d[i + j] as u128;
                    }
                    return Some(v);
                }
            }
        }
        let mut v = 0u128;
        for j in (0..n).rev() {
            match self.get(off + j) {
                B::C(x) => v = v << 8 | x as u128,
                _ => return None,
            }
        }
        Some(v)
    }
    pub fn set_c(&mut self, off: u64, n: u64, v: u128) {
        for j in 0..n {
            self.set(off + j, B::C((v >> (8 * j)) as u8));
        }
    }
    pub fn set_t(&mut self, off: u64, n: u64, t: T) {
        for j in 0..n {
            self.set(off + j, B::S(t, j as u8));
        }
    }
    /// n bytes as a term of width 8n
    pub fn get_t(&self, off: u64, n: u64) -> T {
        let c = cx();
        let mut acc: T = 0;
        let mut j = 0;
        while j < n {
            let (t, len) = match self.get(off + j) {
                B::C(x) => {
                    // gather concrete run (at most 16 bytes)
                    let mut v = x as u128;
                    let mut l = 1;
                    while j + l < n && l < 16 {
                        match self.get(off + j + l) {
                            B::C(y) => {
                                v |= (y as u128) << (8 * l);
                                l += 1;
                            }
                            _ => break,
                        }
                    }
                    (c.con(8 * l as u32, v), l)
                }
                B::S(t, k) => {
                    let mut l = 1u64;
                    while j + l < n {
                        match self.get(off + j + l) {
                            B::S(t2, k2) if t2 == t && k2 as u64 == k as u64 + l => l += 1,
                            _ => break,
                        }
                    }
                    let w = c.w(t);
                    let hi = ((k as u32 + l as u32) * 8).min(w);
                    let e = c.extract(t, k as u32 * 8, hi - k as u32 * 8);
                    (c.zext(e, 8 * l as u32), l)
                }
            };
            acc = if acc == 0 { t } else { c.concat(t, acc) };
            j += len;
        }
        acc
    }
}
