//! LLVM IR (textual, opaque pointers, LLVM 16) loading: a lazy symbol index over several .ll files
//! and a per-function parser into a compact instruction form.
use crate::term::mask;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<StructTy>),
    Other,
}
#[derive(Debug)]
pub struct StructTy {
    pub f: Vec<Ty>,
    pub off: Vec<u64>,
    pub size: u64,
    pub align: u64,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (*n as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Struct(s) => s.size,
            _ => 0,
        }
    }
    /// bytes touched by a load/store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                _ => 8,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().max(1),
            Ty::Struct(s) => s.align,
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
    pub fn elem(&self) -> Ty {
        match self {
            Ty::Vec(_, t) => (**t).clone(),
            Ty::Arr(_, t) => (**t).clone(),
            t => t.clone(),
        }
    }
    pub fn mk_struct(f: Vec<Ty>, packed: bool) -> Ty {
        let mut off = vec![];
        let mut o = 0u64;
        let mut al = 1;
        for t in &f {
            let a = if packed { 1 } else { t.align() };
            o = (o + a - 1) / a * a;
            off.push(o);
            o += t.size();
            al = al.max(a);
        }
        let size = (o + al - 1) / al * al;
        Ty::Struct(Rc::new(StructTy { f, off, size, align: al }))
    }
    /// (type of element i, byte offset)
    pub fn index(&self, i: u64) -> (Ty, u64) {
        match self {
            Ty::Struct(s) => (s.f[i as usize].clone(), s.off[i as usize]),
            Ty::Arr(_, t) | Ty::Vec(_, t) => ((**t).clone(), t.size() * i),
            t => panic!("index into {:?}", t),
        }
    }
}

/// constants: aggregates stay structured
#[derive(Clone, Debug)]
pub enum K {
    I(u128),
    Agg(Rc<Vec<K>>),
    Bytes(Rc<Vec<u8>>),
    Zero(Ty),
    Undef(Ty),
}
#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u128),
    K(K),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, Zext, Sext, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Ind(Opd),
    Asm,
}
#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BOp, ty: Ty, d: u32, a: Opd, b: Opd, nuw: bool, nsw: bool },
    FNeg { ty: Ty, d: u32, a: Opd },
    ICmp { p: &'static str, ty: Ty, d: u32, a: Opd, b: Opd },
    FCmp { p: &'static str, ty: Ty, d: u32, a: Opd, b: Opd },
    Cast { c: Cast, from: Ty, to: Ty, d: u32, a: Opd },
    Select { ty: Ty, cty: Ty, d: u32, c: Opd, a: Opd, b: Opd },
    Load { ty: Ty, d: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { d: u32, size: u64, n: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u64, u32)>, lanes: u32 },
    Extract { d: u32, a: Opd, path: Vec<u32> },
    Insert { d: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtElem { d: u32, a: Opd, i: Opd },
    InsElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, m: Vec<i32>, n: u32 },
    Call { d: Option<u32>, ret: Ty, f: Callee, args: Vec<Opd>, atys: Vec<Ty>, normal: Option<u32> },
    Rmw { op: String, ty: Ty, d: u32, p: Opd, v: Opd },
    CmpXchg { ty: Ty, d: u32, p: Opd, c: Opd, n: Opd },
    Copy { d: u32, a: Opd },
    Nop,
    Br(u32),
    CBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Resume,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<I>,
    pub name: String,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ptys: Vec<Ty>,
    pub sret: bool,
}

pub struct FileIdx {
    pub path: String,
    pub text: &'static str,
    types: HashMap<&'static str, usize>, // name -> offset of the type text
    tycache: std::cell::RefCell<HashMap<String, Ty>>,
    pub syms: HashMap<&'static str, usize>, // symbol -> offset of its line
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SymKind { Func(u32), Data(u32) }

pub struct FnInfo {
    pub name: String,
    pub dem: String,
    /// definition (file, offset)
    pub def: Option<(u32, usize)>,
    pub body: Option<Rc<Func>>,
    pub kind: u32, // builtin class, filled by the executor
}
pub struct GlobInfo {
    pub name: String,
    pub def: Option<(u32, usize)>,
    pub size: u64,
    pub constant: bool,
}
pub struct Program {
    pub files: Vec<FileIdx>,
    pub ext: HashMap<&'static str, u32>, // externally visible symbol -> file
    pub resolved: HashMap<(u32, String), SymKind>,
    pub fns: Vec<FnInfo>,
    pub globs: Vec<GlobInfo>,
    fn_by_key: HashMap<(u32, String), u32>,
    undef_fns: HashMap<String, u32>,
}
pub const GLOB_BASE: u64 = 0x2000_0000;
pub const FN_BASE: u64 = 0x3000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Int(String),
    Flt(String),
    Id(&'static str),
    Label(String),
    Str(Vec<u8>), // c"..." or "..."
    P(u8),
    Meta, // !foo or !123
    Attr, // #12
    Dots,
    Eof,
}
pub struct Lex {
    s: &'static str,
    b: &'static [u8],
    pub i: usize,
    pub tok: Tok,
    pub tok_start: usize,
}
fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}
impl Lex {
    pub fn new(s: &'static str, at: usize) -> Lex {
        let mut l = Lex { s, b: s.as_bytes(), i: at, tok: Tok::Eof, tok_start: at };
        l.next();
        l
    }
    fn name(&mut self) -> String {
        if self.b[self.i] == b'"' {
            let st = self.i + 1;
            let mut e = st;
            while self.b[e] != b'"' {
                e += 1;
            }
            self.i = e + 1;
            String::from_utf8(unescape(&self.b[st..e])).unwrap_or_default()
        } else {
            let st = self.i;
            while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || b"-$._".contains(&self.b[self.i])) {
                self.i += 1;
            }
            self.s[st..self.i].to_string()
        }
    }
    pub fn next(&mut self) -> Tok {
        let t = self.lex();
        std::mem::replace(&mut self.tok, t)
    }
    fn lex(&mut self) -> Tok {
        let n = self.b.len();
        loop {
            while self.i < n && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b'\t' || self.b[self.i] == b'\r') {
                self.i += 1;
            }
            if self.i < n && self.b[self.i] == b';' {
                while self.i < n && self.b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        self.tok_start = self.i;
        if self.i >= n {
            return Tok::Eof;
        }
        let c = self.b[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                if self.i < n && self.b[self.i] == b'"' {
                    // metadata string
                    self.name();
                } else {
                    while self.i < n && (self.b[self.i].is_ascii_alphanumeric() || b"-$._\\".contains(&self.b[self.i])) {
                        self.i += 1;
                    }
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < n && self.b[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                Tok::Attr
            }
            b'"' => {
                let nm = {
                    let st = self.i + 1;
                    let mut e = st;
                    while self.b[e] != b'"' {
                        e += 1;
                    }
                    self.i = e + 1;
                    unescape(&self.b[st..e])
                };
                if self.i < n && self.b[self.i] == b':' {
                    self.i += 1;
                    return Tok::Label(String::from_utf8(nm).unwrap_or_default());
                }
                Tok::Str(nm)
            }
            b'c' if self.i + 1 < n && self.b[self.i + 1] == b'"' => {
                let st = self.i + 2;
                let mut e = st;
                while self.b[e] != b'"' {
                    e += 1;
                }
                self.i = e + 1;
                Tok::Str(unescape(&self.b[st..e]))
            }
            b'.' if self.s[self.i..].starts_with("...") => {
                self.i += 3;
                Tok::Dots
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                if c == b'0' && self.i < n && self.b[self.i] == b'x' {
                    self.i += 1;
                    while self.i < n && self.b[self.i].is_ascii_alphanumeric() {
                        self.i += 1;
                    }
                    return Tok::Flt(self.s[st..self.i].to_string());
                }
                let mut fl = false;
                while self.i < n && (self.b[self.i].is_ascii_digit() || self.b[self.i] == b'.' || (self.b[self.i] == b'e' && fl) || ((self.b[self.i] == b'+' || self.b[self.i] == b'-') && self.b[self.i - 1] == b'e')) {
                    if self.b[self.i] == b'.' {
                        fl = true;
                    }
                    self.i += 1;
                }
                if self.i < n && self.b[self.i] == b':' {
                    let s = self.s[st..self.i].to_string();
                    self.i += 1;
                    return Tok::Label(s);
                }
                // labels such as 12abc: do not occur
                let s = self.s[st..self.i].to_string();
                if fl { Tok::Flt(s) } else { Tok::Int(s) }
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = self.i;
                while self.i < n && (self.b[self.i].is_ascii_alphanumeric() || b"-$._".contains(&self.b[self.i])) {
                    self.i += 1;
                }
                if self.i < n && self.b[self.i] == b':' {
                    let s = self.s[st..self.i].to_string();
                    self.i += 1;
                    return Tok::Label(s);
                }
                Tok::Id(&self.s[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    pub fn is(&self, p: u8) -> bool {
        self.tok == Tok::P(p)
    }
    pub fn eat(&mut self, p: u8) -> bool {
        if self.is(p) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn want(&mut self, p: u8) {
        if !self.eat(p) {
            panic!("expected '{}' got {:?} at: {}", p as char, self.tok, &self.s[self.tok_start..(self.tok_start + 120).min(self.s.len())]);
        }
    }
    pub fn id(&self) -> &'static str {
        match self.tok {
            Tok::Id(s) => s,
            _ => "",
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.id() == s {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            if self.is(b'(') {
                d += 1;
            }
            if self.is(b')') {
                d -= 1;
                if d == 0 {
                    self.next();
                    return;
                }
            }
            self.next();
        }
    }
}

pub fn demangle(s: &str) -> String {
    // legacy rust mangling
    if !(s.starts_with("_ZN") && s.ends_with('E')) {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 3;
    let mut parts: Vec<String> = vec![];
    while i < b.len() - 1 {
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if st == i {
            return s.to_string();
        }
        let n: usize = match s[st..i].parse() { Ok(n) => n, _ => return s.to_string() };
        if i + n > b.len() {
            return s.to_string();
        }
        parts.push(s[i..i + n].to_string());
        i += n;
    }
    if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) {
        parts.pop();
    }
    let mut o = parts.join("::");
    for (a, r) in [("..", "::"), ("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$BP$", "*"), ("$LP$", "("), ("$RP$", ")"), ("$C$", ","), ("$u20$", " "), ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("$u2b$", "+"), ("$u3b$", ";"), ("$u22$", "\""), ("$SP$", "@")] {
        o = o.replace(a, r);
    }
    if o.starts_with("_<") {
        o = o[1..].to_string();
    }
    o.replace("::_<", "::<")
}

impl Program {
    pub fn new() -> Program {
        Program { files: vec![], ext: HashMap::new(), resolved: HashMap::new(), fns: vec![], globs: vec![], fn_by_key: HashMap::new(), undef_fns: HashMap::new() }
    }
    pub fn add_file(&mut self, path: &str) {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).into_boxed_str());
        let fi = self.files.len() as u32;
        let mut types = HashMap::new();
        let mut syms = HashMap::new();
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            // at line start
            match b[i] {
                b'%' => {
                    // type definition
                    let (nm, e) = Self::sym_at(text, i + 1);
                    if text[e..].starts_with(" = type ") {
                        types.insert(nm, e + 8);
                    }
                }
                b'@' => {
                    let (nm, e) = Self::sym_at(text, i + 1);
                    syms.insert(nm, i);
                    let rest = &text[e..(e + 60).min(text.len())];
                    if !(rest.starts_with(" = internal") || rest.starts_with(" = private") || rest.starts_with(" = external")) {
                        self.ext.entry(nm).or_insert(fi);
                    }
                }
                b'd' if text[i..].starts_with("define ") => {
                    let at = match text[i..].find('@') { Some(a) => i + a, None => break };
                    let (nm, _) = Self::sym_at(text, at + 1);
                    let head = &text[i..at];
                    syms.insert(nm, i);
                    if !(head.contains(" internal ") || head.contains(" private ") || head.contains("available_externally")) {
                        self.ext.entry(nm).or_insert(fi);
                    }
                    // skip the body
                    if let Some(e) = memfind(b, i, b"\n}\n") {
                        i = e + 2;
                    }
                }
                _ => {}
            }
            match memchr(b, i, b'\n') {
                Some(e) => i = e + 1,
                None => break,
            }
        }
        self.files.push(FileIdx { path: path.to_string(), text, types, tycache: Default::default(), syms });
    }
    /// raw symbol text (quotes removed) starting at `at`, and the end offset
    fn sym_at(text: &'static str, at: usize) -> (&'static str, usize) {
        let b = text.as_bytes();
        if b[at] == b'"' {
            let mut e = at + 1;
            while b[e] != b'"' {
                e += 1;
            }
            (&text[at + 1..e], e + 1)
        } else {
            let mut e = at;
            while e < b.len() && (b[e].is_ascii_alphanumeric() || b"-$._".contains(&b[e])) {
                e += 1;
            }
            (&text[at..e], e)
        }
    }
    pub fn resolve(&mut self, file: u32, name: &str) -> SymKind {
        if let Some(k) = self.resolved.get(&(file, name.to_string())) {
            return *k;
        }
        let mut def = self.files[file as usize].syms.get(name).map(|o| (file, *o));
        // a local `external`/declared symbol is not a definition
        if let Some((f, o)) = def {
            let t = &self.files[f as usize].text[o..];
            if t.starts_with('@') {
                let line = &t[..t.find('\n').unwrap_or(t.len())];
                if line.contains(" = external ") || line.contains(" = extern_weak ") {
                    def = None;
                }
            }
        }
        if def.is_none() {
            if let Some(f) = self.ext.get(name) {
                def = self.files[*f as usize].syms.get(name).map(|o| (*f, *o));
            }
        }
        let k = match def {
            Some((f, o)) => {
                let is_fn = self.files[f as usize].text[o..].starts_with("define");
                let line = &self.files[f as usize].text[o..];
                let line = &line[..line.find('\n').unwrap_or(line.len())];
                if !is_fn && line.contains(" alias ") {
                    // @x = alias T, ptr @y
                    let tgt = line.rfind('@').unwrap();
                    let (nm, _) = Self::sym_at(self.files[f as usize].text, o + tgt + 1);
                    let k = self.resolve(f, nm);
                    self.resolved.insert((file, name.to_string()), k);
                    return k;
                }
                let key = (f, name.to_string());
                if is_fn {
                    let id = match self.fn_by_key.get(&key) {
                        Some(i) => *i,
                        None => {
                            let i = self.fns.len() as u32;
                            self.fns.push(FnInfo { name: name.to_string(), dem: demangle(name), def: Some((f, o)), body: None, kind: 0 });
                            self.fn_by_key.insert(key, i);
                            i
                        }
                    };
                    SymKind::Func(id)
                } else {
                    let id = match self.fn_by_key.get(&key) {
                        Some(i) => *i,
                        None => {
                            let i = self.globs.len() as u32;
                            self.globs.push(GlobInfo { name: name.to_string(), def: Some((f, o)), size: 0, constant: false });
                            self.fn_by_key.insert(key, i);
                            i
                        }
                    };
                    SymKind::Data(id)
                }
            }
            None => {
                // undefined: function or data? treat unknown data as functions unless declared external global
                let is_data = self.files[file as usize].syms.contains_key(name);
                if is_data {
                    let i = self.globs.len() as u32;
                    self.globs.push(GlobInfo { name: name.to_string(), def: None, size: 4096, constant: false });
                    SymKind::Data(i)
                } else {
                    let i = match self.undef_fns.get(name) {
                        Some(i) => *i,
                        None => {
                            let i = self.fns.len() as u32;
                            self.fns.push(FnInfo { name: name.to_string(), dem: demangle(name), def: None, body: None, kind: 0 });
                            self.undef_fns.insert(name.to_string(), i);
                            i
                        }
                    };
                    SymKind::Func(i)
                }
            }
        };
        self.resolved.insert((file, name.to_string()), k);
        k
    }
    pub fn sym_addr(&mut self, file: u32, name: &str) -> u128 {
        match self.resolve(file, name) {
            SymKind::Func(i) => ((FN_BASE + i as u64) << 32) as u128,
            SymKind::Data(i) => ((GLOB_BASE + i as u64) << 32) as u128,
        }
    }

    // ---- types ----
    pub fn ty(&self, file: u32, l: &mut Lex) -> Ty {
        let mut t = self.ty0(file, l);
        // legacy: function type or pointer suffix
        loop {
            if l.is(b'*') {
                l.next();
                t = Ty::Ptr;
            } else if l.is(b'(') && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(_) | Ty::F64 | Ty::F32 | Ty::Arr(..)) {
                // function type in a call: caller handles
                break;
            } else {
                break;
            }
        }
        t
    }
    fn ty0(&self, file: u32, l: &mut Lex) -> Ty {
        match l.next() {
            Tok::Id(s) => match s {
                "void" => Ty::Void,
                "ptr" => {
                    if l.id() == "addrspace" {
                        l.next();
                        l.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "opaque" | "x86_fp80" | "half" | "fp128" | "x86_mmx" => Ty::Other,
                s if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {}", s))),
                s => panic!("unknown type {}", s),
            },
            Tok::P(b'[') => {
                let n = self.int(l);
                l.eat_id("x");
                let t = self.ty(file, l);
                l.want(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                if l.is(b'{') {
                    l.next();
                    let f = self.tys(file, l, b'}');
                    l.want(b'>');
                    return Ty::mk_struct(f, true);
                }
                let n = self.int(l);
                l.eat_id("x");
                let t = self.ty(file, l);
                l.want(b'>');
                Ty::Vec(n as u32, Rc::new(t))
            }
            Tok::P(b'{') => {
                let f = self.tys(file, l, b'}');
                Ty::mk_struct(f, false)
            }
            Tok::Local(n) => {
                if let Some(t) = self.files[file as usize].tycache.borrow().get(&n) {
                    return t.clone();
                }
                let off = *self.files[file as usize].types.get(n.as_str()).unwrap_or_else(|| panic!("type %{}", n));
                let mut l2 = Lex::new(self.files[file as usize].text, off);
                let t = self.ty(file, &mut l2);
                self.files[file as usize].tycache.borrow_mut().insert(n, t.clone());
                t
            }
            t => panic!("type expected, got {:?}", t),
        }
    }
    fn tys(&self, file: u32, l: &mut Lex, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        while !l.eat(end) {
            v.push(self.ty(file, l));
            l.eat(b',');
        }
        v
    }
    fn int(&self, l: &mut Lex) -> u64 {
        match l.next() {
            Tok::Int(s) => s.parse().unwrap(),
            t => panic!("int expected, got {:?}", t),
        }
    }

    // ---- constants ----
    pub fn konst(&mut self, file: u32, ty: &Ty, l: &mut Lex) -> K {
        match l.next() {
            Tok::Int(s) => K::I(parse_int(&s) & mask(ty.bits().max(1))),
            Tok::Flt(s) => K::I(parse_flt(&s, ty)),
            Tok::Global(n) => K::I(self.sym_addr(file, &n)),
            Tok::Str(b) => K::Bytes(Rc::new(b)),
            Tok::P(b'[') => {
                let e = ty.elem();
                let mut v = vec![];
                while !l.eat(b']') {
                    self.ty(file, l);
                    v.push(self.konst(file, &e, l));
                    l.eat(b',');
                }
                K::Agg(Rc::new(v))
            }
            Tok::P(b'{') => self.kstruct(file, l, b'}'),
            Tok::P(b'<') => {
                if l.is(b'{') {
                    l.next();
                    let k = self.kstruct(file, l, b'}');
                    l.want(b'>');
                    return k;
                }
                self.kstruct(file, l, b'>')
            }
            Tok::Id(s) => match s {
                "null" | "false" | "none" => K::I(0),
                "true" => K::I(1),
                "zeroinitializer" => K::Zero(ty.clone()),
                "undef" | "poison" => {
                    if ty.bits() > 0 { K::I(0) } else { K::Undef(ty.clone()) }
                }
                "getelementptr" => {
                    while matches!(l.id(), "inbounds" | "nuw" | "nusw") {
                        l.next();
                    }
                    l.want(b'(');
                    let bt = self.ty(file, l);
                    l.want(b',');
                    let pt = self.ty(file, l);
                    let base = self.kint(file, &pt, l);
                    let mut addr = base as u64;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while l.eat(b',') {
                        if l.id() == "inrange" {
                            l.next();
                            if l.is(b'(') {
                                l.skip_parens();
                            }
                        }
                        let it = self.ty(file, l);
                        let iv = self.kint(file, &it, l);
                        let ix = crate::term::sx(iv, it.bits()) as i64;
                        if first {
                            addr = addr.wrapping_add((ix as u64).wrapping_mul(bt.size()));
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(_) => {
                                    let (t, o) = cur.index(ix as u64);
                                    addr = addr.wrapping_add(o);
                                    cur = t;
                                }
                                _ => {
                                    let e = cur.elem();
                                    addr = addr.wrapping_add((ix as u64).wrapping_mul(e.size()));
                                    cur = e;
                                }
                            }
                        }
                    }
                    l.want(b')');
                    K::I(addr as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    l.want(b'(');
                    let ft = self.ty(file, l);
                    let v = self.kint(file, &ft, l);
                    assert!(l.eat_id("to"));
                    let tt = self.ty(file, l);
                    l.want(b')');
                    K::I(v & mask(tt.bits()))
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    while matches!(l.id(), "nuw" | "nsw") {
                        l.next();
                    }
                    l.want(b'(');
                    let t1 = self.ty(file, l);
                    let a = self.kint(file, &t1, l);
                    l.want(b',');
                    let t2 = self.ty(file, l);
                    let b = self.kint(file, &t2, l);
                    l.want(b')');
                    let r = match s {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        _ => a << b,
                    };
                    K::I(r & mask(t1.bits()))
                }
                "splat" => {
                    l.want(b'(');
                    let e = self.ty(file, l);
                    let k = self.konst(file, &e, l);
                    l.want(b')');
                    K::Agg(Rc::new(vec![k; ty.lanes() as usize]))
                }
                _ => panic!("constant {:?} at {}", s, &l.s[l.tok_start..(l.tok_start + 100).min(l.s.len())]),
            },
            t => panic!("constant expected, got {:?} at {}", t, &l.s[l.tok_start..(l.tok_start + 100).min(l.s.len())]),
        }
    }
    fn kint(&mut self, file: u32, ty: &Ty, l: &mut Lex) -> u128 {
        match self.konst(file, ty, l) {
            K::I(v) => v,
            K::Zero(_) | K::Undef(_) => 0,
            k => panic!("scalar constant expected: {:?}", k),
        }
    }
    fn kstruct(&mut self, file: u32, l: &mut Lex, end: u8) -> K {
        let mut v = vec![];
        while !l.eat(end) {
            let t = self.ty(file, l);
            v.push(self.konst(file, &t, l));
            l.eat(b',');
        }
        K::Agg(Rc::new(v))
    }
    /// (type, initializer, constant?) of a global
    pub fn glob_init(&mut self, gid: u32) -> (Ty, Option<K>, bool) {
        let (f, o) = match self.globs[gid as usize].def {
            Some(d) => d,
            None => return (Ty::Arr(4096, Rc::new(Ty::Int(8))), None, false),
        };
        let mut l = Lex::new(self.files[f as usize].text, o);
        l.next(); // @name
        l.want(b'=');
        let mut constant = false;
        loop {
            match l.id() {
                "constant" => {
                    l.next();
                    constant = true;
                    break;
                }
                "global" => {
                    l.next();
                    break;
                }
                "thread_local" => {
                    l.next();
                    if l.is(b'(') {
                        l.skip_parens();
                    }
                }
                "" => panic!("global {} {:?}", self.globs[gid as usize].name, l.tok),
                _ => {
                    l.next();
                }
            }
        }
        let ty = self.ty(f, &mut l);
        let k = self.konst(f, &ty, &mut l);
        (ty, Some(k), constant)
    }

    // ---- functions ----
    pub fn body(&mut self, fid: u32) -> Option<Rc<Func>> {
        if let Some(b) = &self.fns[fid as usize].body {
            return Some(b.clone());
        }
        let (f, o) = self.fns[fid as usize].def?;
        let r = Rc::new(FnParser { p: self, file: f, l: Lex::new("", 0), regs: HashMap::new(), labels: HashMap::new(), nregs: 0 }.parse(fid, o));
        self.fns[fid as usize].body = Some(r.clone());
        Some(r)
    }
}
pub fn parse_int(s: &str) -> u128 {
    if let Some(t) = s.strip_prefix('-') {
        // may exceed i128 only for wider types
        t.parse::<u128>().unwrap_or(0).wrapping_neg()
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("integer constant {}", s))
    }
}
fn parse_flt(s: &str, ty: &Ty) -> u128 {
    let v = if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float {}", s)))
    } else {
        s.parse::<f64>().unwrap()
    };
    match ty {
        Ty::F32 => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    }
}
fn memchr(b: &[u8], from: usize, c: u8) -> Option<usize> {
    b[from..].iter().position(|x| *x == c).map(|p| p + from)
}
fn memfind(b: &[u8], from: usize, pat: &[u8]) -> Option<usize> {
    let mut i = from;
    while let Some(p) = memchr(b, i, pat[0]) {
        if b[p..].starts_with(pat) {
            return Some(p);
        }
        i = p + 1;
    }
    None
}

struct FnParser<'a> {
    p: &'a mut Program,
    file: u32,
    l: Lex,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nregs: u32,
}
impl<'a> FnParser<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let nr = &mut self.nregs;
        *self.regs.entry(n).or_insert_with(|| {
            *nr += 1;
            *nr - 1
        })
    }
    fn label(&mut self, n: String) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn ty(&mut self) -> Ty {
        self.p.ty(self.file, &mut self.l)
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Tok::Local(n) = &self.l.tok {
            let n = n.clone();
            self.l.next();
            return Opd::R(self.reg(n));
        }
        match self.p.konst(self.file, ty, &mut self.l) {
            K::I(v) => Opd::C(v),
            K::Zero(t) if t.bits() > 0 => Opd::C(0),
            K::Undef(t) if t.bits() > 0 => Opd::C(0),
            k => Opd::K(k),
        }
    }
    fn top(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        let o = self.opd(&t);
        (t, o)
    }
    fn lab(&mut self) -> u32 {
        assert!(self.l.eat_id("label"), "label expected {:?}", self.l.tok);
        match self.l.next() {
            Tok::Local(n) => self.label(n),
            t => panic!("label {:?}", t),
        }
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) -> bool {
        let mut sret = false;
        loop {
            match &self.l.tok {
                Tok::Id(s) => {
                    let s = *s;
                    match s {
                        "noundef" | "zeroext" | "signext" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "nonnull" | "returned" | "immarg" | "inreg" | "nest" | "nofree" | "swiftself" | "allocalign" | "allocptr" | "noext" | "dead_on_unwind" | "writable" => {
                            self.l.next();
                        }
                        "align" => {
                            self.l.next();
                            if self.l.is(b'(') {
                                self.l.skip_parens();
                            } else {
                                self.l.next();
                            }
                        }
                        "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "elementtype" | "memory" | "captures" | "range" | "initializes" | "nofpclass" => {
                            if s == "sret" {
                                sret = true;
                            }
                            self.l.next();
                            if self.l.is(b'(') {
                                self.l.skip_parens();
                            }
                        }
                        _ => return sret,
                    }
                }
                Tok::Str(_) => {
                    self.l.next();
                    if self.l.eat(b'=') {
                        self.l.next();
                    }
                }
                _ => return sret,
            }
        }
    }
    fn parse(mut self, fid: u32, off: usize) -> Func {
        self.l = Lex::new(self.p.files[self.file as usize].text, off);
        // header up to '@'
        while !matches!(self.l.tok, Tok::Global(_)) {
            self.l.next();
        }
        let name = match self.l.next() {
            Tok::Global(n) => n,
            _ => unreachable!(),
        };
        self.l.want(b'(');
        let mut params = vec![];
        let mut ptys = vec![];
        let mut sret = false;
        while !self.l.eat(b')') {
            if self.l.tok == Tok::Dots {
                self.l.next();
                continue;
            }
            let t = self.ty();
            sret |= self.attrs();
            match self.l.next() {
                Tok::Local(n) => {
                    let r = self.reg(n);
                    params.push(r);
                    ptys.push(t);
                }
                t => panic!("param {:?} in {}", t, name),
            }
            self.l.eat(b',');
        }
        while !self.l.is(b'{') {
            self.l.next();
        }
        self.l.next();
        let mut blocks: Vec<Block> = vec![];
        let mut order: Vec<u32> = vec![];
        if !matches!(self.l.tok, Tok::Label(_)) {
            // implicit entry label: the number after the numbered parameters
            let cnt = self.regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
            let id = self.label(cnt.to_string());
            order.push(id);
            blocks.push(Block { phis: vec![], ins: vec![], name: cnt.to_string() });
        }
        loop {
            match &self.l.tok {
                Tok::P(b'}') => break,
                Tok::Label(n) => {
                    let n = n.clone();
                    self.l.next();
                    let id = self.label(n.clone());
                    order.push(id);
                    blocks.push(Block { phis: vec![], ins: vec![], name: n });
                }
                _ => {
                    let (phi, ins) = self.instr();
                    let b = blocks.last_mut().unwrap();
                    if let Some(p) = phi {
                        b.phis.push(p);
                    } else {
                        b.ins.push(ins);
                    }
                }
            }
        }
        // reorder so that block index == label id
        let n = self.labels.len();
        let mut out: Vec<Option<Block>> = (0..n).map(|_| None).collect();
        let entry = order[0];
        for (id, b) in order.iter().zip(blocks) {
            out[*id as usize] = Some(b);
        }
        let mut blocks: Vec<Block> = out.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![I::Unreachable], name: String::new() })).collect();
        if entry != 0 {
            // entry must be index 0: add a trampoline by swapping ids
            remap(&mut blocks, entry);
        }
        Func { id: fid, name, params, nregs: self.nregs, blocks, ptys, sret }
    }
    fn tail(&mut self) {
        // trailing attribute groups / metadata
        loop {
            match &self.l.tok {
                Tok::Attr => {
                    self.l.next();
                }
                Tok::Meta => {
                    self.l.next();
                }
                Tok::P(b',') => {
                    // `, !x !1` or `, align n`
                    self.l.next();
                    match &self.l.tok {
                        Tok::Meta => {
                            self.l.next();
                        }
                        Tok::Id("align") => {
                            self.l.next();
                            self.l.next();
                        }
                        Tok::Id("addrspace") => {
                            self.l.next();
                            self.l.skip_parens();
                        }
                        t => panic!("trailing {:?}", t),
                    }
                }
                _ => return,
            }
        }
    }
    fn instr(&mut self) -> (Option<(u32, Vec<(u32, Opd)>)>, I) {
        let mut d: Option<u32> = None;
        if let Tok::Local(n) = &self.l.tok {
            let n = n.clone();
            self.l.next();
            self.l.want(b'=');
            d = Some(self.reg(n));
        }
        let op = self.l.id();
        if op.is_empty() {
            panic!("instruction expected {:?} at {}", self.l.tok, &self.l.s[self.l.tok_start..(self.l.tok_start + 100).min(self.l.s.len())]);
        }
        self.l.next();
        let dd = d.unwrap_or(0);
        let r = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let (mut nuw, mut nsw) = (false, false);
                loop {
                    match self.l.id() {
                        "nuw" => nuw = true,
                        "nsw" => nsw = true,
                        "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {}
                        _ => break,
                    }
                    self.l.next();
                }
                let (ty, a) = self.top();
                self.l.want(b',');
                let b = self.opd(&ty);
                use BOp::*;
                let op = match op { "add" => Add, "sub" => Sub, "mul" => Mul, "udiv" => UDiv, "sdiv" => SDiv, "urem" => URem, "srem" => SRem, "and" => And, "or" => Or, "xor" => Xor, "shl" => Shl, "lshr" => LShr, "ashr" => AShr, "fadd" => FAdd, "fsub" => FSub, "fmul" => FMul, "fdiv" => FDiv, _ => FRem };
                I::Bin { op, ty, d: dd, a, b, nuw, nsw }
            }
            "fneg" => {
                let (ty, a) = self.top();
                I::FNeg { ty, d: dd, a }
            }
            "icmp" | "fcmp" => {
                while matches!(self.l.id(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "samesign") {
                    self.l.next();
                }
                let p = self.l.id();
                self.l.next();
                let (ty, a) = self.top();
                self.l.want(b',');
                let b = self.opd(&ty);
                if op == "icmp" { I::ICmp { p, ty, d: dd, a, b } } else { I::FCmp { p, ty, d: dd, a, b } }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while matches!(self.l.id(), "nneg" | "nuw" | "nsw") {
                    self.l.next();
                }
                let (from, a) = self.top();
                assert!(self.l.eat_id("to"));
                let to = self.ty();
                use Cast::*;
                let c = match op { "trunc" => Trunc, "zext" => Zext, "sext" => Sext, "fptrunc" => FpTrunc, "fpext" => FpExt, "fptoui" => FpToUi, "fptosi" => FpToSi, "uitofp" => UiToFp, "sitofp" => SiToFp, "ptrtoint" => PtrToInt, "inttoptr" => IntToPtr, _ => Bitcast };
                I::Cast { c, from, to, d: dd, a }
            }
            "select" => {
                while matches!(self.l.id(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.l.next();
                }
                let (cty, c) = self.top();
                self.l.want(b',');
                let (ty, a) = self.top();
                self.l.want(b',');
                let (_, b) = self.top();
                I::Select { ty, cty, d: dd, c, a, b }
            }
            "phi" => {
                while matches!(self.l.id(), "fast" | "nnan" | "ninf" | "nsz") {
                    self.l.next();
                }
                let ty = self.ty();
                let mut v = vec![];
                loop {
                    self.l.want(b'[');
                    let o = self.opd(&ty);
                    self.l.want(b',');
                    let lb = match self.l.next() {
                        Tok::Local(n) => self.label(n),
                        t => panic!("phi {:?}", t),
                    };
                    self.l.want(b']');
                    v.push((lb, o));
                    if self.l.is(b',') {
                        // either another entry or metadata
                        let save = (self.l.i, self.l.tok.clone(), self.l.tok_start);
                        self.l.next();
                        if self.l.is(b'[') {
                            continue;
                        }
                        self.l.i = save.0;
                        self.l.tok = save.1;
                        self.l.tok_start = save.2;
                    }
                    break;
                }
                self.tail();
                return (Some((dd, v)), I::Nop);
            }
            "load" => {
                while matches!(self.l.id(), "atomic" | "volatile") {
                    self.l.next();
                }
                let ty = self.ty();
                self.l.want(b',');
                let (_, p) = self.top();
                self.order();
                I::Load { ty, d: dd, p }
            }
            "store" => {
                while matches!(self.l.id(), "atomic" | "volatile") {
                    self.l.next();
                }
                let (ty, v) = self.top();
                self.l.want(b',');
                let (_, p) = self.top();
                self.order();
                I::Store { ty, v, p }
            }
            "alloca" => {
                self.l.eat_id("inalloca");
                let ty = self.ty();
                let mut n = Opd::C(1);
                if self.l.is(b',') {
                    let save = (self.l.i, self.l.tok.clone(), self.l.tok_start);
                    self.l.next();
                    if matches!(self.l.tok, Tok::Id(s) if s.starts_with('i') && s != "inalloca") {
                        n = self.top().1;
                    } else {
                        self.l.i = save.0;
                        self.l.tok = save.1;
                        self.l.tok_start = save.2;
                    }
                }
                I::Alloca { d: dd, size: ty.size(), n }
            }
            "getelementptr" => {
                while matches!(self.l.id(), "inbounds" | "nuw" | "nusw") {
                    self.l.next();
                }
                let bt = self.ty();
                self.l.want(b',');
                let (pt, base) = self.top();
                let mut lanes = pt.lanes();
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while self.l.is(b',') {
                    let save = (self.l.i, self.l.tok.clone(), self.l.tok_start);
                    self.l.next();
                    if self.l.tok == Tok::Meta {
                        self.l.i = save.0;
                        self.l.tok = save.1;
                        self.l.tok_start = save.2;
                        break;
                    }
                    let (it, io) = self.top();
                    lanes = lanes.max(it.lanes());
                    let iw = it.elem().bits();
                    if first {
                        first = false;
                        match &io {
                            Opd::C(v) => off = off.wrapping_add((crate::term::sx(*v, iw) as i64 as u64).wrapping_mul(bt.size())),
                            _ => idx.push((io, bt.size(), iw)),
                        }
                    } else {
                        match (&cur, &io) {
                            (Ty::Struct(_), Opd::C(v)) => {
                                let (t, o) = cur.index(*v as u64);
                                off = off.wrapping_add(o);
                                cur = t;
                            }
                            _ => {
                                let e = cur.elem();
                                match &io {
                                    Opd::C(v) => off = off.wrapping_add((crate::term::sx(*v, iw) as i64 as u64).wrapping_mul(e.size())),
                                    _ => idx.push((io, e.size(), iw)),
                                }
                                cur = e;
                            }
                        }
                    }
                }
                I::Gep { d: dd, base, off, idx, lanes }
            }
            "extractvalue" => {
                let (_, a) = self.top();
                let path = self.path();
                I::Extract { d: dd, a, path }
            }
            "insertvalue" => {
                let (_, a) = self.top();
                self.l.want(b',');
                let (_, v) = self.top();
                let path = self.path();
                I::Insert { d: dd, a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.top();
                self.l.want(b',');
                let (_, i) = self.top();
                I::ExtElem { d: dd, a, i }
            }
            "insertelement" => {
                let (_, a) = self.top();
                self.l.want(b',');
                let (_, v) = self.top();
                self.l.want(b',');
                let (_, i) = self.top();
                I::InsElem { d: dd, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.top();
                self.l.want(b',');
                let (_, b) = self.top();
                self.l.want(b',');
                let (mt, m) = self.top();
                let n = t.lanes();
                let ml = mt.lanes();
                let m = match m {
                    Opd::K(K::Agg(v)) => v.iter().map(|k| match k { K::I(x) => *x as i32, _ => 0 }).collect(),
                    _ => vec![0; ml as usize],
                };
                I::Shuffle { d: dd, a, b, m, n }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if matches!(op, "tail" | "musttail" | "notail") {
                    self.l.next();
                }
                return (None, self.call(d, op == "invoke"));
            }
            "atomicrmw" => {
                self.l.eat_id("volatile");
                let o = self.l.id().to_string();
                self.l.next();
                let (_, p) = self.top();
                self.l.want(b',');
                let (ty, v) = self.top();
                self.order();
                I::Rmw { op: o, ty, d: dd, p, v }
            }
            "cmpxchg" => {
                while matches!(self.l.id(), "weak" | "volatile") {
                    self.l.next();
                }
                let (_, p) = self.top();
                self.l.want(b',');
                let (ty, c) = self.top();
                self.l.want(b',');
                let (_, n) = self.top();
                self.order();
                I::CmpXchg { ty, d: dd, p, c, n }
            }
            "fence" => {
                self.order();
                I::Nop
            }
            "freeze" => {
                let (_, a) = self.top();
                I::Copy { d: dd, a }
            }
            "va_arg" => panic!("va_arg"),
            "landingpad" => {
                self.ty();
                loop {
                    match self.l.id() {
                        "cleanup" => {
                            self.l.next();
                        }
                        "catch" | "filter" => {
                            self.l.next();
                            self.top();
                        }
                        _ => break,
                    }
                }
                I::Unreachable
            }
            "resume" => {
                self.top();
                I::Resume
            }
            "br" => {
                if self.l.id() == "label" {
                    let t = self.lab();
                    I::Br(t)
                } else {
                    let (_, c) = self.top();
                    self.l.want(b',');
                    let t = self.lab();
                    self.l.want(b',');
                    let f = self.lab();
                    I::CBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.top();
                self.l.want(b',');
                let def = self.lab();
                self.l.want(b'[');
                let mut cases = vec![];
                while !self.l.eat(b']') {
                    let (_, k) = self.top();
                    self.l.want(b',');
                    let lb = self.lab();
                    match k {
                        Opd::C(x) => cases.push((x, lb)),
                        _ => panic!("switch case"),
                    }
                }
                I::Switch { w: t.bits(), v, def, cases }
            }
            "ret" => {
                if self.l.eat_id("void") {
                    I::Ret(None)
                } else {
                    let (_, v) = self.top();
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "cleanupret" | "catchpad" | "cleanuppad" => panic!("{}", op),
            _ => panic!("unknown instruction {} at {}", op, &self.l.s[self.l.tok_start..(self.l.tok_start + 100).min(self.l.s.len())]),
        };
        self.tail();
        (None, r)
    }
    fn order(&mut self) {
        loop {
            match self.l.id() {
                "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered" => {
                    self.l.next();
                }
                "syncscope" => {
                    self.l.next();
                    self.l.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn path(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.l.is(b',') {
            let save = (self.l.i, self.l.tok.clone(), self.l.tok_start);
            self.l.next();
            match &self.l.tok {
                Tok::Int(s) => {
                    v.push(s.parse().unwrap());
                    self.l.next();
                }
                _ => {
                    self.l.i = save.0;
                    self.l.tok = save.1;
                    self.l.tok_start = save.2;
                    break;
                }
            }
        }
        v
    }
    fn call(&mut self, d: Option<u32>, invoke: bool) -> I {
        // calling conventions and return attributes
        loop {
            match self.l.id() {
                "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" | "swiftcc" => {
                    self.l.next();
                }
                "cc" => {
                    self.l.next();
                    self.l.next();
                }
                _ => break,
            }
        }
        self.attrs();
        let ret = self.ty();
        if self.l.is(b'(') {
            // full function type
            self.l.skip_parens();
        }
        let f = match self.l.tok.clone() {
            Tok::Global(n) => {
                self.l.next();
                match self.p.resolve(self.file, &n) {
                    SymKind::Func(i) => Callee::Direct(i),
                    SymKind::Data(_) => panic!("call of data {}", n),
                }
            }
            Tok::Local(n) => {
                self.l.next();
                Callee::Ind(Opd::R(self.reg(n)))
            }
            Tok::Id("asm") => {
                self.l.next();
                while !matches!(self.l.tok, Tok::P(b'(')) {
                    self.l.next();
                }
                Callee::Asm
            }
            _ => {
                let k = self.p.konst(self.file, &Ty::Ptr, &mut self.l);
                match k {
                    K::I(v) => Callee::Ind(Opd::C(v)),
                    _ => panic!("callee"),
                }
            }
        };
        self.l.want(b'(');
        let mut args = vec![];
        let mut atys = vec![];
        while !self.l.eat(b')') {
            let t = self.ty();
            self.attrs();
            if matches!(t, Ty::Other) {
                // metadata / token argument
                let mut depth = 0;
                loop {
                    match &self.l.tok {
                        Tok::P(b'(') => depth += 1,
                        Tok::P(b')') if depth == 0 => break,
                        Tok::P(b')') => depth -= 1,
                        Tok::P(b',') if depth == 0 => break,
                        _ => {}
                    }
                    self.l.next();
                }
                args.push(Opd::C(0));
                atys.push(Ty::Int(64));
            } else {
                let o = self.opd(&t);
                args.push(o);
                atys.push(t);
            }
            self.l.eat(b',');
        }
        // function attributes, operand bundles
        loop {
            match &self.l.tok {
                Tok::Attr => {
                    self.l.next();
                }
                Tok::P(b'[') => {
                    while !self.l.eat(b']') {
                        self.l.next();
                    }
                }
                Tok::Id("nounwind") | Tok::Id("noreturn") => {
                    self.l.next();
                }
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            assert!(self.l.eat_id("to"), "invoke to {:?}", self.l.tok);
            normal = Some(self.lab());
            assert!(self.l.eat_id("unwind"));
            self.lab();
        }
        self.tail();
        I::Call { d: if matches!(ret, Ty::Void) { None } else { d }, ret, f, args, atys, normal }
    }
}
fn remap(blocks: &mut Vec<Block>, entry: u32) {
    blocks.swap(0, entry as usize);
    let m = |x: u32| if x == 0 { entry } else if x == entry { 0 } else { x };
    for b in blocks.iter_mut() {
        for p in b.phis.iter_mut() {
            for e in p.1.iter_mut() {
                e.0 = m(e.0);
            }
        }
        for i in b.ins.iter_mut() {
            match i {
                I::Br(t) => *t = m(*t),
                I::CBr { t, f, .. } => {
                    *t = m(*t);
                    *f = m(*f);
                }
                I::Switch { def, cases, .. } => {
                    *def = m(*def);
                    for c in cases {
                        c.1 = m(c.1);
                    }
                }
                I::Call { normal: Some(n), .. } => *n = m(*n),
                _ => {}
            }
        }
    }
}
