//! Symbolic executor over the IR.
use crate::big::Big;
use crate::eval::{self, Model, EV};
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    T(T),
    A(Rc<Vec<V>>),
}
pub enum Stop {
    /// path ended: aborted transaction (panic), false assumption, infeasible
    Dead(&'static str),
    /// need to case split on these (constraint, substitution) alternatives and re-execute
    Split(Vec<(T, Option<(T, u128)>)>),
    Err(String),
}
type Res<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
    pub allocas: Vec<u32>,
}
pub struct MModel {
    pub m: Model,
    memo: std::cell::RefCell<HashMap<T, Option<EV>, BuildFx>>,
}
impl MModel {
    pub fn new(m: Model) -> Rc<MModel> {
        Rc::new(MModel { m, memo: std::cell::RefCell::new(HashMap::with_hasher(BuildFx)) })
    }
    pub fn eval(&self, t: T) -> Option<EV> {
        eval::eval_memo(t, &self.m, &mut self.memo.borrow_mut())
    }
    pub fn truth(&self, t: T) -> Option<bool> {
        match self.eval(t) {
            Some(EV::B(x)) => Some(x == 1),
            _ => None,
        }
    }
    pub fn bits(&self, t: T) -> Option<u128> {
        match self.eval(t) {
            Some(EV::B(x)) => Some(x),
            _ => None,
        }
    }
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Rc<Vec<Option<Rc<Obj>>>>,
    pub globs: Rc<HashMap<u32, Rc<Obj>>>,
    pub pc: Vec<T>,
    pub facts: Rc<HashMap<T, bool, BuildFx>>,
    pub conc: Rc<HashMap<T, u128, BuildFx>>,
    pub model: Option<Rc<MModel>>,
    pub counts: Rc<HashMap<String, u32>>,
    pub panic_mode: String,
    pub depth: u32,
}
pub struct CheckJob {
    pub id: String,
    pub neg: T,
    pub pc: Vec<T>,
    pub conj: Vec<T>,
    pub model: Option<Rc<MModel>>,
    pub stage: u8,
}
#[derive(Default, Clone)]
pub struct CheckStat {
    pub occurrences: u64,
    pub folded: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub max: Duration,
    pub tools: BTreeMap<String, u64>,
}
pub struct Violation {
    pub id: String,
    pub inputs: BTreeMap<String, u128>,
    pub panic: bool,
}
pub struct Opts {
    pub branch_ms: u64,
    pub check_ms: u64,
    pub max_instr: u64,
    pub max_paths: u64,
    pub par: usize,
    pub deadline: Option<Instant>,
    pub verbose: bool,
    pub concrete: Option<HashMap<String, u128>>,
    pub dump: Option<String>,
    pub stop_on_first: bool,
    pub search_ms: u64,
}
pub struct Exec {
    pub p: Program,
    pub o: Opts,
    ginit: HashMap<u32, Rc<Obj>>,
    pub inputs: HashMap<String, T>,
    pub input_names: Vec<(String, u32)>, // by var index
    vars_memo: HashMap<T, Rc<Vec<u32>>, BuildFx>,
    cache: HashMap<Vec<T>, Option<Option<Rc<MModel>>>>, // Some(None)=unsat, Some(Some)=sat, None=unknown
    pub solver: Persist,
    pub stats: BTreeMap<String, CheckStat>,
    pub reached: BTreeMap<String, Option<BTreeMap<String, u128>>>,
    pub fns_run: BTreeSet<u32>,
    pub n_instr: u64,
    pub n_paths: u64,
    pub n_dead: BTreeMap<String, u64>,
    pub n_unknown_branch: u64,
    pub n_fork: u64,
    pub violations: Vec<Violation>,
    pub undecided: Vec<String>,
    jobs: HashMap<usize, CheckJob>,
    next_job: usize,
    tx: mpsc::Sender<(usize, JobResult)>,
    rx: mpsc::Receiver<(usize, JobResult)>,
    sem: Arc<Sem>,
    pub job_queries: u64,
    pub job_time: Duration,
    checked: HashMap<(T, Vec<T>), bool>,
    pub assumed_away: HashSet<String>,
    pub fork_sites: BTreeMap<String, u64>,
    pub n_pruned: u64,
    abort_bb: HashMap<(u32, u32), bool>,
    rnd: crate::search::Rnd,
    pub search_time: Duration,
    pub n_search: u64,
    pub n_search_ok: u64,
    pub qlog: Vec<String>,
    cur_site: String,
}

pub const K_BODY: u32 = 1;
const HEAP_BASE: u64 = 1;

fn merge_models(a: &Model, b: &Model) -> Model {
    let mut m = a.clone();
    for (k, v) in b {
        m.insert(*k, *v);
    }
    m
}

impl Exec {
    pub fn new(p: Program, o: Opts) -> Exec {
        let (tx, rx) = mpsc::channel();
        let sem = Arc::new(Sem::new(o.par));
        Exec {
            p,
            o,
            ginit: HashMap::new(),
            inputs: HashMap::new(),
            input_names: vec![],
            vars_memo: HashMap::with_hasher(BuildFx),
            cache: HashMap::new(),
            solver: Persist::new(),
            stats: BTreeMap::new(),
            reached: BTreeMap::new(),
            fns_run: BTreeSet::new(),
            n_instr: 0,
            n_paths: 0,
            n_dead: BTreeMap::new(),
            n_unknown_branch: 0,
            n_fork: 0,
            violations: vec![],
            undecided: vec![],
            jobs: HashMap::new(),
            next_job: 0,
            tx,
            rx,
            sem,
            job_queries: 0,
            job_time: Duration::ZERO,
            checked: HashMap::new(),
            assumed_away: HashSet::new(),
            fork_sites: BTreeMap::new(),
            n_pruned: 0,
            abort_bb: HashMap::new(),
            rnd: crate::search::Rnd(0x9E3779B97F4A7C15),
            search_time: Duration::ZERO,
            n_search: 0,
            n_search_ok: 0,
            qlog: vec![],
            cur_site: String::new(),
        }
    }

    // ------------------------------------------------------------ solver side
    pub fn vars_of(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&t) {
            return v.clone();
        }
        // iterative post-order
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.vars_memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = cx().n(x);
            let mut ready = true;
            for k in [n.a, n.b, n.c] {
                if k != 0 && !self.vars_memo.contains_key(&k) {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let r = if n.op == Op::Var {
                Rc::new(vec![n.k as u32])
            } else {
                let kids: Vec<Rc<Vec<u32>>> = [n.a, n.b, n.c].iter().filter(|k| **k != 0).map(|k| self.vars_memo[k].clone()).collect();
                match kids.len() {
                    0 => Rc::new(vec![]),
                    1 => kids[0].clone(),
                    _ => {
                        let big = kids.iter().max_by_key(|k| k.len()).unwrap().clone();
                        let mut s: BTreeSet<u32> = big.iter().copied().collect();
                        let n0 = s.len();
                        for k in &kids {
                            s.extend(k.iter().copied());
                        }
                        if s.len() == n0 { big } else { Rc::new(s.into_iter().collect()) }
                    }
                }
            };
            self.vars_memo.insert(x, r);
        }
        self.vars_memo[&t].clone()
    }
    pub fn slice(&mut self, pc: &[T], t: T) -> Vec<T> {
        let mut vs: HashSet<u32> = self.vars_of(t).iter().copied().collect();
        let pv: Vec<Rc<Vec<u32>>> = pc.iter().map(|x| self.vars_of(*x)).collect();
        let mut inn = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !inn[i] && pv[i].iter().any(|v| vs.contains(v)) {
                    inn[i] = true;
                    ch = true;
                    vs.extend(pv[i].iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<T> = (0..pc.len()).filter(|i| inn[*i]).map(|i| pc[i]).collect();
        r.push(t);
        r.sort_unstable();
        r.dedup();
        r
    }
    /// None: unknown; Some(None): infeasible; Some(Some(m)): feasible with a model of the slice
    fn query(&mut self, conj: Vec<T>, ms: u64, base: Option<&Rc<MModel>>) -> Option<Option<Rc<MModel>>> {
        if conj.contains(&FALSE) {
            return Some(None);
        }
        if let Some(r) = self.cache.get(&conj) {
            return r.clone();
        }
        let q = encode_int(&conj);
        let tq = Instant::now();
        // first a short solver call, then a search for a model, then the solver with its full budget
        let mut a = Ans::Unknown;
        let mut opaque = false;
        if q.nonlin && ms > 40 {
            a = self.solver.ask(&q, 25);
            if matches!(a, Ans::Unknown) {
                let t1 = Instant::now();
                let f = crate::search::search(&conj, base.map(|b| &b.m), self.o.search_ms, &mut self.rnd);
                self.search_time += t1.elapsed();
                self.n_search += 1;
                if let Some(m) = f {
                    let mm = MModel::new(m);
                    if conj.iter().all(|t| mm.truth(*t) == Some(true)) {
                        self.n_search_ok += 1;
                        if self.o.dump.is_some() {
                            self.qlog.push(format!("{:?} found conj={} bytes={} at {}", tq.elapsed(), conj.len(), q.text.len(), self.cur_site));
                        }
                        let r = Some(Some(mm));
                        self.cache.insert(conj, r.clone());
                        return r;
                    }
                }
                opaque = true;
            }
        }
        if matches!(a, Ans::Unknown) {
            a = self.solver.ask(&q, ms);
        }
        let _ = opaque;
        if let Some(d) = &self.o.dump {
            if std::env::var("RSYM_DUMPALL").is_ok() || tq.elapsed() > Duration::from_millis(200) {
                let n = self.solver.queries;
                let _ = std::fs::write(format!("{}/b{}.smt2", d, n), format!("; {:?}\n{}(check-sat)\n", tq.elapsed(), q.text));
            }
        }
        let mut r = match a {
            Ans::Unsat => Some(None),
            Ans::Sat(m) => {
                let mm = MModel::new(m);
                if conj.iter().all(|t| mm.truth(*t) == Some(true)) { Some(Some(mm)) } else { if !q.abs { eprintln!("warning: model does not validate"); self.dump_bad(&conj, &mm, &q); } None }
            }
            Ans::Unknown => None,
        };
        if r.is_none() && (q.abs || !q.nonlin) {
            if let Some(q) = encode_bv(&conj) {
                r = match self.solver.ask(&q, ms * 2) {
                    Ans::Unsat => Some(None),
                    Ans::Sat(m) => {
                        let mm = MModel::new(m);
                        if conj.iter().all(|t| mm.truth(*t) == Some(true)) { Some(Some(mm)) } else { None }
                    }
                    Ans::Unknown => None,
                };
            }
        }
        if self.o.dump.is_some() {
            let kind = match &r { None => "unknown", Some(None) => "unsat", _ => "sat" };
            self.qlog.push(format!("{:?} {} conj={} nonlin={} abs={} bytes={} at {}", tq.elapsed(), kind, conj.len(), q.nonlin, q.abs, q.text.len(), self.cur_site));
        }
        self.cache.insert(conj, r.clone());
        r
    }
    fn dump_bad(&self, conj: &[T], mm: &MModel, q: &Query) {
        if let Some(d) = &self.o.dump {
            let _ = std::fs::write(format!("{}/badmodel.smt2", d), &q.text);
            for t in conj {
                if mm.truth(*t) != Some(true) {
                    eprintln!("  {:?}: {}", mm.truth(*t), show(*t, 6));
                }
            }
        }
    }
    /// can `t` hold on this path? Returns the model to continue with.
    fn feasible(&mut self, st: &State, t: T) -> Option<Option<Rc<MModel>>> {
        if t == FALSE {
            return Some(None);
        }
        if let Some(m) = &st.model {
            if m.truth(t) == Some(true) {
                return Some(Some(m.clone()));
            }
        }
        let conj = self.slice(&st.pc, t);
        let ms = self.o.branch_ms;
        match self.query(conj, ms, st.model.as_ref()) {
            Some(Some(m)) => Some(Some(match &st.model {
                Some(b) => MModel::new(merge_models(&b.m, &m.m)),
                None => {
                    // only a model of the slice: complete it to the whole path
                    let mut conj = st.pc.clone();
                    conj.push(t);
                    conj.sort_unstable();
                    conj.dedup();
                    if conj.iter().all(|x| m.truth(*x) == Some(true)) { return Some(Some(m)) }
                    match self.query(conj, ms, Some(&m)) {
                        Some(None) => return Some(None),
                        Some(Some(m)) => m,
                        None => return None,
                    }
                }
            })),
            r => r,
        }
    }
    fn add_pc(&mut self, st: &mut State, t: T) {
        if t == TRUE {
            return;
        }
        if st.facts.get(&t) == Some(&true) {
            return;
        }
        self.add_fact(st, t, true);
        // split conjunctions so that facts are visible to the encoder
        let mut work = vec![t];
        while let Some(t) = work.pop() {
            let n = cx().n(t);
            match n.op {
                Op::And => {
                    work.push(n.a);
                    work.push(n.b);
                }
                Op::Not if cx().n(n.a).op == Op::Or => {
                    let o = cx().n(n.a);
                    let a = cx().not(o.a);
                    let b = cx().not(o.b);
                    work.push(a);
                    work.push(b);
                }
                _ => {
                    if t != TRUE && !st.pc.contains(&t) {
                        st.pc.push(t);
                    }
                }
            }
        }
    }
    fn add_fact(&mut self, st: &mut State, t: T, v: bool) {
        let f = Rc::make_mut(&mut st.facts);
        let mut work = vec![(t, v)];
        while let Some((t, v)) = work.pop() {
            if f.insert(t, v) == Some(v) {
                continue;
            }
            let n = cx().n(t);
            match (n.op, v) {
                (Op::Not, _) => work.push((n.a, !v)),
                (Op::And, true) | (Op::Or, false) => {
                    work.push((n.a, v));
                    work.push((n.b, v));
                }
                (Op::Eq, true) => {
                    if let Some(k) = cx().cv(n.b) {
                        if cx().w(n.b) > 1 {
                            Rc::make_mut(&mut st.conc).insert(n.a, k);
                        }
                    }
                }
                (Op::Ult, _) | (Op::Ule, _) | (Op::Slt, _) | (Op::Sle, _) => {
                    let o = match n.op { Op::Ult => Op::Ule, Op::Ule => Op::Ult, Op::Slt => Op::Sle, _ => Op::Slt };
                    let neg = cx().raw(o, 1, n.b, n.a, 0, 0);
                    f.insert(neg, !v);
                }
                _ => {}
            }
            if n.op != Op::Not {
                let c = cx().raw(Op::Not, 1, t, 0, 0, 0);
                f.insert(c, !v);
            }
        }
    }
    fn known(&self, st: &State, t: T) -> Option<bool> {
        match t {
            TRUE => return Some(true),
            FALSE => return Some(false),
            _ => {}
        }
        if let Some(v) = st.facts.get(&t) {
            return Some(*v);
        }
        let n = cx().n(t);
        match n.op {
            Op::And => match (self.known(st, n.a), self.known(st, n.b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.known(st, n.a), self.known(st, n.b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Not => self.known(st, n.a).map(|b| !b),
            _ => None,
        }
    }
    /// alternatives among mutually exclusive conditions that are feasible
    fn choose(&mut self, st: &State, conds: &[T]) -> Vec<(usize, Option<Rc<MModel>>)> {
        if self.o.dump.is_some() {
            let f = st.frames.last().unwrap();
            self.cur_site = format!("{} {}", demangle(&f.f.name), f.f.blocks[f.bb as usize].name);
        }
        let mut out = vec![];
        // the model's own alternative first
        let mut own = None;
        if let Some(m) = &st.model {
            for (i, c) in conds.iter().enumerate() {
                if m.truth(*c) == Some(true) {
                    own = Some(i);
                    break;
                }
            }
        }
        for (i, c) in conds.iter().enumerate() {
            if Some(i) == own {
                out.push((i, st.model.clone()));
                continue;
            }
            if self.known(st, *c) == Some(false) {
                continue;
            }
            if self.known(st, *c) == Some(true) {
                return vec![(i, st.model.clone())];
            }
            match self.feasible(st, *c) {
                Some(None) => {}
                Some(Some(m)) => out.push((i, Some(m))),
                None => {
                    self.n_unknown_branch += 1;
                    out.push((i, None));
                }
            }
        }
        out
    }

    // ------------------------------------------------------------ values
    fn t(&self, v: &V, w: u32) -> T {
        match v {
            V::C(x) => cx().con(w, *x),
            V::T(t) => {
                debug_assert_eq!(cx().w(*t), w);
                *t
            }
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn v(&self, t: T) -> V {
        match cx().cv(t) {
            Some(x) => V::C(x),
            None => V::T(t),
        }
    }
    fn konst(&self, k: &K, ty: Option<&Ty>) -> V {
        match k {
            K::I(v) => V::C(*v),
            K::Agg(a) => V::A(Rc::new(a.iter().map(|x| self.konst(x, None)).collect())),
            K::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            K::Zero(t) | K::Undef(t) => self.zero(t),
        }
        .fix(ty)
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Struct(s) => V::A(Rc::new(s.f.iter().map(|f| self.zero(f)).collect())),
            Ty::Arr(n, e) => V::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Vec(n, e) => V::A(Rc::new(vec![self.zero(e); *n as usize])),
            _ => V::C(0),
        }
    }
    #[inline]
    fn op(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::C(v) => V::C(*v),
            Opd::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                match v {
                    V::T(t) => {
                        if let Some(k) = st.conc.get(t) {
                            return V::C(*k);
                        }
                        if cx().w(*t) == 1 {
                            if let Some(b) = st.facts.get(t) {
                                return V::C(*b as u128);
                            }
                        }
                        v.clone()
                    }
                    _ => v.clone(),
                }
            }
            Opd::K(k) => self.konst(k, None),
        }
    }
    fn setr(&self, st: &mut State, d: u32, v: V) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    // ------------------------------------------------------------ memory
    pub fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let m = Rc::make_mut(&mut st.mem);
        m.push(Some(Rc::new(Obj::new(size))));
        (HEAP_BASE + m.len() as u64 - 1) << 32
    }
    fn glob(&mut self, gid: u32) -> Rc<Obj> {
        if let Some(o) = self.ginit.get(&gid) {
            return o.clone();
        }
        let (ty, k, constant) = self.p.glob_init(gid);
        let mut o = Obj::new(ty.size());
        if let Some(k) = k {
            self.init(&mut o, 0, &ty, &k);
        }
        o.readonly = constant;
        let o = Rc::new(o);
        self.ginit.insert(gid, o.clone());
        o
    }
    fn init(&self, o: &mut Obj, off: u64, ty: &Ty, k: &K) {
        match k {
            K::I(v) => o.set_c(off, ty.store_size(), *v),
            K::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    o.set(off + i as u64, B::C(*x));
                }
            }
            K::Agg(a) => {
                for (i, x) in a.iter().enumerate() {
                    let (t, d) = ty.index(i as u64);
                    self.init(o, off + d, &t, x);
                }
            }
            _ => {}
        }
    }
    /// object and offset for an access of n bytes
    fn locate(&mut self, st: &State, addr: u64, n: u64) -> Res<(Rc<Obj>, u64, u64)> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        let o = if id >= FN_BASE {
            return Err(Stop::Err(format!("data access to code at {:x}", addr)));
        } else if id >= GLOB_BASE {
            let g = (id - GLOB_BASE) as u32;
            match st.globs.get(&g) {
                Some(o) => o.clone(),
                None => self.glob(g),
            }
        } else if id >= HEAP_BASE && id - HEAP_BASE < st.mem.len() as u64 {
            match &st.mem[(id - HEAP_BASE) as usize] {
                Some(o) => o.clone(),
                None => return Err(Stop::Err(format!("use after free at {:x}", addr))),
            }
        } else {
            return Err(Stop::Err(format!("wild access of {} bytes at {:x}", n, addr)));
        };
        if off + n > o.size {
            return Err(Stop::Err(format!("out of bounds access of {} bytes at {:x} (object of {})", n, addr, o.size)));
        }
        Ok((o, off, id))
    }
    fn with_mut<X>(&mut self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, u64) -> X) -> Res<X> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        if id >= GLOB_BASE && id < FN_BASE {
            let g = (id - GLOB_BASE) as u32;
            let (o, _, _) = self.locate(st, addr, n)?;
            if o.readonly {
                return Err(Stop::Err(format!("store to constant {}", self.p.globs[g as usize].name)));
            }
            let m = Rc::make_mut(&mut st.globs);
            let e = m.entry(g).or_insert(o);
            return Ok(f(Rc::make_mut(e), off));
        }
        if id >= HEAP_BASE && id - HEAP_BASE < st.mem.len() as u64 {
            let m = Rc::make_mut(&mut st.mem);
            if let Some(o) = &mut m[(id - HEAP_BASE) as usize] {
                if off + n > o.size {
                    return Err(Stop::Err(format!("out of bounds store of {} bytes at {:x} (object of {})", n, addr, o.size)));
                }
                return Ok(f(Rc::make_mut(o), off));
            }
        }
        Err(Stop::Err(format!("wild store of {} bytes at {:x}", n, addr)))
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> Res<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.store_size();
                let w = ty.bits();
                let (o, off, _) = self.locate(st, addr, n)?;
                if n <= 16 {
                    if let Some(v) = o.get_c(off, n) {
                        return Ok(V::C(v & mask(w)));
                    }
                }
                let t = o.get_t(off, n);
                let t = if cx().w(t) > w { cx().extract(t, 0, w) } else { t };
                if let Some(k) = st.conc.get(&t) {
                    return Ok(V::C(*k));
                }
                Ok(self.v(t))
            }
            Ty::Struct(s) => {
                let mut v = vec![];
                for (i, f) in s.f.iter().enumerate() {
                    v.push(self.load(st, addr + s.off[i], f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let n = match ty { Ty::Arr(n, _) => *n, Ty::Vec(n, _) => *n as u64, _ => 0 };
                if let (Ty::Vec(..), Ty::Int(1)) = (ty, &**e) {
                    return Err(Stop::Err("load of <n x i1>".into()));
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(st, addr + i * e.size(), e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load of {:?}", ty))),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> Res<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.store_size();
                match v {
                    V::C(x) => {
                        let x = *x;
                        if n > 16 && x >> 127 == 1 {
                            return Err(Stop::Err("wide store".into()));
                        }
                        self.with_mut(st, addr, n, |o, off| {
                            o.set_c(off, n.min(16), x);
                            for j in 16..n {
                                o.set(off + j, B::C(0));
                            }
                        })
                    }
                    V::T(t) => {
                        let mut t = *t;
                        if cx().w(t) < 8 * n as u32 {
                            t = cx().zext(t, 8 * n as u32);
                        }
                        if let Some(x) = cx().cv(t) {
                            return self.store(st, addr, ty, &V::C(x));
                        }
                        self.with_mut(st, addr, n, |o, off| o.set_t(off, n, t))
                    }
                    V::A(_) => Err(Stop::Err("aggregate stored as scalar".into())),
                }
            }
            Ty::Struct(s) => {
                if let V::A(a) = v {
                    for (i, f) in s.f.iter().enumerate() {
                        self.store(st, addr + s.off[i], f, &a[i])?;
                    }
                }
                Ok(())
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                if let V::A(a) = v {
                    for (i, x) in a.iter().enumerate() {
                        self.store(st, addr + i as u64 * e.size(), e, x)?;
                    }
                }
                Ok(())
            }
            _ => Err(Stop::Err(format!("store of {:?}", ty))),
        }
    }
    /// concrete value of a scalar, splitting the path when it is symbolic
    fn conc(&mut self, st: &State, v: &V, w: u32) -> Res<u64> {
        let t = match v {
            V::C(x) => return Ok(*x as u64),
            V::T(t) => *t,
            _ => return Err(Stop::Err("aggregate address".into())),
        };
        let vals = self.enumerate(st, t, 260)?;
        if vals.len() == 1 {
            return Ok(vals[0] as u64);
        }
        if std::env::var("RSYM_SPLITS").is_ok() {
            eprintln!("split {} values on {}", vals.len(), show(t, 5));
        }
        Err(Stop::Split(
            vals.iter()
                .map(|x| {
                    let k = cx().con(w, *x);
                    (cx().cmp(Op::Eq, t, k), Some((t, *x)))
                })
                .collect(),
        ))
    }
    pub fn enumerate(&mut self, st: &State, t: T, max: usize) -> Res<Vec<u128>> {
        let w = cx().w(t);
        let mut vals: Vec<u128> = vec![];
        // structural leaves
        let mut leaves = BTreeSet::new();
        fn walk(t: T, out: &mut BTreeSet<u128>, st: &State, n: &mut u32) -> bool {
            *n += 1;
            if *n > 400 {
                return false;
            }
            if let Some(v) = cx().cv(t) {
                out.insert(v);
                return true;
            }
            let nd = cx().n(t);
            if nd.op == Op::Ite {
                return match st.facts.get(&nd.a) {
                    Some(true) => walk(nd.b, out, st, n),
                    Some(false) => walk(nd.c, out, st, n),
                    None => walk(nd.b, out, st, n) && walk(nd.c, out, st, n),
                };
            }
            false
        }
        let mut n = 0;
        let structural = walk(t, &mut leaves, st, &mut n);
        if structural {
            for v in leaves {
                let k = cx().con(w, v);
                let e = cx().cmp(Op::Eq, t, k);
                match self.feasible(st, e) {
                    Some(None) => {}
                    _ => vals.push(v),
                }
            }
            if vals.is_empty() {
                return Err(Stop::Dead("infeasible"));
            }
            return Ok(vals);
        }
        let mut conj: Vec<T> = vec![];
        if let Some(m) = &st.model {
            if let Some(v) = m.bits(t) {
                vals.push(v);
            }
        }
        loop {
            conj.clear();
            let mut c = TRUE;
            for v in &vals {
                let k = cx().con(w, *v);
                let e = cx().cmp(Op::Eq, t, k);
                let ne = cx().not(e);
                c = cx().and(c, ne);
            }
            let extra = if c == TRUE {
                // any value
                let k = cx().con(w, 0);
                let e = cx().raw(Op::Ule, 1, k, t, 0, 0);
                e
            } else {
                c
            };
            if c == FALSE {
                break;
            }
            let conjs = self.slice(&st.pc, extra);
            match self.query(conjs, self.o.branch_ms.max(4000), None) {
                Some(None) => break,
                Some(Some(m)) => match m.bits(t) {
                    Some(v) if !vals.contains(&v) => vals.push(v),
                    _ => return Err(Stop::Err("enumeration model".into())),
                },
                None => return Err(Stop::Err(format!("cannot enumerate the values of an address or size: {} ; so far {:x?}", show(t, 6), vals))),
            }
            if vals.len() > max {
                return Err(Stop::Err(format!("more than {} values for an address or size: {}", max, show(t, 6))));
            }
        }
        if vals.is_empty() {
            return Err(Stop::Dead("infeasible"));
        }
        Ok(vals)
    }
    fn bytes(&mut self, st: &State, addr: u64, n: u64) -> Res<Vec<B>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off, _) = self.locate(st, addr, n)?;
        Ok((0..n).map(|i| o.get(off + i)).collect())
    }
    fn cstr(&mut self, st: &State, addr: u64, n: u64) -> Res<String> {
        let b = self.bytes(st, addr, n)?;
        Ok(b.iter().map(|x| match x { B::C(c) => *c as char, _ => '?' }).collect())
    }
    fn put(&mut self, st: &mut State, addr: u64, b: &[B]) -> Res<()> {
        if b.is_empty() {
            return Ok(());
        }
        self.with_mut(st, addr, b.len() as u64, |o, off| {
            for (i, x) in b.iter().enumerate() {
                o.set(off + i as u64, *x);
            }
        })
    }
    fn bterm(&self, b: B) -> T {
        match b {
            B::C(x) => cx().con(8, x as u128),
            B::S(t, k) => cx().extract(t, k as u32 * 8, 8),
        }
    }

    // ------------------------------------------------------------ scalar operations
    fn bin(&mut self, op: BOp, w: u32, a: &V, b: &V) -> Res<V> {
        if let (V::A(x), V::A(y)) = (a, b) {
            let mut r = vec![];
            for i in 0..x.len() {
                r.push(self.bin(op, w, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let o = match op {
            BOp::Add => Op::Add, BOp::Sub => Op::Sub, BOp::Mul => Op::Mul, BOp::UDiv => Op::UDiv, BOp::SDiv => Op::SDiv,
            BOp::URem => Op::URem, BOp::SRem => Op::SRem, BOp::And => Op::And, BOp::Or => Op::Or, BOp::Xor => Op::Xor,
            BOp::Shl => Op::Shl, BOp::LShr => Op::LShr, BOp::AShr => Op::AShr,
            BOp::FAdd => Op::FAdd, BOp::FSub => Op::FSub, BOp::FMul => Op::FMul, BOp::FDiv => Op::FDiv, BOp::FRem => Op::FRem,
        };
        if matches!(o, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem) {
            let (x, y) = (self.t(a, w), self.t(b, w));
            return Ok(self.v(fop(o, w, x, y, 0)));
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 128 {
                return match Ctx::fold(o, w, *x & mask(w), *y & mask(w)) {
                    Some(v) => Ok(V::C(v)),
                    None => Err(Stop::Err("division by zero".into())),
                };
            }
        }
        if w > 128 {
            return Err(Stop::Err(format!("{} bit arithmetic", w)));
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        Ok(self.v(cx().bin(o, x, y)))
    }
    fn icmp(&mut self, p: &str, w: u32, a: &V, b: &V) -> V {
        if let (V::A(x), V::A(y)) = (a, b) {
            return V::A(Rc::new((0..x.len()).map(|i| self.icmp(p, w, &x[i], &y[i])).collect()));
        }
        if let (V::C(x), V::C(y), true) = (a, b, w <= 128) {
            let (x, y) = (*x & mask(w), *y & mask(w));
            let (s, u) = (sx(x, w), sx(y, w));
            let r = match p {
                "eq" => x == y, "ne" => x != y, "ult" => x < y, "ule" => x <= y, "ugt" => x > y, "uge" => x >= y,
                "slt" => s < u, "sle" => s <= u, "sgt" => s > u, _ => s >= u,
            };
            return V::C(r as u128);
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let c = cx();
        let r = match p {
            "eq" => c.cmp(Op::Eq, x, y),
            "ne" => { let e = c.cmp(Op::Eq, x, y); c.not(e) }
            "ult" => c.cmp(Op::Ult, x, y),
            "ule" => c.cmp(Op::Ule, x, y),
            "ugt" => c.cmp(Op::Ult, y, x),
            "uge" => c.cmp(Op::Ule, y, x),
            "slt" => c.cmp(Op::Slt, x, y),
            "sle" => c.cmp(Op::Sle, x, y),
            "sgt" => c.cmp(Op::Slt, y, x),
            _ => c.cmp(Op::Sle, y, x),
        };
        self.v(r)
    }
    fn fcmp(&mut self, p: &str, w: u32, a: &V, b: &V) -> V {
        if let (V::A(x), V::A(y)) = (a, b) {
            return V::A(Rc::new((0..x.len()).map(|i| self.fcmp(p, w, &x[i], &y[i])).collect()));
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let c = cx();
        let nanx = { let e = fcm(Op::FEq, x, x); c.not(e) };
        let nany = { let e = fcm(Op::FEq, y, y); c.not(e) };
        let uno = c.or(nanx, nany);
        let base = match &p[1..] {
            "eq" => fcm(Op::FEq, x, y),
            "ne" => { let e = fcm(Op::FEq, x, y); c.not(e) }
            "lt" => fcm(Op::FLt, x, y),
            "le" => fcm(Op::FLe, x, y),
            "gt" => fcm(Op::FLt, y, x),
            "ge" => fcm(Op::FLe, y, x),
            _ => TRUE,
        };
        let r = match p {
            "ord" => c.not(uno),
            "uno" => uno,
            "true" => TRUE,
            "false" => FALSE,
            "one" => { let no = c.not(uno); c.and(base, no) }
            "une" => base,
            s if s.starts_with('u') => c.or(base, uno),
            _ => base,
        };
        self.v(r)
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, a: &V) -> Res<V> {
        if let V::A(x) = a {
            if k == Cast::Bitcast {
                return self.bitcast(from, to, a);
            }
            let (f, t) = (from.elem(), to.elem());
            let mut r = vec![];
            for e in x.iter() {
                r.push(self.cast(k, &f, &t, e)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        if let (Cast::Bitcast, Ty::Vec(..)) = (k, to) {
            return self.bitcast(from, to, a);
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let V::C(x) = a {
            if fw <= 128 && tw <= 128 {
                match k {
                    Cast::Trunc | Cast::Zext | Cast::PtrToInt | Cast::IntToPtr | Cast::Bitcast => return Ok(V::C(*x & mask(fw) & mask(tw))),
                    Cast::Sext => return Ok(V::C(sx(*x & mask(fw), fw) as u128 & mask(tw))),
                    _ => {}
                }
            }
        }
        let x = self.t(a, fw);
        let c = cx();
        let r = match k {
            Cast::Trunc => c.extract(x, 0, tw),
            Cast::Zext => c.zext(x, tw),
            Cast::Sext => c.sext(x, tw),
            Cast::PtrToInt | Cast::IntToPtr => if tw < fw { c.extract(x, 0, tw) } else { c.zext(x, tw) },
            Cast::Bitcast => x,
            Cast::FpTrunc | Cast::FpExt => fop(Op::FCvt, tw, x, 0, 0),
            Cast::FpToUi => fop(Op::F2U, tw, x, 0, 0),
            Cast::FpToSi => fop(Op::F2S, tw, x, 0, 0),
            Cast::UiToFp => fop(Op::U2F, tw, x, 0, 0),
            Cast::SiToFp => fop(Op::S2F, tw, x, 0, 0),
        };
        Ok(self.v(r))
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, a: &V) -> Res<V> {
        // via little-endian bits
        let total = if let Ty::Vec(n, e) = from { n * e.bits() } else { from.bits() };
        let t = match a {
            V::A(x) => {
                let w = from.elem().bits();
                let mut acc: T = 0;
                for e in x.iter() {
                    let e = self.t(e, w);
                    acc = if acc == 0 { e } else { cx().concat(e, acc) };
                }
                acc
            }
            s => self.t(s, total),
        };
        match to {
            Ty::Vec(n, e) => {
                let w = e.bits();
                Ok(V::A(Rc::new((0..*n).map(|i| self.v(cx().extract(t, i * w, w))).collect())))
            }
            _ => Ok(self.v(t)),
        }
    }
    fn select(&mut self, st: &State, ty: &Ty, c: &V, a: &V, b: &V) -> V {
        match c {
            V::C(x) => if *x & 1 == 1 { a.clone() } else { b.clone() },
            V::A(cs) => {
                let (x, y) = match (a, b) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => panic!("vector select") };
                let e = ty.elem();
                V::A(Rc::new((0..cs.len()).map(|i| self.select(st, &e, &cs[i], &x[i], &y[i])).collect()))
            }
            V::T(t) => {
                match self.known(st, *t) {
                    Some(true) => return a.clone(),
                    Some(false) => return b.clone(),
                    None => {}
                }
                self.ite_v(*t, ty, a, b)
            }
        }
    }
    fn ite_v(&mut self, c: T, ty: &Ty, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => V::A(Rc::new((0..x.len()).map(|i| {
                let t = match ty { Ty::Struct(s) => s.f[i].clone(), t => t.elem() };
                self.ite_v(c, &t, &x[i], &y[i])
            }).collect())),
            (V::C(x), V::C(y)) if x == y => a.clone(),
            _ => {
                let w = ty.bits();
                let (x, y) = (self.t(a, w), self.t(b, w));
                self.v(cx().ite(c, x, y))
            }
        }
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, fname: &str) -> Result<(), String> {
        let fid = match self.p.resolve(0, fname) {
            SymKind::Func(i) => i,
            _ => return Err(format!("no function {}", fname)),
        };
        let f = self.p.body(fid).ok_or_else(|| format!("no body for {}", fname))?;
        self.fns_run.insert(fid);
        let st = State {
            frames: vec![Frame { regs: vec![V::C(0); f.nregs as usize], f, bb: 0, ip: 0, ret: None, normal: None, allocas: vec![] }],
            mem: Rc::new(vec![]),
            globs: Rc::new(HashMap::new()),
            pc: vec![],
            facts: Rc::new(HashMap::with_hasher(BuildFx)),
            conc: Rc::new(HashMap::with_hasher(BuildFx)),
            model: Some(MModel::new(Model::new())),
            counts: Rc::new(HashMap::new()),
            panic_mode: String::new(),
            depth: 0,
        };
        let mut work = vec![st];
        let mut err: Option<String> = None;
        while let Some(mut st) = work.pop() {
            if self.n_paths >= self.o.max_paths {
                err = Some(format!("path limit {}", self.o.max_paths));
                break;
            }
            match self.path(&mut st, &mut work) {
                Ok(()) => {
                    self.n_paths += 1;
                    *self.n_dead.entry("completed".into()).or_insert(0) += 1;
                }
                Err(Stop::Dead(why)) => {
                    self.n_paths += 1;
                    *self.n_dead.entry(why.into()).or_insert(0) += 1;
                }
                Err(Stop::Err(e)) => {
                    // an unsupported situation on an infeasible path does not count
                    if self.path_alive(&st) {
                        let mut tr = String::new();
                        for f in st.frames.iter().rev().take(12) {
                            tr += &format!("\n    in {} block {}", demangle(&f.f.name), f.f.blocks[f.bb as usize].name);
                        }
                        err = Some(format!("{}{}", e, tr));
                        break;
                    }
                }
                Err(Stop::Split(_)) => unreachable!(),
            }
            self.poll(false);
            if self.o.stop_on_first && !self.violations.is_empty() {
                break;
            }
            if let Some(d) = self.o.deadline {
                if Instant::now() > d {
                    err = Some("time limit".into());
                    break;
                }
            }
        }
        while !self.jobs.is_empty() {
            if self.o.stop_on_first && !self.violations.is_empty() {
                break;
            }
            self.poll(true);
        }
        match err {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    fn path_alive(&mut self, st: &State) -> bool {
        if let Some(m) = &st.model {
            if st.pc.iter().all(|t| m.truth(*t) == Some(true)) {
                return true;
            }
        }
        let mut conj = st.pc.clone();
        conj.sort_unstable();
        conj.dedup();
        !matches!(self.query(conj, 8000, None), Some(None))
    }
    fn path(&mut self, st: &mut State, work: &mut Vec<State>) -> Res<()> {
        loop {
            match self.step(st, work) {
                Ok(true) => {}
                Ok(false) => return Ok(()),
                Err(Stop::Split(alts)) => {
                    let conds: Vec<T> = alts.iter().map(|a| a.0).collect();
                    let ch = self.choose(st, &conds);
                    if ch.is_empty() {
                        return Err(Stop::Dead("infeasible"));
                    }
                    let base = st.clone();
                    if ch.len() > 1 {
                        self.n_fork += ch.len() as u64 - 1;
                        self.site(st, ch.len() as u64 - 1);
                    }
                    for (k, (i, m)) in ch.into_iter().enumerate() {
                        let mut s2 = base.clone();
                        s2.model = m;
                        self.add_pc(&mut s2, alts[i].0);
                        if let Some((t, x)) = alts[i].1 {
                            Rc::make_mut(&mut s2.conc).insert(t, x);
                        }
                        if k == 0 { *st = s2 } else { work.push(s2) }
                    }
                }
                Err(e) => return Err(e),
            }
        }
    }
    /// does entering this block inevitably abort (call a panic function)?
    fn aborts(&mut self, f: &Rc<Func>, b: u32) -> bool {
        if let Some(r) = self.abort_bb.get(&(f.id, b)) {
            return *r;
        }
        let mut cur = b;
        let mut r = false;
        for _ in 0..4 {
            let blk = &f.blocks[cur as usize];
            let mut last: Option<u32> = None;
            let mut bad = false;
            for i in &blk.ins {
                if let I::Call { f: callee, .. } = i {
                    match callee {
                        Callee::Direct(fid) => {
                            if self.p.fns[*fid as usize].name.starts_with("rsym_") || self.p.fns[*fid as usize].dem.contains("verif::") {
                                bad = true;
                            }
                            last = Some(*fid);
                        }
                        _ => bad = true,
                    }
                }
            }
            if bad {
                break;
            }
            match blk.ins.last() {
                Some(I::Unreachable) => {
                    if let Some(fid) = last {
                        let k = self.classify(fid);
                        r = k == 80 || k == 81;
                    }
                    break;
                }
                Some(I::Br(t)) => cur = *t,
                _ => break,
            }
        }
        self.abort_bb.insert((f.id, b), r);
        r
    }
    fn prune_abort(&mut self, st: &State, ct: T, t: u32, fl: u32) -> bool {
        if !st.panic_mode.is_empty() || self.o.concrete.is_some() {
            return false;
        }
        let f = st.frames.last().unwrap().f.clone();
        let (a, b) = (self.aborts(&f, t), self.aborts(&f, fl));
        if a == b {
            return false;
        }
        match &st.model {
            Some(m) => m.truth(ct) == Some(b),
            None => false,
        }
    }
    fn site(&mut self, st: &State, n: u64) {
        let f = st.frames.last().unwrap();
        let k = format!("{} block {}", demangle(&f.f.name), f.f.blocks[f.bb as usize].name);
        *self.fork_sites.entry(k).or_insert(0) += n;
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.frames.last().unwrap().bb;
        let f = st.frames.last().unwrap().f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = &inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi without edge in {} {}", f.name, b.name)).1;
                vals.push((*d, self.op(st, o)));
            }
            for (d, v) in vals {
                self.setr(st, d, v);
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.bb = to;
        fr.ip = 0;
    }
    fn step(&mut self, st: &mut State, work: &mut Vec<State>) -> Res<bool> {
        self.n_instr += 1;
        if self.n_instr > self.o.max_instr {
            return Err(Stop::Err(format!("instruction limit {}", self.o.max_instr)));
        }
        if self.n_instr % 4096 == 0 {
            if let Some(d) = self.o.deadline {
                if Instant::now() > d {
                    return Err(Stop::Err("time limit".into()));
                }
            }
        }
        let (f, bb, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.bb, fr.ip)
        };
        let ins = &f.blocks[bb as usize].ins[ip as usize];
        match ins {
            I::Nop => {}
            I::Bin { op, ty, d, a, b, .. } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.bin(*op, ty.elem().bits(), &x, &y)?;
                self.setr(st, *d, r);
            }
            I::FNeg { ty, d, a } => {
                let x = self.op(st, a);
                let w = ty.elem().bits();
                let s = V::C(1 << (w - 1));
                let r = match &x {
                    V::A(v) => { let s = V::A(Rc::new(vec![s; v.len()])); self.bin(BOp::Xor, w, &x, &s)? }
                    _ => self.bin(BOp::Xor, w, &x, &s)?,
                };
                self.setr(st, *d, r);
            }
            I::ICmp { p, ty, d, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.icmp(p, ty.elem().bits(), &x, &y);
                self.setr(st, *d, r);
            }
            I::FCmp { p, ty, d, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.fcmp(p, ty.elem().bits(), &x, &y);
                self.setr(st, *d, r);
            }
            I::Cast { c, from, to, d, a } => {
                let x = self.op(st, a);
                let r = self.cast(*c, from, to, &x)?;
                self.setr(st, *d, r);
            }
            I::Select { ty, d, c, a, b, .. } => {
                let (c, x, y) = (self.op(st, c), self.op(st, a), self.op(st, b));
                let r = self.select(st, ty, &c, &x, &y);
                self.setr(st, *d, r);
            }
            I::Load { ty, d, p } => {
                let pv = self.op(st, p);
                let r = match &pv {
                    V::C(a) => self.load(st, *a as u64, ty)?,
                    V::T(t) => {
                        let vals = self.enumerate(st, *t, 260)?;
                        if vals.len() == 1 {
                            self.load(st, vals[0] as u64, ty)?
                        } else if vals.len() <= 40 && matches!(ty, Ty::Int(_) | Ty::F64 | Ty::F32) {
                            let w = ty.bits();
                            let mut acc: Option<T> = None;
                            for x in vals.iter().rev() {
                                let lv = self.load(st, *x as u64, ty)?;
                                let lt = self.t(&lv, w);
                                acc = Some(match acc {
                                    None => lt,
                                    Some(o) => {
                                        let k = cx().con(64, *x);
                                        let c = cx().cmp(Op::Eq, *t, k);
                                        cx().ite(c, lt, o)
                                    }
                                });
                            }
                            self.v(acc.unwrap())
                        } else {
                            let a = self.conc(st, &pv, 64)?;
                            self.load(st, a, ty)?
                        }
                    }
                    _ => return Err(Stop::Err("vector load".into())),
                };
                self.setr(st, *d, r);
            }
            I::Store { ty, v, p } => {
                let pv = self.op(st, p);
                let val = self.op(st, v);
                let a = self.conc(st, &pv, 64)?;
                self.store(st, a, ty, &val)?;
            }
            I::Alloca { d, size, n } => {
                let nv = self.op(st, n);
                let k = self.conc(st, &nv, 64)?;
                let a = self.alloc(st, size * k);
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                self.setr(st, *d, V::C(a as u128));
            }
            I::Gep { d, base, off, idx, lanes } => {
                if *lanes > 0 {
                    return Err(Stop::Err("vector getelementptr".into()));
                }
                let mut a = self.op(st, base);
                let mut o = *off;
                for (i, scale, w) in idx {
                    let iv = self.op(st, i);
                    match iv {
                        V::C(x) => o = o.wrapping_add((sx(x & mask(*w), *w) as i64 as u64).wrapping_mul(*scale)),
                        V::T(t) => {
                            let t = if *w < 64 { cx().sext(t, 64) } else if *w > 64 { cx().extract(t, 0, 64) } else { t };
                            let s = cx().con(64, *scale as u128);
                            let m = cx().bin(Op::Mul, t, s);
                            let m = self.v(m);
                            a = self.bin(BOp::Add, 64, &a, &m)?;
                        }
                        _ => return Err(Stop::Err("vector index".into())),
                    }
                }
                if o != 0 {
                    a = self.bin(BOp::Add, 64, &a, &V::C(o as u128))?;
                }
                self.setr(st, *d, a);
            }
            I::Extract { d, a, path } => {
                let mut v = self.op(st, a);
                for i in path {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.setr(st, *d, v);
            }
            I::Insert { d, a, v, path } => {
                let base = self.op(st, a);
                let val = self.op(st, v);
                fn ins(b: &V, p: &[u32], v: V) -> V {
                    if p.is_empty() {
                        return v;
                    }
                    match b {
                        V::A(x) => {
                            let mut x = (**x).clone();
                            x[p[0] as usize] = ins(&x[p[0] as usize], &p[1..], v);
                            V::A(Rc::new(x))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&base, path, val);
                self.setr(st, *d, r);
            }
            I::ExtElem { d, a, i } => {
                let (v, i) = (self.op(st, a), self.op(st, i));
                let i = self.conc(st, &i, 64)?;
                if let V::A(x) = v {
                    self.setr(st, *d, x[i as usize].clone());
                }
            }
            I::InsElem { d, a, v, i } => {
                let (b, v, i) = (self.op(st, a), self.op(st, v), self.op(st, i));
                let i = self.conc(st, &i, 64)?;
                if let V::A(x) = b {
                    let mut x = (*x).clone();
                    x[i as usize] = v;
                    self.setr(st, *d, V::A(Rc::new(x)));
                }
            }
            I::Shuffle { d, a, b, m, n } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if let (V::A(x), V::A(y)) = (x, y) {
                    let r = m.iter().map(|k| {
                        let k = *k as u32;
                        if k < *n { x[k as usize].clone() } else { y.get((k - n) as usize).cloned().unwrap_or(V::C(0)) }
                    }).collect();
                    self.setr(st, *d, V::A(Rc::new(r)));
                }
            }
            I::Copy { d, a } => {
                let v = self.op(st, a);
                self.setr(st, *d, v);
            }
            I::Rmw { op, ty, d, p, v } => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, 64)?;
                let old = self.load(st, a, ty)?;
                let v = self.op(st, v);
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(BOp::Add, w, &old, &v)?,
                    "sub" => self.bin(BOp::Sub, w, &old, &v)?,
                    "and" => self.bin(BOp::And, w, &old, &v)?,
                    "or" => self.bin(BOp::Or, w, &old, &v)?,
                    "xor" => self.bin(BOp::Xor, w, &old, &v)?,
                    o => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store(st, a, ty, &new)?;
                self.setr(st, *d, old);
            }
            I::CmpXchg { ty, d, p, c, n } => {
                let pv = self.op(st, p);
                let a = self.conc(st, &pv, 64)?;
                let old = self.load(st, a, ty)?;
                let (c, n) = (self.op(st, c), self.op(st, n));
                match (&old, &c) {
                    (V::C(x), V::C(y)) => {
                        let ok = x == y;
                        if ok {
                            self.store(st, a, ty, &n)?;
                        }
                        self.setr(st, *d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
                    }
                    _ => return Err(Stop::Err("symbolic cmpxchg".into())),
                }
            }
            I::Br(t) => {
                self.jump(st, *t);
                return Ok(true);
            }
            I::CBr { c, t, f: fl } => {
                let cv = self.op(st, c);
                let to = match cv {
                    V::C(x) => if x & 1 == 1 { *t } else { *fl },
                    V::T(ct) => match self.known(st, ct) {
                        Some(true) => *t,
                        Some(false) => *fl,
                        None if self.prune_abort(st, ct, *t, *fl) => {
                            // the other side only aborts the transaction
                            let live = if self.aborts(&f, *t) { *fl } else { *t };
                            let lc = if live == *t { ct } else { cx().not(ct) };
                            self.n_pruned += 1;
                            self.add_pc(st, lc);
                            live
                        }
                        None => {
                            let nc = cx().not(ct);
                            let ch = self.choose(st, &[ct, nc]);
                            if ch.is_empty() {
                                return Err(Stop::Dead("infeasible"));
                            }
                            if ch.len() == 1 {
                                // implied: record as a fact only
                                let yes = ch[0].0 == 0;
                                self.add_fact(st, ct, yes);
                                if st.model.is_none() {
                                    st.model = ch[0].1.clone();
                                }
                                if yes { *t } else { *fl }
                            } else {
                                self.n_fork += 1;
                                self.site(st, 1);
                                let mut s2 = st.clone();
                                let (m0, m1) = (ch[0].1.clone(), ch[1].1.clone());
                                let (first, second) = if ch[0].0 == 0 { (m0, m1) } else { (m1, m0) };
                                s2.model = second;
                                self.add_pc(&mut s2, nc);
                                self.jump(&mut s2, *fl);
                                work.push(s2);
                                st.model = first;
                                self.add_pc(st, ct);
                                *t
                            }
                        }
                    },
                    _ => return Err(Stop::Err("vector branch".into())),
                };
                self.jump(st, to);
                return Ok(true);
            }
            I::Switch { w, v, def, cases } => {
                let x = self.op(st, v);
                match x {
                    V::C(x) => {
                        let to = cases.iter().find(|c| c.0 & mask(*w) == x & mask(*w)).map_or(*def, |c| c.1);
                        self.jump(st, to);
                    }
                    V::T(tv) => {
                        // group the cases by target
                        let mut targets: Vec<(u32, T)> = vec![];
                        let mut none = TRUE;
                        for (k, b) in cases {
                            let kc = cx().con(*w, *k);
                            let e = cx().cmp(Op::Eq, tv, kc);
                            let ne = cx().not(e);
                            none = cx().and(none, ne);
                            match targets.iter_mut().find(|x| x.0 == *b) {
                                Some(x) => x.1 = cx().or(x.1, e),
                                None => targets.push((*b, e)),
                            }
                        }
                        let unreachable_def = matches!(f.blocks[*def as usize].ins.first(), Some(I::Unreachable)) && f.blocks[*def as usize].phis.is_empty();
                        if !unreachable_def {
                            match targets.iter_mut().find(|x| x.0 == *def) {
                                Some(x) => x.1 = cx().or(x.1, none),
                                None => targets.push((*def, none)),
                            }
                        }
                        let conds: Vec<T> = targets.iter().map(|x| x.1).collect();
                        let ch = self.choose(st, &conds);
                        if ch.is_empty() {
                            return Err(Stop::Dead("infeasible"));
                        }
                        if ch.len() > 1 {
                            self.n_fork += ch.len() as u64 - 1;
                            self.site(st, ch.len() as u64 - 1);
                        }
                        let base = st.clone();
                        let single = ch.len() == 1;
                        for (k, (i, m)) in ch.into_iter().enumerate() {
                            let mut s2 = base.clone();
                            s2.model = m;
                            if single {
                                self.add_fact(&mut s2, targets[i].1, true);
                            } else {
                                self.add_pc(&mut s2, targets[i].1);
                            }
                            self.jump(&mut s2, targets[i].0);
                            if k == 0 { *st = s2 } else { work.push(s2) }
                        }
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
                return Ok(true);
            }
            I::Ret(v) => {
                let rv = v.as_ref().map(|o| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                if !fr.allocas.is_empty() {
                    let m = Rc::make_mut(&mut st.mem);
                    for a in fr.allocas {
                        m[a as usize - HEAP_BASE as usize] = None;
                    }
                }
                if st.frames.is_empty() {
                    // keep a frame so that diagnostics work
                    st.frames.push(Frame { f: fr.f, regs: vec![], bb: 0, ip: 0, ret: None, normal: None, allocas: vec![] });
                    return Ok(false);
                }
                if let (Some(d), Some(v)) = (fr.ret, rv) {
                    self.setr(st, d, v);
                }
                match fr.normal {
                    Some(n) => self.jump(st, n),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(true);
            }
            I::Unreachable => return Err(Stop::Err("unreachable executed".into())),
            I::Resume => return Err(Stop::Err("resume executed".into())),
            I::Call { d, ret, f: callee, args, atys, normal } => {
                let av: Vec<V> = args.iter().map(|a| self.op(st, a)).collect();
                let fid = match callee {
                    Callee::Direct(i) => *i,
                    Callee::Ind(o) => {
                        let v = self.op(st, o);
                        let a = self.conc(st, &v, 64)?;
                        let id = a >> 32;
                        if id < FN_BASE {
                            return Err(Stop::Err(format!("call of non-function {:x}", a)));
                        }
                        (id - FN_BASE) as u32
                    }
                    Callee::Asm => {
                        // compiler barriers (black_box)
                        if let Some(d) = d {
                            self.setr(st, *d, av.first().cloned().unwrap_or(V::C(0)));
                        }
                        st.frames.last_mut().unwrap().ip += 1;
                        return Ok(true);
                    }
                };
                if self.p.fns[fid as usize].kind == 0 {
                    if let Some(d) = self.hook(fid) {
                        self.p.fns[fid as usize].def = Some(d);
                        self.p.fns[fid as usize].kind = K_BODY;
                    } else {
                        self.p.fns[fid as usize].kind = self.classify(fid);
                    }
                }
                let k = self.p.fns[fid as usize].kind;
                if k == K_BODY {
                    let body = self.p.body(fid).unwrap();
                    self.fns_run.insert(fid);
                    if st.frames.len() > 200 {
                        return Err(Stop::Err("call depth 200".into()));
                    }
                    let mut regs = vec![V::C(0); body.nregs as usize];
                    for (i, r) in body.params.iter().enumerate() {
                        if i < av.len() {
                            regs[*r as usize] = av[i].clone();
                        }
                    }
                    st.frames.push(Frame { f: body, regs, bb: 0, ip: 0, ret: *d, normal: *normal, allocas: vec![] });
                    return Ok(true);
                }
                let r = self.builtin(st, k, fid, &av, atys, ret)?;
                if let (Some(d), Some(r)) = (d, r) {
                    self.setr(st, *d, r);
                }
                match normal {
                    Some(n) => self.jump(st, *n),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(true);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(true)
    }

    // ------------------------------------------------------------ builtins
    fn classify(&mut self, fid: u32) -> u32 {
        let f = &self.p.fns[fid as usize];
        let (n, d) = (f.name.as_str(), f.dem.as_str());
        let st = |p: &[&str]| p.iter().any(|x| n.starts_with(x));
        let ds = |p: &[&str]| p.iter().any(|x| d.starts_with(x));
        let r = match n {
            "rsym_input" => 10,
            "rsym_assume" => 11,
            "rsym_check" => 12,
            "rsym_reach" => 13,
            "rsym_panic_mode" => 14,
            "rsym_print" => 15,
            "rsym_symbolic" => 16,
            "rsym_concretize" => 17,
            "rsym_z_s" => 18,
            "rsym_z_u" => 19,
            "rsym_z_op" => 20,
            "rsym_z_cmp" => 21,
            "rsym_z_ite" => 22,
            "rsym_b" => 23,
            "rsym_ite128" => 24,
            "rsym_stop" => 25,
            "__fx_mul_i" => 40,
            "__fx_mul_u" => 41,
            "__fx_mulo_i" => 42,
            "__fx_mulo_u" => 43,
            "__fx_div_i" => 44,
            "__fx_div_u" => 45,
            "__fx_divo_i" => 46,
            "__fx_divo_u" => 47,
            "__rust_alloc" => 60,
            "__rust_alloc_zeroed" => 60,
            "__rust_dealloc" => 61,
            "__rust_realloc" => 62,
            "memcpy" | "memmove" => 63,
            "memset" => 64,
            "memcmp" => 65,
            "bcmp" => 66,
            "rust_eh_personality" => 90,
            "__rust_no_alloc_shim_is_unstable" => 90,
            "rust_begin_unwind" | "abort" | "__rust_alloc_error_handler" | "rust_oom" => 80,
            "strlen" => 67,
            _ => 0,
        };
        if r != 0 {
            return r;
        }
        if n.starts_with("llvm.") {
            let base = n.trim_start_matches("llvm.");
            let pre = |s: &str| base.starts_with(s);
            return if pre("memcpy") || pre("memmove") { 63 }
            else if pre("memset") { 64 }
            else if pre("lifetime") || pre("experimental.noalias") || pre("dbg") || pre("assume") || pre("prefetch") || pre("donothing") || pre("invariant") { 90 }
            else if pre("sadd.with.overflow") { 100 }
            else if pre("uadd.with.overflow") { 101 }
            else if pre("ssub.with.overflow") { 102 }
            else if pre("usub.with.overflow") { 103 }
            else if pre("smul.with.overflow") { 104 }
            else if pre("umul.with.overflow") { 105 }
            else if pre("sadd.sat") { 106 }
            else if pre("uadd.sat") { 107 }
            else if pre("ssub.sat") { 108 }
            else if pre("usub.sat") { 109 }
            else if pre("abs.") { 110 }
            else if pre("smax") { 111 }
            else if pre("smin") { 112 }
            else if pre("umax") { 113 }
            else if pre("umin") { 114 }
            else if pre("ctlz") { 115 }
            else if pre("cttz") { 116 }
            else if pre("ctpop") { 117 }
            else if pre("bswap") { 118 }
            else if pre("fshl") { 119 }
            else if pre("fshr") { 120 }
            else if pre("expect") { 121 }
            else if pre("fptosi.sat") { 122 }
            else if pre("fptoui.sat") { 123 }
            else if pre("fabs") { 124 }
            else if pre("floor") { 125 }
            else if pre("ceil") { 126 }
            else if pre("trunc.f") { 127 }
            else if pre("round.") { 128 }
            else if pre("rint") || pre("nearbyint") || pre("roundeven") { 129 }
            else if pre("sqrt") { 130 }
            else if pre("minnum") { 131 }
            else if pre("maxnum") { 132 }
            else if pre("copysign") { 133 }
            else if pre("vector.reduce.or") { 134 }
            else if pre("vector.reduce.and") { 135 }
            else if pre("vector.reduce.add") { 136 }
            else if pre("trap") || pre("ubsantrap") { 80 }
            else if pre("is.constant") { 137 }
            else if pre("bitreverse") { 138 }
            else { 0 };
        }
        if ds(&["core::panicking::", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed", "core::slice::index::slice_", "core::slice::index::into_range", "core::str::slice_error_fail", "alloc::raw_vec::capacity_overflow", "alloc::alloc::handle_alloc_error", "std::panicking::", "core::cell::panic_", "std::process::abort", "std::process::exit", "core::intrinsics::abort", "fixed::overflow", "fixed::div_by_zero", "fixed::panic", "core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail", "alloc::vec::Vec<T,A>::remove::assert_failed", "alloc::vec::Vec<T,A>::swap_remove::assert_failed", "alloc::vec::Vec<T,A>::insert::assert_failed", "std::alloc::rust_oom", "alloc::slice::merge"]) && !d.contains("merge")
            || d.ends_with("::len_mismatch_fail") || d.ends_with("::assert_failed")
        {
            return 81;
        }
        if d.contains("core::fmt::") || d.contains("as core::fmt") || d.contains("::fmt::Display") || ds(&["core::fmt::", "alloc::fmt::format"]) {
            if d.contains("format_inner") || d == "alloc::fmt::format" {
                return 71;
            }
            return 70;
        }
        match d {
            "solana_program::program_stubs::sol_memmove" | "solana_program::program_stubs::sol_memcpy" => return 63,
            "solana_program::program_stubs::sol_memset" => return 64,
            "solana_program::program_stubs::sol_log" | "solana_program::program_stubs::sol_log_64" | "solana_program::program_stubs::sol_log_compute_units" => return 90,
            _ => {}
        }
        if ds(&["std::io::stdio::_print", "std::io::stdio::_eprint", "solana_program::log::sol_log", "solana_program::log::"]) || st(&["sol_log"]) {
            return 90;
        }
        if f.def.is_some() {
            return K_BODY;
        }
        0
    }
    /// environment functions that a harness may replace by a function of its own (same signature)
    fn hook(&self, fid: u32) -> Option<(u32, usize)> {
        let d = self.p.fns[fid as usize].dem.as_str();
        let h = match d {
            "solana_program::program::invoke" | "solana_program::program::invoke_unchecked" => "rsym_hook_invoke",
            "solana_program::program::invoke_signed" | "solana_program::program::invoke_signed_unchecked" => "rsym_hook_invoke_signed",
            _ if d.ends_with(" for solana_program::clock::Clock>::get") => "rsym_hook_clock_get",
            _ if d.ends_with(" for solana_program::rent::Rent>::get") => "rsym_hook_rent_get",
            _ if d.ends_with("::hashmap_random_keys") => "rsym_hook_random_keys",
            "solana_program::program_memory::sol_memmove" | "solana_program::program_stubs::sol_memmove" => "rsym_hook_sol_memmove",
            "solana_program::pubkey::Pubkey::create_program_address" => "rsym_hook_create_program_address",
            "solana_program::pubkey::Pubkey::find_program_address" => "rsym_hook_find_program_address",
            _ => return None,
        };
        let f = *self.p.ext.get(h)?;
        self.p.files[f as usize].syms.get(h).map(|o| (f, *o))
    }
    fn handle(&self, v: &V) -> T {
        match v {
            V::C(x) => *x as T,
            V::T(t) => {
                // a select over handles
                let n = cx().n(*t);
                if n.op == Op::Ite {
                    let (a, b) = (self.v(n.b), self.v(n.c));
                    let (x, y) = (self.handle(&a), self.handle(&b));
                    if x == y {
                        return x;
                    }
                    return cx().raw(Op::Ite, 0, n.a, x, y, 0);
                }
                panic!("symbolic integer handle {}", show(*t, 4))
            }
            _ => panic!("handle"),
        }
    }
    fn builtin(&mut self, st: &mut State, k: u32, fid: u32, a: &[V], at: &[Ty], ret: &Ty) -> Res<Option<V>> {
        let c = cx();
        match k {
            10 => {
                // rsym_input(name, len, bits, signed, lo, hi)
                let (p, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                let name = self.cstr(st, p, n)?;
                let bits = self.conc(st, &a[2], 32)? as u32;
                let signed = self.conc(st, &a[3], 8)? & 1 == 1;
                let (lo, hi) = match (&a[4], &a[5]) { (V::C(l), V::C(h)) => (*l, *h), _ => return Err(Stop::Err("symbolic input range".into())) };
                let cnt = Rc::make_mut(&mut st.counts).entry(name.clone()).or_insert(0);
                let key = format!("{}#{}", name, *cnt);
                *cnt += 1;
                if let Some(cm) = &self.o.concrete {
                    return Ok(Some(V::C(cm.get(&key).copied().unwrap_or(if signed { 0 } else { lo }) & mask(bits))));
                }
                let t = match self.inputs.get(&key) {
                    Some(t) => *t,
                    None => {
                        let t = c.var(&key, bits, Some((lo & mask(bits), hi & mask(bits), signed)));
                        self.input_names.push((key.clone(), c.n(t).k as u32));
                        self.inputs.insert(key, t);
                        t
                    }
                };
                // the default value 0 may be outside the declared range
                let r = c.r(t);
                if r.ul > 0 && r.sl > 0 || (!signed && r.ul > 0) || (signed && r.sh < 0) {
                    if let Some(m) = &st.model {
                        let ix = c.n(t).k as u32;
                        if !m.m.contains_key(&ix) {
                            let mut mm = m.m.clone();
                            mm.insert(ix, if signed { r.sl as u128 & mask(bits) } else { r.ul });
                            st.model = Some(MModel::new(mm));
                        }
                    }
                }
                let t = if signed { c.sext(t, 128) } else { c.zext(t, 128) };
                Ok(Some(self.v(t)))
            }
            11 => {
                let t = self.t(&a[0], 1);
                match self.known(st, t) {
                    Some(true) => return Ok(None),
                    Some(false) => return Err(Stop::Dead("assumption")),
                    None => {}
                }
                match self.feasible(st, t) {
                    Some(None) => return Err(Stop::Dead("assumption")),
                    Some(Some(m)) => st.model = Some(m),
                    None => {
                        self.n_unknown_branch += 1;
                        st.model = None;
                    }
                }
                self.add_pc(st, t);
                Ok(None)
            }
            12 => {
                let t = self.t(&a[0], 1);
                let (p, n) = (self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?);
                let id = self.cstr(st, p, n)?;
                self.check(st, t, &id, false)?;
                Ok(None)
            }
            13 => {
                let (p, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                let id = self.cstr(st, p, n)?;
                let have = self.reached.get(&id).map_or(false, |x| x.is_some());
                if !have {
                    let m = match &st.model {
                        Some(m) => Some(m.clone()),
                        None => {
                            let mut conj = st.pc.clone();
                            conj.sort_unstable();
                            conj.dedup();
                            match self.query(conj, 5000, None) {
                                Some(Some(m)) => Some(m),
                                _ => None,
                            }
                        }
                    };
                    let w = m.map(|m| self.inputs_of(&m.m));
                    self.reached.insert(id, w);
                }
                Ok(None)
            }
            14 => {
                let (p, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                st.panic_mode = self.cstr(st, p, n)?;
                Ok(None)
            }
            15 => {
                let (p, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                let id = self.cstr(st, p, n)?;
                match &a[2] {
                    V::C(x) => eprintln!("RSYM-PRINT {} = {} ({})", id, x, *x as i128),
                    V::T(t) => {
                        let r = c.r(*t);
                        eprintln!("RSYM-PRINT {} = {} in [{}, {}] model {:?}", id, show(*t, 8), r.sl, r.sh, st.model.as_ref().and_then(|m| m.bits(*t)).map(|x| x as i128))
                    }
                    _ => {}
                }
                Ok(None)
            }
            16 => Ok(Some(V::C(1))),
            17 => {
                let x = self.conc(st, &a[0], 64)?;
                Ok(Some(V::C(x as u128)))
            }
            18 | 19 => {
                let t = self.t(&a[0], 128);
                Ok(Some(V::C(c.iview(k == 18, t) as u128)))
            }
            20 => {
                let o = self.conc(st, &a[0], 32)?;
                let (x, y) = (self.handle(&a[1]), self.handle(&a[2]));
                let op = match o { 0 => Op::IAdd, 1 => Op::ISub, 2 => Op::IMul, 3 => Op::IDiv, _ => Op::IMod };
                Ok(Some(V::C(c.iop(op, x, y) as u128)))
            }
            21 => {
                let o = self.conc(st, &a[0], 32)?;
                let (x, y) = (self.handle(&a[1]), self.handle(&a[2]));
                let op = match o { 0 => Op::ILt, 1 => Op::ILe, _ => Op::IEq };
                Ok(Some(self.v(c.iop(op, x, y))))
            }
            22 => {
                let b = self.t(&a[0], 1);
                let (x, y) = (self.handle(&a[1]), self.handle(&a[2]));
                let r = if b == TRUE || x == y { x } else if b == FALSE { y } else { c.raw(Op::Ite, 0, b, x, y, 0) };
                Ok(Some(V::C(r as u128)))
            }
            23 => {
                let o = self.conc(st, &a[0], 32)?;
                let (x, y) = (self.t(&a[1], 1), self.t(&a[2], 1));
                let r = match o {
                    0 => c.and(x, y),
                    1 => c.or(x, y),
                    2 => { let n = c.not(x); c.or(n, y) }
                    _ => { let e = c.bin(Op::Xor, x, y); c.not(e) }
                };
                Ok(Some(self.v(r)))
            }
            24 => {
                let b = self.t(&a[0], 1);
                let (x, y) = (self.t(&a[1], 128), self.t(&a[2], 128));
                Ok(Some(self.v(c.ite(b, x, y))))
            }
            25 => Err(Stop::Dead("stopped")),
            40..=47 => {
                let (x, y) = (self.t(&a[0], 128), self.t(&a[1], 128));
                let s = self.conc(st, &a[2], 32)? as u32;
                let op = [Op::FxMulS, Op::FxMulU, Op::FxMulOS, Op::FxMulOU, Op::FxDivS, Op::FxDivU, Op::FxDivOS, Op::FxDivOU][k as usize - 40];
                Ok(Some(self.v(c.fx(op, x, y, s))))
            }
            60 => {
                let n = self.conc(st, &a[0], 64)?;
                let p = self.alloc(st, n);
                Ok(Some(V::C(p as u128)))
            }
            61 => {
                let p = self.conc(st, &a[0], 64)?;
                let id = (p >> 32) as usize;
                if id >= HEAP_BASE as usize && id - (HEAP_BASE as usize) < st.mem.len() {
                    Rc::make_mut(&mut st.mem)[id - HEAP_BASE as usize] = None;
                }
                Ok(None)
            }
            62 => {
                let p = self.conc(st, &a[0], 64)?;
                let (old, new) = (self.conc(st, &a[1], 64)?, self.conc(st, &a[3], 64)?);
                let b = self.bytes(st, p, old.min(new))?;
                let q = self.alloc(st, new);
                self.put(st, q, &b)?;
                let id = (p >> 32) as usize - HEAP_BASE as usize;
                Rc::make_mut(&mut st.mem)[id] = None;
                Ok(Some(V::C(q as u128)))
            }
            63 => {
                let n = self.conc(st, &a[2], 64)?;
                let (d, s) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                if n > 0 {
                    self.copy(st, d, s, n)?;
                }
                Ok(Some(a[0].clone()))
            }
            64 => {
                let n = self.conc(st, &a[2], 64)?;
                let d = self.conc(st, &a[0], 64)?;
                let b = match &a[1] {
                    V::C(x) => B::C(*x as u8),
                    V::T(t) => B::S(if c.w(*t) > 8 { c.extract(*t, 0, 8) } else { *t }, 0),
                    _ => unreachable!(),
                };
                if n > 0 {
                    self.with_mut(st, d, n, |o, off| {
                        if b == B::C(0) && off == 0 && n == o.size {
                            for p in o.pages.iter_mut() {
                                *p = None;
                            }
                            return;
                        }
                        for i in 0..n {
                            o.set(off + i, b);
                        }
                    })?;
                }
                Ok(Some(a[0].clone()))
            }
            65 | 66 => {
                let n = self.conc(st, &a[2], 64)?;
                let (x, y) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let (bx, by) = (self.bytes(st, x, n)?, self.bytes(st, y, n)?);
                if bx == by {
                    return Ok(Some(V::C(0)));
                }
                if bx.iter().chain(by.iter()).all(|b| matches!(b, B::C(_))) {
                    let g = |v: &Vec<B>| v.iter().map(|b| match b { B::C(x) => *x, _ => 0 }).collect::<Vec<u8>>();
                    let r = match g(&bx).cmp(&g(&by)) { std::cmp::Ordering::Less => -1i32, std::cmp::Ordering::Equal => 0, _ => 1 };
                    return Ok(Some(V::C(r as u32 as u128)));
                }
                if k == 66 {
                    // equality: compare in chunks of up to 16 bytes
                    let (ox, offx, _) = self.locate(st, x, n)?;
                    let (oy, offy, _) = self.locate(st, y, n)?;
                    let mut e = TRUE;
                    let mut i = 0;
                    while i < n {
                        let l = (n - i).min(8);
                        let (p, q) = (ox.get_t(offx + i, l), oy.get_t(offy + i, l));
                        let z = c.cmp(Op::Eq, p, q);
                        e = c.and(e, z);
                        i += l;
                    }
                    let (z, o) = (c.con(32, 0), c.con(32, 1));
                    return Ok(Some(self.v(c.ite(e, z, o))));
                }
                // lexicographic
                let mut acc = c.con(32, 0);
                let (m1, p1) = (c.con(32, u32::MAX as u128), c.con(32, 1));
                for i in (0..n as usize).rev() {
                    let (p, q) = (self.bterm(bx[i]), self.bterm(by[i]));
                    let e = c.cmp(Op::Eq, p, q);
                    let l = c.cmp(Op::Ult, p, q);
                    let o = c.ite(l, m1, p1);
                    acc = c.ite(e, acc, o);
                }
                Ok(Some(self.v(acc)))
            }
            67 => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    match self.bytes(st, p + n, 1)?[0] {
                        B::C(0) => break,
                        _ => n += 1,
                    }
                }
                Ok(Some(V::C(n as u128)))
            }
            70 => Ok(Some(V::C(0))),
            71 => {
                // an empty String: { { cap, ptr }, len } = { { 0, 1 }, 0 }
                let p = self.conc(st, &a[0], 64)?;
                self.store(st, p, &Ty::Int(64), &V::C(0))?;
                self.store(st, p + 8, &Ty::Int(64), &V::C(1))?;
                self.store(st, p + 16, &Ty::Int(64), &V::C(0))?;
                Ok(None)
            }
            80 | 81 => {
                if !st.panic_mode.is_empty() {
                    let id = st.panic_mode.clone();
                    if std::env::var("RSYM_PANICS").is_ok() {
                        eprintln!("panic in {}: {}", id, st.frames.iter().rev().map(|f| demangle(&f.f.name)).collect::<Vec<_>>().join(" < "));
                    }
                    self.check(st, FALSE, &id, true)?;
                }
                let why: &'static str = Box::leak(format!("panic {}", self.p.fns[fid as usize].dem).into_boxed_str());
                Err(Stop::Dead(why))
            }
            90 => Ok(if matches!(ret, Ty::Void) { None } else { Some(self.zero(ret)) }),
            100..=105 => {
                let w = at[0].elem().bits();
                if w > 128 {
                    return Err(Stop::Err("wide overflow op".into()));
                }
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let (o, f) = [(Op::Add, Op::SAddO), (Op::Add, Op::UAddO), (Op::Sub, Op::SSubO), (Op::Sub, Op::USubO), (Op::Mul, Op::SMulO), (Op::Mul, Op::UMulO)][k as usize - 100];
                let (v, ov) = if let (Some(p), Some(q)) = (c.cv(x), c.cv(y)) {
                    (c.bin(o, x, y), c.con(1, eval::ovf_const(f, w, p, q) as u128))
                } else {
                    (c.bin(o, x, y), c.ovf(f, x, y))
                };
                Ok(Some(V::A(Rc::new(vec![self.v(v), self.v(ov)]))))
            }
            106..=109 => {
                let w = at[0].bits();
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let (o, f) = [(Op::Add, Op::SAddO), (Op::Add, Op::UAddO), (Op::Sub, Op::SSubO), (Op::Sub, Op::USubO)][k as usize - 106];
                let v = c.bin(o, x, y);
                let ov = if let (Some(p), Some(q)) = (c.cv(x), c.cv(y)) { c.con(1, eval::ovf_const(f, w, p, q) as u128) } else { c.ovf(f, x, y) };
                let sat = match k {
                    107 => c.con(w, mask(w)),
                    109 => c.con(w, 0),
                    _ => {
                        let z = c.con(w, 0);
                        let neg = c.cmp(Op::Slt, x, z);
                        let (lo, hi) = (c.con(w, smin(w) as u128), c.con(w, smax(w) as u128));
                        c.ite(neg, lo, hi)
                    }
                };
                Ok(Some(self.v(c.ite(ov, sat, v))))
            }
            110..=114 => {
                if let V::A(x) = &a[0] {
                    let e = at[0].elem();
                    let mut r = vec![];
                    for i in 0..x.len() {
                        let b = match &a[1] { V::A(y) => y[i].clone(), o => o.clone() };
                        r.push(self.builtin(st, k, fid, &[x[i].clone(), b], &[e.clone(), e.clone()], &e)?.unwrap());
                    }
                    return Ok(Some(V::A(Rc::new(r))));
                }
                let w = at[0].bits();
                let x = self.t(&a[0], w);
                if k == 110 {
                    let z = c.con(w, 0);
                    let neg = c.cmp(Op::Slt, x, z);
                    let m = c.bin(Op::Sub, z, x);
                    return Ok(Some(self.v(c.ite(neg, m, x))));
                }
                let y = self.t(&a[1], w);
                let cond = match k { 111 => c.cmp(Op::Slt, y, x), 112 => c.cmp(Op::Slt, x, y), 113 => c.cmp(Op::Ult, y, x), _ => c.cmp(Op::Ult, x, y) };
                let cond = match self.known(st, cond) { Some(b) => c.bool(b), None => cond };
                Ok(Some(self.v(c.ite(cond, x, y))))
            }
            115..=118 | 138 => {
                let w = at[0].bits();
                match &a[0] {
                    V::C(x) => {
                        let x = *x & mask(w);
                        let r = match k {
                            115 => (x.leading_zeros() - (128 - w)) as u128,
                            116 => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                            117 => x.count_ones() as u128,
                            118 => x.swap_bytes() >> (128 - w),
                            _ => x.reverse_bits() >> (128 - w),
                        };
                        Ok(Some(V::C(r)))
                    }
                    V::T(t) => {
                        let t = *t;
                        if k == 118 {
                            let mut acc: T = 0;
                            for i in 0..w / 8 {
                                let b = c.extract(t, w - 8 - 8 * i, 8);
                                acc = if acc == 0 { b } else { c.concat(b, acc) };
                            }
                            return Ok(Some(self.v(acc)));
                        }
                        if k == 138 {
                            return Err(Stop::Err("bitreverse".into()));
                        }
                        // build by cases on the top/lowest set bit
                        let mut acc = c.con(w, if k == 117 { 0 } else { w as u128 });
                        if k == 117 {
                            for i in 0..w {
                                let b = c.extract(t, i, 1);
                                let b = c.zext(b, w);
                                acc = c.bin(Op::Add, acc, b);
                            }
                            return Ok(Some(self.v(acc)));
                        }
                        for j in 0..w {
                            // ctlz: from bit 0 upwards, the last writer is the top bit
                            let i = if k == 115 { j } else { w - 1 - j };
                            let kc = c.con(w, if k == 115 { (w - 1 - i) as u128 } else { i as u128 });
                            if k == 115 {
                                let thr = c.con(w, 1u128 << i);
                                let ge = c.cmp(Op::Ule, thr, t);
                                acc = c.ite(ge, kc, acc);
                            } else {
                                let b = c.extract(t, i, 1);
                                acc = c.ite(b, kc, acc);
                            }
                        }
                        Ok(Some(self.v(acc)))
                    }
                    _ => Err(Stop::Err("vector bit op".into())),
                }
            }
            119 | 120 => {
                let w = at[0].bits();
                let s = self.conc(st, &a[2], w)? as u32 % w;
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                if s == 0 {
                    return Ok(Some(if k == 119 { a[0].clone() } else { a[1].clone() }));
                }
                let s = if k == 119 { s } else { w - s };
                // (x << s) | (y >> (w - s))
                let h = c.extract(x, 0, w - s);
                let l = c.extract(y, w - s, s);
                Ok(Some(self.v(c.concat(h, l))))
            }
            121 => Ok(Some(a[0].clone())),
            122 | 123 => {
                let x = self.t(&a[0], at[0].bits());
                let r = fop(if k == 122 { Op::F2S } else { Op::F2U }, ret.bits(), x, 0, 0);
                Ok(Some(self.v(r)))
            }
            124 => {
                let w = at[0].bits();
                Ok(Some(self.bin(BOp::And, w, &a[0], &V::C(mask(w - 1)))?))
            }
            125..=130 => {
                let w = at[0].bits();
                let x = self.t(&a[0], w);
                let r = match k {
                    125 => fop(Op::FRnd, w, x, 0, 1),
                    126 => fop(Op::FRnd, w, x, 0, 2),
                    127 => fop(Op::FRnd, w, x, 0, 0),
                    128 => fop(Op::FRnd, w, x, 0, 3),
                    129 => fop(Op::FRnd, w, x, 0, 4),
                    _ => fop(Op::FSqrt, w, x, 0, 0),
                };
                Ok(Some(self.v(r)))
            }
            131 | 132 => {
                // minnum/maxnum: the other operand when one is NaN
                let w = at[0].bits();
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let ny = { let e = fcm(Op::FEq, y, y); c.not(e) };
                let lt = if k == 131 { fcm(Op::FLt, x, y) } else { fcm(Op::FLt, y, x) };
                let takex = c.or(ny, lt);
                Ok(Some(self.v(c.ite(takex, x, y))))
            }
            133 => {
                let w = at[0].bits();
                let m = self.bin(BOp::And, w, &a[0], &V::C(mask(w - 1)))?;
                let s = self.bin(BOp::And, w, &a[1], &V::C(1 << (w - 1)))?;
                Ok(Some(self.bin(BOp::Or, w, &m, &s)?))
            }
            134..=136 => {
                if let V::A(x) = &a[0] {
                    let w = ret.bits();
                    let mut acc = x[0].clone();
                    for e in &x[1..] {
                        acc = self.bin(match k { 134 => BOp::Or, 135 => BOp::And, _ => BOp::Add }, w, &acc, e)?;
                    }
                    return Ok(Some(acc));
                }
                Err(Stop::Err("vector reduce".into()))
            }
            137 => Ok(Some(V::C(0))),
            _ => Err(Stop::Err(format!("call of undefined function {}", self.p.fns[fid as usize].dem))),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Res<()> {
        let (o, off, _) = self.locate(st, s, n)?;
        // whole pages are shared
        let doff = d & 0xffff_ffff;
        if off % PG as u64 == doff % PG as u64 && n >= PG as u64 {
            return self.with_mut(st, d, n, |t, doff| {
                let mut i = 0;
                while i < n {
                    if (off + i) % PG as u64 == 0 && n - i >= PG as u64 {
                        t.pages[((doff + i) / PG as u64) as usize] = o.pages[((off + i) / PG as u64) as usize].clone();
                        i += PG as u64;
                    } else {
                        t.set(doff + i, o.get(off + i));
                        i += 1;
                    }
                }
            });
        }
        if n <= 16 {
            if let Some(v) = o.get_c(off, n) {
                return self.with_mut(st, d, n, |t, doff| t.set_c(doff, n, v));
            }
        }
        let b: Vec<B> = (0..n).map(|i| o.get(off + i)).collect();
        self.put(st, d, &b)
    }

    // ------------------------------------------------------------ checks
    pub fn inputs_of(&self, m: &Model) -> BTreeMap<String, u128> {
        let mut r = BTreeMap::new();
        for (n, ix) in &self.input_names {
            let v = match m.get(ix) {
                Some(v) => *v,
                None => cx().vars[*ix as usize].dflt,
            };
            r.insert(n.clone(), v);
        }
        r
    }
    fn check(&mut self, st: &mut State, t: T, id: &str, panic: bool) -> Res<()> {
        let s = self.stats.entry(id.to_string()).or_default();
        s.occurrences += 1;
        let kn = self.known(st, t);
        if kn == Some(true) {
            self.stats.get_mut(id).unwrap().folded += 1;
            return Ok(());
        }
        let neg = cx().not(t);
        // quick refutation with the current model
        if let Some(m) = &st.model {
            if m.truth(neg) == Some(true) && st.pc.iter().all(|x| m.truth(*x) == Some(true)) {
                let inp = self.inputs_of(&m.m);
                self.stats.get_mut(id).unwrap().sat += 1;
                self.violations.push(Violation { id: id.to_string(), inputs: inp, panic });
                if t == FALSE {
                    return Err(Stop::Dead("violation"));
                }
                // continue on the other side
                match self.feasible(st, t) {
                    Some(None) => return Err(Stop::Dead("violation")),
                    Some(Some(m)) => st.model = Some(m),
                    None => st.model = None,
                }
                self.add_pc(st, t);
                return Ok(());
            }
        }
        let mut conj = if neg == TRUE { let mut p = st.pc.clone(); p.sort_unstable(); p.dedup(); p } else { self.slice(&st.pc, neg) };
        conj.retain(|x| *x != TRUE);
        let mut proved = false;
        let key = (neg, conj.clone());
        if self.checked.contains_key(&key) {
            self.stats.get_mut(id).unwrap().folded += 1;
            proved = true;
        } else if self.o.concrete.is_some() {
            self.violations.push(Violation { id: id.to_string(), inputs: BTreeMap::new(), panic });
        } else {
            self.checked.insert(key, true);
            // independent conjuncts can be discharged separately
            let job = CheckJob { id: id.to_string(), neg, pc: st.pc.clone(), conj, model: st.model.clone(), stage: if panic { 10 } else { 0 } };
            // a cheap attempt first
            let t0 = Instant::now();
            let quick = self.query(job.conj.clone(), self.o.branch_ms.min(1000), job.model.as_ref());
            let el = t0.elapsed();
            let s = self.stats.get_mut(id).unwrap();
            s.time += el;
            s.max = s.max.max(el);
            match quick {
                Some(None) => {
                    proved = true;
                    s.unsat += 1;
                    *s.tools.entry("z3-5.3 int".into()).or_insert(0) += 1;
                }
                Some(Some(m)) => self.found(&job, &m.m, panic),
                None => {
                    proved = true; // for the rest of this path: a failure is reported by the job itself
                    self.submit(job)
                }
            }
        }
        if t == FALSE {
            return Ok(());
        }
        if proved {
            // implied by the path condition: remember it as a fact, but keep later queries small
            self.add_fact(st, t, true);
            return Ok(());
        }
        match self.feasible(st, t) {
            Some(None) => return Err(Stop::Dead("violation")),
            Some(Some(m)) => st.model = Some(m),
            None => st.model = None,
        }
        self.add_pc(st, t);
        Ok(())
    }
    fn found(&mut self, job: &CheckJob, m: &Model, panic: bool) {
        // a model of the slice; complete it
        let s = self.stats.get_mut(&job.id).unwrap();
        let full = match &job.model {
            Some(b) => Some(merge_models(&b.m, m)),
            None => Some(m.clone()),
        };
        let full = full.map(MModel::new);
        let ok = full.as_ref().map_or(false, |f| job.pc.iter().all(|t| f.truth(*t) == Some(true)) && f.truth(job.neg) == Some(true));
        if ok {
            s.sat += 1;
            let inp = self.inputs_of(&full.unwrap().m);
            self.violations.push(Violation { id: job.id.clone(), inputs: inp, panic });
            return;
        }
        // solve the whole path
        let mut conj = job.pc.clone();
        conj.push(job.neg);
        conj.sort_unstable();
        conj.dedup();
        match self.query(conj, 20000, full.as_ref()) {
            Some(None) => {
                self.stats.get_mut(&job.id).unwrap().unsat += 1;
            }
            Some(Some(m)) => {
                let inp = self.inputs_of(&m.m);
                self.stats.get_mut(&job.id).unwrap().sat += 1;
                self.violations.push(Violation { id: job.id.clone(), inputs: inp, panic });
            }
            None => {
                self.stats.get_mut(&job.id).unwrap().unknown += 1;
                self.undecided.push(format!("{} (counterexample for a part of the path only)", job.id));
            }
        }
    }
    fn submit(&mut self, job: CheckJob) {
        let id = self.next_job;
        self.next_job += 1;
        let mut tasks = vec![];
        let qi = encode_int(&job.conj);
        let qb = encode_bv(&job.conj);
        if let Some(d) = &self.o.dump {
            let _ = std::fs::write(format!("{}/c{}_{}.smt2", d, id, job.id.replace(|c: char| !c.is_alphanumeric(), "_")), format!("{}(check-sat)\n(get-model)\n", qi.text));
            if let Some(q) = &qb {
                let _ = std::fs::write(format!("{}/c{}_{}_bv.smt2", d, id, job.id.replace(|c: char| !c.is_alphanumeric(), "_")), format!("(set-logic {})\n{}(check-sat)\n", q.logic, q.text));
            }
            let mut s = String::new();
            for t in &job.conj {
                s += &format!("{}\n", show(*t, 40));
            }
            let _ = std::fs::write(format!("{}/c{}_{}.txt", d, id, job.id.replace(|c: char| !c.is_alphanumeric(), "_")), s);
        }
        let fp = qb.as_ref().map_or(false, |q| q.logic == "QF_BVFP");
        if !fp {
            tasks.push((Tool::Z3New, qi.clone()));
            tasks.push((Tool::Cvc5, qi.clone()));
            tasks.push((Tool::Z3Old, qi.clone()));
        }
        if let Some(q) = qb {
            tasks.push((Tool::Z3Bv, q.clone()));
            if fp || !qi.nonlin {
                tasks.push((Tool::Cvc5Bv, q.clone()));
            }
        }
        if !fp {
            tasks.push((Tool::Z3Nl, qi));
        }
        self.job_queries += tasks.len() as u64;
        self.jobs.insert(id, job);
        portfolio(tasks, self.o.check_ms, self.tx.clone(), id, self.sem.clone());
    }
    fn poll(&mut self, block: bool) {
        loop {
            let r = if block { self.rx.recv().ok() } else { self.rx.try_recv().ok() };
            let (id, res) = match r {
                Some(x) => x,
                None => return,
            };
            let job = match self.jobs.remove(&id) {
                Some(j) => j,
                None => continue,
            };
            self.job_time += res.cpu;
            let s = self.stats.get_mut(&job.id).unwrap();
            s.time += res.time;
            s.max = s.max.max(res.time);
            if let Some(t) = res.tool {
                *s.tools.entry(t.name().to_string()).or_insert(0) += 1;
            }
            match res.ans {
                Ans::Unsat => s.unsat += 1,
                _ => {
                    let mut good = None;
                    for m in &res.candidates {
                        let mm = MModel::new(m.clone());
                        if job.conj.iter().all(|t| mm.truth(*t) == Some(true)) {
                            good = Some(m.clone());
                            break;
                        }
                    }
                    match good {
                        Some(m) => self.found(&job, &m, job.stage == 10),
                        None => {
                            s.unknown += 1;
                            self.undecided.push(job.id.clone());
                        }
                    }
                }
            }
            if block {
                return;
            }
        }
    }
}
impl V {
    fn fix(self, _t: Option<&Ty>) -> V {
        self
    }
}
pub fn fop(op: Op, w: u32, a: T, b: T, k: u128) -> T {
    let c = cx();
    let aw = c.w(a);
    let args: Option<Vec<u128>> = [a, b].iter().filter(|x| **x != 0).map(|x| c.cv(*x)).collect();
    let n = Node { op, w, a, b, c: 0, k };
    if let Some(args) = args {
        if let Some(v) = eval::fold_f(&n, &args, aw) {
            return c.con(w, v);
        }
    }
    c.raw(op, w, a, b, 0, k)
}
fn fcm(op: Op, a: T, b: T) -> T {
    fop(op, 1, a, b, 0)
}
pub fn show(t: T, d: u32) -> String {
    let c = cx();
    let n = c.n(t);
    match n.op {
        Op::Const => return format!("{}", if n.k > 1 << 64 { format!("{}", sx(n.k, n.w)) } else { format!("{}", n.k) }),
        Op::Var => return c.vars[n.k as usize].name.clone(),
        Op::IConst => return format!("{}", c.bigs[n.k as usize]),
        _ => {}
    }
    if d == 0 {
        return format!("t{}", t);
    }
    let mut s = format!("({:?}:{}", n.op, n.w);
    for x in [n.a, n.b, n.c] {
        if x != 0 {
            s.push(' ');
            s += &show(x, d - 1);
        }
    }
    if n.k != 0 {
        s += &format!(" #{}", n.k);
    }
    s + ")"
}
#[allow(unused)]
fn _unused(_: Big) {}
