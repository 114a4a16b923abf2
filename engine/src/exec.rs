//! Symbolic executor for LLVM IR.
use crate::expr::*;
use crate::fp;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    I(u128),
    S(Ex),
    A(Rc<[V]>),
}

pub struct CFunc {
    pub name: Rc<str>,
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub consts: Vec<V>,
}

#[derive(Clone)]
pub struct Frame {
    f: &'static CFunc,
    block: u32,
    pc: u32,
    regs: Vec<V>,
    stack_base: u32,
    ret_dst: u32,
    ret_normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<Ex>,
    known: Rc<HashMap<Ex, u128>>,
    doms: Vec<Option<Dom>>,
    entangled: Vec<bool>,
    model: Vec<Option<u128>>,
    vals: Vec<(u16, V)>,
    observes: Vec<V>,
    steps: u64,
    panic_ok: u64,
    contracts: bool,
}

#[derive(Debug, Clone)]
pub enum Outcome {
    End,
    Assume,
    Panic,
    Known(u64),
    Violation,
}

/// Non-local result of executing an instruction.
enum Ctl {
    Done(Outcome),
    Unsupported(String),
    /// The solver could not decide a condition.
    NoAnswer,
    Violation(&'static str, String),
}
type R<T> = Result<T, Ctl>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Unknown,
    Defined,
    Missing,
    Nop,
    RetZero,
    RetArg0,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    Panic,
    Abort,
    Bit(u8),
    Sat(u8),
    MinMax(u8),
    Ovf(u8),
    Abs,
    Fsh(bool),
    Cmp3(bool),
    FpUn(u8),
    SymInt(u16),
    SymRange,
    SymAssume,
    SymFail,
    SymCheck,
    SymCover,
    SymObserve,
    SymKnown,
    SymExpect,
    SymEnd,
    SymParam,
    SymConcretize,
    SymIsSym,
    SymStack,
    /// a function which is executed by a contract (the given function) where the harness asks for it
    Contract(u32),
    SymContracts,
    SymDecimal,
    SymSample,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub vals: Vec<(u16, u128)>,
    pub trace: Vec<String>,
}
pub struct Sample {
    pub vals: Vec<(u16, u128)>,
    pub obs: Vec<u128>,
    pub outcome: String,
    pub steps: u64,
}

pub struct Config {
    pub entry: String,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub time_limit: f64,
    pub seed: u64,
    pub max_samples: usize,
    /// Split on the value of an index into a table of larger entries or with several parts.
    pub split: bool,
    pub max_violations: usize,
}

pub struct Exec {
    pub m: Module,
    cf: Vec<Option<&'static CFunc>>,
    fk: Vec<FK>,
    gobj: Vec<Option<Rc<Obj>>>,
    pub ar: Arena,
    pub sol: Solver,
    pending: Vec<State>,
    pub cfg: Config,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub known: BTreeMap<u64, Sample>,
    pub covers: BTreeSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub unary: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub asserts_solver: u64,
    pub incomplete: Option<String>,
    nviol: usize,
    unanswered: u32,
    pub funcs_run: HashSet<u32>,
    unary_memo: HashMap<(Ex, Dom), (bool, bool)>,
    const_memo: HashMap<(Ex, Dom), Option<u128>>,
    tab_cache: HashMap<u32, Rc<[u8]>>,
    start: Instant,
    rng: u64,
    pub max_path_steps: u64,
}

fn fk_of(name: &str, defined: bool) -> FK {
    if let Some(n) = name.strip_prefix("sym_") {
        return match n {
            "u8" => FK::SymInt(8),
            "u16" => FK::SymInt(16),
            "u32" => FK::SymInt(32),
            "u64" => FK::SymInt(64),
            "range" => FK::SymRange,
            "assume" => FK::SymAssume,
            "fail" => FK::SymFail,
            "check" => FK::SymCheck,
            "cover" => FK::SymCover,
            "observe" => FK::SymObserve,
            "known" => FK::SymKnown,
            "expect_panic" => FK::SymExpect,
            "end" => FK::SymEnd,
            "param" => FK::SymParam,
            "concretize" => FK::SymConcretize,
            "is_symbolic" => FK::SymIsSym,
            "stack" => FK::SymStack,
            "contracts" => FK::SymContracts,
            "decimal" => FK::SymDecimal,
            "sample" => FK::SymSample,
            _ => FK::Missing,
        };
    }
    if let Some(n) = name.strip_prefix("llvm.") {
        let st = |p: &str| n.starts_with(p);
        return if st("memcpy.") || st("memmove.") {
            FK::Memcpy
        } else if st("memset.") {
            FK::Memset
        } else if st("lifetime.") || st("assume") || st("experimental.noalias.scope") || st("dbg.") || st("prefetch")
            || st("x86.sse2.pause") || st("donothing") || st("invariant.") || st("var.annotation")
        {
            FK::Nop
        } else if st("is.constant") {
            FK::RetZero
        } else if st("expect.") || st("threadlocal.address") || st("ssa.copy") || st("launder.") || st("strip.") {
            FK::RetArg0
        } else if st("ctpop.") {
            FK::Bit(0)
        } else if st("cttz.") {
            FK::Bit(1)
        } else if st("ctlz.") {
            FK::Bit(2)
        } else if st("bswap.") {
            FK::Bit(3)
        } else if st("bitreverse.") {
            FK::Bit(4)
        } else if st("uadd.sat.") {
            FK::Sat(0)
        } else if st("usub.sat.") {
            FK::Sat(1)
        } else if st("sadd.sat.") {
            FK::Sat(2)
        } else if st("ssub.sat.") {
            FK::Sat(3)
        } else if st("umin.") {
            FK::MinMax(0)
        } else if st("umax.") {
            FK::MinMax(1)
        } else if st("smin.") {
            FK::MinMax(2)
        } else if st("smax.") {
            FK::MinMax(3)
        } else if st("uadd.with.overflow.") {
            FK::Ovf(0)
        } else if st("usub.with.overflow.") {
            FK::Ovf(1)
        } else if st("umul.with.overflow.") {
            FK::Ovf(2)
        } else if st("sadd.with.overflow.") {
            FK::Ovf(3)
        } else if st("ssub.with.overflow.") {
            FK::Ovf(4)
        } else if st("smul.with.overflow.") {
            FK::Ovf(5)
        } else if st("abs.") {
            FK::Abs
        } else if st("fshl.") {
            FK::Fsh(true)
        } else if st("fshr.") {
            FK::Fsh(false)
        } else if st("ucmp.") {
            FK::Cmp3(false)
        } else if st("scmp.") {
            FK::Cmp3(true)
        } else if st("fabs.") {
            FK::FpUn(0)
        } else if st("fptoui.sat.") {
            FK::FpUn(1)
        } else if st("fptosi.sat.") {
            FK::FpUn(2)
        } else if st("trap") {
            FK::Abort
        } else {
            FK::Missing
        };
    }
    match name {
        "memcpy" | "memmove" => return FK::Memcpy,
        "memset" => return FK::Memset,
        "memcmp" => return FK::Memcmp,
        "bcmp" => return FK::Bcmp,
        "strlen" => return FK::Strlen,
        "malloc" => return FK::Malloc,
        "calloc" => return FK::Calloc,
        "free" => return FK::Free,
        "realloc" => return FK::CRealloc,
        "abort" => return FK::Abort,
        _ => {}
    }
    if name.ends_with("___rust_alloc") {
        FK::Alloc
    } else if name.ends_with("___rust_alloc_zeroed") {
        FK::AllocZ
    } else if name.ends_with("___rust_dealloc") {
        FK::Dealloc
    } else if name.ends_with("___rust_realloc") {
        FK::Realloc
    } else if name.contains("___rust_no_alloc_shim") {
        FK::Nop
    } else if name.ends_with("rust_begin_unwind") {
        FK::Panic
    } else if defined {
        FK::Defined
    } else {
        FK::Missing
    }
}

impl Exec {
    pub fn new(m: Module, cfg: Config) -> Self {
        let nf = m.funcs.len();
        let ng = m.globals.len();
        let rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Exec {
            m,
            cf: vec![None; nf],
            fk: vec![FK::Unknown; nf],
            gobj: vec![None; ng],
            ar: Arena::new(),
            sol: Solver::new(),
            pending: vec![],
            cfg,
            violations: vec![],
            samples: vec![],
            known: BTreeMap::new(),
            covers: BTreeSet::new(),
            outcomes: BTreeMap::new(),
            paths: 0,
            steps: 0,
            forks: 0,
            unary: 0,
            asserts: 0,
            asserts_const: 0,
            asserts_solver: 0,
            incomplete: None,
            nviol: 0,
            unanswered: 0,
            funcs_run: HashSet::new(),
            unary_memo: HashMap::new(),
            const_memo: HashMap::new(),
            tab_cache: HashMap::new(),
            start: Instant::now(),
            rng,
            max_path_steps: 0,
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---- constants and functions ----
    fn global_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.m.global_ix.get(n) {
            if let Some(a) = &self.m.globals[g as usize].alias {
                return self.global_addr(&a.clone());
            }
            addr(KIND_GLOBAL, g)
        } else if let Some(&f) = self.m.func_ix.get(n) {
            addr(KIND_FUNC, f)
        } else {
            panic!("unknown global {}", n)
        }
    }
    fn const_int(&self, c: &Const) -> u128 {
        match c {
            Const::Int(k) => *k,
            Const::Undef | Const::Zero => 0,
            Const::Global(g) => self.global_addr(g) as u128,
            Const::Add(c, o) => (self.const_int(c) as u64).wrapping_add(*o as u64) as u128,
            Const::Sub(a, b) => (self.const_int(a) as u64).wrapping_sub(self.const_int(b) as u64) as u128,
            Const::Trunc(c, w) => self.const_int(c) & mask(*w),
            Const::Bin(op, a, b, w) => {
                let (a, b) = (self.const_int(a), self.const_int(b));
                mask(*w)
                    & match op.as_str() {
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "mul" => a.wrapping_mul(b),
                        "shl" => a << b,
                        "lshr" => a >> b,
                        _ => panic!("const op {}", op),
                    }
            }
            c => panic!("const_int {:?}", c),
        }
    }
    fn const_v(&self, t: &Ty, c: &Const) -> V {
        if t.is_agg() {
            let n = t.nfields();
            let v: Vec<V> = match c {
                Const::Undef | Const::Zero => (0..n).map(|i| self.const_v(&t.field(i), &Const::Zero)).collect(),
                Const::Agg(v) => v.iter().map(|(t, c)| self.const_v(t, c)).collect(),
                Const::Bytes(b) => b.iter().map(|&x| V::I(x as u128)).collect(),
                Const::Splat(b) => (0..n).map(|_| self.const_v(&b.0, &b.1)).collect(),
                Const::Int(0) => (0..n).map(|i| self.const_v(&t.field(i), &Const::Zero)).collect(),
                c => panic!("agg const {:?}", c),
            };
            V::A(v.into())
        } else if matches!(t, Ty::Meta | Ty::Void | Ty::Label) {
            V::I(0)
        } else {
            V::I(self.const_int(c))
        }
    }
    fn write_const(&self, t: &Ty, c: &Const, out: &mut [u8]) {
        match (t, c) {
            (_, Const::Undef) | (_, Const::Zero) => {}
            (_, Const::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (t, Const::Agg(v)) => {
                for (i, (ft, fc)) in v.iter().enumerate() {
                    let o = t.field_offset(i) as usize;
                    self.write_const(ft, fc, &mut out[o..]);
                }
            }
            (t, Const::Splat(b)) => {
                for i in 0..t.nfields() {
                    let o = t.field_offset(i) as usize;
                    self.write_const(&b.0, &b.1, &mut out[o..]);
                }
            }
            (t, c) => {
                let k = self.const_int(c);
                let n = t.store_bytes() as usize;
                out[..n].copy_from_slice(&k.to_le_bytes()[..n]);
            }
        }
    }
    fn cfunc(&mut self, ix: u32) -> &'static CFunc {
        if let Some(f) = self.cf[ix as usize] {
            return f;
        }
        let mut f = self.m.compile(ix);
        let mut consts: Vec<V> = Vec::new();
        {
            let this = &*self;
            let mut conv = |o: &mut Opnd| {
                if let Opnd::K(t, c) = o {
                    let v = this.const_v(t, c);
                    consts.push(v);
                    *o = Opnd::C(consts.len() as u32 - 1);
                }
            };
            for b in f.blocks.iter_mut() {
                for p in b.phis.iter_mut() {
                    for i in p.ins.iter_mut() {
                        conv(&mut i.1);
                    }
                }
                for i in b.insts.iter_mut() {
                    i.1.opnds(&mut conv);
                }
            }
        }
        let c: &'static CFunc = Box::leak(Box::new(CFunc {
            name: self.m.funcs[ix as usize].name.clone(),
            nregs: f.nregs,
            params: f.params,
            blocks: f.blocks,
            consts,
        }));
        self.cf[ix as usize] = Some(c);
        self.funcs_run.insert(ix);
        c
    }
    fn gobject(&mut self, g: u32) -> R<Rc<Obj>> {
        if let Some(o) = &self.gobj[g as usize] {
            return Ok(o.clone());
        }
        let (t, c) = self.m.global_init(g);
        let c = match c {
            Some(c) => c,
            None => return Err(Ctl::Unsupported(format!("external global {}", self.m.globals[g as usize].name))),
        };
        let mut o = Obj::new(t.size() as usize, 16);
        let mut b = std::mem::take(&mut o.bytes);
        self.write_const(&t, &c, &mut b);
        o.bytes = b;
        o.ro = self.m.globals[g as usize].constant;
        let o = Rc::new(o);
        self.gobj[g as usize] = Some(o.clone());
        Ok(o)
    }

    // ---- path condition ----
    fn small(&self, v: u32) -> bool {
        self.ar.vars[v as usize].hi <= 255
    }
    fn dom(&self, st: &State, v: u32) -> Dom {
        match st.doms.get(v as usize) {
            Some(Some(d)) => *d,
            _ => self.ar.var_dom(v),
        }
    }
    fn simp(&mut self, st: &State, e: Ex) -> V {
        if let Some(k) = self.ar.konst(e) {
            return V::I(k);
        }
        if let Some(&k) = st.known.get(&e) {
            return V::I(k);
        }
        let s = self.ar.sups[self.ar.sup_id(e) as usize].clone();
        if s.len() == 1 {
            // constant on what is left of the variable's values?
            let v = s[0];
            if let Some(Some(d)) = st.doms.get(v as usize) {
                let d = *d;
                let n = dom_count(&d);
                if n > 1 && n <= 64 {
                    if let Some(r) = self.const_memo.get(&(e, d)) {
                        return r.map_or(V::S(e), V::I);
                    }
                    let mut all: Option<u128> = None;
                    for k in (0..256u128).filter(|k| d[(*k >> 6) as usize] >> (*k & 63) & 1 == 1) {
                        let x = self.ar.eval(e, &|_| k);
                        if all.map_or(false, |y| y != x) {
                            all = None;
                            break;
                        }
                        all = Some(x);
                    }
                    self.const_memo.insert((e, d), all);
                    return all.map_or(V::S(e), V::I);
                }
            }
        }
        for &v in s.iter() {
            match st.doms.get(v as usize) {
                Some(Some(d)) if dom_count(d) == 1 => {}
                _ => return V::S(e),
            }
        }
        let doms = &st.doms;
        V::I(self.ar.eval(e, &|v| dom_first(doms[v as usize].as_ref().unwrap()).unwrap() as u128))
    }
    fn model_eval(&mut self, st: &State, e: Ex) -> u128 {
        let m = &st.model;
        self.ar.eval(e, &|v| m.get(v as usize).copied().flatten().expect("unassigned variable"))
    }
    /// Query: path condition and `extra` (and a narrowed domain for one variable).
    fn query(&mut self, st: &State, extra: Option<Ex>, over: Option<(u32, Dom)>) -> R<Option<Vec<(u32, u128)>>> {
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        if let Some(e) = extra {
            vars.extend(self.ar.support(e).iter());
        }
        if let Some((v, _)) = over {
            vars.insert(v);
        }
        let mut used = vec![false; st.pc.len()];
        let mut cons: Vec<Ex> = extra.into_iter().collect();
        loop {
            let mut ch = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.ar.support(c);
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cons.push(c);
                    vars.extend(s.iter());
                }
            }
            if !ch {
                break;
            }
        }
        let mut doms = Vec::new();
        let mut wide = Vec::new();
        for &v in &vars {
            if let Some((o, d)) = over {
                if o == v {
                    doms.push((v, d));
                    continue;
                }
            }
            if self.small(v) {
                doms.push((v, self.dom(st, v)));
            } else {
                wide.push(v);
            }
        }
        match self.sol.check(&mut self.ar, cons.clone(), doms.clone(), &wide) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => match self.guess(st, &cons, &doms, &wide) {
                Some(m) => Ok(Some(m)),
                None => Err(Ctl::NoAnswer),
            },
        }
    }
    /// Looks for a model of constraints which the solver cannot decide, near the state's own model.
    fn guess(&mut self, st: &State, cons: &[Ex], doms: &[(u32, Dom)], wide: &[u32]) -> Option<Vec<(u32, u128)>> {
        let mut base: Vec<(u32, u128)> = Vec::new();
        for v in doms.iter().map(|d| d.0).chain(wide.iter().copied()) {
            base.push((v, st.model.get(v as usize).copied().flatten()?));
        }
        for round in 0..4000u64 {
            let mut m = base.clone();
            for _ in 0..1 + self.rand() % (1 + round % 8) {
                let i = (self.rand() % m.len() as u64) as usize;
                m[i].1 = if i < doms.len() {
                    let d = doms[i].1;
                    let all: Vec<u128> = (0..256u128).filter(|k| d[(*k >> 6) as usize] >> (*k & 63) & 1 == 1).collect();
                    all[(self.rand() % all.len() as u64) as usize]
                } else {
                    let vi = self.ar.vars[m[i].0 as usize];
                    let k = match self.rand() % 4 {
                        0 => vi.lo,
                        1 => vi.hi,
                        _ => self.rand() as u128 >> (self.rand() % 64),
                    };
                    vi.lo + k % (vi.hi - vi.lo).saturating_add(1)
                };
            }
            let get = |v: u32| m.iter().find(|x| x.0 == v).map_or(0, |x| x.1);
            if cons.iter().all(|&e| self.ar.eval(e, &get) == 1) {
                return Some(m);
            }
        }
        None
    }
    /// Adds `c == val` to the path condition.
    fn assert(&mut self, st: &mut State, c: Ex, val: bool) {
        if self.ar.konst(c).is_some() {
            return;
        }
        if let Some(&k) = st.known.get(&c) {
            debug_assert_eq!(k, val as u128);
            return;
        }
        Rc::make_mut(&mut st.known).insert(c, val as u128);
        let n = self.ar.node(c);
        match (n.op, val) {
            (Op::Not, _) => return self.assert(st, n.a, !val),
            (Op::And, true) => {
                self.assert(st, n.a, true);
                return self.assert(st, n.b, true);
            }
            (Op::Or, false) => {
                self.assert(st, n.a, false);
                return self.assert(st, n.b, false);
            }
            (Op::Eq, true) => {
                if let Some(k) = self.ar.konst(n.b) {
                    Rc::make_mut(&mut st.known).insert(n.a, k);
                } else if let Some(k) = self.ar.konst(n.a) {
                    Rc::make_mut(&mut st.known).insert(n.b, k);
                }
            }
            _ => {}
        }
        let s = self.ar.support(c);
        if s.len() == 1 && self.small(s[0]) {
            let mut t = self.ar.table(c);
            if !val {
                for x in t.iter_mut() {
                    *x = !*x;
                }
            }
            let v = s[0];
            let d = self.dom(st, v);
            let nd = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            st.doms[v as usize] = Some(nd);
            return;
        }
        if s.len() > 1 {
            for &v in s.iter() {
                st.entangled[v as usize] = true;
            }
        } else if s.len() == 1 {
            st.entangled[s[0] as usize] = true;
        }
        let e = if val { c } else { self.ar.not(c) };
        st.pc.push(e);
    }
    /// Remembers a condition that the path condition already implies.
    fn learn(&mut self, st: &mut State, c: Ex, val: bool) {
        if self.ar.konst(c).is_some() || st.known.contains_key(&c) {
            return;
        }
        Rc::make_mut(&mut st.known).insert(c, val as u128);
        let n = self.ar.node(c);
        match (n.op, val) {
            (Op::Not, _) => self.learn(st, n.a, !val),
            (Op::And, true) | (Op::Or, false) => {
                self.learn(st, n.a, val);
                self.learn(st, n.b, val);
            }
            (Op::Eq, true) => {
                if let Some(k) = self.ar.konst(n.b) {
                    Rc::make_mut(&mut st.known).insert(n.a, k);
                } else if let Some(k) = self.ar.konst(n.a) {
                    Rc::make_mut(&mut st.known).insert(n.b, k);
                }
            }
            _ => {}
        }
    }
    /// Which truth values are feasible for `c`; models for the side the state's model is not on.
    fn feasible_other(&mut self, st: &State, c: Ex, side: bool) -> R<Option<Vec<(u32, u128)>>> {
        let s = self.ar.support(c);
        if s.len() == 1 && self.small(s[0]) {
            let v = s[0];
            let d = self.dom(st, v);
            let (t, f) = self.unary(c, v, d)?;
            let other = if side { f } else { t };
            if !other {
                return Ok(None);
            }
            let mut tb = self.ar.table(c);
            if side {
                for x in tb.iter_mut() {
                    *x = !*x;
                }
            }
            let nd = [d[0] & tb[0], d[1] & tb[1], d[2] & tb[2], d[3] & tb[3]];
            if !st.entangled[v as usize] {
                return Ok(Some(vec![(v, dom_first(&nd).unwrap() as u128)]));
            }
            return self.query(st, None, Some((v, nd)));
        }
        let e = if side { self.ar.not(c) } else { c };
        self.query(st, Some(e), None)
    }
    /// Decides a predicate over one small variable with the solver (memoized per domain) and
    /// cross-checks the verdict against its truth table.
    fn unary(&mut self, c: Ex, v: u32, d: Dom) -> R<(bool, bool)> {
        if let Some(r) = self.unary_memo.get(&(c, d)) {
            return Ok(*r);
        }
        self.unary += 1;
        let tb = self.ar.table(c);
        let t = (0..4).any(|i| d[i] & tb[i] != 0);
        let f = (0..4).any(|i| d[i] & !tb[i] != 0);
        // (large expressions are given to the solver as the set of values which satisfy them)
        let e = if self.ar.hard(c) || self.ar.larger(c, 60) { self.ar.member(v, tb) } else { c };
        for (want, e) in [(t, e), (f, self.ar.not(e))] {
            let got = match self.sol.check(&mut self.ar, vec![e], vec![(v, d)], &[]) {
                Res::Sat(_) => true,
                Res::Unsat => false,
                Res::Unknown => return Err(Ctl::NoAnswer),
            };
            if got != want {
                panic!("solver and truth table disagree");
            }
        }
        self.unary_memo.insert((c, d), (t, f));
        Ok((t, f))
    }
    /// The value of an expression; what it depends on is decided if it is too hard for the solver.
    fn soft(&mut self, st: &mut State, e: Ex) -> R<V> {
        let v = self.simp(st, e);
        if !matches!(v, V::S(_)) || !self.ar.hard(e) {
            return Ok(v);
        }
        let s = self.ar.support(e);
        if self.ar.w(e) == 1 && s.len() == 1 && self.small(s[0]) {
            return Ok(v);
        }
        let mut at = Vec::new();
        for &v in s.iter() {
            let vi = self.ar.vars[v as usize];
            let (_, x) = self.ar.var(vi);
            at.push((v, self.concretize(st, &V::S(x))?));
        }
        Ok(V::I(self.ar.eval(e, &|v| at.iter().find(|x| x.0 == v).unwrap().1)))
    }
    /// Follows the state's model on `c`; queues the other side if feasible.
    fn branch(&mut self, st: &mut State, c: Ex) -> R<bool> {
        match self.soft(st, c)? {
            V::I(k) => return Ok(k == 1),
            _ => {}
        }
        let side = self.model_eval(st, c) == 1;
        if let Some(m) = self.feasible_other(st, c, side)? {
            self.forks += 1;
            let mut o = st.clone();
            for (v, k) in m {
                o.model[v as usize] = Some(k);
            }
            self.assert(&mut o, c, !side);
            self.pending.push(o);
            self.assert(st, c, side);
        } else {
            self.learn(st, c, side);
        }
        Ok(side)
    }
    /// Like `branch`; the parts of a condition over many variables are decided one by one.
    fn branch_parts(&mut self, st: &mut State, c: Ex) -> R<bool> {
        let n = self.ar.node(c);
        match n.op {
            Op::Not => return Ok(!self.branch_parts(st, n.a)?),
            Op::And | Op::Or if self.ar.support(n.a).len() > 8 && self.ar.support(n.b).len() > 8 => {
                if let V::I(k) = self.simp(st, c) {
                    return Ok(k == 1);
                }
                let or = n.op == Op::Or;
                if self.branch_parts(st, n.a)? == or {
                    return Ok(or);
                }
                return self.branch_parts(st, n.b);
            }
            _ => self.branch(st, c),
        }
    }
    /// The harness's contract for a function of a dependency, if it has one (and its signature is
    /// as expected).
    fn contract_of(&self, f: u32) -> Option<u32> {
        let d = &self.m.funcs[f as usize];
        let n = &d.name;
        let c = if n.contains("11float_parsef") && n.ends_with("7FromStr8from_str") {
            "contract_parse32"
        } else if n.contains("11float_parsed") && n.ends_with("7FromStr8from_str") {
            "contract_parse64"
        } else if n.ends_with("3ryu6pretty8format32") {
            "contract_format32"
        } else if n.ends_with("3ryu6pretty8format64") {
            "contract_format64"
        } else {
            return None;
        };
        let (i, _) = self.m.funcs.iter().enumerate().find(|x| x.1.defined && &*x.1.name == c)?;
        let (i, n) = (i as u32, self.m.compile(f).params.len());
        if self.m.compile(i).params.len() == n { Some(i) } else { None }
    }
    fn concretize(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::I(k) => Ok(*k),
            V::S(e) => {
                if let V::I(k) = self.soft(st, *e)? {
                    return Ok(k);
                }
                let k = self.model_eval(st, *e);
                let w = self.ar.w(*e);
                let kc = self.ar.c(k, w);
                let c = self.ar.eq(*e, kc);
                let b = self.branch(st, c)?;
                assert!(b);
                Ok(k)
            }
            V::A(_) => panic!("concretize aggregate"),
        }
    }

    // ---- values ----
    fn ex(&mut self, v: &V, w: u16) -> Ex {
        match v {
            V::I(k) => self.ar.c(*k, w),
            V::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn vs(&self, e: Ex) -> V {
        match self.ar.konst(e) {
            Some(k) => V::I(k),
            None => V::S(e),
        }
    }
    fn val(&mut self, st: &State, o: &Opnd) -> V {
        match o {
            Opnd::Reg(r) => match &st.top.regs[*r as usize] {
                V::I(k) => V::I(*k),
                V::S(e) => {
                    let e = *e;
                    self.simp(st, e)
                }
                V::A(a) => V::A(a.clone()),
            },
            Opnd::C(c) => st.top.f.consts[*c as usize].clone(),
            Opnd::K(..) => unreachable!(),
        }
    }
    fn int(&mut self, st: &mut State, o: &Opnd) -> R<u128> {
        let v = self.val(st, o);
        self.concretize(st, &v)
    }

    // ---- memory ----
    fn fault(&self, what: &str, a: u64) -> Ctl {
        let (k, id, off) = split(a);
        let kn = match k {
            KIND_GLOBAL => "global",
            KIND_HEAP => "heap",
            KIND_STACK => "stack",
            KIND_FUNC => "function",
            _ => "invalid",
        };
        Ctl::Violation("memory", format!("{}: {} object {} offset {}", what, kn, id, off))
    }
    fn obj(&mut self, st: &State, a: u64, n: usize, write: bool) -> R<(Rc<Obj>, usize)> {
        let (k, id, off) = split(a);
        let o = match k {
            KIND_HEAP => match st.mem.heap.get(id) {
                Some(o) => o.clone(),
                None => return Err(self.fault("use of freed or unallocated memory", a)),
            },
            KIND_STACK => match st.mem.stack.get(id) {
                Some(o) => o.clone(),
                None => return Err(self.fault("use of dead stack memory", a)),
            },
            KIND_GLOBAL if (id as usize) < self.m.globals.len() => match st.mem.globals.get(&id) {
                Some(o) => o.clone(),
                None => self.gobject(id)?,
            },
            _ => return Err(self.fault("invalid pointer", a)),
        };
        if off < 0 || off as usize + n > o.bytes.len() {
            return Err(self.fault(&format!("out of bounds {} of {} bytes (object size {})", if write { "write" } else { "read" }, n, o.bytes.len()), a));
        }
        if write && o.ro {
            return Err(self.fault("write to constant", a));
        }
        Ok((o, off as usize))
    }
    /// Mutable access after bounds checking.
    fn with_mut<T>(&mut self, st: &mut State, a: u64, n: usize, f: impl FnOnce(&mut Obj, usize) -> T) -> R<T> {
        let (o, off) = self.obj(st, a, n, true)?;
        drop(o);
        let (k, id, _) = split(a);
        Ok(match k {
            KIND_HEAP => f(st.mem.heap.get_mut(id).unwrap(), off),
            KIND_STACK => f(st.mem.stack.get_mut(id).unwrap(), off),
            _ => {
                if !st.mem.globals.contains_key(&id) {
                    let o = self.gobject(id)?;
                    Rc::make_mut(&mut st.mem.globals).insert(id, o);
                }
                f(Rc::make_mut(Rc::make_mut(&mut st.mem.globals).get_mut(&id).unwrap()), off)
            }
        })
    }
    fn bytes_to_v(&mut self, b: &[B], w: u16) -> V {
        // low byte first
        let n = b.len();
        let mut acc: Option<Ex> = None;
        let mut i = 0;
        while i < n {
            let part = match b[i] {
                B::C(_) => {
                    let mut k = 0u128;
                    let st = i;
                    while i < n {
                        if let B::C(c) = b[i] {
                            k |= (c as u128) << (8 * (i - st));
                            i += 1;
                        } else {
                            break;
                        }
                    }
                    self.ar.c(k, ((i - st) * 8) as u16)
                }
                B::S(e, lo) => {
                    let st = i;
                    i += 1;
                    while i < n && b[i] == B::S(e, lo + (i - st) as u8) {
                        i += 1;
                    }
                    let len = ((i - st) * 8) as u16;
                    let ew = self.ar.w(e);
                    if lo == 0 && ew == len {
                        e
                    } else {
                        self.ar.extract(e, lo as u32 * 8, len)
                    }
                }
            };
            acc = Some(match acc {
                None => part,
                Some(a) => self.ar.concat(part, a),
            });
        }
        let mut e = acc.unwrap();
        if w < self.ar.w(e) {
            e = self.ar.extract(e, 0, w);
        }
        self.vs(e)
    }
    fn load_scalar(&mut self, st: &State, o: &Obj, off: usize, w: u16) -> V {
        let n = (w as usize + 7) / 8;
        if o.concrete(off, n) {
            let mut k = [0u8; 16];
            k[..n].copy_from_slice(&o.bytes[off..off + n]);
            V::I(u128::from_le_bytes(k) & mask(w))
        } else {
            let b: Vec<B> = (off..off + n).map(|i| o.get(i)).collect();
            match self.bytes_to_v(&b, w) {
                V::S(e) => self.simp(st, e),
                v => v,
            }
        }
    }
    fn load_ty(&mut self, st: &State, o: &Obj, off: usize, t: &Ty) -> V {
        match t {
            Ty::Vec(e, n) if e.bits() < 8 => {
                let w = e.bits() as u32 * n;
                let v = self.load_scalar(st, o, off, w as u16);
                self.int_to_vec(&v, w as u16, e.bits(), *n)
            }
            t if t.is_agg() => {
                let v: Vec<V> = (0..t.nfields())
                    .map(|i| self.load_ty(st, o, off + t.field_offset(i) as usize, &t.field(i)))
                    .collect();
                V::A(v.into())
            }
            t => self.load_scalar(st, o, off, t.bits()),
        }
    }
    /// Decides the choices which an expression is made of.
    fn resolve(&mut self, st: &mut State, e: Ex) -> R<Ex> {
        let w = self.ar.w(e);
        if let V::I(k) = self.simp(st, e) {
            return Ok(self.ar.c(k, w));
        }
        let n = self.ar.node(e);
        Ok(match n.op {
            Op::Ite => {
                let side = self.branch(st, n.a)?;
                self.resolve(st, if side { n.b } else { n.c })?
            }
            Op::ZExt => {
                let r = self.resolve(st, n.a)?;
                self.ar.zext(r, w)
            }
            Op::Lin => {
                let (terms, k) = self.ar.lin_terms(e);
                let mut sum = self.ar.c(k, w);
                for (t, c) in terms {
                    let r = self.resolve(st, t)?;
                    let x = self.ar.mulc(r, c);
                    sum = self.ar.add(sum, x);
                }
                sum
            }
            _ => e,
        })
    }
    fn load(&mut self, st: &mut State, t: &Ty, p: &V) -> R<V> {
        let n = t.store_bytes() as usize;
        let a = match p {
            V::I(a) => *a as u64,
            V::S(e) if self.ar.hard(*e) => self.concretize(st, p)? as u64,
            V::S(e) => {
                let (lo, hi) = (self.ar.m(*e).lo as u64, self.ar.m(*e).hi as u64);
                let (k, id, _) = split(lo);
                let (k2, id2, _) = split(hi);
                if k == KIND_GLOBAL && k == k2 && id == id2 && !t.is_agg() && n <= 16 {
                    let g = self.gobject(id)?;
                    let whole = !self.cfg.split || n <= 2 && self.ar.support(*e).len() == 1;
                    if whole && g.ro && n >= 4 && g.bytes.len() > 512 {
                        // (wide entries of large tables are not worth merging over choices
                        // which have been made already)
                        let r = self.resolve(st, *e)?;
                        if r != *e {
                            let p = match self.ar.konst(r) {
                                Some(k) => V::I(k),
                                None => V::S(r),
                            };
                            return self.load(st, t, &p);
                        }
                    }
                    if whole && g.ro && g.bytes.len() <= 65536 && g.bytes.len() >= n {
                        let base = addr(k, id);
                        let lim = self.ar.c((base + (g.bytes.len() - n) as u64) as u128, 64);
                        let b = self.ar.c(base as u128, 64);
                        let over = self.ar.ult(lim, *e);
                        let under = self.ar.ult(*e, b);
                        let bad = self.ar.or(over, under);
                        if self.branch(st, bad)? {
                            return Err(self.fault("out of bounds read (symbolic index)", self.model_eval_u64(st, *e)));
                        }
                        let tab = match self.tab_cache.get(&id) {
                            Some(t) => t.clone(),
                            None => {
                                let t: Rc<[u8]> = g.bytes.clone().into();
                                self.tab_cache.insert(id, t.clone());
                                t
                            }
                        };
                        let mut acc: Option<Ex> = None;
                        for j in 0..n {
                            let kj = self.ar.c((j as u64).wrapping_sub(base) as u128, 64);
                            let ix = self.ar.add(*e, kj);
                            let x = self.ar.tab(tab.clone(), ix);
                            acc = Some(match acc {
                                None => x,
                                Some(a) => self.ar.concat(x, a),
                            });
                        }
                        let mut x = acc.unwrap();
                        if self.ar.w(x) > t.bits() {
                            x = self.ar.extract(x, 0, t.bits());
                        }
                        return Ok(self.simp(st, x));
                    }
                }
                let r = if self.cfg.split { self.resolve(st, *e)? } else { *e };
                if r != *e {
                    let p = match self.ar.konst(r) {
                        Some(k) => V::I(k),
                        None => V::S(r),
                    };
                    return self.load(st, t, &p);
                }
                if self.cfg.split {
                    for &v in self.ar.support(*e).iter() {
                        let vi = self.ar.vars[v as usize];
                        if self.small(v) {
                            let (_, x) = self.ar.var(vi);
                            let x = self.simp(st, x);
                            self.concretize(st, &x)?;
                        }
                    }
                }
                self.concretize(st, p)? as u64
            }
            _ => panic!("load address"),
        };
        let (o, off) = self.obj(st, a, n, false)?;
        Ok(self.load_ty(st, &o, off, t))
    }
    fn model_eval_u64(&self, _st: &State, _e: Ex) -> u64 {
        0
    }
    fn store_v(&mut self, st: &mut State, t: &Ty, v: &V, a: u64) -> R<()> {
        match v {
            V::A(items) => {
                if let Ty::Vec(e, n) = t {
                    if e.bits() < 8 {
                        let w = e.bits() as u32 * n;
                        let x = self.vec_to_int(v, e.bits(), w as u16);
                        return self.store_v(st, &Ty::Int(w as u16), &x, a);
                    }
                }
                for (i, x) in items.iter().enumerate() {
                    self.store_v(st, &t.field(i), x, a.wrapping_add(t.field_offset(i)))?;
                }
                Ok(())
            }
            V::I(k) => {
                if t.is_agg() {
                    panic!("scalar into aggregate");
                }
                let n = t.store_bytes() as usize;
                let b = k.to_le_bytes();
                self.with_mut(st, a, n, |o, off| o.set_c(off, &b[..n]))
            }
            V::S(e) => {
                let n = t.store_bytes() as usize;
                let e = if self.ar.w(*e) as usize != n * 8 { self.ar.zext(*e, n as u16 * 8) } else { *e };
                self.with_mut(st, a, n, |o, off| {
                    for i in 0..n {
                        o.set_s(off + i, e, i as u8)
                    }
                })
            }
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(st, s, n, false)?;
        if so.concrete(soff, n) {
            self.with_mut(st, d, n, |o, off| o.set_c(off, &so.bytes[soff..soff + n]))
        } else {
            let b: Vec<B> = (soff..soff + n).map(|i| so.get(i)).collect();
            drop(so);
            self.with_mut(st, d, n, |o, off| {
                for (i, x) in b.iter().enumerate() {
                    o.set(off + i, *x)
                }
            })
        }
    }
    fn alloc(&mut self, st: &mut State, n: usize, align: u32) -> R<u64> {
        if n > 1 << 26 {
            return Err(Ctl::Violation("memory", format!("allocation of {} bytes", n)));
        }
        let id = st.mem.next_heap;
        st.mem.next_heap += 1;
        st.mem.heap.set(id, Some(Rc::new(Obj::new(n, align))));
        Ok(addr(KIND_HEAP, id))
    }
    fn free(&mut self, st: &mut State, a: u64, size: Option<usize>) -> R<()> {
        let (k, id, off) = split(a);
        let ok = k == KIND_HEAP && off == 0;
        let o = if ok { st.mem.heap.get(id) } else { None };
        match o {
            None => Err(self.fault("invalid or double free", a)),
            Some(o) => {
                if let Some(s) = size {
                    if s != o.bytes.len() {
                        return Err(self.fault("free with a wrong size", a));
                    }
                }
                st.mem.heap.set(id, None);
                Ok(())
            }
        }
    }

    // ---- scalar operations ----
    fn int_to_vec(&mut self, v: &V, _w: u16, ew: u16, n: u32) -> V {
        let out: Vec<V> = (0..n)
            .map(|i| match v {
                V::I(k) => V::I(k >> (i * ew as u32) & mask(ew)),
                V::S(e) => {
                    let x = self.ar.extract(*e, i * ew as u32, ew);
                    self.vs(x)
                }
                V::A(_) => panic!(),
            })
            .collect();
        V::A(out.into())
    }
    fn vec_to_int(&mut self, v: &V, ew: u16, w: u16) -> V {
        if let V::A(a) = v {
            if a.iter().all(|x| matches!(x, V::I(_))) {
                let mut k = 0u128;
                for (i, x) in a.iter().enumerate() {
                    if let V::I(x) = x {
                        k |= x << (i * ew as usize);
                    }
                }
                return V::I(k);
            }
            let mut acc: Option<Ex> = None;
            for x in a.iter() {
                let e = self.ex(x, ew);
                acc = Some(match acc {
                    None => e,
                    Some(a) => self.ar.concat(e, a),
                });
            }
            let e = acc.unwrap();
            debug_assert_eq!(self.ar.w(e), w);
            self.vs(e)
        } else {
            v.clone()
        }
    }
    fn bin(&mut self, st: &mut State, op: Bin, t: &Ty, a: V, b: V) -> R<V> {
        if let (V::A(x), V::A(y)) = (&a, &b) {
            let et = t.field(0);
            let mut out = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y.iter()) {
                out.push(self.bin(st, op, &et, p.clone(), q.clone())?);
            }
            return Ok(V::A(out.into()));
        }
        let w = t.bits();
        if matches!(op, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) {
            let n = match op {
                Bin::FAdd => "fadd",
                Bin::FSub => "fsub",
                Bin::FMul => "fmul",
                Bin::FDiv => "fdiv",
                _ => "frem",
            };
            return Ok(self.fpop(&format!("{}.{}", n, w), vec![(a, w), (b, w)], w));
        }
        if let (V::I(x), V::I(y)) = (&a, &b) {
            return Ok(V::I(self.bin_c(op, w, *x, *y)?));
        }
        if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
            // division by zero is undefined behaviour; the compiler guards it
            let yb = self.ex(&b, w);
            let z = self.ar.c(0, w);
            let c = self.ar.eq(yb, z);
            if self.branch(st, c)? {
                return Err(Ctl::Violation("memory", "division by zero".into()));
            }
        }
        let mut b = b;
        if op == Bin::Mul && w == 128 {
            // (hashing by folded multiplication: too hard for the solver)
            let big = |v: &V| matches!(v, V::I(k) if *k >> 40 != 0);
            if big(&a) || big(&b) || (matches!(a, V::S(_)) && matches!(b, V::S(_))) {
                let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                let r = self.ar.mul_hard(x, y);
                return Ok(self.simp(st, r));
            }
        }
        if matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) {
            if let V::S(e) = b {
                if !self.ar.hard(e) {
                    b = V::I(self.concretize(st, &b)?);
                    return self.bin(st, op, t, a, b);
                }
            }
        }
        let (x, y) = (self.ex(&a, w), self.ex(&b, w));
        let r = match op {
            Bin::Add => self.ar.add(x, y),
            Bin::Sub => self.ar.sub(x, y),
            Bin::Mul => self.ar.mul(x, y),
            Bin::UDiv => self.ar.udiv(x, y),
            Bin::SDiv => self.ar.sdiv(x, y),
            Bin::URem => self.ar.urem(x, y),
            Bin::SRem => self.ar.srem(x, y),
            Bin::And => self.ar.and(x, y),
            Bin::Or => self.ar.or(x, y),
            Bin::Xor => self.ar.xor(x, y),
            Bin::Shl => self.ar.shl(x, y),
            Bin::LShr => self.ar.lshr(x, y),
            Bin::AShr => self.ar.ashr(x, y),
            _ => unreachable!(),
        };
        Ok(self.simp(st, r))
    }
    fn bin_c(&self, op: Bin, w: u16, x: u128, y: u128) -> R<u128> {
        let m = mask(w);
        let div0 = || Err(Ctl::Violation("memory", "division by zero".into()));
        Ok(match op {
            Bin::Add => x.wrapping_add(y),
            Bin::Sub => x.wrapping_sub(y),
            Bin::Mul => x.wrapping_mul(y),
            Bin::UDiv => {
                if y == 0 {
                    return div0();
                }
                x / y
            }
            Bin::URem => {
                if y == 0 {
                    return div0();
                }
                x % y
            }
            Bin::SDiv => {
                if y == 0 {
                    return div0();
                }
                sext(x, w).wrapping_div(sext(y, w)) as u128
            }
            Bin::SRem => {
                if y == 0 {
                    return div0();
                }
                sext(x, w).wrapping_rem(sext(y, w)) as u128
            }
            Bin::And => x & y,
            Bin::Or => x | y,
            Bin::Xor => x ^ y,
            Bin::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Bin::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Bin::AShr => (sext(x, w) >> y.min(w as u128 - 1)) as u128,
            _ => unreachable!(),
        } & m)
    }
    fn fpop(&mut self, name: &str, args: Vec<(V, u16)>, w: u16) -> V {
        if args.iter().all(|a| matches!(a.0, V::I(_))) {
            let k: Vec<u128> = args.iter().map(|a| if let V::I(k) = a.0 { k } else { 0 }).collect();
            return V::I(fp::eval_uf(name, &k) & mask(w));
        }
        let ex: Vec<Ex> = args.iter().map(|(v, w)| self.ex(v, *w)).collect();
        let e = self.ar.uf(name, ex, w);
        self.vs(e)
    }
    fn icmp(&mut self, st: &State, p: Pred, t: &Ty, a: V, b: V) -> V {
        if let (V::A(x), V::A(y)) = (&a, &b) {
            let et = t.field(0);
            let out: Vec<V> =
                x.iter().zip(y.iter()).map(|(x, y)| self.icmp(st, p, &et, x.clone(), y.clone())).collect();
            return V::A(out.into());
        }
        let w = t.bits();
        if let (V::I(x), V::I(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
            };
            return V::I(r as u128);
        }
        let (x, y) = (self.ex(&a, w), self.ex(&b, w));
        let e = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Ule => {
                let e = self.ar.ult(y, x);
                self.ar.not(e)
            }
            Pred::Uge => {
                let e = self.ar.ult(x, y);
                self.ar.not(e)
            }
            Pred::Slt => self.ar.slt(x, y),
            Pred::Sgt => self.ar.slt(y, x),
            Pred::Sle => {
                let e = self.ar.slt(y, x);
                self.ar.not(e)
            }
            Pred::Sge => {
                let e = self.ar.slt(x, y);
                self.ar.not(e)
            }
        };
        self.simp(st, e)
    }
    fn cast(&mut self, st: &State, c: Cast, from: &Ty, v: V, to: &Ty) -> V {
        if c == Cast::Bit {
            if from == to {
                return v;
            }
            // through an integer
            let iv = match from {
                Ty::Vec(e, n) => self.vec_to_int(&v, e.bits(), e.bits() * *n as u16),
                _ => v,
            };
            return match to {
                Ty::Vec(e, n) => self.int_to_vec(&iv, e.bits() * *n as u16, e.bits(), *n),
                _ => iv,
            };
        }
        if let V::A(x) = &v {
            let (ft, tt) = (from.field(0), to.field(0));
            let out: Vec<V> = x.iter().map(|x| self.cast(st, c, &ft, x.clone(), &tt)).collect();
            return V::A(out.into());
        }
        let (fw, tw) = (from.bits(), to.bits());
        let name = match c {
            Cast::FpToUi => Some(format!("fptoui.{}.{}", fw, tw)),
            Cast::FpToSi => Some(format!("fptosi.{}.{}", fw, tw)),
            Cast::UiToFp => Some(format!("uitofp.{}.{}", fw, tw)),
            Cast::SiToFp => Some(format!("sitofp.{}.{}", fw, tw)),
            Cast::FpExt => Some("fpext".to_string()),
            Cast::FpTrunc => Some("fptrunc".to_string()),
            _ => None,
        };
        if let Some(n) = name {
            return self.fpop(&n, vec![(v, fw)], tw);
        }
        match v {
            V::I(k) => V::I(match c {
                Cast::Trunc => k & mask(tw),
                Cast::ZExt => k,
                _ => sext(k, fw) as u128 & mask(tw),
            }),
            V::S(e) => {
                let r = match c {
                    Cast::Trunc => self.ar.extract(e, 0, tw),
                    Cast::ZExt => self.ar.zext(e, tw),
                    _ => self.ar.sext(e, tw),
                };
                self.simp(st, r)
            }
            V::A(_) => unreachable!(),
        }
    }
    fn intrinsic_int(&mut self, st: &mut State, k: FK, rt: &Ty, args: &[(V, Ty)]) -> R<V> {
        if let V::A(x) = &args[0].0 {
            // elementwise
            let n = x.len();
            let et = rt.field(0);
            let mut out = Vec::new();
            for i in 0..n {
                let a: Vec<(V, Ty)> = args
                    .iter()
                    .map(|(v, t)| match v {
                        V::A(a) => (a[i].clone(), t.field(0)),
                        v => (v.clone(), t.clone()),
                    })
                    .collect();
                out.push(self.intrinsic_int(st, k, &et, &a)?);
            }
            return Ok(V::A(out.into()));
        }
        let w = args[0].1.bits();
        let m = mask(w);
        let half = m >> 1;
        let a = args[0].0.clone();
        let b = args.get(1).map(|x| x.0.clone()).unwrap_or(V::I(0));
        let conc = args.iter().all(|x| matches!(x.0, V::I(_)));
        let ci = |v: &V| if let V::I(k) = v { *k } else { 0 };
        let r: Ex = match k {
            FK::Bit(op) => {
                if op == 4 && !conc {
                    let x = self.concretize(st, &a)?;
                    return self.intrinsic_int(st, k, rt, &[(V::I(x), args[0].1.clone())]);
                }
                if conc {
                    let x = ci(&a);
                    return Ok(V::I(match op {
                        0 => x.count_ones() as u128,
                        1 => x.trailing_zeros().min(w as u32) as u128,
                        2 => (x << (128 - w as u32)).leading_zeros().min(w as u32) as u128,
                        3 => x.swap_bytes() >> (128 - w as u32),
                        _ => x.reverse_bits() >> (128 - w as u32),
                    }));
                }
                let x = self.ex(&a, w);
                match op {
                    0 => {
                        let mut acc = self.ar.c(0, w);
                        for i in 0..w as u32 {
                            let bit = self.ar.extract(x, i, 1);
                            let z = self.ar.zext(bit, w);
                            acc = self.ar.add(acc, z);
                        }
                        acc
                    }
                    1 | 2 => {
                        let mut acc = self.ar.c(w as u128, w);
                        let order: Vec<u32> =
                            if op == 1 { (0..w as u32).rev().collect() } else { (0..w as u32).collect() };
                        for i in order {
                            let bit = self.ar.extract(x, i, 1);
                            let kk = if op == 1 { i } else { w as u32 - 1 - i };
                            let c = self.ar.c(kk as u128, w);
                            acc = self.ar.ite(bit, c, acc);
                        }
                        acc
                    }
                    _ => {
                        let mut acc = self.ar.extract(x, 0, 8);
                        for i in 1..(w / 8) as u32 {
                            let b = self.ar.extract(x, i * 8, 8);
                            acc = self.ar.concat(acc, b);
                        }
                        acc
                    }
                }
            }
            FK::Abs => {
                if conc {
                    let x = sext(ci(&a), w);
                    return Ok(V::I(x.wrapping_abs() as u128 & m));
                }
                let x = self.ex(&a, w);
                let z = self.ar.c(0, w);
                let c = self.ar.slt(x, z);
                let n = self.ar.sub(z, x);
                self.ar.ite(c, n, x)
            }
            FK::MinMax(op) => {
                if conc {
                    let (x, y) = (ci(&a), ci(&b));
                    return Ok(V::I(match op {
                        0 => x.min(y),
                        1 => x.max(y),
                        2 => sext(x, w).min(sext(y, w)) as u128 & m,
                        _ => sext(x, w).max(sext(y, w)) as u128 & m,
                    }));
                }
                let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                let c = if op < 2 { self.ar.ult(x, y) } else { self.ar.slt(x, y) };
                if op % 2 == 0 {
                    self.ar.ite(c, x, y)
                } else {
                    self.ar.ite(c, y, x)
                }
            }
            FK::Sat(op) => {
                let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                match op {
                    0 => {
                        let s = self.ar.add(x, y);
                        let o = self.ar.ult(s, x);
                        let mx = self.ar.c(m, w);
                        self.ar.ite(o, mx, s)
                    }
                    1 => {
                        let s = self.ar.sub(x, y);
                        let o = self.ar.ult(x, y);
                        let z = self.ar.c(0, w);
                        self.ar.ite(o, z, s)
                    }
                    _ => {
                        let s = if op == 2 { self.ar.add(x, y) } else { self.ar.sub(x, y) };
                        let z = self.ar.c(0, w);
                        let (xn, yn, sn) = (self.ar.slt(x, z), self.ar.slt(y, z), self.ar.slt(s, z));
                        // overflow: the signs of the operands (second one flipped for sub)
                        // agree and differ from that of the result
                        let one = self.ar.c(1, 1);
                        let yn = if op == 2 { yn } else { self.ar.xor(yn, one) };
                        let d = self.ar.xor(xn, yn);
                        let same = self.ar.xor(d, one);
                        let diff = self.ar.xor(xn, sn);
                        let o = self.ar.and(same, diff);
                        let (mn, mx) = (self.ar.c(1u128 << (w - 1), w), self.ar.c(m >> 1, w));
                        let lim = self.ar.ite(xn, mn, mx);
                        self.ar.ite(o, lim, s)
                    }
                }
            }
            FK::Cmp3(signed) => {
                let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                let rw = rt.bits();
                let lt = if signed { self.ar.slt(x, y) } else { self.ar.ult(x, y) };
                let eq = self.ar.eq(x, y);
                let (n1, z, o) = (self.ar.c(mask(rw), rw), self.ar.c(0, rw), self.ar.c(1, rw));
                let t = self.ar.ite(eq, z, o);
                self.ar.ite(lt, n1, t)
            }
            FK::Fsh(left) if matches!(args[2].0, V::S(e) if self.ar.hard(e)) && w.is_power_of_two() => {
                let amount = args[2].0.clone();
                let (x, y, s) = (self.ex(&a, w), self.ex(&b, w), self.ex(&amount, w));
                let (m, n) = (self.ar.c(w as u128 - 1, w), self.ar.c(w as u128, w));
                let s = self.ar.and(s, m);
                let r = self.ar.sub(n, s);
                let (p, q) = if left { (s, r) } else { (r, s) };
                let h = self.ar.shl(x, p);
                let l = self.ar.lshr(y, q);
                self.ar.or(h, l)
            }
            FK::Fsh(left) => {
                let s = self.concretize(st, &args[2].0.clone())? % w as u128;
                let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                if s == 0 {
                    if left {
                        x
                    } else {
                        y
                    }
                } else {
                    let (p, q) = if left { (s, w as u128 - s) } else { (w as u128 - s, s) };
                    let (p, q) = (self.ar.c(p, w), self.ar.c(q, w));
                    let h = self.ar.shl(x, p);
                    let l = self.ar.lshr(y, q);
                    self.ar.or(h, l)
                }
            }
            FK::Ovf(op) => {
                let (r, o) = if conc {
                    let (x, y) = (ci(&a), ci(&b));
                    let (r, o) = match op {
                        0 => {
                            let (r, c) = x.overflowing_add(y);
                            (r & m, c || r > m)
                        }
                        1 => (x.wrapping_sub(y) & m, x < y),
                        2 => {
                            let (r, c) = x.overflowing_mul(y);
                            (r & m, c || r > m)
                        }
                        _ => {
                            let (p, q) = (sext(x, w), sext(y, w));
                            let (r, c) = match op {
                                3 => p.overflowing_add(q),
                                4 => p.overflowing_sub(q),
                                _ => p.overflowing_mul(q),
                            };
                            (r as u128 & m, c || sext(r as u128 & m, w) != r)
                        }
                    };
                    return Ok(V::A(vec![V::I(r), V::I(o as u128)].into()));
                } else {
                    let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                    let (x, y) = if matches!(a, V::I(_)) && matches!(op, 0 | 2 | 3 | 5) { (y, x) } else { (x, y) };
                    let z = self.ar.c(0, w);
                    let yk = self.ar.konst(y);
                    match op {
                        0 => {
                            let r = self.ar.add(x, y);
                            (r, self.ar.ult(r, x))
                        }
                        1 => (self.ar.sub(x, y), self.ar.ult(x, y)),
                        2 => {
                            let r = self.ar.mul(x, y);
                            let o = match yk {
                                Some(0) => self.ar.bool(false),
                                Some(k) => {
                                    let lim = self.ar.c(m / k, w);
                                    self.ar.ult(lim, x)
                                }
                                None => {
                                    if w > 64 {
                                        return Err(Ctl::Unsupported("128-bit symbolic product".into()));
                                    }
                                    let (zx, zy) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                                    let p = self.ar.mul(zx, zy);
                                    let lim = self.ar.c(m, 2 * w);
                                    self.ar.ult(lim, p)
                                }
                            };
                            (r, o)
                        }
                        3 | 4 => {
                            let r = if op == 3 { self.ar.add(x, y) } else { self.ar.sub(x, y) };
                            let o = match yk {
                                Some(k) => {
                                    let k = if op == 3 { sext(k, w) } else { -sext(k, w) };
                                    let (mn, mx) = (-(half as i128) - 1, half as i128);
                                    // overflow iff x + k outside [mn, mx]
                                    if k >= 0 {
                                        let lim = self.ar.c((mx - k) as u128 & m, w);
                                        self.ar.slt(lim, x)
                                    } else {
                                        let lim = self.ar.c((mn - k) as u128 & m, w);
                                        self.ar.slt(x, lim)
                                    }
                                }
                                None => {
                                    let (sx, sy, sr) = (self.ar.slt(x, z), self.ar.slt(y, z), self.ar.slt(r, z));
                                    let mut same = self.ar.eq(sx, sy);
                                    if op == 4 {
                                        same = self.ar.not(same);
                                    }
                                    let e = self.ar.eq(sr, sx);
                                    let ne = self.ar.not(e);
                                    self.ar.and(same, ne)
                                }
                            };
                            (r, o)
                        }
                        _ => {
                            let r = self.ar.mul(x, y);
                            let (mn, mx) = (-(half as i128) - 1, half as i128);
                            let o = match yk.map(|k| sext(k, w)) {
                                Some(0) => self.ar.bool(false),
                                Some(-1) => {
                                    let c = self.ar.c(mn as u128 & m, w);
                                    self.ar.eq(x, c)
                                }
                                Some(k) => {
                                    let (l, h) = if k > 0 { (mn / k, mx / k) } else { (mx / k, mn / k) };
                                    let (l, h) = (self.ar.c(l as u128 & m, w), self.ar.c(h as u128 & m, w));
                                    let p = self.ar.slt(x, l);
                                    let q = self.ar.slt(h, x);
                                    self.ar.or(p, q)
                                }
                                None => {
                                    if w > 64 {
                                        return Err(Ctl::Unsupported("128-bit symbolic product".into()));
                                    }
                                    let (zx, zy) = (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w));
                                    let p = self.ar.mul(zx, zy);
                                    let rr = self.ar.sext(r, 2 * w);
                                    let e = self.ar.eq(rr, p);
                                    self.ar.not(e)
                                }
                            };
                            (r, o)
                        }
                    }
                };
                let (r, o) = (self.simp(st, r), self.simp(st, o));
                return Ok(V::A(vec![r, o].into()));
            }
            _ => unreachable!(),
        };
        Ok(self.simp(st, r))
    }

    // ---- control ----
    fn jump(&mut self, st: &mut State, b: u32) {
        let from = st.top.block;
        let f = st.top.f;
        let blk = &f.blocks[b as usize];
        if blk.phis.len() == 1 {
            let p = &blk.phis[0];
            let o = &p.ins.iter().find(|x| x.0 == from).expect("phi").1;
            let v = self.val(st, o);
            st.top.regs[p.dst as usize] = v;
        } else if !blk.phis.is_empty() {
            let vs: Vec<V> = blk
                .phis
                .iter()
                .map(|p| {
                    let o = &p.ins.iter().find(|x| x.0 == from).expect("phi").1;
                    self.val(st, o)
                })
                .collect();
            for (p, v) in blk.phis.iter().zip(vs) {
                st.top.regs[p.dst as usize] = v;
            }
        }
        st.top.block = b;
        st.top.pc = 0;
    }
    fn trace(&self, st: &State) -> Vec<String> {
        let mut t = vec![st.top.f.name.to_string()];
        for f in st.frames.iter().rev() {
            t.push(f.f.name.to_string());
        }
        t
    }
    fn conc_vals(&mut self, st: &State) -> Vec<(u16, u128)> {
        let vals = st.vals.clone();
        vals.iter()
            .map(|(w, v)| {
                (
                    *w,
                    match v {
                        V::I(k) => *k,
                        V::S(e) => self.model_eval(st, *e),
                        _ => 0,
                    },
                )
            })
            .collect()
    }
    fn add_violation(&mut self, st: &State, kind: &str, msg: String) {
        let vals = self.conc_vals(st);
        let trace = self.trace(st);
        if self.violations.iter().filter(|v| v.kind == kind && v.msg == msg).count() >= 2 {
            return;
        }
        self.violations.push(Violation { kind: kind.to_string(), msg, vals, trace });
    }
    fn str_at(&mut self, st: &mut State, p: u64, n: usize) -> R<String> {
        let (o, off) = self.obj(st, p, n, false)?;
        Ok(String::from_utf8_lossy(&o.bytes[off..off + n]).into_owned())
    }
    fn new_var(&mut self, st: &mut State, w: u16, lo: u128, hi: u128) -> V {
        if lo == hi {
            st.vals.push((w, V::I(lo)));
            return V::I(lo);
        }
        let seq = st.vals.len() as u32;
        // the narrowest byte width that holds the range
        let vw = [8, 16, 32, w].into_iter().find(|&x| x >= w || hi <= mask(x)).unwrap().min(w);
        let (id, e) = self.ar.var(VarInfo { seq, w: vw, lo, hi });
        let e = self.ar.zext(e, w);
        let n = id as usize + 1;
        if st.model.len() < n {
            st.model.resize(n, None);
            st.doms.resize(n, None);
            st.entangled.resize(n, false);
        }
        st.model[id as usize] = Some(lo);
        if hi <= 255 {
            st.doms[id as usize] = Some(self.ar.var_dom(id));
        } else {
            st.doms[id as usize] = None;
        }
        st.entangled[id as usize] = false;
        st.vals.push((w, V::S(e)));
        V::S(e)
    }

    fn call_builtin(&mut self, st: &mut State, k: FK, name: &str, args: &[(Ty, Opnd)], ret: &Ty) -> R<V> {
        macro_rules! ai {
            ($i:expr) => {
                self.int(st, &args[$i].1)?
            };
        }
        match k {
            FK::Nop => Ok(V::I(0)),
            FK::RetZero => Ok(V::I(0)),
            FK::RetArg0 => Ok(self.val(st, &args[0].1)),
            FK::Memcpy => {
                let n = ai!(2) as usize;
                let d = ai!(0) as u64;
                let s = ai!(1) as u64;
                self.copy(st, d, s, n)?;
                Ok(V::I(d as u128))
            }
            FK::Memset => {
                let n = ai!(2) as usize;
                let d = ai!(0) as u64;
                let v = self.val(st, &args[1].1);
                if n > 0 {
                    match v {
                        V::I(b) => {
                            let z = vec![b as u8; n];
                            self.with_mut(st, d, n, |o, off| o.set_c(off, &z))?;
                        }
                        V::S(e) => {
                            let e = if self.ar.w(e) > 8 { self.ar.extract(e, 0, 8) } else { e };
                            self.with_mut(st, d, n, |o, off| {
                                for i in 0..n {
                                    o.set_s(off + i, e, 0)
                                }
                            })?;
                        }
                        _ => panic!(),
                    }
                }
                Ok(V::I(d as u128))
            }
            FK::Memcmp | FK::Bcmp => {
                let n = ai!(2) as usize;
                let p = ai!(0) as u64;
                let q = ai!(1) as u64;
                if n == 0 {
                    return Ok(V::I(0));
                }
                let (o1, f1) = self.obj(st, p, n, false)?;
                let (o2, f2) = self.obj(st, q, n, false)?;
                let w = ret.bits();
                if o1.concrete(f1, n) && o2.concrete(f2, n) {
                    let r = o1.bytes[f1..f1 + n].cmp(&o2.bytes[f2..f2 + n]) as i32;
                    return Ok(V::I(r as u128 & mask(w)));
                }
                let mut acc = self.ar.c(0, w);
                let one = self.ar.c(1, w);
                for i in (0..n).rev() {
                    let x = self.bytes_to_v(&[o1.get(f1 + i)], 8);
                    let y = self.bytes_to_v(&[o2.get(f2 + i)], 8);
                    let (x, y) = (self.simp_v(st, x), self.simp_v(st, y));
                    let (x, y) = (self.ex(&x, 8), self.ex(&y, 8));
                    let e = self.ar.eq(x, y);
                    if k == FK::Bcmp {
                        acc = self.ar.ite(e, acc, one);
                    } else {
                        let (zx, zy) = (self.ar.zext(x, w), self.ar.zext(y, w));
                        let d = self.ar.sub(zx, zy);
                        acc = self.ar.ite(e, acc, d);
                    }
                }
                Ok(self.simp(st, acc))
            }
            FK::Strlen => {
                let p = ai!(0) as u64;
                let mut n = 0;
                loop {
                    let (o, off) = self.obj(st, p + n, 1, false)?;
                    let v = self.load_scalar(st, &o, off, 8);
                    if self.concretize(st, &v)? == 0 {
                        return Ok(V::I(n as u128));
                    }
                    n += 1;
                }
            }
            FK::Alloc | FK::AllocZ => {
                let n = ai!(0) as usize;
                let a = ai!(1) as u32;
                Ok(V::I(self.alloc(st, n, a)? as u128))
            }
            FK::Malloc => {
                let n = ai!(0) as usize;
                Ok(V::I(self.alloc(st, n, 16)? as u128))
            }
            FK::Calloc => {
                let n = ai!(0) as usize;
                let m = ai!(1) as usize;
                Ok(V::I(self.alloc(st, n * m, 16)? as u128))
            }
            FK::Dealloc => {
                let p = ai!(0) as u64;
                let n = ai!(1) as usize;
                self.free(st, p, Some(n))?;
                Ok(V::I(0))
            }
            FK::Free => {
                let p = ai!(0) as u64;
                if p != 0 {
                    self.free(st, p, None)?;
                }
                Ok(V::I(0))
            }
            FK::Realloc | FK::CRealloc => {
                let p = ai!(0) as u64;
                let n = if k == FK::Realloc { ai!(3) } else { ai!(1) } as usize;
                if k == FK::CRealloc && p == 0 {
                    return Ok(V::I(self.alloc(st, n, 16)? as u128));
                }
                let old = self.obj(st, p, 0, false)?.0.bytes.len();
                if k == FK::Realloc {
                    let sz = ai!(1) as usize;
                    if sz != old {
                        return Err(self.fault("realloc with a wrong size", p));
                    }
                }
                let q = self.alloc(st, n, 16)?;
                self.copy(st, q, p, old.min(n))?;
                self.free(st, p, None)?;
                Ok(V::I(q as u128))
            }
            FK::Panic => {
                match st.panic_ok {
                    0 => {}
                    1 => return Err(Ctl::Done(Outcome::Panic)),
                    k => return Err(Ctl::Done(Outcome::Known(k - 2))),
                }
                let p = ai!(0) as u64;
                let loc = self.panic_loc(st, p);
                Err(Ctl::Violation("panic", loc))
            }
            FK::Abort => Err(Ctl::Violation("abort", "abort or trap".into())),
            FK::Bit(_) | FK::Sat(_) | FK::MinMax(_) | FK::Ovf(_) | FK::Abs | FK::Fsh(_) | FK::Cmp3(_) => {
                let a: Vec<(V, Ty)> = args.iter().map(|(t, o)| (self.val(st, o), t.clone())).collect();
                self.intrinsic_int(st, k, ret, &a)
            }
            FK::FpUn(op) => {
                let v = self.val(st, &args[0].1);
                let w = args[0].0.bits();
                match op {
                    0 => match v {
                        V::I(k) => Ok(V::I(k & (mask(w) >> 1))),
                        V::S(e) => {
                            let k = self.ar.c(mask(w) >> 1, w);
                            let e = self.ar.and(e, k);
                            Ok(self.simp(st, e))
                        }
                        _ => Err(Ctl::Unsupported("fabs".into())),
                    },
                    _ => {
                        let n = if op == 1 { "fptoui" } else { "fptosi" };
                        Ok(self.fpop(&format!("{}.{}.{}", n, w, ret.bits()), vec![(v, w)], ret.bits()))
                    }
                }
            }
            FK::SymInt(w) => Ok(self.new_var(st, w, 0, mask(w))),
            FK::SymRange => {
                let lo = ai!(0);
                let hi = ai!(1);
                if lo > hi {
                    return Err(Ctl::Unsupported("empty sym_range".into()));
                }
                Ok(self.new_var(st, 64, lo, hi))
            }
            FK::SymAssume => {
                let v = self.val(st, &args[0].1);
                match v {
                    V::I(k) => {
                        if k & 1 == 1 {
                            Ok(V::I(0))
                        } else {
                            Err(Ctl::Done(Outcome::Assume))
                        }
                    }
                    V::S(e) => {
                        let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                        let c = match self.soft(st, e)? {
                            V::I(1) => return Ok(V::I(0)),
                            V::I(_) => return Err(Ctl::Done(Outcome::Assume)),
                            V::S(c) => c,
                            _ => unreachable!(),
                        };
                        if self.model_eval(st, c) != 1 {
                            match self.feasible_other(st, c, false)? {
                                None => return Err(Ctl::Done(Outcome::Assume)),
                                Some(m) => {
                                    for (v, k) in m {
                                        st.model[v as usize] = Some(k);
                                    }
                                }
                            }
                        }
                        self.assert(st, c, true);
                        Ok(V::I(0))
                    }
                    _ => panic!(),
                }
            }
            FK::SymFail => {
                let p = ai!(0) as u64;
                let n = ai!(1) as usize;
                let s = self.str_at(st, p, n)?;
                self.asserts += 1;
                Err(Ctl::Violation("assert", s))
            }
            FK::SymCheck => {
                let p = ai!(1) as u64;
                let n = ai!(2) as usize;
                self.asserts += 1;
                let v = self.val(st, &args[0].1);
                let c = match v {
                    V::I(k) => {
                        self.asserts_const += 1;
                        if k & 1 == 1 {
                            return Ok(V::I(0));
                        }
                        let s = self.str_at(st, p, n)?;
                        return Err(Ctl::Violation("assert", s));
                    }
                    V::S(e) => {
                        if self.ar.w(e) > 1 {
                            self.ar.extract(e, 0, 1)
                        } else {
                            e
                        }
                    }
                    _ => panic!(),
                };
                self.asserts_solver += 1;
                let c = match self.soft(st, c)? {
                    V::I(1) => return Ok(V::I(0)),
                    V::I(_) => {
                        let s = self.str_at(st, p, n)?;
                        return Err(Ctl::Violation("assert", s));
                    }
                    V::S(c) => c,
                    _ => unreachable!(),
                };
                if self.model_eval(st, c) != 1 {
                    let s = self.str_at(st, p, n)?;
                    return Err(Ctl::Violation("assert", s));
                }
                if let Some(m) = self.feasible_other(st, c, true)? {
                    let mut o = st.clone();
                    for (v, k) in m {
                        o.model[v as usize] = Some(k);
                    }
                    let s = self.str_at(st, p, n)?;
                    self.add_violation(&o, "assert", s);
                    self.assert(st, c, true);
                } else {
                    self.learn(st, c, true);
                }
                Ok(V::I(0))
            }
            FK::SymCover => {
                let k = ai!(0) as u64;
                self.covers.insert(k);
                Ok(V::I(0))
            }
            FK::SymObserve => {
                let v = self.val(st, &args[0].1);
                st.observes.push(v);
                Ok(V::I(0))
            }
            FK::SymKnown => {
                let k = ai!(0) as u64;
                Err(Ctl::Done(Outcome::Known(k)))
            }
            FK::SymExpect => {
                let k = ai!(0) as u64;
                st.panic_ok = k;
                Ok(V::I(0))
            }
            FK::SymEnd => Err(Ctl::Done(Outcome::End)),
            FK::SymStack => Ok(V::I(st.frames.len() as u128 * 64)),
            FK::SymParam => {
                let i = ai!(0) as usize;
                match self.cfg.params.get(i) {
                    Some(&k) => Ok(V::I(k as u128)),
                    None => Err(Ctl::Unsupported(format!("missing parameter {}", i))),
                }
            }
            FK::SymConcretize => {
                let k = ai!(0);
                Ok(V::I(k))
            }
            FK::SymIsSym => Ok(V::I(1)),
            FK::SymContracts => {
                st.contracts = ai!(0) & 1 == 1;
                Ok(V::I(0))
            }
            FK::SymDecimal => {
                let name = if ai!(0) == 32 { "decimal.32" } else { "decimal.64" };
                let a: Vec<(V, u16)> = (1..6).map(|i| (self.val(st, &args[i].1), 64)).collect();
                Ok(self.fpop(name, a, 64))
            }
            FK::SymSample => {
                let v = self.val(st, &args[0].1);
                match v {
                    V::I(_) => Ok(v),
                    _ => {
                        self.incomplete.get_or_insert("a value was sampled".into());
                        let V::S(e) = v else { panic!() };
                        let k = self.model_eval(st, e);
                        let kc = self.ar.c(k, 64);
                        let c = self.ar.eq(e, kc);
                        self.assert(st, c, true);
                        Ok(V::I(k))
                    }
                }
            }
            _ => Err(Ctl::Unsupported(format!("call to {}", name))),
        }
    }
    fn simp_v(&mut self, st: &State, v: V) -> V {
        match v {
            V::S(e) => self.simp(st, e),
            v => v,
        }
    }
    fn panic_loc(&mut self, st: &mut State, p: u64) -> String {
        let mut rd = |this: &mut Self, a: u64, w: u16| -> Option<u64> {
            let (o, off) = this.obj(st, a, (w / 8) as usize, false).ok()?;
            match this.load_scalar(st, &o, off, w) {
                V::I(k) => Some(k as u64),
                _ => None,
            }
        };
        for slot in [8u64, 0, 16] {
            let loc = match rd(self, p + slot, 64) {
                Some(l) => l,
                None => continue,
            };
            let (fp, fl, line) = match (rd(self, loc, 64), rd(self, loc + 8, 64), rd(self, loc + 16, 32)) {
                (Some(a), Some(b), Some(c)) => (a, b, c),
                _ => continue,
            };
            if fl == 0 || fl > 300 || line > 100000 {
                continue;
            }
            if let Ok((o, off)) = self.obj(st, fp, fl as usize, false) {
                if let Ok(s) = std::str::from_utf8(&o.bytes[off..off + fl as usize]) {
                    if s.contains(".rs") {
                        return format!("panic at {}:{}", s.trim_end_matches('\0'), line);
                    }
                }
            }
        }
        "panic".into()
    }

    fn exec_inst(&mut self, st: &mut State) -> R<()> {
        let f = st.top.f;
        let (dst, inst) = &f.blocks[st.top.block as usize].insts[st.top.pc as usize];
        let dst = *dst;
        let v = match inst {
            Inst::Bin(op, t, a, b) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                self.bin(st, *op, t, a, b)?
            }
            Inst::ICmp(p, t, a, b) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                self.icmp(st, *p, t, a, b)
            }
            Inst::Cast(c, from, a, to) => {
                let a = self.val(st, a);
                self.cast(st, *c, from, a, to)
            }
            Inst::Load(t, p) => {
                let p = self.val(st, p);
                self.load(st, t, &p)?
            }
            Inst::Store(t, v, p) => {
                let p = self.int(st, p)? as u64;
                let v = self.val(st, v);
                self.store_v(st, t, &v, p)?;
                V::I(0)
            }
            Inst::Gep(b, off, dynamic) => {
                let b = self.val(st, b);
                if dynamic.is_empty() {
                    match b {
                        V::I(k) => V::I((k as u64).wrapping_add(*off as u64) as u128),
                        V::S(e) => {
                            let k = self.ar.c(*off as u64 as u128, 64);
                            let e = self.ar.add(e, k);
                            self.simp(st, e)
                        }
                        _ => return Err(Ctl::Unsupported("vector gep".into())),
                    }
                } else {
                    let mut k = *off as u64;
                    let mut s: Option<Ex> = None;
                    match b {
                        V::I(x) => k = k.wrapping_add(x as u64),
                        V::S(e) => s = Some(e),
                        _ => return Err(Ctl::Unsupported("vector gep".into())),
                    }
                    for (o, w, scale) in dynamic {
                        match self.val(st, o) {
                            V::I(x) => k = k.wrapping_add((sext(x, *w) as u64).wrapping_mul(*scale as u64)),
                            V::S(e) => {
                                let e = if *w < 64 { self.ar.sext(e, 64) } else { e };
                                let e = self.ar.mulc(e, *scale as u64 as u128);
                                s = Some(match s {
                                    None => e,
                                    Some(a) => self.ar.add(a, e),
                                });
                            }
                            _ => return Err(Ctl::Unsupported("vector gep".into())),
                        }
                    }
                    match s {
                        None => V::I(k as u128),
                        Some(e) => {
                            let kc = self.ar.c(k as u128, 64);
                            let e = self.ar.add(e, kc);
                            self.simp(st, e)
                        }
                    }
                }
            }
            Inst::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            Inst::CondBr(c, a, b) => {
                let t = match self.val(st, c) {
                    V::I(k) => k == 1,
                    V::S(e) => self.branch_parts(st, e)?,
                    _ => panic!(),
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Inst::Switch(t, v, d, cases) => {
                let target = match self.val(st, v) {
                    V::I(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d),
                    V::S(e) => {
                        let w = t.bits();
                        let k = self.model_eval(st, e);
                        let tg = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        let mut hit = self.ar.bool(false);
                        if tg == *d {
                            // not any case with another target
                            for &(x, l) in cases.iter() {
                                if l != tg {
                                    let xc = self.ar.c(x, w);
                                    let q = self.ar.eq(e, xc);
                                    hit = self.ar.or(hit, q);
                                }
                            }
                            hit = self.ar.not(hit);
                        } else {
                            for &(x, l) in cases.iter() {
                                if l == tg {
                                    let xc = self.ar.c(x, w);
                                    let q = self.ar.eq(e, xc);
                                    hit = self.ar.or(hit, q);
                                }
                            }
                        }
                        let b = self.branch(st, hit)?;
                        assert!(b, "switch follows the model");
                        tg
                    }
                    _ => panic!(),
                };
                self.jump(st, target);
                return Ok(());
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((_, o)) => self.val(st, o),
                    None => V::I(0),
                };
                // release this frame's stack
                while st.mem.sp > st.top.stack_base {
                    st.mem.sp -= 1;
                    let sp = st.mem.sp;
                    st.mem.stack.set(sp, None);
                }
                let (dst, normal) = (st.top.ret_dst, st.top.ret_normal);
                match st.frames.pop() {
                    None => return Err(Ctl::Done(Outcome::End)),
                    Some(fr) => {
                        st.top = Rc::try_unwrap(fr).unwrap_or_else(|f| (*f).clone());
                    }
                }
                if dst != u32::MAX {
                    st.top.regs[dst as usize] = v;
                }
                match normal {
                    Some(b) => self.jump(st, b),
                    None => st.top.pc += 1,
                }
                return Ok(());
            }
            Inst::Call { callee, args, ret, normal } => {
                let fix = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let a = self.int(st, o)? as u64;
                        let (k, id, off) = split(a);
                        if k != KIND_FUNC || off != 0 || id as usize >= self.m.funcs.len() {
                            return Err(self.fault("call through an invalid function pointer", a));
                        }
                        id
                    }
                    Callee::Asm => u32::MAX,
                };
                if fix == u32::MAX {
                    // optimisation barrier: returns its (single) argument or nothing
                    let v = if *ret == Ty::Void || args.is_empty() { V::I(0) } else { self.val(st, &args[0].1) };
                    if dst != u32::MAX {
                        st.top.regs[dst as usize] = v;
                    }
                    match normal {
                        Some(b) => self.jump(st, *b),
                        None => st.top.pc += 1,
                    }
                    return Ok(());
                }
                let mut k = self.fk[fix as usize];
                if k == FK::Unknown {
                    let d = &self.m.funcs[fix as usize];
                    k = fk_of(&d.name, d.defined);
                    if k == FK::Defined {
                        if let Some(c) = self.contract_of(fix) {
                            k = FK::Contract(c);
                        }
                    }
                    self.fk[fix as usize] = k;
                }
                let mut fix = fix;
                if let FK::Contract(c) = k {
                    k = FK::Defined;
                    if st.contracts {
                        fix = c;
                    }
                }
                if k == FK::Defined {
                    let f = self.cfunc(fix);
                    if st.frames.len() > 3000 {
                        return Err(Ctl::Violation("stack", "call depth over 3000".into()));
                    }
                    let mut regs = vec![V::I(0); f.nregs];
                    for (p, (_, o)) in f.params.iter().zip(args.iter()) {
                        regs[*p as usize] = self.val(st, o);
                    }
                    let fr = Frame {
                        f,
                        block: 0,
                        pc: 0,
                        regs,
                        stack_base: st.mem.sp,
                        ret_dst: dst,
                        ret_normal: *normal,
                    };
                    let old = std::mem::replace(&mut st.top, fr);
                    st.frames.push(Rc::new(old));
                    return Ok(());
                }
                let name = self.m.funcs[fix as usize].name.clone();
                let v = self.call_builtin(st, k, &name, args, ret)?;
                if dst != u32::MAX {
                    st.top.regs[dst as usize] = v;
                }
                match normal {
                    Some(b) => self.jump(st, *b),
                    None => st.top.pc += 1,
                }
                return Ok(());
            }
            Inst::Alloca(size, align, n) => {
                let n = match n {
                    Some(o) => self.int(st, o)? as u64,
                    None => 1,
                };
                let id = st.mem.sp;
                st.mem.sp += 1;
                st.mem.stack.set(id, Some(Rc::new(Obj::new((size * n) as usize, *align as u32))));
                V::I(addr(KIND_STACK, id) as u128)
            }
            Inst::Select(t, c, a, b, _) => {
                let c = self.val(st, c);
                match c {
                    V::I(k) => {
                        if k == 1 {
                            self.val(st, a)
                        } else {
                            self.val(st, b)
                        }
                    }
                    V::S(e) => {
                        let (a, b) = (self.val(st, a), self.val(st, b));
                        let same = matches!((&a,&b), (V::I(x),V::I(y)) if x == y);
                        if same {
                            a
                        } else if t.is_agg() || *t == Ty::Ptr {
                            if self.branch(st, e)? {
                                a
                            } else {
                                b
                            }
                        } else {
                            let w = t.bits();
                            let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                            let r = self.ar.ite(e, x, y);
                            self.simp(st, r)
                        }
                    }
                    V::A(cs) => {
                        let (a, b) = (self.val(st, a), self.val(st, b));
                        let et = t.field(0);
                        let w = et.bits();
                        match (a, b) {
                            (V::A(x), V::A(y)) => {
                                let mut out = Vec::new();
                                for i in 0..cs.len() {
                                    out.push(match &cs[i] {
                                        V::I(1) => x[i].clone(),
                                        V::I(_) => y[i].clone(),
                                        V::S(e) => {
                                            let (p, q) = (self.ex(&x[i], w), self.ex(&y[i], w));
                                            let r = self.ar.ite(*e, p, q);
                                            self.vs(r)
                                        }
                                        _ => panic!(),
                                    });
                                }
                                V::A(out.into())
                            }
                            _ => panic!(),
                        }
                    }
                }
            }
            Inst::Extract(o, ix) => {
                let mut v = self.val(st, o);
                for &i in ix {
                    v = match v {
                        V::A(a) => a[i as usize].clone(),
                        _ => panic!("extractvalue of scalar"),
                    };
                }
                self.simp_v(st, v)
            }
            Inst::Insert(_, a, _, x, ix) => {
                let a = self.val(st, a);
                let x = self.val(st, x);
                fn ins(a: &V, x: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    match a {
                        V::A(v) => {
                            let mut n: Vec<V> = v.to_vec();
                            n[ix[0] as usize] = ins(&v[ix[0] as usize], x, &ix[1..]);
                            V::A(n.into())
                        }
                        _ => panic!("insertvalue into scalar"),
                    }
                }
                ins(&a, x, ix)
            }
            Inst::ExtractElt(o, i) => {
                let v = self.val(st, o);
                let i = self.int(st, i)?;
                match v {
                    V::A(a) => self.simp_v(st, a[i as usize].clone()),
                    _ => panic!(),
                }
            }
            Inst::InsertElt(_, o, x, i) => {
                let v = self.val(st, o);
                let x = self.val(st, x);
                let i = self.int(st, i)?;
                match v {
                    V::A(a) => {
                        let mut n: Vec<V> = a.to_vec();
                        n[i as usize] = x;
                        V::A(n.into())
                    }
                    _ => panic!(),
                }
            }
            Inst::Shuffle(_, a, b, m) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                match (a, b) {
                    (V::A(x), V::A(y)) => {
                        let n = x.len() as i32;
                        let out: Vec<V> = m
                            .iter()
                            .map(|&i| {
                                if i < 0 {
                                    V::I(0)
                                } else if i < n {
                                    x[i as usize].clone()
                                } else {
                                    y[(i - n) as usize].clone()
                                }
                            })
                            .collect();
                        V::A(out.into())
                    }
                    _ => panic!(),
                }
            }
            Inst::Freeze(o) => self.val(st, o),
            Inst::FNeg(t, a) => {
                let w = t.bits();
                match self.val(st, a) {
                    V::I(k) => V::I(k ^ (1 << (w - 1))),
                    V::S(e) => {
                        let k = self.ar.c(1 << (w - 1), w);
                        let e = self.ar.xor(e, k);
                        self.simp(st, e)
                    }
                    _ => return Err(Ctl::Unsupported("vector fneg".into())),
                }
            }
            Inst::FCmp(p, t, a, b) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                if matches!(a, V::A(_)) {
                    return Err(Ctl::Unsupported("vector fcmp".into()));
                }
                let w = t.bits();
                if let (V::I(_), V::I(_)) = (&a, &b) {
                    self.fpop(&format!("fcmp.{}.{}", p, w), vec![(a, w), (b, w)], 1)
                } else {
                    let (x, y) = (self.ex(&a, w), self.ex(&b, w));
                    let e = self.ar.fcmp(p, w, x, y);
                    self.simp(st, e)
                }
            }
            Inst::AtomicRmw(op, t, p, v) => {
                let p = self.int(st, p)? as u64;
                let v = self.val(st, v);
                let old = self.load(st, t, &V::I(p as u128))?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, Bin::Add, t, old.clone(), v)?,
                    "sub" => self.bin(st, Bin::Sub, t, old.clone(), v)?,
                    "and" => self.bin(st, Bin::And, t, old.clone(), v)?,
                    "or" => self.bin(st, Bin::Or, t, old.clone(), v)?,
                    "xor" => self.bin(st, Bin::Xor, t, old.clone(), v)?,
                    o => return Err(Ctl::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store_v(st, t, &new, p)?;
                old
            }
            Inst::CmpXchg(t, p, e, n) => {
                let p = self.int(st, p)? as u64;
                let e = self.int(st, e)?;
                let n = self.val(st, n);
                let old = self.load(st, t, &V::I(p as u128))?;
                let o = self.concretize(st, &old)?;
                if o == e {
                    self.store_v(st, t, &n, p)?;
                }
                V::A(vec![V::I(o), V::I((o == e) as u128)].into())
            }
            Inst::Nop => V::I(0),
            Inst::Unreachable => return Err(Ctl::Violation("memory", "unreachable code executed".into())),
            Inst::LandingPad | Inst::Resume => return Err(Ctl::Unsupported("unwinding".into())),
        };
        if dst != u32::MAX {
            st.top.regs[dst as usize] = v;
        }
        st.top.pc += 1;
        Ok(())
    }

    fn finish(&mut self, st: &State, o: Outcome) {
        self.paths += 1;
        self.max_path_steps = self.max_path_steps.max(st.steps);
        let name = match &o {
            Outcome::End => "end".to_string(),
            Outcome::Assume => "assume".to_string(),
            Outcome::Panic => "panic".to_string(),
            Outcome::Known(k) => format!("known{}", k),
            Outcome::Violation => "violation".to_string(),
        };
        *self.outcomes.entry(name.clone()).or_insert(0) += 1;
        let n = self.outcomes[&name];
        let mk = |this: &mut Self| {
            let vals = this.conc_vals(st);
            let ob = st.observes.clone();
            let obs = ob
                .iter()
                .map(|v| match v {
                    V::I(k) => *k,
                    V::S(e) => this.model_eval(st, *e),
                    _ => 0,
                })
                .collect();
            Sample { vals, obs, outcome: name.clone(), steps: st.steps }
        };
        match o {
            Outcome::Violation | Outcome::Assume => {}
            Outcome::Known(k) => {
                if !self.known.contains_key(&k) {
                    let s = mk(self);
                    self.known.insert(k, s);
                }
            }
            _ => {
                if self.samples.len() < self.cfg.max_samples {
                    let s = mk(self);
                    self.samples.push(s);
                } else {
                    let r = (self.rand() % self.paths) as usize;
                    if r < self.cfg.max_samples {
                        let s = mk(self);
                        self.samples[r] = s;
                    }
                }
            }
        }
        let _ = n;
    }

    fn run_state(&mut self, mut st: State) -> bool {
        loop {
            st.steps += 1;
            self.steps += 1;
            if self.steps & 0xfff == 0 && self.start.elapsed().as_secs_f64() > self.cfg.time_limit {
                self.incomplete = Some(format!("time limit of {} s", self.cfg.time_limit));
                return false;
            }
            let r = self.exec_inst(&mut st);
            let r = match r {
                Ok(()) if st.steps > self.cfg.max_steps => {
                    Err(Ctl::Violation("hang", format!("no end after {} instructions", self.cfg.max_steps)))
                }
                r => r,
            };
            match r {
                Ok(()) => {}
                Err(Ctl::Done(o)) => {
                    self.finish(&st, o);
                    return true;
                }
                Err(Ctl::Unsupported(s)) => {
                    self.incomplete = Some(format!("{} in {}", s, self.trace(&st).join(" < ")));
                    return false;
                }
                Err(Ctl::NoAnswer) => {
                    // (the check is inconclusive, unless another path violates the property)
                    let t = self.trace(&st).join(" < ");
                    self.incomplete.get_or_insert(format!("the solver gave no answer within its time limit in {}", t));
                    self.unanswered += 1;
                    self.sol.hurry = true;
                    return self.unanswered < 10;
                }
                Err(Ctl::Violation(k, m)) => {
                    self.add_violation(&st, k, m);
                    self.finish(&st, Outcome::Violation);
                    // (each further path without an end would take as long; more of the same tell nothing)
                    self.nviol += 1;
                    return k != "hang" && self.violations.len() < self.cfg.max_violations && self.nviol < 30;
                }
            }
        }
    }

    pub fn run(&mut self) {
        let ix = *self.m.func_ix.get(&*self.cfg.entry).unwrap_or_else(|| panic!("no entry {}", self.cfg.entry));
        let f = self.cfunc(ix);
        let st = State {
            top: Frame {
                f,
                block: 0,
                pc: 0,
                regs: vec![V::I(0); f.nregs],
                stack_base: 0,
                ret_dst: u32::MAX,
                ret_normal: None,
            },
            frames: vec![],
            mem: Mem::default(),
            pc: vec![],
            known: Rc::new(HashMap::new()),
            doms: vec![],
            entangled: vec![],
            model: vec![],
            vals: vec![],
            observes: vec![],
            steps: 0,
            panic_ok: 0,
            contracts: false,
        };
        self.start = Instant::now();
        self.pending.push(st);
        while let Some(s) = self.pending.pop() {
            if !self.run_state(s) {
                break;
            }
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
}
