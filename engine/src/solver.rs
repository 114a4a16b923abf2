//! Z3 back end (C API): feasibility of conjunctions of bit-vector constraints.
use crate::expr::*;
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_interrupt(c: P);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, o: *mut u64) -> bool;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {}: {}", e, m.to_string_lossy());
    std::process::exit(3);
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

/// Checks with a deadline: z3 does not always keep to its own time limit.
struct Watch {
    /// 0: nothing running; otherwise milliseconds after `t0`.
    until: std::sync::atomic::AtomicU64,
    t0: Instant,
}
struct Ctx(P);
unsafe impl Send for Ctx {}

pub struct Solver {
    watch: std::sync::Arc<Watch>,
    c: P,
    s: P,
    hard: P,
    lia: P,
    ints: HashMap<Ex, Option<P>>,
    intbl: HashMap<Ex, Option<P>>,
    intvar: HashMap<u32, P>,
    /// Sums that cannot wrap under the constraints of the current query.
    shown_exact: HashMap<Ex, (Vec<(Ex, i128)>, i128)>,
    pub lia_queries: u64,
    bvs: Vec<P>,
    cache_bv: Vec<P>,
    cache_bl: Vec<P>,
    varast: Vec<P>,
    funcs: HashMap<(u32, Vec<u16>), P>,
    domast: HashMap<(u32, Dom), P>,
    sorts: HashMap<u16, P>,
    cache: HashMap<(Vec<Ex>, Vec<(u32, Dom)>), Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    /// Whether some query was not answered (the check is inconclusive anyway).
    pub hurry: bool,
    pub time: f64,
    pub max_time: f64,
    slow: f64,
    pub refinements: u64,
    pub hard_queries: u64,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_error);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let l = CString::new("QF_UFBV").unwrap();
            let hard = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, hard);
            let set = |s: P, ms: u32| {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), ms);
                Z3_solver_set_params(c, s, p);
            };
            set(s, 3000);
            set(hard, 120_000);
            let l = CString::new("QF_LIA").unwrap();
            let lia = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, lia);
            set(lia, 10_000);
            let watch = std::sync::Arc::new(Watch { until: 0.into(), t0: Instant::now() });
            {
                let (w, ctx) = (watch.clone(), Ctx(c));
                std::thread::spawn(move || {
                    let ctx = ctx;
                    loop {
                        std::thread::sleep(std::time::Duration::from_millis(100));
                        let u = w.until.load(std::sync::atomic::Ordering::SeqCst);
                        if u != 0 && w.t0.elapsed().as_millis() as u64 > u {
                            Z3_interrupt(ctx.0);
                        }
                    }
                });
            }
            Solver {
                watch,
                c,
                s,
                hard,
                lia,
                ints: HashMap::new(),
                intbl: HashMap::new(),
                intvar: HashMap::new(),
                shown_exact: HashMap::new(),
                lia_queries: 0,
                bvs: vec![],
                cache_bv: vec![],
                cache_bl: vec![],
                varast: vec![],
                funcs: HashMap::new(),
                domast: HashMap::new(),
                sorts: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                unsat: 0,
                sat: 0,
                unknown: 0,
                hurry: false,
                time: 0.0,
                max_time: 0.0,
                slow: std::env::var("ENGINE_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(f64::INFINITY),
                refinements: 0,
                hard_queries: 0,
            }
        }
    }
    fn zcheck(&mut self, s: P) -> c_int {
        use std::sync::atomic::Ordering::SeqCst;
        let ms = if s == self.s { 3_500 } else if s == self.lia { 11_000 } else if self.hurry { 5_000 } else { 125_000 };
        self.watch.until.store(self.watch.t0.elapsed().as_millis() as u64 + ms, SeqCst);
        let r = unsafe { Z3_solver_check(self.c, s) };
        self.watch.until.store(0, SeqCst);
        r
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }
    fn num(&mut self, v: u128, w: u16) -> P {
        let t = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, t)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), t)
            }
        }
    }
    fn var_ast(&mut self, ar: &Arena, v: u32) -> P {
        while self.varast.len() <= v as usize {
            self.varast.push(std::ptr::null_mut());
        }
        if self.varast[v as usize].is_null() {
            let t = self.sort(ar.vars[v as usize].w);
            let n = CString::new(format!("v{}", v)).unwrap();
            self.varast[v as usize] = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), t) };
        }
        self.varast[v as usize]
    }
    fn grow(&mut self, n: usize) {
        if self.cache_bv.len() < n {
            self.cache_bv.resize(n + 1024, std::ptr::null_mut());
            self.cache_bl.resize(n + 1024, std::ptr::null_mut());
        }
    }
    fn is_bool_op(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Slt | Op::Not | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const)
    }
    fn bl(&mut self, ar: &Arena, e: Ex) -> P {
        if !self.cache_bl[e as usize].is_null() {
            return self.cache_bl[e as usize];
        }
        let n = ar.node(e);
        debug_assert!(n.w == 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    if ar.w(n.a) == 1 {
                        let (x, y) = (self.bl(ar, n.a), self.bl(ar, n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Not => {
                    let x = self.bl(ar, n.a);
                    Z3_mk_not(c, x)
                }
                Op::And => {
                    let v = [self.bl(ar, n.a), self.bl(ar, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.bl(ar, n.a), self.bl(ar, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let (x, y) = (self.bl(ar, n.a), self.bl(ar, n.b));
                    Z3_mk_xor(c, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.bl(ar, n.a), self.bl(ar, n.b), self.bl(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.bv(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.cache_bl[e as usize] = r;
        r
    }
    fn bv(&mut self, ar: &Arena, e: Ex) -> P {
        if !self.cache_bv[e as usize].is_null() {
            return self.cache_bv[e as usize];
        }
        let n = ar.node(e);
        let c = self.c;
        let r = unsafe {
            if n.w == 1 && Self::is_bool_op(n.op) {
                let b = self.bl(ar, e);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                Z3_mk_ite(c, b, o, z)
            } else {
                match n.op {
                    Op::Const => self.num(n.k, n.w),
                    Op::Var => self.var_ast(ar, n.a),
                    Op::Lin => {
                        let terms = ar.lins[n.a as usize].clone();
                        let mut acc: Option<P> = None;
                        for &(t, k) in terms.iter() {
                            let mut x = self.bv(ar, t);
                            if k != 1 {
                                let kk = self.num(k, n.w);
                                x = Z3_mk_bvmul(c, x, kk);
                            }
                            acc = Some(match acc {
                                None => x,
                                Some(a) => Z3_mk_bvadd(c, a, x),
                            });
                        }
                        let mut a = acc.unwrap();
                        if n.k != 0 {
                            let kk = self.num(n.k, n.w);
                            a = Z3_mk_bvadd(c, a, kk);
                        }
                        a
                    }
                    Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl
                    | Op::LShr | Op::AShr => {
                        let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                        match n.op {
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            _ => Z3_mk_bvashr(c, x, y),
                        }
                    }
                    Op::Extract => {
                        let x = self.bv(ar, n.a);
                        Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, x)
                    }
                    Op::ZExt => {
                        let x = self.bv(ar, n.a);
                        Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, x)
                    }
                    Op::SExt => {
                        let x = self.bv(ar, n.a);
                        Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, x)
                    }
                    Op::Ite => {
                        let (x, y, z) = (self.bl(ar, n.a), self.bv(ar, n.b), self.bv(ar, n.c));
                        Z3_mk_ite(c, x, y, z)
                    }
                    Op::Tab => {
                        let t = ar.tabs[n.b as usize].clone();
                        let x = self.bv(ar, n.a);
                        let iw = ar.w(n.a);
                        let lo = ar.m(n.a).lo as usize;
                        let hi = (ar.m(n.a).hi as usize).min(t.len() - 1);
                        // runs of equal values, from the top down
                        let mut acc = self.num(t[hi] as u128, 8);
                        let mut i = hi;
                        while i > lo {
                            if t[i - 1] != t[i] {
                                let lim = self.num(i as u128, iw);
                                let v = self.num(t[i - 1] as u128, 8);
                                let cnd = Z3_mk_bvult(c, x, lim);
                                acc = Z3_mk_ite(c, cnd, v, acc);
                            }
                            i -= 1;
                        }
                        acc
                    }
                    Op::Uf => {
                        let al = ar.arglists[n.a as usize].clone();
                        let args: Vec<P> = al.iter().map(|&x| self.bv(ar, x)).collect();
                        let ws: Vec<u16> = al.iter().map(|&x| ar.w(x)).collect();
                        let key = (n.b, ws.clone());
                        let f = if let Some(&f) = self.funcs.get(&key) {
                            f
                        } else {
                            let dom: Vec<P> = ws.iter().map(|&w| self.sort(w)).collect();
                            let r = self.sort(n.w);
                            let nm = CString::new(format!("uf{}_{:?}", n.b, ws)).unwrap();
                            let f = Z3_mk_func_decl(
                                c,
                                Z3_mk_string_symbol(c, nm.as_ptr()),
                                dom.len() as c_uint,
                                dom.as_ptr(),
                                r,
                            );
                            self.funcs.insert(key, f);
                            f
                        };
                        Z3_mk_app(c, f, args.len() as c_uint, args.as_ptr())
                    }
                    _ => panic!("bv of {:?}", n.op),
                }
            }
        };
        self.cache_bv[e as usize] = r;
        r
    }
    fn dom_ast(&mut self, ar: &Arena, v: u32, d: &Dom) -> P {
        if let Some(&p) = self.domast.get(&(v, *d)) {
            return p;
        }
        let c = self.c;
        let x = self.var_ast(ar, v);
        let w = ar.vars[v as usize].w;
        let mut parts = Vec::new();
        let mut i = 0usize;
        let top = mask(w).min(255) as usize;
        while i <= top {
            if !dom_get(d, i) {
                i += 1;
                continue;
            }
            let st = i;
            while i <= top && dom_get(d, i) {
                i += 1;
            }
            let (a, b) = (self.num(st as u128, w), self.num((i - 1) as u128, w));
            unsafe {
                if st == i - 1 {
                    parts.push(Z3_mk_eq(c, x, a));
                } else {
                    let v = [Z3_mk_bvule(c, a, x), Z3_mk_bvule(c, x, b)];
                    parts.push(Z3_mk_and(c, 2, v.as_ptr()));
                }
            }
        }
        let p = unsafe { Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr()) };
        self.domast.insert((v, *d), p);
        p
    }
    /// Satisfiability of `cons` (already sliced) with the given small-variable domains;
    /// wide variables get their declared range.
    pub fn check(&mut self, ar: &mut Arena, mut cons: Vec<Ex>, mut doms: Vec<(u32, Dom)>, wide: &[u32]) -> Res {
        cons.sort_unstable();
        cons.dedup();
        doms.sort_unstable();
        let key = (cons, doms);
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let r = self.solve(ar, &key.0, &key.1, wide);
        self.cache.insert(key, r.clone());
        r
    }
    fn solve(&mut self, ar: &mut Arena, cons: &[Ex], doms: &[(u32, Dom)], wide: &[u32]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        self.grow(ar.nodes.len());
        let mut asts = Vec::new();
        for (v, d) in doms {
            asts.push(self.dom_ast(ar, *v, d));
        }
        for &v in wide {
            let vi = ar.vars[v as usize];
            let x = self.var_ast(ar, v);
            if vi.lo > 0 {
                let a = self.num(vi.lo, vi.w);
                asts.push(unsafe { Z3_mk_bvule(self.c, a, x) });
            }
            if vi.hi < mask(vi.w) {
                let a = self.num(vi.hi, vi.w);
                asts.push(unsafe { Z3_mk_bvule(self.c, x, a) });
            }
        }
        for &e in cons {
            let b = self.bl(ar, e);
            asts.push(b);
        }
        let mut vars: Vec<u32> = doms.iter().map(|d| d.0).collect();
        vars.extend_from_slice(wide);
        let linear = cons.iter().any(|&e| Self::sums(ar, e, 0));
        let mut r = Res::Unknown;
        if linear {
            r = self.run_lia(ar, doms, wide, cons);
        }
        if matches!(r, Res::Unknown) {
            r = self.run(ar, self.s, &asts, &vars, cons);
        }
        if matches!(r, Res::Unknown) && !linear {
            r = self.run_lia(ar, doms, wide, cons);
        }
        if matches!(r, Res::Unknown) {
            self.hard_queries += 1;
            r = self.run(ar, self.hard, &asts, &vars, cons);
        }
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if dt > self.slow {
            eprintln!("slow query {:.3}s {}", dt, match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
            for (v, d) in doms {
                eprintln!("   v{} in {} values from {:?}", v, dom_count(d), dom_first(d));
            }
            for &e in cons {
                eprintln!("   {}", ar.show(e, 8));
            }
        }
        r
    }
    /// Does the constraint contain a sum of several scaled terms?
    fn sums(ar: &Arena, e: Ex, depth: u32) -> bool {
        let n = ar.node(e);
        match n.op {
            Op::Const | Op::Var => false,
            Op::Lin => ar.lins[n.a as usize].len() >= 3,
            _ if depth > 12 => false,
            Op::Uf => false,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Tab => Self::sums(ar, n.a, depth + 1),
            Op::Ite => {
                Self::sums(ar, n.a, depth + 1) || Self::sums(ar, n.b, depth + 1) || Self::sums(ar, n.c, depth + 1)
            }
            _ => Self::sums(ar, n.a, depth + 1) || Self::sums(ar, n.b, depth + 1),
        }
    }
    fn inum(&mut self, v: i128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_int_sort(self.c)) }
    }
    fn ivar(&mut self, v: u32) -> P {
        if let Some(&p) = self.intvar.get(&v) {
            return p;
        }
        let n = CString::new(format!("i{}", v)).unwrap();
        let c = self.c;
        let p = unsafe { Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_int_sort(c)) };
        self.intvar.insert(v, p);
        p
    }
    /// The unsigned value of a bit-vector expression as an integer term.
    fn int(&mut self, ar: &Arena, e: Ex) -> Option<P> {
        if let Some(p) = self.ints.get(&e) {
            return *p;
        }
        let r = self.int_new(ar, e);
        self.ints.insert(e, r);
        r
    }
    fn pow2(&mut self, w: u32) -> Option<P> {
        if w > 126 {
            return None;
        }
        Some(self.inum(1i128 << w))
    }
    fn int_new(&mut self, ar: &Arena, e: Ex) -> Option<P> {
        let n = ar.node(e);
        let c = self.c;
        if n.w == 1 && n.op != Op::Const && n.op != Op::Var {
            let b = self.ibl(ar, e)?;
            let (o, z) = (self.inum(1), self.inum(0));
            return Some(unsafe { Z3_mk_ite(c, b, o, z) });
        }
        Some(match n.op {
            Op::Const => self.inum(i128::try_from(n.k).ok()?),
            Op::Var => self.ivar(n.a),
            Op::ZExt => self.int(ar, n.a)?,
            Op::Lin => {
                let given = self.shown_exact.get(&e).cloned();
                let (terms, k, exact) = match ar.lin_int(e).or(given) {
                    Some((t, k)) => (t, k, true),
                    None => (
                        ar.lins[n.a as usize].iter().map(|&(t, k)| (t, sext(k, n.w))).collect(),
                        sext(n.k, n.w),
                        false,
                    ),
                };
                let mut v = Vec::new();
                for (t, k) in terms {
                    let x = self.int(ar, t)?;
                    if k == 1 {
                        v.push(x);
                    } else {
                        let m = [self.inum(k), x];
                        v.push(unsafe { Z3_mk_mul(c, 2, m.as_ptr()) });
                    }
                }
                v.push(self.inum(k));
                let s = unsafe { Z3_mk_add(c, v.len() as c_uint, v.as_ptr()) };
                if exact {
                    s
                } else {
                    let m = self.pow2(n.w as u32)?;
                    unsafe { Z3_mk_mod(c, s, m) }
                }
            }
            Op::UDiv | Op::URem => {
                ar.konst(n.b).filter(|&k| k != 0)?;
                let (x, y) = (self.int(ar, n.a)?, self.int(ar, n.b)?);
                unsafe {
                    if n.op == Op::UDiv {
                        Z3_mk_div(c, x, y)
                    } else {
                        Z3_mk_mod(c, x, y)
                    }
                }
            }
            Op::Extract => {
                let mut x = self.int(ar, n.a)?;
                if n.b > 0 {
                    let d = self.pow2(n.b)?;
                    x = unsafe { Z3_mk_div(c, x, d) };
                }
                if ar.m(n.a).hi >> n.b > mask(n.w) {
                    let m = self.pow2(n.w as u32)?;
                    x = unsafe { Z3_mk_mod(c, x, m) };
                }
                x
            }
            Op::SExt => {
                let iw = ar.w(n.a);
                let x = self.int(ar, n.a)?;
                let h = self.pow2(iw as u32 - 1)?;
                let add = self.inum(i128::try_from(mask(n.w) - mask(iw)).ok()?);
                let v = [x, add];
                unsafe { Z3_mk_ite(c, Z3_mk_lt(c, x, h), x, Z3_mk_add(c, 2, v.as_ptr())) }
            }
            Op::Ite => {
                let (b, x, y) = (self.ibl(ar, n.a)?, self.int(ar, n.b)?, self.int(ar, n.c)?);
                unsafe { Z3_mk_ite(c, b, x, y) }
            }
            Op::Tab => {
                let t = ar.tabs[n.b as usize].clone();
                let x = self.int(ar, n.a)?;
                let lo = ar.m(n.a).lo as usize;
                let hi = (ar.m(n.a).hi as usize).min(t.len() - 1);
                let mut acc = self.inum(t[hi] as i128);
                let mut i = hi;
                while i > lo {
                    if t[i - 1] != t[i] {
                        let lim = self.inum(i as i128);
                        let v = self.inum(t[i - 1] as i128);
                        acc = unsafe { Z3_mk_ite(c, Z3_mk_lt(c, x, lim), v, acc) };
                    }
                    i -= 1;
                }
                acc
            }
            _ => return None,
        })
    }
    fn ibl(&mut self, ar: &Arena, e: Ex) -> Option<P> {
        if let Some(p) = self.intbl.get(&e) {
            return *p;
        }
        let r = self.ibl_new(ar, e);
        self.intbl.insert(e, r);
        r
    }
    /// The signed value of a bit-vector expression as an integer term.
    fn sint(&mut self, ar: &Arena, e: Ex) -> Option<P> {
        let w = ar.w(e);
        let c = self.c;
        if let Some((terms, k)) = ar.slin(e) {
            let mut v = Vec::new();
            for (t, k) in terms {
                let m = [self.inum(k), self.int(ar, t)?];
                v.push(unsafe { Z3_mk_mul(c, 2, m.as_ptr()) });
            }
            v.push(self.inum(k));
            return Some(unsafe { Z3_mk_add(c, v.len() as c_uint, v.as_ptr()) });
        }
        if w > 126 {
            return None;
        }
        let x = self.int(ar, e)?;
        let h = self.inum(1i128 << (w - 1));
        let v = [x, self.inum(-(1i128 << w))];
        Some(unsafe { Z3_mk_ite(c, Z3_mk_lt(c, x, h), x, Z3_mk_add(c, 2, v.as_ptr())) })
    }
    fn ibl_new(&mut self, ar: &Arena, e: Ex) -> Option<P> {
        let n = ar.node(e);
        let c = self.c;
        unsafe {
            Some(match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Var => {
                    let o = self.inum(1);
                    Z3_mk_eq(c, self.ivar(n.a), o)
                }
                Op::Eq => {
                    // equality of linear forms: one congruence
                    let d = if self.shown_exact.contains_key(&n.a) { None } else { ar.eq_range(e) };
                    if let Some((terms, k)) = d {
                        let mut v = Vec::new();
                        for (t, k) in terms {
                            let m = [self.inum(k), self.int(ar, t)?];
                            v.push(Z3_mk_mul(c, 2, m.as_ptr()));
                        }
                        let s = Z3_mk_add(c, v.len() as c_uint, v.as_ptr());
                        let kk = self.inum(k);
                        Z3_mk_eq(c, s, kk)
                    } else {
                        Z3_mk_eq(c, self.int(ar, n.a)?, self.int(ar, n.b)?)
                    }
                }
                Op::Ult => Z3_mk_lt(c, self.int(ar, n.a)?, self.int(ar, n.b)?),
                Op::Slt => Z3_mk_lt(c, self.sint(ar, n.a)?, self.sint(ar, n.b)?),
                Op::Not => Z3_mk_not(c, self.ibl(ar, n.a)?),
                Op::And => {
                    let v = [self.ibl(ar, n.a)?, self.ibl(ar, n.b)?];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.ibl(ar, n.a)?, self.ibl(ar, n.b)?];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => Z3_mk_xor(c, self.ibl(ar, n.a)?, self.ibl(ar, n.b)?),
                Op::Ite => Z3_mk_ite(c, self.ibl(ar, n.a)?, self.ibl(ar, n.b)?, self.ibl(ar, n.c)?),
                Op::Extract | Op::UDiv | Op::URem if n.w == 1 => {
                    if n.op != Op::Extract {
                        return None;
                    }
                    let mut x = self.int(ar, n.a)?;
                    if n.b > 0 {
                        let d = self.pow2(n.b)?;
                        x = Z3_mk_div(c, x, d);
                    }
                    let two = self.inum(2);
                    let one = self.inum(1);
                    Z3_mk_eq(c, Z3_mk_mod(c, x, two), one)
                }
                _ => return None,
            })
        }
    }
    /// Sums inside `e` that may wrap, innermost first.
    fn wrapping_sums(ar: &Arena, e: Ex, seen: &mut std::collections::HashSet<Ex>, out: &mut Vec<Ex>) {
        if !seen.insert(e) {
            return;
        }
        let n = ar.node(e);
        match n.op {
            Op::Const | Op::Var | Op::Uf => {}
            Op::Lin => {
                for &(t, _) in ar.lins[n.a as usize].clone().iter() {
                    Self::wrapping_sums(ar, t, seen, out);
                }
                if ar.lin_int(e).is_none() {
                    out.push(e);
                }
            }
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Tab => Self::wrapping_sums(ar, n.a, seen, out),
            Op::Ite => {
                Self::wrapping_sums(ar, n.a, seen, out);
                Self::wrapping_sums(ar, n.b, seen, out);
                Self::wrapping_sums(ar, n.c, seen, out);
            }
            _ => {
                Self::wrapping_sums(ar, n.a, seen, out);
                Self::wrapping_sums(ar, n.b, seen, out);
            }
        }
    }
    fn int_sum(&mut self, ar: &Arena, terms: &[(Ex, i128)], k: i128) -> Option<P> {
        let mut v = Vec::new();
        for &(t, k) in terms {
            let m = [self.inum(k), self.int(ar, t)?];
            v.push(unsafe { Z3_mk_mul(self.c, 2, m.as_ptr()) });
        }
        v.push(self.inum(k));
        Some(unsafe { Z3_mk_add(self.c, v.len() as c_uint, v.as_ptr()) })
    }
    /// The query in linear integer arithmetic, if it can be put that way.
    fn run_lia(&mut self, ar: &mut Arena, doms: &[(u32, Dom)], wide: &[u32], cons: &[Ex]) -> Res {
        let mut seen = std::collections::HashSet::new();
        let mut sums = Vec::new();
        for &e in cons {
            Self::wrapping_sums(ar, e, &mut seen, &mut sums);
        }
        if sums.is_empty() {
            return self.run_lia2(ar, doms, wide, cons);
        }
        // Which of them cannot wrap here? Uses the constraints that contain no wrapping sum, and
        // then those in which every sum has been shown not to wrap.
        let (a, b) = (std::mem::take(&mut self.ints), std::mem::take(&mut self.intbl));
        let base = match self.lia_domains(ar, doms, wide) {
            Some(p) => p,
            None => return Res::Unknown,
        };
        let c = self.c;
        let s = self.lia;
        unsafe {
            Z3_solver_push(c, s);
            for &p in &base {
                Z3_solver_assert(c, s, p);
            }
        }
        let mut open: std::collections::HashSet<Ex> = sums.iter().copied().collect();
        let mut order: Vec<Ex> = Vec::new();
        // clean constraints first
        let mut rest: Vec<(Ex, Vec<Ex>)> = Vec::new();
        for &e in cons {
            let mut seen = std::collections::HashSet::new();
            let mut own = Vec::new();
            Self::wrapping_sums(ar, e, &mut seen, &mut own);
            if own.is_empty() {
                order.push(e);
            } else {
                rest.push((e, own));
            }
        }
        for &e in &order {
            if let Some(p) = self.ibl(ar, e) {
                unsafe { Z3_solver_assert(c, s, p) };
            }
        }
        for (e, own) in rest {
            for x in own {
                if !open.contains(&x) {
                    continue;
                }
                let n = ar.node(x);
                if n.w > 120 {
                    continue;
                }
                for (signed, ksigned) in [(false, true), (true, true), (false, false), (true, false)] {
                    let conv = |v: u128| if signed { sext(v, n.w) } else { v as i128 };
                    let terms: Vec<(Ex, i128)> = ar.lins[n.a as usize].iter().map(|&(t, k)| (t, conv(k))).collect();
                    if !signed && !terms.iter().any(|t| sext(t.1 as u128, n.w) < 0) {
                        continue;
                    }
                    if !ksigned && sext(n.k, n.w) >= 0 {
                        continue;
                    }
                    let k = if ksigned { sext(n.k, n.w) } else { n.k as i128 };
                    // (an inner sum that has not been shown exact makes this one unusable)
                    let inner_open = {
                        let mut seen = std::collections::HashSet::new();
                        let mut inner = Vec::new();
                        for t in &terms {
                            Self::wrapping_sums(ar, t.0, &mut seen, &mut inner);
                        }
                        inner.iter().any(|i| open.contains(i))
                    };
                    if inner_open {
                        break;
                    }
                    let sum = match self.int_sum(ar, &terms, k) {
                        Some(p) => p,
                        None => break,
                    };
                    let (z, top) = (self.inum(0), self.inum(1i128 << n.w));
                    let r = unsafe {
                        Z3_solver_push(c, s);
                        let v = [Z3_mk_lt(c, sum, z), Z3_mk_le(c, top, sum)];
                        Z3_solver_assert(c, s, Z3_mk_or(c, 2, v.as_ptr()));
                        let r = self.zcheck(s);
                        Z3_solver_pop(c, s, 1);
                        r
                    };
                    if r == -1 {
                        self.shown_exact.insert(x, (terms, k));
                        open.remove(&x);
                        break;
                    }
                }
            }
            let mut seen = std::collections::HashSet::new();
            let mut own = Vec::new();
            Self::wrapping_sums(ar, e, &mut seen, &mut own);
            if !own.iter().any(|x| open.contains(x)) {
                if let Some(p) = self.ibl(ar, e) {
                    unsafe { Z3_solver_assert(c, s, p) };
                }
            }
        }
        unsafe { Z3_solver_pop(c, s, 1) };
        self.ints.clear();
        self.intbl.clear();
        let r = self.run_lia2(ar, doms, wide, cons);
        self.ints = a;
        self.intbl = b;
        self.shown_exact.clear();
        r
    }
    fn lia_domains(&mut self, ar: &Arena, doms: &[(u32, Dom)], wide: &[u32]) -> Option<Vec<P>> {
        let c = self.c;
        let mut asts = Vec::new();
        for (v, d) in doms {
            let x = self.ivar(*v);
            let mut parts = Vec::new();
            let mut i = 0;
            while i <= 255 {
                if !dom_get(d, i) {
                    i += 1;
                    continue;
                }
                let st = i;
                while i <= 255 && dom_get(d, i) {
                    i += 1;
                }
                let (a, b) = (self.inum(st as i128), self.inum(i as i128 - 1));
                let v = unsafe { [Z3_mk_le(c, a, x), Z3_mk_le(c, x, b)] };
                parts.push(unsafe { Z3_mk_and(c, 2, v.as_ptr()) });
            }
            asts.push(unsafe { Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr()) });
        }
        for &v in wide {
            let vi = ar.vars[v as usize];
            let hi = match i128::try_from(vi.hi) {
                Ok(h) => h,
                Err(_) => return None,
            };
            let x = self.ivar(v);
            let (a, b) = (self.inum(vi.lo as i128), self.inum(hi));
            asts.push(unsafe { Z3_mk_le(c, a, x) });
            asts.push(unsafe { Z3_mk_le(c, x, b) });
        }
        Some(asts)
    }
    fn run_lia2(&mut self, ar: &mut Arena, doms: &[(u32, Dom)], wide: &[u32], cons: &[Ex]) -> Res {
        let c = self.c;
        let mut asts = match self.lia_domains(ar, doms, wide) {
            Some(p) => p,
            None => return Res::Unknown,
        };
        for &e in cons {
            match self.ibl(ar, e) {
                Some(p) => asts.push(p),
                None => return Res::Unknown,
            }
        }
        self.lia_queries += 1;
        unsafe {
            let s = self.lia;
            Z3_solver_push(c, s);
            for &a in &asts {
                Z3_solver_assert(c, s, a);
            }
            let r = self.zcheck(s);
            let mut out = Res::Unknown;
            if r == -1 {
                out = Res::Unsat;
            } else if r == 1 {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut vals = Vec::new();
                for v in doms.iter().map(|d| d.0).chain(wide.iter().copied()) {
                    let x = self.ivar(v);
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(c, m, x, true, &mut o);
                    let k: u128 = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse().unwrap();
                    vals.push((v, k));
                }
                Z3_model_dec_ref(c, m);
                let get = |v: u32| vals.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0);
                for &e in cons {
                    if ar.eval(e, &get) != 1 {
                        panic!("integer model does not satisfy {}: translation error", ar.show(e, 9));
                    }
                }
                out = Res::Sat(vals);
            }
            Z3_solver_pop(c, s, 1);
            out
        }
    }
    fn run(&mut self, ar: &mut Arena, s: P, asts: &[P], vars: &[u32], cons: &[Ex]) -> Res {
        let c = self.c;
        unsafe {
            Z3_solver_push(c, s);
            for &a in asts {
                Z3_solver_assert(c, s, a);
            }
            let mut out = Res::Unknown;
            for _round in 0..200 {
                let r = self.zcheck(s);
                if r == -1 {
                    out = Res::Unsat;
                    break;
                }
                if r == 0 {
                    break;
                }
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut vals = Vec::new();
                for &v in vars {
                    let x = self.var_ast(ar, v);
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(c, m, x, true, &mut o);
                    let mut q = 0u64;
                    let k = if Z3_get_numeral_uint64(c, o, &mut q) {
                        q as u128
                    } else {
                        std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse().unwrap()
                    };
                    vals.push((v, k));
                }
                Z3_model_dec_ref(c, m);
                let get = |v: u32| vals.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0);
                let bad: Vec<Ex> = cons.iter().copied().filter(|&e| ar.eval(e, &get) != 1).collect();
                if bad.is_empty() {
                    out = Res::Sat(vals);
                    break;
                }
                // a model that only exists because a floating-point operation was left uninterpreted:
                // pin the operations it used to their real results and try again
                let mut ufs = Vec::new();
                let mut seen = std::collections::HashSet::new();
                for &b in &bad {
                    collect_ufs(ar, b, &mut seen, &mut ufs);
                }
                if ufs.is_empty() {
                    panic!("solver model does not satisfy the constraints: translation error");
                }
                self.refinements += 1;
                self.grow(ar.nodes.len());
                for u in ufs {
                    let n = ar.node(u);
                    let al = ar.arglists[n.a as usize].clone();
                    let mut conj = Vec::new();
                    for &x in al.iter() {
                        let v = ar.eval(x, &get);
                        let xa = self.bv(ar, x);
                        let k = self.num(v, ar.w(x));
                        conj.push(Z3_mk_eq(c, xa, k));
                    }
                    let v = ar.eval(u, &get);
                    let ua = self.bv(ar, u);
                    let k = self.num(v, n.w);
                    let pre = Z3_mk_not(c, Z3_mk_and(c, conj.len() as c_uint, conj.as_ptr()));
                    let post = Z3_mk_eq(c, ua, k);
                    let cl = [pre, post];
                    Z3_solver_assert(c, s, Z3_mk_or(c, 2, cl.as_ptr()));
                }
            }
            Z3_solver_pop(c, s, 1);
            out
        }
    }
}

fn collect_ufs(ar: &Arena, e: Ex, seen: &mut std::collections::HashSet<Ex>, out: &mut Vec<Ex>) {
    if !seen.insert(e) {
        return;
    }
    let n = ar.node(e);
    match n.op {
        Op::Const | Op::Var => {}
        Op::Lin => {
            for &(t, _) in ar.lins[n.a as usize].clone().iter() {
                collect_ufs(ar, t, seen, out);
            }
        }
        Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Tab => collect_ufs(ar, n.a, seen, out),
        Op::Ite => {
            collect_ufs(ar, n.a, seen, out);
            collect_ufs(ar, n.b, seen, out);
            collect_ufs(ar, n.c, seen, out);
        }
        Op::Uf => {
            for &t in ar.arglists[n.a as usize].clone().iter() {
                collect_ufs(ar, t, seen, out);
            }
            out.push(e);
        }
        _ => {
            collect_ufs(ar, n.a, seen, out);
            collect_ufs(ar, n.b, seen, out);
        }
    }
}
