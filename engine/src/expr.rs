//! Hash-consed bit-vector expressions with simplification.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Var,   // a = var id
    Lin,   // a = index into lins, k = constant
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not, // 1-bit
    Shl,
    LShr,
    AShr,
    Extract, // a, b = low bit
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
    Tab, // a = index, b = table id
    Uf,  // a = arg list id, b = function id
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub lo: u128,
    pub hi: u128,
    pub ones: u128,
    pub sup: u32,
    /// 0 = may wrap, 1 = exact with signed coefficients, 2 = exact with unsigned coefficients
    pub exact: u8,
    /// depends on a product which is not given to the solver
    pub hard: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct VarInfo {
    pub seq: u32,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    map: HashMap<Node, Ex>,
    pub lins: Vec<Rc<[(Ex, u128)]>>,
    lin_map: HashMap<Rc<[(Ex, u128)]>, u32>,
    pub vars: Vec<VarInfo>,
    var_map: HashMap<VarInfo, u32>,
    pub sups: Vec<Rc<[u32]>>,
    sup_map: HashMap<Rc<[u32]>, u32>,
    sup_union: HashMap<(u32, u32), u32>,
    pub tabs: Vec<Rc<[u8]>>,
    tab_map: HashMap<Rc<[u8]>, u32>,
    pub arglists: Vec<Rc<[Ex]>>,
    arglist_map: HashMap<Rc<[Ex]>, u32>,
    pub ufs: Vec<String>,
    uf_map: HashMap<String, u32>,
    memo: Vec<(u32, u128)>,
    gen: u32,
    tables: HashMap<Ex, [u64; 4]>,
}

pub type Dom = [u64; 4];

pub fn dom_get(d: &Dom, v: usize) -> bool {
    d[v >> 6] >> (v & 63) & 1 == 1
}
pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_first(d: &Dom) -> Option<usize> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some(i * 64 + d[i].trailing_zeros() as usize);
        }
    }
    None
}

fn ones_of(hi: u128) -> u128 {
    if hi == 0 {
        0
    } else {
        u128::MAX >> hi.leading_zeros()
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            meta: vec![],
            map: HashMap::new(),
            lins: vec![],
            lin_map: HashMap::new(),
            vars: vec![],
            var_map: HashMap::new(),
            sups: vec![],
            sup_map: HashMap::new(),
            sup_union: HashMap::new(),
            tabs: vec![],
            tab_map: HashMap::new(),
            arglists: vec![],
            arglist_map: HashMap::new(),
            ufs: vec![],
            uf_map: HashMap::new(),
            memo: vec![],
            gen: 0,
            tables: HashMap::new(),
        };
        a.sup(vec![]);
        a
    }
    fn sup(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = v.into();
        if let Some(&i) = self.sup_map.get(&r) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(r.clone());
        self.sup_map.insert(r, i);
        i
    }
    fn sup2(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = self.sup_union.get(&key) {
            return r;
        }
        let mut v: Vec<u32> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.sup(v);
        self.sup_union.insert(key, r);
        r
    }
    /// Readable form, for diagnosis.
    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = self.node(e);
        if depth == 0 && !matches!(n.op, Op::Const | Op::Var) {
            return format!("#{}", e);
        }
        let d = depth.saturating_sub(1);
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.a),
            Op::Lin => {
                let mut s = format!("(lin{}", n.w);
                for &(t, k) in self.lins[n.a as usize].iter() {
                    s += &format!(" {}*{}", sext(k, n.w), self.show(t, d));
                }
                format!("{} + {})", s, sext(n.k, n.w))
            }
            Op::Not => format!("!{}", self.show(n.a, d)),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, d), n.b, n.w),
            Op::ZExt => format!("z{}({})", n.w, self.show(n.a, d)),
            Op::SExt => format!("s{}({})", n.w, self.show(n.a, d)),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            Op::Tab => format!("tab{}[{}]", n.b, self.show(n.a, d)),
            Op::Uf => {
                let v: Vec<String> = self.arglists[n.a as usize].iter().map(|&x| self.show(x, d)).collect();
                format!("{}({})", self.ufs[n.b as usize], v.join(", "))
            }
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d), self.show(n.b, d)),
        }
    }
    pub fn node(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: Ex) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn m(&self, e: Ex) -> &Meta {
        &self.meta[e as usize]
    }
    pub fn support(&self, e: Ex) -> Rc<[u32]> {
        self.sups[self.meta[e as usize].sup as usize].clone()
    }
    pub fn sup_id(&self, e: Ex) -> u32 {
        self.meta[e as usize].sup
    }
    pub fn konst(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    fn intern(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let full = mask(n.w);
        let mut lo = 0u128;
        let mut hi = full;
        let mut ones = full;
        let mut sup = 0;
        let mut exact = 0u8;
        match n.op {
            Op::Const => {
                lo = n.k;
                hi = n.k;
                ones = n.k;
            }
            Op::Var => {
                let vi = self.vars[n.a as usize];
                lo = vi.lo;
                hi = vi.hi;
                sup = self.sup(vec![n.a]);
            }
            Op::Lin => {
                let terms = self.lins[n.a as usize].clone();
                let mut tz = if n.k == 0 { 127 } else { n.k.trailing_zeros() };
                for &(t, c) in terms.iter() {
                    sup = self.sup2(sup, self.m(t).sup);
                    tz = tz.min(c.trailing_zeros() + self.m(t).ones.trailing_zeros().min(64));
                }
                ones = full & !mask(tz.min(127) as u16);
                // parts that occupy separate bits
                let mut acc = n.k;
                let mut apart = true;
                for &(t, c) in terms.iter() {
                    let o = self.m(t).ones;
                    if !c.is_power_of_two() || o == 0 || o.leading_zeros() < c.trailing_zeros() {
                        apart = false;
                        break;
                    }
                    let o = o << c.trailing_zeros();
                    if o & !full != 0 || o & acc != 0 {
                        apart = false;
                        break;
                    }
                    acc |= o;
                }
                if apart {
                    ones &= acc;
                }
                if n.w <= 128 {
                    'modes: for mode in [1u8, 2] {
                        let kopts = [n.k as i128, sext(n.k, n.w)];
                        for kk in kopts {
                            let mut l = kk;
                            let mut h = kk;
                            let mut ok = true;
                            for &(t, c) in terms.iter() {
                                let c = if mode == 1 { sext(c, n.w) } else { c as i128 };
                                if self.m(t).hi > i128::MAX as u128 {
                                    ok = false;
                                    break;
                                }
                                let tl = self.m(t).lo as i128;
                                let th = self.m(t).hi as i128;
                                let (x, y) = match (c.checked_mul(tl), c.checked_mul(th)) {
                                    (Some(x), Some(y)) => (x.min(y), x.max(y)),
                                    _ => {
                                        ok = false;
                                        break;
                                    }
                                };
                                match (l.checked_add(x), h.checked_add(y)) {
                                    (Some(a), Some(b)) => {
                                        l = a;
                                        h = b;
                                    }
                                    _ => {
                                        ok = false;
                                        break;
                                    }
                                }
                            }
                            if ok && l >= 0 && h as u128 <= full {
                                lo = l as u128;
                                hi = h as u128;
                                exact = mode;
                                if kk < 0 {
                                    exact |= 4;
                                }
                                break 'modes;
                            }
                        }
                    }
                }
            }
            Op::UDiv => {
                sup = self.sup2(self.m(n.a).sup, self.m(n.b).sup);
                let d = self.m(n.b).lo.max(1);
                if self.m(n.b).lo > 0 {
                    hi = self.m(n.a).hi / d;
                    lo = self.m(n.a).lo / self.m(n.b).hi.max(1);
                }
            }
            Op::URem => {
                sup = self.sup2(self.m(n.a).sup, self.m(n.b).sup);
                if self.m(n.b).lo > 0 {
                    hi = (self.m(n.b).hi - 1).min(self.m(n.a).hi);
                }
            }
            Op::And => {
                sup = self.sup2(self.m(n.a).sup, self.m(n.b).sup);
                ones = self.m(n.a).ones & self.m(n.b).ones;
                hi = self.m(n.a).hi.min(self.m(n.b).hi).min(ones);
            }
            Op::Or | Op::Xor => {
                sup = self.sup2(self.m(n.a).sup, self.m(n.b).sup);
                ones = self.m(n.a).ones | self.m(n.b).ones;
                hi = ones;
                if n.op == Op::Or {
                    lo = self.m(n.a).lo.max(self.m(n.b).lo);
                }
            }
            Op::Mul | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::Eq | Op::Ult | Op::Slt => {
                sup = self.sup2(self.m(n.a).sup, self.m(n.b).sup);
                if n.op == Op::LShr {
                    hi = self.m(n.a).hi;
                }
                if n.op == Op::Mul {
                    if let Some(h) = self.m(n.a).hi.checked_mul(self.m(n.b).hi) {
                        if h <= full {
                            hi = h;
                            lo = self.m(n.a).lo * self.m(n.b).lo;
                        }
                    }
                }
            }
            Op::Not => {
                sup = self.m(n.a).sup;
            }
            Op::Extract => {
                sup = self.m(n.a).sup;
                let h = self.m(n.a).hi >> n.b;
                if h <= full {
                    hi = h;
                    lo = self.m(n.a).lo >> n.b;
                }
                ones = self.m(n.a).ones >> n.b & full;
            }
            Op::ZExt => {
                sup = self.m(n.a).sup;
                lo = self.m(n.a).lo;
                hi = self.m(n.a).hi;
                ones = self.m(n.a).ones;
            }
            Op::SExt => {
                sup = self.m(n.a).sup;
            }
            Op::Ite => {
                sup = self.sup2(self.m(n.a).sup, self.m(n.b).sup);
                sup = self.sup2(sup, self.m(n.c).sup);
                lo = self.m(n.b).lo.min(self.m(n.c).lo);
                hi = self.m(n.b).hi.max(self.m(n.c).hi);
                ones = self.m(n.b).ones | self.m(n.c).ones;
            }
            Op::Tab => {
                sup = self.m(n.a).sup;
                let t = self.tabs[n.b as usize].clone();
                let l = self.m(n.a).lo as usize;
                let h = (self.m(n.a).hi as usize).min(t.len() - 1);
                let (mut a, mut b) = (255u8, 0u8);
                let mut o = 0;
                for i in l..=h {
                    a = a.min(t[i]);
                    b = b.max(t[i]);
                    o |= t[i];
                }
                lo = a as u128;
                hi = b as u128;
                ones = o as u128;
            }
            Op::Uf => {
                for &x in self.arglists[n.a as usize].clone().iter() {
                    sup = self.sup2(sup, self.m(x).sup);
                }
                // a decimal number of so many digits before the point is within two powers of ten
                let name = &self.ufs[n.b as usize];
                if name.starts_with("decimal.") {
                    let size = self.konst(self.arglists[n.a as usize][4]).expect("size") as u64 as i64;
                    let at = |e: i64| crate::fp::eval_uf(name, &[1, 0, 0, e as u64 as u128]);
                    (lo, hi) = (at(size - 1), at(size));
                }
            }
        }
        ones &= ones_of(hi);
        hi = hi.min(ones);
        if lo > hi {
            lo = hi;
        }
        let hard = match n.op {
            Op::Const | Op::Var => false,
            Op::Lin => self.lins[n.a as usize].iter().any(|x| self.m(x.0).hard),
            Op::Uf => self.arglists[n.a as usize].iter().any(|&x| self.m(x).hard),
            Op::Mul if n.w == 128 => true,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Tab => self.m(n.a).hard,
            Op::Ite => self.m(n.a).hard || self.m(n.b).hard || self.m(n.c).hard,
            _ => self.m(n.a).hard || self.m(n.b).hard,
        };
        let e = self.nodes.len() as u32;
        self.nodes.push(n);
        self.meta.push(Meta { lo, hi, ones, sup, exact, hard });
        self.map.insert(n, e);
        e
    }

    pub fn c(&mut self, v: u128, w: u16) -> Ex {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn bool(&mut self, b: bool) -> Ex {
        self.c(b as u128, 1)
    }
    pub fn var(&mut self, vi: VarInfo) -> (u32, Ex) {
        let id = if let Some(&i) = self.var_map.get(&vi) {
            i
        } else {
            let i = self.vars.len() as u32;
            self.vars.push(vi);
            self.var_map.insert(vi, i);
            i
        };
        (id, self.intern(Node { op: Op::Var, w: vi.w, a: id, b: 0, c: 0, k: 0 }))
    }
    pub fn uf(&mut self, name: &str, args: Vec<Ex>, w: u16) -> Ex {
        let f = if let Some(&f) = self.uf_map.get(name) {
            f
        } else {
            self.ufs.push(name.to_string());
            self.uf_map.insert(name.to_string(), self.ufs.len() as u32 - 1);
            self.ufs.len() as u32 - 1
        };
        let r: Rc<[Ex]> = args.into();
        let al = if let Some(&a) = self.arglist_map.get(&r) {
            a
        } else {
            self.arglists.push(r.clone());
            self.arglist_map.insert(r, self.arglists.len() as u32 - 1);
            self.arglists.len() as u32 - 1
        };
        self.intern(Node { op: Op::Uf, w, a: al, b: f, c: 0, k: 0 })
    }
    fn bin(&mut self, op: Op, w: u16, a: Ex, b: Ex) -> Ex {
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }

    // ---- linear sums ----
    pub fn lin_terms(&self, e: Ex) -> (Vec<(Ex, u128)>, u128) {
        let n = self.node(e);
        match n.op {
            Op::Const => (vec![], n.k),
            Op::Lin => (self.lins[n.a as usize].to_vec(), n.k),
            _ => (vec![(e, 1)], 0),
        }
    }
    fn mk_lin(&mut self, w: u16, mut terms: Vec<(Ex, u128)>, k: u128) -> Ex {
        let m = mask(w);
        terms.sort_unstable_by_key(|t| t.0);
        let mut out: Vec<(Ex, u128)> = Vec::with_capacity(terms.len());
        for (t, c) in terms {
            if let Some(l) = out.last_mut() {
                if l.0 == t {
                    l.1 = l.1.wrapping_add(c) & m;
                    continue;
                }
            }
            out.push((t, c & m));
        }
        out.retain(|t| t.1 != 0);
        let k = k & m;
        if out.is_empty() {
            return self.c(k, w);
        }
        if out.len() == 1 && out[0].1 == 1 && k == 0 {
            return out[0].0;
        }
        let r: Rc<[(Ex, u128)]> = out.into();
        let li = if let Some(&i) = self.lin_map.get(&r) {
            i
        } else {
            let i = self.lins.len() as u32;
            self.lins.push(r.clone());
            self.lin_map.insert(r, i);
            i
        };
        self.intern(Node { op: Op::Lin, w, a: li, b: 0, c: 0, k })
    }
    /// Exact (non-wrapping) integer form of an expression.
    pub fn lin_int(&self, e: Ex) -> Option<(Vec<(Ex, i128)>, i128)> {
        let n = self.node(e);
        match n.op {
            Op::Const => {
                if n.k > i128::MAX as u128 {
                    None
                } else {
                    Some((vec![], n.k as i128))
                }
            }
            Op::Lin => {
                let ex = self.m(e).exact;
                if ex == 0 {
                    return None;
                }
                let terms = self.lins[n.a as usize]
                    .iter()
                    .map(|&(t, c)| (t, if ex & 3 == 1 { sext(c, n.w) } else { c as i128 }))
                    .collect();
                let k = if ex & 4 != 0 { sext(n.k, n.w) } else { n.k as i128 };
                Some((terms, k))
            }
            _ => Some((vec![(e, 1)], 0)),
        }
    }
    fn int_range(&self, terms: &[(Ex, i128)], k: i128) -> Option<(i128, i128)> {
        let mut l = k;
        let mut h = k;
        for &(t, c) in terms {
            let tl = i128::try_from(self.m(t).lo).ok()?;
            let th = i128::try_from(self.m(t).hi).ok()?;
            let x = c.checked_mul(tl)?;
            let y = c.checked_mul(th)?;
            l = l.checked_add(x.min(y))?;
            h = h.checked_add(x.max(y))?;
        }
        Some((l, h))
    }
    /// Range of the difference of two integer forms.
    fn diff_range(&self, ta: &mut Vec<(Ex, i128)>, ka: i128, tb: Vec<(Ex, i128)>, kb: i128) -> Option<(i128, i128)> {
        for (t, c) in tb {
            if let Some(x) = ta.iter_mut().find(|x| x.0 == t) {
                x.1 = x.1.checked_sub(c)?;
            } else {
                ta.push((t, c.checked_neg()?));
            }
        }
        self.int_range(ta, ka.checked_sub(kb)?)
    }
    fn from_int(&mut self, w: u16, terms: Vec<(Ex, i128)>, k: i128) -> Ex {
        let m = mask(w);
        let mut t2 = Vec::new();
        for (t, c) in terms {
            t2.push((t, (c as u128) & m));
        }
        self.mk_lin(w, t2, (k as u128) & m)
    }

    pub fn add(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (mut t, k) = self.lin_terms(a);
        let (t2, k2) = self.lin_terms(b);
        t.extend(t2);
        self.mk_lin(w, t, k.wrapping_add(k2))
    }
    pub fn mulc(&mut self, a: Ex, c: u128) -> Ex {
        let w = self.w(a);
        let m = mask(w);
        let (t, k) = self.lin_terms(a);
        let t = t.into_iter().map(|(t, x)| (t, x.wrapping_mul(c) & m)).collect();
        self.mk_lin(w, t, k.wrapping_mul(c))
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let nb = self.mulc(b, u128::MAX);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.konst(b) {
            return self.mulc(a, k);
        }
        if let Some(k) = self.konst(a) {
            return self.mulc(b, k);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::Mul, self.w(a), a, b)
    }
    /// A product which is left as it is, to be evaluated when its value matters.
    pub fn mul_hard(&mut self, a: Ex, b: Ex) -> Ex {
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            return self.c(x.wrapping_mul(y), 128);
        }
        self.bin(Op::Mul, 128, a.min(b), a.max(b))
    }
    /// Whether a value depends on such a product.
    pub fn hard(&self, e: Ex) -> bool {
        self.meta[e as usize].hard
    }
    /// Splits e = c * q + r with 0 <= r < c if the linear form allows it.
    fn split(&mut self, e: Ex, c: u128) -> Option<(Ex, Ex)> {
        let w = self.w(e);
        if c == 0 || c > (i128::MAX / 4) as u128 {
            return None;
        }
        if self.m(e).hi < c {
            let z = self.c(0, w);
            return Some((z, e));
        }
        if self.node(e).op != Op::Lin {
            return None;
        }
        let (terms, k) = self.lin_int(e)?;
        let ci = c as i128;
        let mut q = Vec::new();
        let mut r = Vec::new();
        for (t, x) in terms {
            let xr = x.rem_euclid(ci);
            let xq = x.checked_sub(xr)? / ci;
            if xq != 0 {
                q.push((t, xq));
            }
            if xr != 0 {
                r.push((t, xr));
            }
        }
        let mut kr = k.rem_euclid(ci);
        let mut kq = k.checked_sub(kr)? / ci;
        let (mut rl, mut rh) = self.int_range(&r, kr)?;
        if rl >= ci && rh < 2 * ci {
            kr -= ci;
            kq += 1;
            rl -= ci;
            rh -= ci;
        }
        if rl < 0 || rh >= ci {
            return None;
        }
        let qe = self.from_int(w, q, kq);
        let re = self.from_int(w, r, kr);
        Some((qe, re))
    }
    pub fn udiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(c) = self.konst(b) {
            if c == 1 {
                return a;
            }
            if c != 0 {
                if let Some(k) = self.konst(a) {
                    return self.c(k / c, w);
                }
                if let Some((q, _)) = self.split(a, c) {
                    return q;
                }
                if c.is_power_of_two() {
                    return self.lshr_c(a, c.trailing_zeros());
                }
                // drop a common zero-extension
                if let Some(x) = self.strip_zext(a) {
                    let xw = self.w(x);
                    if c <= mask(xw) {
                        let cc = self.c(c, xw);
                        let r = self.udiv(x, cc);
                        return self.zext(r, w);
                    }
                }
            }
        }
        self.bin(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(c) = self.konst(b) {
            if c != 0 {
                if let Some(k) = self.konst(a) {
                    return self.c(k % c, w);
                }
                if c == 1 {
                    return self.c(0, w);
                }
                if let Some((_, r)) = self.split(a, c) {
                    return r;
                }
                if c.is_power_of_two() {
                    let mk = self.c(c - 1, w);
                    return self.and(a, mk);
                }
                if let Some(x) = self.strip_zext(a) {
                    let xw = self.w(x);
                    if c <= mask(xw) {
                        let cc = self.c(c, xw);
                        let r = self.urem(x, cc);
                        return self.zext(r, w);
                    }
                }
            }
        }
        self.bin(Op::URem, w, a, b)
    }
    fn strip_zext(&self, e: Ex) -> Option<Ex> {
        let n = self.node(e);
        if n.op == Op::ZExt {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn sdiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let half = mask(w) >> 1;
        if self.m(a).hi <= half && self.m(b).hi <= half {
            return self.udiv(a, b);
        }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            if y != 0 {
                return self.c(sext(x, w).wrapping_div(sext(y, w)) as u128, w);
            }
        }
        self.bin(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let half = mask(w) >> 1;
        if self.m(a).hi <= half && self.m(b).hi <= half {
            return self.urem(a, b);
        }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            if y != 0 {
                return self.c(sext(x, w).wrapping_rem(sext(y, w)) as u128, w);
            }
        }
        self.bin(Op::SRem, w, a, b)
    }
    /// Bits whose value follows from the range of the expression, and that value.
    fn fixed(&self, e: Ex) -> (u128, u128) {
        let m = self.m(e);
        let full = mask(self.w(e));
        let d = m.lo ^ m.hi;
        let pre = if d == 0 { full } else { full & !ones_of(d) };
        let zero = full & !m.ones;
        (pre | zero, m.lo & pre & !zero)
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return a;
        }
        if let Some(c) = self.konst(b) {
            if let Some(x) = self.konst(a) {
                return self.c(x & c, w);
            }
            if c & self.m(a).ones == 0 {
                return self.c(0, w);
            }
            if c & self.m(a).ones == self.m(a).ones {
                return a;
            }
            let (fm, fv) = self.fixed(a);
            let cleared = !c & mask(w);
            if w > 1 && cleared & !fm == 0 {
                // only bits of known value are cleared
                let k = self.c(0u128.wrapping_sub(fv & cleared) & mask(w), w);
                return self.add(a, k);
            }
            let n = self.node(a);
            if n.op == Op::And {
                if let Some(c2) = self.konst(n.b) {
                    let k = self.c(c & c2, w);
                    return self.and(n.a, k);
                }
            }
            // contiguous low mask -> zext(trunc)
            if (c & (c + 1)) == 0 {
                let bits = c.trailing_ones() as u16;
                let t = self.extract(a, 0, bits);
                return self.zext(t, w);
            }
            // contiguous mask with shift: zext(extract) << s
            let s = c.trailing_zeros();
            let d = c >> s;
            if d & (d + 1) == 0 {
                let t = self.extract(a, s, d.trailing_ones() as u16);
                let z = self.zext(t, w);
                return self.mulc(z, 1u128 << s);
            }
            if n.op == Op::Ite {
                let (bk, ck) = (self.konst(n.b), self.konst(n.c));
                if let (Some(x), Some(y)) = (bk, ck) {
                    let x = self.c(x & c, w);
                    let y = self.c(y & c, w);
                    return self.ite(n.a, x, y);
                }
            }
        }
        if self.m(a).ones & self.m(b).ones == 0 {
            return self.c(0, w);
        }
        if w == 1 {
            if self.node(a).op == Op::Not && self.node(a).a == b || self.node(b).op == Op::Not && self.node(b).a == a {
                return self.c(0, 1);
            }
        }
        let (a, b) = if self.konst(b).is_some() { (a, b) } else { (a.min(b), a.max(b)) };
        self.bin(Op::And, w, a, b)
    }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return a;
        }
        if w > 1 && self.m(a).ones & self.m(b).ones == 0 {
            return self.add(a, b);
        }
        if let Some(c) = self.konst(b) {
            if let Some(x) = self.konst(a) {
                return self.c(x | c, w);
            }
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
            if w > 1 {
                let (fm, fv) = self.fixed(a);
                if c & !fm == 0 {
                    let k = self.c(c & !fv, w);
                    return self.add(a, k);
                }
                // (a & ~c) + c
                let nm = self.c(!c, w);
                let x = self.and(a, nm);
                return self.add(x, b);
            }
        }
        if w == 1 {
            let na = self.not(a);
            if na == b {
                return self.c(1, 1);
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return self.c(0, w);
        }
        if let Some(c) = self.konst(b) {
            if let Some(x) = self.konst(a) {
                return self.c(x ^ c, w);
            }
            if c == 0 {
                return a;
            }
            if w == 1 {
                return self.not(a);
            }
            if c == mask(w) {
                // ~a = -a - 1
                let na = self.mulc(a, u128::MAX);
                return self.add(na, b);
            }
            if c & self.m(a).ones == 0 {
                return self.add(a, b);
            }
            let (fm, fv) = self.fixed(a);
            if c & !fm == 0 {
                let k = self.c((c & !fv).wrapping_sub(c & fv) & mask(w), w);
                return self.add(a, k);
            }
            let n = self.node(a);
            if n.op == Op::Xor {
                if let Some(c2) = self.konst(n.b) {
                    let k = self.c(c ^ c2, w);
                    return self.xor(n.a, k);
                }
            }
            return self.bin(Op::Xor, w, a, b);
        }
        if w > 1 && self.m(a).ones & self.m(b).ones == 0 {
            return self.add(a, b);
        }
        if w == 1 {
            let e = self.eq(a, b);
            return self.not(e);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::Xor, w, a, b)
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let n = self.node(a);
        match n.op {
            Op::Const => self.c(1 - n.k, 1),
            Op::Not => n.a,
            _ => self.intern(Node { op: Op::Not, w: 1, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.konst(b) {
            if s >= w as u128 {
                return self.c(0, w);
            }
            return self.mulc(a, 1u128 << s);
        }
        self.bin(Op::Shl, w, a, b)
    }
    fn lshr_c(&mut self, a: Ex, s: u32) -> Ex {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w as u32 {
            return self.c(0, w);
        }
        if let Some((q, _)) = self.split(a, 1u128 << s) {
            return q;
        }
        let x = self.extract(a, s, w - s as u16);
        self.zext(x, w)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.konst(b) {
            if s >= w as u128 {
                return self.c(0, w);
            }
            if let Some(x) = self.konst(a) {
                return self.c(x >> s, w);
            }
            return self.lshr_c(a, s as u32);
        }
        if self.konst(a) == Some(0) {
            return a;
        }
        self.bin(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if self.m(a).hi <= mask(w) >> 1 {
            return self.lshr(a, b);
        }
        if let Some(s) = self.konst(b) {
            let s = s.min(w as u128 - 1) as u32;
            if let Some(x) = self.konst(a) {
                return self.c((sext(x, w) >> s) as u128, w);
            }
            let x = self.extract(a, s, w - s as u16);
            return self.sext(x, w);
        }
        self.bin(Op::AShr, w, a, b)
    }
    pub fn extract(&mut self, a: Ex, lo: u32, len: u16) -> Ex {
        let w = self.w(a);
        if lo == 0 && len == w {
            return a;
        }
        let n = self.node(a);
        match n.op {
            Op::Const => return self.c(n.k >> lo, len),
            Op::ZExt => {
                let iw = self.w(n.a) as u32;
                if lo >= iw {
                    return self.c(0, len);
                }
                if lo + len as u32 <= iw {
                    return self.extract(n.a, lo, len);
                }
                let x = self.extract(n.a, lo, (iw - lo) as u16);
                return self.zext(x, len);
            }
            Op::SExt => {
                let iw = self.w(n.a) as u32;
                if lo + len as u32 <= iw {
                    return self.extract(n.a, lo, len);
                }
                if lo == 0 {
                    return self.sext(n.a, len);
                }
            }
            Op::Extract => return self.extract(n.a, n.b + lo, len),
            Op::Lin => {
                if lo == 0 {
                    let terms = self.lins[n.a as usize].clone();
                    let mut t2 = Vec::new();
                    let mut k = n.k & mask(len);
                    for &(t, c) in terms.iter() {
                        let c = c & mask(len);
                        if c == 0 {
                            continue;
                        }
                        let tt = self.extract(t, 0, len);
                        let (ts, kk) = self.lin_terms(tt);
                        for (x, y) in ts {
                            t2.push((x, y.wrapping_mul(c)));
                        }
                        k = k.wrapping_add(kk.wrapping_mul(c));
                    }
                    return self.mk_lin(len, t2, k);
                }
                if let Some((q, _)) = self.split(a, 1u128 << lo) {
                    return self.extract(q, 0, len);
                }
                // try on the truncation to lo+len bits
                if (lo + len as u32) < w as u32 {
                    let t = self.extract(a, 0, (lo + len as u32) as u16);
                    return self.extract(t, lo, len);
                }
            }
            Op::Ite => {
                if self.konst(n.b).is_some() || self.konst(n.c).is_some() {
                    let x = self.extract(n.b, lo, len);
                    let y = self.extract(n.c, lo, len);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, len);
                let y = self.extract(n.b, lo, len);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            _ => {}
        }
        if self.m(a).ones >> lo & mask(len) == 0 {
            return self.c(0, len);
        }
        self.intern(Node { op: Op::Extract, w: len, a, b: lo, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if iw > w {
            return self.extract(a, 0, w);
        }
        let n = self.node(a);
        match n.op {
            Op::Const => return self.c(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Extract if n.b == 0 && self.m(n.a).hi <= mask(iw) => {
                return self.zext(n.a, w);
            }
            Op::Lin if self.m(a).exact != 0 => {
                let (terms, k) = self.lin_int(a).unwrap();
                let terms: Vec<(Ex, i128)> = terms.into_iter().map(|(t, c)| (t, c)).collect();
                let mut t2 = Vec::new();
                for (t, c) in terms {
                    let z = self.zext(t, w);
                    t2.push((z, c));
                }
                // zext of a term may itself be a Lin
                let m = mask(w);
                let mut flat = Vec::new();
                let mut kk = (k as u128) & m;
                for (z, c) in t2 {
                    let (ts, k2) = self.lin_terms(z);
                    for (x, y) in ts {
                        flat.push((x, y.wrapping_mul(c as u128) & m));
                    }
                    kk = kk.wrapping_add(k2.wrapping_mul(c as u128));
                }
                return self.mk_lin(w, flat, kk);
            }
            Op::Ite => {
                if self.konst(n.b).is_some() || self.konst(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: Ex, w: u16) -> Ex {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if self.m(a).hi <= mask(iw) >> 1 {
            return self.zext(a, w);
        }
        let n = self.node(a);
        match n.op {
            Op::Const => return self.c(sext(n.k, iw) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Lin => {
                // signed-exact form
                let terms: Vec<(Ex, i128)> =
                    self.lins[n.a as usize].iter().map(|&(t, c)| (t, sext(c, iw))).collect();
                let k = sext(n.k, iw);
                if let Some((l, h)) = self.int_range(&terms, k) {
                    let half = (mask(iw) >> 1) as i128;
                    if l >= -half - 1 && h <= half {
                        let m = mask(w);
                        let mut flat = Vec::new();
                        let mut kk = (k as u128) & m;
                        for (t, c) in terms {
                            let z = self.zext(t, w);
                            let (ts, k2) = self.lin_terms(z);
                            for (x, y) in ts {
                                flat.push((x, y.wrapping_mul(c as u128) & m));
                            }
                            kk = kk.wrapping_add(k2.wrapping_mul(c as u128));
                        }
                        return self.mk_lin(w, flat, kk);
                    }
                }
            }
            Op::Ite => {
                if self.konst(n.b).is_some() && self.konst(n.c).is_some() {
                    let x = self.sext(n.b, w);
                    let y = self.sext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if iw == 1 {
            let x = self.c(u128::MAX, w);
            let y = self.c(0, w);
            return self.ite(a, x, y);
        }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    /// hi:lo
    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (hn, ln) = (self.node(hi), self.node(lo));
        let w = hn.w + ln.w;
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.b == ln.b + ln.w as u32 {
            return self.extract(hn.a, ln.b, w);
        }
        let z = self.zext(hi, w);
        let h = self.mulc(z, 1u128 << ln.w);
        let l = self.zext(lo, w);
        self.add(h, l)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.bool(true);
        }
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        let (ma, mb) = (*self.m(a), *self.m(b));
        if ma.lo > mb.hi || mb.lo > ma.hi {
            return self.bool(false);
        }
        if let Some(k) = self.konst(b) {
            let n = self.node(a);
            match n.op {
                Op::Const => return self.bool(n.k == k),
                _ if w == 1 => return if k == 1 { a } else { self.not(a) },
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if k > mask(iw) {
                        return self.bool(false);
                    }
                    let kk = self.c(k, iw);
                    return self.eq(n.a, kk);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if sext(k & mask(iw), iw) as u128 & mask(w) != k {
                        return self.bool(false);
                    }
                    let kk = self.c(k, iw);
                    return self.eq(n.a, kk);
                }
                Op::Lin => {
                    let terms = self.lins[n.a as usize].clone();
                    if terms.len() == 1 {
                        let (t, c) = terms[0];
                        let d = k.wrapping_sub(n.k) & mask(w);
                        if c == 1 {
                            let kk = self.c(d, w);
                            return self.eq(t, kk);
                        }
                        if c == mask(w) {
                            let kk = self.c(0u128.wrapping_sub(d), w);
                            return self.eq(t, kk);
                        }
                        if let Some((_, ki)) = self.lin_int(a) {
                            if ki >= 0 && c <= mask(w) >> 1 {
                                if (k as i128) < ki || (k as i128 - ki) % c as i128 != 0 {
                                    return self.bool(false);
                                }
                                let kk = self.c(((k as i128 - ki) / c as i128) as u128, w);
                                return self.eq(t, kk);
                            }
                        }
                    }
                }
                Op::Ite => {
                    let (bk, ck) = (self.konst(n.b), self.konst(n.c));
                    if bk.is_some() || ck.is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Xor => {
                    if let Some(c) = self.konst(n.b) {
                        let kk = self.c(c ^ k, w);
                        return self.eq(n.a, kk);
                    }
                }
                _ => {}
            }
            if self.node(a).op == Op::Lin {
                return self.eq_lin(a, k);
            }
            return self.bin(Op::Eq, 1, a, b);
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.eq(na.a, nb.a);
        }
        for (x, n) in [(b, na), (a, nb)] {
            // x == ite(c, K, x')
            if n.op == Op::Ite && (self.konst(n.b).is_some() || self.konst(n.c).is_some()) {
                let p = self.eq(n.b, x);
                let q = self.eq(n.c, x);
                if self.konst(p).is_some() || self.konst(q).is_some() {
                    return self.ite(n.a, p, q);
                }
            }
        }
        if na.op == Op::Lin || nb.op == Op::Lin {
            let d = self.sub(a, b);
            if let Some(k) = self.konst(d) {
                return self.bool(k == 0);
            }
            // range of the exact difference
            {
                if let (Some((mut ta, ka)), Some((tb, kb))) = (self.lin_int(a), self.lin_int(b)) {
                    if let Some((l, h)) = self.diff_range(&mut ta, ka, tb, kb) {
                        if l > 0 || h < 0 {
                            return self.bool(false);
                        }
                    }
                }
            }
            let z = self.c(0, w);
            return self.eq(d, z);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bin(Op::Eq, 1, a, b)
    }
    /// For an equality of linear forms that can hold for one integer difference only: that form.
    pub fn eq_range(&self, e: Ex) -> Option<(Vec<(Ex, i128)>, i128)> {
        let n = self.node(e);
        let k = self.konst(n.b)?;
        let na = self.node(n.a);
        if na.op != Op::Lin {
            return None;
        }
        let w = na.w;
        if w >= 127 {
            return None;
        }
        let t: Vec<(Ex, i128)> = self.lins[na.a as usize].iter().map(|&(t, c)| (t, sext(c, w))).collect();
        let (l, h) = self.int_range(&t, 0)?;
        let k = k.wrapping_sub(na.k) & mask(w);
        let step = 1i128 << w;
        let first = l.checked_add((k as i128).checked_sub(l)?.rem_euclid(step))?;
        if first <= h && first.checked_add(step).map_or(true, |x| x > h) {
            Some((t, first))
        } else {
            None
        }
    }
    /// A linear form is equal to a constant: sum of terms = k, with the first coefficient positive.
    fn eq_lin(&mut self, a: Ex, k: u128) -> Ex {
        let w = self.w(a);
        let m = mask(w);
        let n = self.node(a);
        let mut terms = self.lins[n.a as usize].to_vec();
        let mut k = k.wrapping_sub(n.k) & m;
        // x - c * (x / c) = 0 is x % c = 0
        for &(t, c) in terms.clone().iter() {
            let d = self.node(t);
            if d.op != Op::UDiv {
                continue;
            }
            let by = self.konst(d.b).unwrap_or(0);
            let rest = if by == 0 {
                continue;
            } else if c == by {
                self.mulc(d.a, m)
            } else if c == 0u128.wrapping_sub(by) & m {
                d.a
            } else {
                continue;
            };
            let q = self.mulc(t, c);
            let all = self.add(rest, q);
            let kk = self.c(k.wrapping_add(n.k), w);
            let want = self.sub(a, kk);
            if all == want {
                let r = self.urem(d.a, d.b);
                let zero = self.c(0, w);
                return self.eq(r, zero);
            }
        }
        if w < 127 {
            let t: Vec<(Ex, i128)> = terms.iter().map(|&(t, c)| (t, sext(c, w))).collect();
            // congruent to k modulo 2^w: is there any such number in the range?
            if let Some((l, h)) = self.int_range(&t, 0) {
                let step = 1i128 << w;
                if let Some(d) = (k as i128).checked_sub(l) {
                    if l.checked_add(d.rem_euclid(step)).map_or(true, |first| first > h) {
                        return self.bool(false);
                    }
                }
            }
        }
        if sext(terms[0].1, w) < 0 {
            for t in terms.iter_mut() {
                t.1 = 0u128.wrapping_sub(t.1) & m;
            }
            k = 0u128.wrapping_sub(k) & m;
        }
        let l = self.mk_lin(w, terms, 0);
        let kk = self.c(k, w);
        self.bin(Op::Eq, 1, l, kk)
    }
    /// Range test of `x ^ c` (plus a constant) against aligned bounds, as a range test of `x`.
    fn xor_range(&mut self, a: Ex, k: u128) -> Option<Ex> {
        let w = self.w(a);
        let full = mask(w);
        let n = self.node(a);
        let (x, add) = match n.op {
            Op::Xor => (a, 0),
            Op::Lin => {
                let t = &self.lins[n.a as usize];
                if t.len() != 1 || t[0].1 != 1 {
                    return None;
                }
                (t[0].0, n.k)
            }
            _ => return None,
        };
        let n = self.node(x);
        if n.op != Op::Xor {
            return None;
        }
        let c = self.konst(n.b)?;
        // x ^ c is in [lo, hi] (which may wrap around)
        let lo = 0u128.wrapping_sub(add) & full;
        let hi = lo.wrapping_add(k - 1) & full;
        // a bound B at which [0, B) is a union of blocks the xor maps onto themselves or one block
        let below = |s: &mut Self, b: u128| -> Option<Ex> {
            // (x ^ c) < b
            if b == 0 {
                return Some(s.bool(false));
            }
            let t = b.trailing_zeros();
            if c >> t == 0 {
                let bb = s.c(b, w);
                return Some(s.ult(n.a, bb));
            }
            if b.is_power_of_two() {
                let base = c & !(b - 1);
                let nb = s.c(0u128.wrapping_sub(base) & full, w);
                let d = s.add(n.a, nb);
                let bb = s.c(b, w);
                return Some(s.ult(d, bb));
            }
            None
        };
        let under_lo = below(self, lo)?;
        let upto_hi = if hi == full { self.bool(true) } else { below(self, hi + 1)? };
        let not_under = self.not(under_lo);
        Some(if lo <= hi { self.and(not_under, upto_hi) } else { self.or(not_under, upto_hi) })
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.bool(false);
        }
        let w = self.w(a);
        let (ma, mb) = (*self.m(a), *self.m(b));
        if ma.hi < mb.lo {
            return self.bool(true);
        }
        if ma.lo >= mb.hi {
            return self.bool(false);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some(k) = self.konst(b) {
            let n = self.node(a);
            if k == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if let Some(e) = self.xor_range(a, k) {
                return e;
            }
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                if k <= mask(iw) {
                    let kk = self.c(k, iw);
                    return self.ult(n.a, kk);
                }
            }
            if n.op == Op::Ite && (self.konst(n.b).is_some() || self.konst(n.c).is_some()) {
                let x = self.ult(n.b, b);
                let y = self.ult(n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        if let Some(k) = self.konst(a) {
            let n = self.node(b);
            if k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                if k <= mask(iw) {
                    let kk = self.c(k, iw);
                    return self.ult(kk, n.a);
                }
            }
            if n.op == Op::Ite && (self.konst(n.b).is_some() || self.konst(n.c).is_some()) {
                let x = self.ult(a, n.b);
                let y = self.ult(a, n.c);
                return self.ite(n.a, x, y);
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        if na.op == Op::Lin || nb.op == Op::Lin {
            if let (Some((mut ta, ka)), Some((tb, kb))) = (self.lin_int(a), self.lin_int(b)) {
                if let Some((l, h)) = self.diff_range(&mut ta, ka, tb, kb) {
                    if h < 0 {
                        return self.bool(true);
                    }
                    if l >= 0 {
                        return self.bool(false);
                    }
                }
            }
        }
        self.bin(Op::Ult, 1, a, b)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.bool(false);
        }
        let half = mask(w) >> 1;
        let (ma, mb) = (*self.m(a), *self.m(b));
        let (sa, sb) = (
            if ma.hi <= half { 0 } else if ma.lo > half { 1 } else { 2 },
            if mb.hi <= half { 0 } else if mb.lo > half { 1 } else { 2 },
        );
        if sa != 2 && sa == sb {
            return self.ult(a, b);
        }
        if sa == 0 && sb == 1 {
            return self.bool(false);
        }
        if sa == 1 && sb == 0 {
            return self.bool(true);
        }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            return self.bool(sext(x, w) < sext(y, w));
        }
        // both representable in a signed-exact linear form
        {
            if let (Some((mut ta, ka)), Some((tb, kb))) = (self.slin(a), self.slin(b)) {
                if let Some((l, h)) = self.diff_range(&mut ta, ka, tb, kb) {
                    if h < 0 {
                        return self.bool(true);
                    }
                    if l >= 0 {
                        return self.bool(false);
                    }
                }
            }
        }
        for (p, q, fl) in [(a, b, false), (b, a, true)] {
            if self.konst(q).is_some() {
                let n = self.node(p);
                if n.op == Op::Ite && (self.konst(n.b).is_some() || self.konst(n.c).is_some()) {
                    let (x, y) = if !fl {
                        (self.slt(n.b, q), self.slt(n.c, q))
                    } else {
                        (self.slt(q, n.b), self.slt(q, n.c))
                    };
                    return self.ite(n.a, x, y);
                }
            }
        }
        self.bin(Op::Slt, 1, a, b)
    }
    /// Linear form exact for the *signed* reading.
    pub fn slin(&self, e: Ex) -> Option<(Vec<(Ex, i128)>, i128)> {
        let n = self.node(e);
        let half = (mask(n.w) >> 1) as i128;
        match n.op {
            Op::Const => Some((vec![], sext(n.k, n.w))),
            Op::Lin => {
                let terms: Vec<(Ex, i128)> =
                    self.lins[n.a as usize].iter().map(|&(t, c)| (t, sext(c, n.w))).collect();
                let k = sext(n.k, n.w);
                let (l, h) = self.int_range(&terms, k)?;
                if l >= -half - 1 && h <= half {
                    Some((terms, k))
                } else {
                    None
                }
            }
            _ => {
                if i128::try_from(self.m(e).hi).map_or(false, |h| h <= half) {
                    Some((vec![(e, 1)], 0))
                } else {
                    None
                }
            }
        }
    }
    /// Compares floating-point numbers by their bits.
    pub fn fcmp(&mut self, p: &str, w: u16, x: Ex, y: Ex) -> Ex {
        let ar = self;
        if p == "true" || p == "false" {
            return ar.c((p == "true") as u128, 1);
        }
        let inf: u128 = if w == 32 { 0x7f800000 } else { 0x7ff0000000000000 };
        let (kinf, z) = (ar.c(inf, w - 1), ar.c(0, w - 1));
        let (mx, my) = (ar.extract(x, 0, w - 1), ar.extract(y, 0, w - 1));
        let (sx, sy) = (ar.extract(x, w as u32 - 1, 1), ar.extract(y, w as u32 - 1, 1));
        let (nx, ny) = (ar.ult(kinf, mx), ar.ult(kinf, my));
        let uno = ar.or(nx, ny);
        let (zx, zy) = (ar.eq(mx, z), ar.eq(my, z));
        let zero = ar.and(zx, zy);
        let same = ar.eq(x, y);
        let eq = ar.or(same, zero);
        // x < y: of different signs (and not both zero), or by the magnitudes
        let lt = |ar: &mut Arena, sx: Ex, sy: Ex, mx: Ex, my: Ex| {
            let (up, down) = (ar.ult(mx, my), ar.ult(my, mx));
            let nsy = ar.not(sy);
            let both = ar.ite(sx, down, up);
            let nz = ar.not(zero);
            let diff = ar.and(sx, nsy);
            let diff = ar.and(diff, nz);
            let eqs = ar.eq(sx, sy);
            ar.ite(eqs, both, diff)
        };
        let r = match &p[1..] {
            "eq" => eq,
            "ne" => ar.not(eq),
            "lt" => lt(ar, sx, sy, mx, my),
            "gt" => lt(ar, sy, sx, my, mx),
            "le" => {
                let g = lt(ar, sy, sx, my, mx);
                ar.not(g)
            }
            "ge" => {
                let l = lt(ar, sx, sy, mx, my);
                ar.not(l)
            }
            _ if p == "ord" => return ar.not(uno),
            _ if p == "uno" => return uno,
            _ => panic!("fcmp {}", p),
        };
        if p.starts_with('o') {
            let o = ar.not(uno);
            ar.and(o, r)
        } else {
            ar.or(uno, r)
        }
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.konst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let n = self.node(c);
        if n.op == Op::Not {
            return self.ite(n.a, b, a);
        }
        if self.w(a) == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        self.intern(Node { op: Op::Ite, w: self.w(a), a: c, b: a, c: b, k: 0 })
    }
    pub fn tab(&mut self, table: Rc<[u8]>, idx: Ex) -> Ex {
        if let Some(k) = self.konst(idx) {
            return self.c(table[k as usize] as u128, 8);
        }
        let (l, h) = (self.m(idx).lo as usize, self.m(idx).hi as usize);
        if h < table.len() && table[l..=h].iter().all(|&x| x == table[l]) {
            return self.c(table[l] as u128, 8);
        }
        let t = if let Some(&t) = self.tab_map.get(&table) {
            t
        } else {
            self.tabs.push(table.clone());
            self.tab_map.insert(table, self.tabs.len() as u32 - 1);
            self.tabs.len() as u32 - 1
        };
        self.intern(Node { op: Op::Tab, w: 8, a: idx, b: t, c: 0, k: 0 })
    }

    // ---- evaluation ----
    pub fn eval(&mut self, e: Ex, get: &dyn Fn(u32) -> u128) -> u128 {
        self.gen += 1;
        let n = self.nodes.len();
        if self.memo.len() < n {
            self.memo.resize(n + 1024, (0, 0));
        }
        self.ev(e, get)
    }
    fn ev(&mut self, e: Ex, get: &dyn Fn(u32) -> u128) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return get(n.a),
            _ => {}
        }
        if self.memo[e as usize].0 == self.gen {
            return self.memo[e as usize].1;
        }
        let w = n.w;
        let m = mask(w);
        let r = match n.op {
            Op::Lin => {
                let t = self.lins[n.a as usize].clone();
                let mut s = n.k;
                for &(x, c) in t.iter() {
                    s = s.wrapping_add(self.ev(x, get).wrapping_mul(c));
                }
                s
            }
            Op::Not => 1 - self.ev(n.a, get),
            Op::Extract => self.ev(n.a, get) >> n.b,
            Op::ZExt => self.ev(n.a, get),
            Op::SExt => sext(self.ev(n.a, get), self.nodes[n.a as usize].w) as u128,
            Op::Ite => {
                if self.ev(n.a, get) == 1 {
                    self.ev(n.b, get)
                } else {
                    self.ev(n.c, get)
                }
            }
            Op::Tab => {
                let i = self.ev(n.a, get) as usize;
                let t = &self.tabs[n.b as usize];
                *t.get(i).unwrap_or(&0) as u128
            }
            Op::Uf => {
                let al = self.arglists[n.a as usize].clone();
                let args: Vec<u128> = al.iter().map(|&x| self.ev(x, get)).collect();
                crate::fp::eval_uf(&self.ufs[n.b as usize], &args)
            }
            _ => {
                let a = self.ev(n.a, get);
                let b = self.ev(n.b, get);
                let iw = self.nodes[n.a as usize].w;
                match n.op {
                    Op::Mul => a.wrapping_mul(b),
                    Op::UDiv => if b == 0 { m } else { a / b },
                    Op::URem => if b == 0 { a } else { a % b },
                    Op::SDiv => {
                        if b == 0 { if sext(a, w) < 0 { 1 } else { m } } else { sext(a, w).wrapping_div(sext(b, w)) as u128 }
                    }
                    Op::SRem => if b == 0 { a } else { sext(a, w).wrapping_rem(sext(b, w)) as u128 },
                    Op::And => a & b,
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    Op::Shl => if b >= w as u128 { 0 } else { a << b },
                    Op::LShr => if b >= w as u128 { 0 } else { a >> b },
                    Op::AShr => (sext(a, w) >> b.min(w as u128 - 1)) as u128,
                    Op::Eq => (a == b) as u128,
                    Op::Ult => (a < b) as u128,
                    Op::Slt => (sext(a, iw) < sext(b, iw)) as u128,
                    _ => unreachable!(),
                }
            }
        } & m;
        self.memo[e as usize] = (self.gen, r);
        r
    }
    /// Truth table of a boolean expression over a single variable of at most 8 bits.
    pub fn table(&mut self, e: Ex) -> Dom {
        if let Some(t) = self.tables.get(&e) {
            return *t;
        }
        let v = self.support(e)[0];
        let vi = self.vars[v as usize];
        let mut d = [0u64; 4];
        for x in vi.lo as usize..=vi.hi as usize {
            if self.eval(e, &|_| x as u128) == 1 {
                d[x >> 6] |= 1 << (x & 63);
            }
        }
        self.tables.insert(e, d);
        d
    }
    /// Whether an expression has more than so many (distinct) parts.
    pub fn larger(&self, e: Ex, most: usize) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![e];
        let mut size = 0;
        while let Some(e) = todo.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = self.nodes[e as usize];
            // (divisions are hard)
            size += if matches!(n.op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { 25 } else { 1 };
            if size > most {
                return true;
            }
            match n.op {
                Op::Const | Op::Var => {}
                Op::Lin => todo.extend(self.lins[n.a as usize].iter().map(|x| x.0)),
                Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Tab => todo.push(n.a),
                Op::Ite => todo.extend([n.a, n.b, n.c]),
                Op::Uf => todo.extend(self.arglists[n.a as usize].iter().copied()),
                _ => todo.extend([n.a, n.b]),
            }
        }
        false
    }
    /// Whether a small variable is in a set of values.
    pub fn member(&mut self, v: u32, d: Dom) -> Ex {
        let (x, w) = (self.vars[v as usize], self.vars[v as usize].w);
        let e = self.intern(Node { op: Op::Var, w, a: v, b: 0, c: 0, k: 0 });
        let mut r = self.c(0, 1);
        let has = |k: u64| k < 256 && d[k as usize >> 6] >> (k & 63) & 1 == 1;
        let mut k = x.lo as u64;
        while k <= x.hi as u64 {
            if has(k) {
                let from = k;
                while k < x.hi as u64 && has(k + 1) {
                    k += 1
                }
                let (lo, hi) = (self.c(from as u128, w), self.c(k as u128, w));
                let (a, b) = (self.ult(e, lo), self.ult(hi, e));
                let out = self.or(a, b);
                let part = self.not(out);
                r = self.or(r, part);
            }
            k += 1;
        }
        r
    }
    pub fn var_dom(&self, v: u32) -> Dom {
        let vi = self.vars[v as usize];
        let mut d = [0u64; 4];
        for x in vi.lo as usize..=vi.hi as usize {
            d[x >> 6] |= 1 << (x & 63);
        }
        d
    }
}
