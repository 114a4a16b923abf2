//! Self-test of the expression simplifier: random expressions are built through the simplifying
//! constructors and, in parallel, evaluated directly; both have to agree on random assignments,
//! and the derived ranges have to contain the values.
use crate::expr::*;
use crate::ir::{mask, sext};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

const SAMPLES: usize = 12;

pub fn run(rounds: u64, seed: u64) {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut total = 0u64;
    for _ in 0..rounds {
        let mut ar = Arena::new();
        // (expression, its value under each sample assignment)
        let mut pool: Vec<(Ex, [u128; SAMPLES])> = vec![];
        let mut asg: Vec<[u128; SAMPLES]> = vec![];
        for i in 0..4 {
            let w = [8u16, 8, 8, 16, 32, 64][r.below(6) as usize];
            let (lo, hi) = if w == 8 {
                let a = r.below(256);
                let b = r.below(256);
                (a.min(b), a.max(b))
            } else {
                let m = mask(w) as u64;
                let a = r.next() & m >> r.below(w as u64);
                let b = r.next() & m >> r.below(w as u64);
                (a.min(b), a.max(b))
            };
            let (v, e) = ar.var(VarInfo { w, seq: i, lo: lo as u128, hi: hi as u128 });
            let mut vals = [0u128; SAMPLES];
            for (k, x) in vals.iter_mut().enumerate() {
                *x = match k {
                    0 => lo as u128,
                    1 => hi as u128,
                    _ => lo as u128 + (r.next() as u128) % ((hi - lo) as u128 + 1),
                };
            }
            assert_eq!(v as usize, asg.len());
            asg.push(vals);
            pool.push((e, vals));
        }
        for _ in 0..40 {
            let w0 = [1u16, 8, 16, 32, 64, 64][r.below(6) as usize];
            let pick = |r: &mut Rng, ar: &mut Arena, pool: &Vec<(Ex, [u128; SAMPLES])>, w: u16| -> (Ex, [u128; SAMPLES]) {
                let fit: Vec<_> = pool.iter().filter(|p| ar.w(p.0) == w).collect();
                if fit.is_empty() || r.below(4) == 0 {
                    let k = match r.below(5) {
                        0 => r.next() as u128,
                        1 => 1u128 << r.below(w as u64),
                        2 => (1u128 << r.below(w as u64)).wrapping_sub(1),
                        3 => r.below(12) as u128,
                        _ => 0u128.wrapping_sub(r.below(70) as u128),
                    } & mask(w);
                    return (ar.c(k, w), [k; SAMPLES]);
                }
                *fit[r.below(fit.len() as u64) as usize]
            };
            let map2 = |a: &[u128; SAMPLES], b: &[u128; SAMPLES], f: &dyn Fn(u128, u128) -> u128, w: u16| {
                let mut o = [0; SAMPLES];
                for i in 0..SAMPLES {
                    o[i] = f(a[i], b[i]) & mask(w);
                }
                o
            };
            let (a, av) = pick(&mut r, &mut ar, &pool, w0);
            let (b, bv) = pick(&mut r, &mut ar, &pool, w0);
            let op = r.below(20);
            let w = w0;
            let item = match op {
                0 | 1 => (ar.add(a, b), map2(&av, &bv, &|x, y| x.wrapping_add(y), w)),
                2 => (ar.sub(a, b), map2(&av, &bv, &|x, y| x.wrapping_sub(y), w)),
                3 => (ar.mul(a, b), map2(&av, &bv, &|x, y| x.wrapping_mul(y), w)),
                4 | 5 => (ar.and(a, b), map2(&av, &bv, &|x, y| x & y, w)),
                6 => (ar.or(a, b), map2(&av, &bv, &|x, y| x | y, w)),
                7 => (ar.xor(a, b), map2(&av, &bv, &|x, y| x ^ y, w)),
                8 => (ar.eq(a, b), map2(&av, &bv, &|x, y| (x == y) as u128, 1)),
                9 | 10 => (ar.ult(a, b), map2(&av, &bv, &|x, y| (x < y) as u128, 1)),
                11 => (ar.slt(a, b), map2(&av, &bv, &|x, y| (sext(x, w) < sext(y, w)) as u128, 1)),
                12 | 13 => {
                    let to = [16u16, 32, 64, 128][r.below(4) as usize];
                    if to <= w {
                        continue;
                    }
                    if op == 12 {
                        (ar.zext(a, to), av)
                    } else {
                        (ar.sext(a, to), map2(&av, &bv, &|x, _| sext(x, w) as u128, to))
                    }
                }
                14 => {
                    let len = [1u16, 6, 8, 16, 32][r.below(5) as usize];
                    if len >= w {
                        continue;
                    }
                    let lo = r.below((w - len) as u64 + 1) as u32;
                    (ar.extract(a, lo, len), map2(&av, &bv, &|x, _| x >> lo, len))
                }
                15 => {
                    let (c, cv) = pick(&mut r, &mut ar, &pool, 1);
                    let mut o = [0; SAMPLES];
                    for i in 0..SAMPLES {
                        o[i] = if cv[i] == 1 { av[i] } else { bv[i] };
                    }
                    (ar.ite(c, a, b), o)
                }
                16 | 17 => {
                    let s = r.below(w as u64) as u128;
                    let k = ar.c(s, w);
                    match r.below(3) {
                        0 => (ar.shl(a, k), map2(&av, &bv, &|x, _| x << s, w)),
                        1 => (ar.lshr(a, k), map2(&av, &bv, &|x, _| x >> s, w)),
                        _ => (ar.ashr(a, k), map2(&av, &bv, &|x, _| (sext(x, w) >> s) as u128, w)),
                    }
                }
                18 => {
                    let d = 1 + r.below(1000) as u128;
                    if d > mask(w) || w == 1 {
                        continue;
                    }
                    let k = ar.c(d, w);
                    if r.below(2) == 0 {
                        (ar.udiv(a, k), map2(&av, &bv, &|x, _| x / d, w))
                    } else {
                        (ar.urem(a, k), map2(&av, &bv, &|x, _| x % d, w))
                    }
                }
                _ => {
                    let n = r.below(3) as i64 + 1;
                    let d = [10, 100, 7][n as usize - 1] as u128;
                    if w < 16 {
                        continue;
                    }
                    let k = ar.c(d, w);
                    if r.below(2) == 0 {
                        (ar.sdiv(a, k), map2(&av, &bv, &|x, _| (sext(x, w) / d as i128) as u128, w))
                    } else {
                        (ar.srem(a, k), map2(&av, &bv, &|x, _| (sext(x, w) % d as i128) as u128, w))
                    }
                }
            };
            let (e, vals) = if (w == 32 || w == 64) && r.below(6) == 0 {
                let p = ["oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une"][r.below(14) as usize];
                // (numbers which matter)
                let top = w as u32 - 1;
                let inf = if w == 32 { 0x7f800000u128 } else { 0x7ff0000000000000 };
                let k = [0, 1 << top, inf, inf | 1 << top, inf + 1, 1, inf - 1][r.below(7) as usize];
                let kc = ar.c(k, w);
                let (x, xv) = match r.below(3) {
                    0 => (a, av),
                    1 => (ar.or(a, kc), av.map(|x| x | k)),
                    _ => (ar.xor(a, kc), av.map(|x| x ^ k)),
                };
                let (y, yv) = if r.below(2) == 0 { (b, bv) } else { (kc, [k; SAMPLES]) };
                let name = format!("fcmp.{}.{}", p, w);
                let mut v = [0; SAMPLES];
                for i in 0..SAMPLES {
                    v[i] = crate::fp::eval_uf(&name, &[xv[i], yv[i]]);
                }
                (ar.fcmp(p, w, x, y), v)
            } else {
                item
            };
            for i in 0..SAMPLES {
                let got = ar.eval(e, &|v| asg[v as usize][i]);
                let m = *ar.m(e);
                if got != vals[i] || got < m.lo || got > m.hi || got & !m.ones != 0 {
                    eprintln!(
                        "self-test: op {} of {} and {} gives {} = {} (range {}..{} bits {:x}), expected {}",
                        op,
                        ar.show(a, 6),
                        ar.show(b, 6),
                        ar.show(e, 6),
                        got,
                        m.lo,
                        m.hi,
                        m.ones,
                        vals[i]
                    );
                    std::process::exit(3);
                }
                total += 1;
            }
            pool.push((e, vals));
        }
    }
    println!("self-test: {} evaluations agree", total);
}
