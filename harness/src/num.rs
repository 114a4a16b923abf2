//! Number literals with symbolic digits, and what they denote.
use crate::sym::*;

pub struct Lit {
    pub text: Vec<u8>,
    pub negative: bool,
    /// all mantissa digits as one integer
    pub mantissa: u128,
    /// the literal is mantissa * 10^scale
    pub scale: i32,
}
/// Shape of the mantissa digits.
#[derive(Clone, Copy, PartialEq)]
pub enum Zeros {
    /// Every digit is free.
    Free,
    /// After the first free digit there is at most one run of zeros, the other digits are non-zero.
    OneRun,
    /// The first `n` digits are those of the given limit, then as OneRun.
    Limit(&'static str),
}
/// A literal with `int` digits before the point, `frac` after it (0: no point) and `exp` exponent
/// digits (0: none). Sign, exponent and pattern of zeros are split into cases, the digits stay
/// symbolic.
pub fn literal(int: usize, frac: usize, exp: usize, zeros: Zeros) -> Lit {
    let mut text = Vec::with_capacity(int + frac + exp + 6);
    let negative = choose(2) == 1;
    if negative {
        text.push(b'-');
    }
    let n = int + frac;
    let mut same = 0;
    let lim: &[u8] = match zeros {
        Zeros::Limit(l) => {
            let l = l.as_bytes();
            same = choose(n.min(l.len()) + 1);
            l
        }
        _ => &[],
    };
    let free = (same + 1).min(n);
    let (mut run, mut run_end) = (n, n);
    if zeros != Zeros::Free && free < n {
        run = free + choose(n - free + 1);
        run_end = if run < n { run + 1 + choose(n - run) } else { run };
    }
    let mut mantissa: u128 = 0;
    for i in 0..n {
        if i == int {
            text.push(b'.');
        }
        let d = if i < same {
            (lim[i] - b'0') as u64
        } else if i >= run && i < run_end {
            0
        } else if i == 0 && int > 1 {
            range(1, 9)
        } else if zeros != Zeros::Free && i >= free {
            range(1, 9)
        } else {
            range(0, 9)
        };
        mantissa = mantissa * 10 + d as u128;
        text.push(b'0' + d as u8);
    }
    let mut scale = -(frac as i32);
    if exp > 0 {
        text.push(if flag() { b'e' } else { b'E' });
        let sign = choose(3);
        if sign > 0 {
            text.push(if sign == 1 { b'+' } else { b'-' });
        }
        let mut e = 0i32;
        for _ in 0..exp {
            let d = choose(10);
            text.push(b'0' + d as u8);
            e = e * 10 + d as i32;
        }
        scale += if sign == 2 { -e } else { e };
    }
    Lit { text, negative, mantissa, scale }
}
/// The exact value, if it is an integer of at most 64 bits (or a little more).
pub fn value(l: &Lit) -> Option<(bool, u128)> {
    if l.mantissa == 0 {
        return Some((false, 0));
    }
    if l.scale >= 0 {
        if l.scale > 19 {
            return None; // more than any supported type holds
        }
        // no overflow: at most 18 + 19 digits
        let mut v = l.mantissa;
        for _ in 0..l.scale {
            v *= 10;
        }
        Some((l.negative, v))
    } else {
        if l.scale < -25 {
            return None; // a mantissa has at most 25 digits
        }
        let p = 10u128.pow((-l.scale) as u32);
        if l.mantissa % p != 0 {
            return None;
        }
        Some((l.negative, l.mantissa / p))
    }
}
pub const MAXES: [&str; 8] = [
    "127", "32767", "2147483647", "9223372036854775807", "255", "65535", "4294967295", "18446744073709551615",
];
pub const MINS: [&str; 8] = ["128", "32768", "2147483648", "9223372036854775808", "256", "65536", "4294967296", "18446744073709551616"];
pub fn mode(m: usize, t: usize) -> Zeros {
    match m {
        0 => Zeros::Free,
        1 => Zeros::OneRun,
        2 => Zeros::Limit(MAXES[t]),
        _ => Zeros::Limit(MINS[t]),
    }
}
