//! Contracts of the floating-point conversions which serdere leaves to its dependencies. The
//! symbolic executor calls these functions in place of the real ones (where a harness turns them
//! on); the native build never does.
//!
//! - `<f32 as FromStr>::from_str` (and f64) is a function of the decimal value alone.
//! - `ryu` writes the text which the harness expects, when given the bits it expects.
use crate::sym::*;
use std::num::ParseFloatError;

enum Num {
    Zero(bool),
    /// sign, digits (neither the first nor the last is zero), exponent
    Some(bool, Vec<u8>, i64),
}
/// Understands a number (if it is written in the usual way).
fn understand(s: &[u8]) -> Option<Num> {
    let mut s = s.iter().copied().peekable();
    let neg = s.next_if_eq(&b'-').is_some();
    let mut digits = Vec::with_capacity(40);
    let mut any = false;
    let mut exp = 0i64;
    while let Some(b) = s.next_if(|b| *b >= b'0' && *b <= b'9') {
        any = true;
        if b != b'0' || !digits.is_empty() {
            digits.push(b - b'0')
        }
    }
    if s.next_if_eq(&b'.').is_some() {
        while let Some(b) = s.next_if(|b| *b >= b'0' && *b <= b'9') {
            any = true;
            exp -= 1;
            if b != b'0' || !digits.is_empty() {
                digits.push(b - b'0')
            }
        }
    }
    if !any {
        return None;
    }
    if s.next_if(|b| *b | 32 == b'e').is_some() {
        let minus = s.next_if_eq(&b'-').is_some();
        if !minus {
            s.next_if_eq(&b'+');
        }
        let mut e = 0i64;
        s.peek()?;
        while let Some(b) = s.next_if(|b| *b >= b'0' && *b <= b'9') {
            e = (e * 10 + (b - b'0') as i64).min(1 << 40);
        }
        exp += if minus { -e } else { e };
    }
    if s.peek().is_some() {
        return None;
    }
    while let Some(b'\0') = digits.last() {
        digits.pop();
        exp += 1;
    }
    let exp = concretize(exp as u64) as i64;
    Some(if digits.is_empty() { Num::Zero(neg) } else { Num::Some(neg, digits, exp) })
}
/// The bits of a number (if it has not too many digits).
fn bits(ty: u64, s: &str) -> Option<u64> {
    let (neg, b) = match understand(s.as_bytes())? {
        Num::Zero(neg) => (neg, 0),
        Num::Some(neg, d, exp) => {
            let size = d.len() as i64 + exp;
            if size > 400 {
                (neg, if ty == 32 { f32::INFINITY.to_bits() as u64 } else { f64::INFINITY.to_bits() })
            } else if size < -400 {
                (neg, 0)
            } else if d.len() > 38 {
                return None;
            } else {
                let (a, b) = d.split_at(d.len().min(19));
                let f = |d: &[u8]| d.iter().fold(0u64, |x, d| x * 10 + *d as u64);
                (neg, decimal(ty, f(a), f(b), b.len() as u64, exp, size))
            }
        }
    };
    Some(b | (neg as u64) << (ty - 1))
}
#[no_mangle]
#[inline(never)]
pub fn contract_parse32(s: &str) -> Result<f32, ParseFloatError> {
    match bits(32, s) {
        Some(b) => Ok(f32::from_bits(b as u32)),
        None => {
            contracts(false);
            let r = s.parse();
            contracts(true);
            r
        }
    }
}
#[no_mangle]
#[inline(never)]
pub fn contract_parse64(s: &str) -> Result<f64, ParseFloatError> {
    match bits(64, s) {
        Some(b) => Ok(f64::from_bits(b)),
        None => {
            contracts(false);
            let r = s.parse();
            contracts(true);
            r
        }
    }
}
/// How the given number is written.
static mut WRITTEN: Option<(u64, u64, Vec<u8>)> = None;
#[inline(never)]
pub fn is_written(ty: u64, bits: u64, text: &[u8]) {
    unsafe { *(&raw mut WRITTEN) = Some((ty, bits, text.to_vec())) }
}
unsafe fn format(ty: u64, bits: u64, out: *mut u8) -> Option<usize> {
    match &*(&raw const WRITTEN) {
        Some((t, b, text)) if *t == ty && concretize((*b == bits) as u64) == 1 => {
            std::ptr::copy_nonoverlapping(text.as_ptr(), out, text.len());
            Some(text.len())
        }
        _ => None,
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe fn contract_format32(x: f32, out: *mut u8) -> usize {
    match format(32, x.to_bits() as u64, out) {
        Some(n) => n,
        None => {
            contracts(false);
            let n = ryu::raw::format32(f32::from_bits(sample(x.to_bits() as u64) as u32), out);
            contracts(true);
            n
        }
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe fn contract_format64(x: f64, out: *mut u8) -> usize {
    match format(64, x.to_bits(), out) {
        Some(n) => n,
        None => {
            contracts(false);
            let n = ryu::raw::format64(f64::from_bits(sample(x.to_bits())), out);
            contracts(true);
            n
        }
    }
}
