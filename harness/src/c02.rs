//! C02: integers are written canonically and round-trip.
//!
//! An arbitrary value of a type is built from its decimal digits: their number is chosen, and
//! whether (and up to which digit) they agree with the digits of the largest value. That covers
//! every value of the type, and the digits are what the text has to consist of.
use crate::sym::*;
use serdere_json::{from_str, to_str};

/// An arbitrary integer of magnitude at most `max`, with its canonical digits. If `one_run`, the
/// digits that are free (not those shared with `max`) contain at most one run of zeros.
pub fn decimal(max: u64, one_run: bool) -> (u64, Vec<u8>) {
    let mut lim = Vec::new();
    let mut m = max;
    loop {
        lim.insert(0, (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    let len = choose(lim.len()) + 1;
    let mut digits: Vec<u8> = Vec::with_capacity(len);
    let mut value: u64 = 0;
    // With all digits of the limit: the first `same` of them are those of the limit, and the
    // next one is less than in the limit.
    let same = if len == lim.len() { choose(len + 1) } else { 0 };
    let free = if len == lim.len() { (same + 1).min(len) } else { 1.min(len) };
    let (mut run, mut run_end) = (0, 0);
    if one_run && free < len {
        run = free + choose(len - free + 1);
        run_end = if run < len { run + 1 + choose(len - run) } else { run };
    }
    for i in 0..len {
        let mut lo = if i == 0 && len > 1 { 1 } else { 0 };
        if one_run && i >= free {
            if i >= run && i < run_end {
                digits.push(b'0');
                value = value * 10;
                continue;
            }
            lo = 1;
        }
        let d = if len < lim.len() || i > same {
            range(lo, 9)
        } else if i < same {
            lim[i] as u64
        } else {
            assume(lim[i] as u64 > lo);
            range(lo, lim[i] as u64 - 1)
        };
        value = value * 10 + d;
        digits.push(b'0' + d as u8);
    }
    (value, digits)
}
/// Asserts that `text` consists of exactly the given digits, after a minus sign if `negative`.
fn check_text(text: &[u8], negative: bool, digits: &[u8]) {
    let skip = negative as usize;
    check(text.len() == skip + digits.len(), "the text has the canonical length");
    check(!negative || text[0] == b'-', "a negative integer starts with a minus sign");
    for i in 0..digits.len() {
        check(text[skip + i] == digits[i], "the text consists of the digits of the value");
    }
}
fn want_text(negative: bool, digits: &[u8]) -> String {
    let mut v = Vec::with_capacity(24);
    if negative {
        v.push(b'-');
    }
    v.extend_from_slice(digits);
    ascii_text(v)
}
macro_rules! rt {
    ($t:ty, $nz:ty) => {{
        let negative = <$t>::MIN != 0 && choose(2) == 1;
        let (m, digits) = decimal(<$t>::MAX as u64 + negative as u64, param(1) == 1);
        if negative {
            assume(m != 0);
        }
        let x: $t = if negative { (m as $t).wrapping_neg() } else { m as $t };
        check_text(to_str(&x).as_bytes(), negative, &digits);
        // The text written is equal to this one
        let text = want_text(negative, &digits);
        match from_str::<$t>(&text) {
            Ok(y) => check(x == y, "reading the written text gives the same value"),
            Err(_) => fail("the written text is read"),
        }
        let r = from_str::<$nz>(&text);
        match <$nz>::new(x) {
            Some(n) => {
                cover(1);
                check_text(to_str(&n).as_bytes(), negative, &digits);
                match r {
                    Ok(y) => check(y == n, "a non-zero integer reads back equal"),
                    Err(_) => fail("a non-zero integer is read"),
                }
            }
            None => {
                cover(2);
                check(r.is_err(), "zero is rejected by a non-zero type");
            }
        }
        if negative {
            cover(3);
        }
        if m == <$t>::MAX as u64 + negative as u64 {
            cover(4);
        }
        observe(x as u64);
        observe_bytes(&digits);
    }};
}
entries! {
    h_c02_rt => {
        use std::num::*;
        match param(0) {
            0 => rt!(i8, NonZeroI8),
            1 => rt!(i16, NonZeroI16),
            2 => rt!(i32, NonZeroI32),
            3 => rt!(i64, NonZeroI64),
            4 => rt!(u8, NonZeroU8),
            5 => rt!(u16, NonZeroU16),
            6 => rt!(u32, NonZeroU32),
            _ => rt!(u64, NonZeroU64),
        }
    }
}
