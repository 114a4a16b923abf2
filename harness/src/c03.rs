//! C03: integer parsing is exact or fails.
use crate::num::*;
use crate::sym::*;
use serdere_json::from_str;

macro_rules! one {
    ($t:ty, $want:expr, $r:expr) => {{
        let max: u128 = <$t>::MAX as u128;
        let min_mag: u128 = if <$t>::MIN != 0 { max + 1 } else { 0 };
        let want: Option<(bool, u64)> = match $want {
            // (splits the execution)
            Some((neg, m)) if concretize((m <= if neg { min_mag } else { max }) as u64) == 1 => Some((neg, m as u64)),
            _ => None,
        };
        match ($r, want) {
            (Ok(got), Some((neg, m))) => {
                cover(1);
                same(got as i64 as u64, neg, m);
                observe(got as u64);
            }
            (Err(_), None) => {
                cover(2);
                observe(1 << 40)
            }
            (Ok(_), None) => fail("a number that is not an integer of the type is rejected"),
            (Err(_), Some(_)) => fail("a representable integer is read"),
        }
    }};
}
/// `got` are the bits of the result, `m` the magnitude.
#[inline(never)]
fn same(got: u64, neg: bool, m: u64) {
    let want = if neg { m.wrapping_neg() } else { m };
    check(got == want, "an integer is read exactly");
}
fn read(t: usize, want: Option<(bool, u128)>, text: &str) {
    match t {
        0 => one!(i8, want, from_str::<i8>(text)),
        1 => one!(i16, want, from_str::<i16>(text)),
        2 => one!(i32, want, from_str::<i32>(text)),
        3 => one!(i64, want, from_str::<i64>(text)),
        4 => one!(u8, want, from_str::<u8>(text)),
        5 => one!(u16, want, from_str::<u16>(text)),
        6 => one!(u32, want, from_str::<u32>(text)),
        _ => one!(u64, want, from_str::<u64>(text)),
    }
}
/// Exponents around the places where counters overflow, and beyond.
const EXPONENTS: [&str; 18] = [
    "127", "128", "129", "255", "256", "257", "32767", "32768", "65535", "65536", "2147483646", "2147483647", "2147483648",
    "4294967295", "4294967296", "9223372036854775808", "18446744073709551616", "99999999999999999999999999",
];
entries! {
    // type, digits before the point (least, most), after it (least, most), exponent digits, mode
    h_c03_int => {
        let t = param(0);
        let int = param(1) + choose(param(2) - param(1) + 1);
        let frac = param(3) + choose(param(4) - param(3) + 1);
        let l = literal(int, frac, param(5), mode(param(6), t));
        let want = value(&l);
        let text = ascii_text(l.text);
        read(t, want, &text)
    },
    // exponents far out of range, and with leading zeros
    h_c03_exp => {
        let t = param(0);
        let l = literal(1 + choose(2), choose(2), 0, Zeros::Free);
        let mut text = l.text.clone();
        text.push(b'e');
        let minus = choose(3);
        if minus > 0 {
            text.push(if minus == 1 { b'-' } else { b'+' });
        }
        let zeros = choose(3);
        for _ in 0..zeros {
            text.push(b'0');
        }
        text.extend_from_slice(EXPONENTS[choose(EXPONENTS.len())].as_bytes());
        let want = if l.mantissa == 0 { Some((false, 0)) } else { None };
        read(t, want, &ascii_text(text))
    },
    // many digits: 1000..0 and 0.00..1 with compensating exponents
    h_c03_long => {
        let t = param(0);
        let n = 1 + choose(param(1));
        let d = range(1, 9);
        let mut text = Vec::with_capacity(100);
        if choose(2) == 0 {
            text.push(b'0' + d as u8);
            for _ in 0..n { text.push(b'0') }
            text.extend_from_slice(b"e-");
        } else {
            text.extend_from_slice(b"0.");
            for _ in 1..n { text.push(b'0') }
            text.push(b'0' + d as u8);
            text.extend_from_slice(b"e+");
        }
        text.push(b'0' + (n / 10) as u8);
        text.push(b'0' + (n % 10) as u8);
        read(t, Some((false, d as u128)), &ascii_text(text))
    }
}
