//! C18: floating-point numbers are read as the nearest value (as the standard library does).
use crate::any::ahead;
use crate::contracts::*;
use crate::num::*;
use crate::sym::*;
use serdere::{Deserialize, Serialize, TextReader, Utf8Reader, Value};
use serdere_json::*;

trait Num: Copy {
    fn bits(self) -> u64;
    fn std(text: &str) -> Self;
}
impl Num for f32 {
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    #[inline(never)]
    fn std(text: &str) -> Self {
        match text.parse() {
            Ok(x) => x,
            Err(_) => fail("a JSON number is a number"),
        }
    }
}
impl Num for f64 {
    fn bits(self) -> u64 {
        self.to_bits()
    }
    #[inline(never)]
    fn std(text: &str) -> Self {
        match text.parse() {
            Ok(x) => x,
            Err(_) => fail("a JSON number is a number"),
        }
    }
}
/// Reads a document which is (0) or contains (1, 2) a number.
fn get<T: Num, R: TextReader>(r: R, way: usize) -> Option<T>
where
    T: Deserialize<TextDeserializer<R>>,
    R::Position: Clone,
{
    match way {
        0 => from_reader_any::<T, R>(r),
        1 => from_reader_any::<Vec<T>, R>(r).map(|v| v[0]),
        _ => ahead::<T, R>(r),
    }
}
fn from_reader_any<T, R: TextReader>(r: R) -> Option<T>
where
    T: Deserialize<TextDeserializer<R>>,
    R::Position: Clone,
{
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r).ok()?;
    let v = Value::with(&mut d, |v| v.get::<T>()).ok()?;
    d.close().ok()?;
    Some(v)
}
trait Read: Num + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'a> Deserialize<TextDeserializer<&'a str>> + for<'a> Deserialize<TextDeserializer<Utf8Reader<&'a [u8]>>> {}
impl Read for f32 {}
impl Read for f64 {}
/// Reads a number in one of 6 ways.
fn read<T: Read>(text: &str, way: usize) -> Option<T> {
    let how = way % 3;
    let doc = match how {
        0 => text.to_string(),
        1 => ["[", text, " ]"].concat(),
        _ => ["{\"x\":", text, "}"].concat(),
    };
    if way < 3 {
        get::<T, _>(doc.as_str(), how)
    } else {
        get::<T, _>(Utf8Reader::new(doc.as_bytes()).ok()?, how)
    }
}
fn one<T: Read>(text: &str, way: usize) {
    let want = T::std(text).bits();
    match read::<T>(text, way) {
        Some(x) => {
            check(x.bits() == want, "a number is read as the nearest value");
            cover(1);
            observe(x.bits());
        }
        None => fail("a number is read"),
    }
}
/// Writes a number in one of 4 ways (the document has the form which `read` expects of `way`).
fn write<T: Read + Serialize<TextSerializer<String>>>(x: &T, way: usize) -> Option<String> {
    Some(match way % 3 {
        0 => to_str(x),
        1 => to_str(&vec![*x]),
        _ => {
            let mut s = TextSerializer::new(TextSerializerConfig { indent: Some("  ") }, String::new());
            Value::with(&mut s, |v| {
                let mut o = v.into_struct(None)?;
                o.field("x")?.put(x)?;
                o.close()
            })
            .ok()?;
            s.close()
        }
    })
}
fn read_back<T: Read>(doc: &str, way: usize) -> Option<T> {
    let how = way % 3;
    if way < 3 {
        get::<T, _>(doc, how)
    } else {
        get::<T, _>(Utf8Reader::new(doc.as_bytes()).ok()?, how)
    }
}
/// Checks that a number is read back as it was written.
fn same<T: Read + Serialize<TextSerializer<String>>>(x: T, way: usize, exact: bool) {
    let Some(doc) = write(&x, way) else { fail("a number is written") };
    match read_back::<T>(&doc, way) {
        Some(y) => {
            check(x.bits() == y.bits(), "a number is read back as it was written");
            cover(1);
            // (the real text may be shorter)
            if exact {
                observe_bytes(doc.as_bytes());
            }
        }
        None => fail("a number which was written is read back"),
    }
}
/// A number of `n` digits, neither the first nor the last of which is zero, as it is written when
/// the point is after digit `kk`; integers of up to `most` digits and fractions after less than
/// `least` zeros are written without an exponent.
fn shortest(n: usize, kk: i32, most: i32, least: i32) -> Vec<u8> {
    // (more than ten digits: with one run of zeros)
    let (mut run, mut end) = (n, n);
    if n > 10 {
        run = 1 + choose(n - 1);
        end = run + choose(n - run);
    }
    let d: Vec<u8> = (0..n)
        .map(|i| b'0' + if i >= run && i < end { 0 } else { range((i == 0 || i + 1 == n || n > 10) as u64, 9) as u8 })
        .collect();
    let mut t = Vec::with_capacity(30);
    if choose(2) == 1 {
        t.push(b'-')
    }
    let n = n as i32;
    if n <= kk && kk <= most {
        t.extend_from_slice(&d);
        for _ in n..kk {
            t.push(b'0')
        }
        t.extend_from_slice(b".0");
    } else if 0 < kk && kk <= most {
        t.extend_from_slice(&d[..kk as usize]);
        t.push(b'.');
        t.extend_from_slice(&d[kk as usize..]);
    } else if -least < kk && kk <= 0 {
        t.extend_from_slice(b"0.");
        for _ in kk..0 {
            t.push(b'0')
        }
        t.extend_from_slice(&d);
    } else {
        t.push(d[0]);
        if n > 1 {
            t.push(b'.');
            t.extend_from_slice(&d[1..]);
        }
        t.push(b'e');
        let mut e = kk - 1;
        if e < 0 {
            t.push(b'-');
            e = -e
        }
        for p in [100, 10, 1] {
            if e >= p || p == 1 {
                t.push(b'0' + (e / p % 10) as u8)
            }
        }
    }
    t
}
macro_rules! round {
    ($t:ident, $n:expr, $kk:expr, $most:expr, $least:expr, $exact:expr) => {{
        let t = shortest($n, $kk, $most, $least);
        let text = ascii_text(t);
        let x = <$t as Num>::std(&text);
        is_written(std::mem::size_of::<$t>() as u64 * 8, x.bits(), text.as_bytes());
        same(x, param(4), $n <= $exact);
    }};
}
const EXPONENTS: [&str; 24] = [
    "37", "38", "39", "45", "307", "308", "309", "324", "400", "65535", "65536", "2147483646", "2147483647", "2147483648", "2147483649",
    "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "127",
];
/// Numbers whose conversion is close to going wrong.
const HARD32: [u32; 12] = [0, 1, 2, 0x7fffff, 0x800000, 0x7f7fffff, 0x3f800000, 0x3dcccccd, 0x4b800000, 0x501502f9, 0x15ae43fd, 0x5a3d0000];
const HARD64: [u64; 14] = [
    0, 1, 2, 0xfffffffffffff, 0x10000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 0x3fb999999999999a, 0x4340000000000000, 0x4341c37937e08000, 0x44b52d02c7e14af6,
    0x3f1a36e2eb1c432d, 0x3e7ad7f29abcaf48, 0x5fd0000000000000,
];
entries! {
    // type, digits before the point (least, most), after it (least, most), exponent digits, mode, way
    h_c18_read => {
        contracts(true);
        let int = param(1) + choose(param(2) - param(1) + 1);
        let frac = param(3) + choose(param(4) - param(3) + 1);
        let l = literal(int, frac, param(5), mode(param(6), 0));
        let text = ascii_text(l.text);
        if param(0) == 0 { one::<f32>(&text, param(7)) } else { one::<f64>(&text, param(7)) }
    }
    // the same, with the real conversion
    h_c18_real => {
        let int = param(1) + choose(param(2) - param(1) + 1);
        let frac = param(3) + choose(param(4) - param(3) + 1);
        let l = literal(int, frac, param(5), mode(param(6), 0));
        let text = ascii_text(l.text);
        if param(0) == 0 { one::<f32>(&text, param(7)) } else { one::<f64>(&text, param(7)) }
    }
    // exponents far out of range: type, way
    h_c18_exp => {
        contracts(true);
        let l = literal(1 + choose(2), choose(2), 0, Zeros::Free);
        let mut text = l.text.clone();
        text.push(b'e');
        let minus = choose(3);
        if minus > 0 {
            text.push(if minus == 1 { b'-' } else { b'+' });
        }
        for _ in 0..choose(3) {
            text.push(b'0');
        }
        text.extend_from_slice(EXPONENTS[choose(EXPONENTS.len())].as_bytes());
        let text = ascii_text(text);
        if param(0) == 0 { one::<f32>(&text, param(1)) } else { one::<f64>(&text, param(1)) }
    }
    // many digits, most of them fixed: type, least and most digits, way
    h_c18_long => {
        contracts(true);
        let n = param(1) + choose(param(2) - param(1) + 1);
        let point = choose(n + 1);
        let mut text = Vec::with_capacity(n + 10);
        if choose(2) == 1 {
            text.push(b'-')
        }
        for i in 0..n {
            if i == point {
                if i == 0 { text.push(b'0') }
                text.push(b'.')
            }
            text.push(if i < 2 { b'0' + range((i == 0) as u64, 9) as u8 } else { b'0' + (i * 7 % 10) as u8 });
        }
        match choose(3) {
            0 => {}
            1 => text.extend_from_slice(b"E-5"),
            _ => text.extend_from_slice(b"e12"),
        }
        let text = ascii_text(text);
        if param(0) == 0 { one::<f32>(&text, param(3)) } else { one::<f64>(&text, param(3)) }
    }
    // numbers of so many digits, with the point at one of a range of places (both offset by 400) are
    // read back: type, digits, least and greatest place, way
    h_c18_back => {
        contracts(true);
        let kk = param(2) as i32 + choose(param(3) - param(2) + 1) as i32 - 400;
        if param(0) == 0 { round!(f32, param(1), kk, 13, 6, 6) } else { round!(f64, param(1), kk, 16, 5, 15) }
    }
    // numbers around hard ones are read back: type, arbitrary bits, way
    h_c18_bits => {
        let low = range(0, (1 << param(1)) - 1);
        let sign = choose(2) as u64;
        if param(0) == 0 {
            let x = f32::from_bits(HARD32[choose(HARD32.len())] ^ low as u32 | (sign as u32) << 31);
            same(x, param(2), true)
        } else {
            let x = f64::from_bits(HARD64[choose(HARD64.len())] ^ low | sign << 63);
            same(x, param(2), true)
        }
    },
    // many zeros, and an exponent which makes up for them: type, zeros, way
    h_c18_zeros => {
        contracts(true);
        let n = param(1) + choose(4);
        let mut text = Vec::with_capacity(n + 20);
        if choose(2) == 1 {
            text.push(b'-')
        }
        let d = |least| 48 + range(least, 9) as u8;
        match choose(4) {
            0 => {
                text.push(d(1));
                for _ in 0..n { text.push(b'0') }
                if choose(2) == 1 { text.extend_from_slice(&[b'.', d(0), d(0)]) }
                text.extend_from_slice(b"E-");
                crate::docs::number(&mut text, n - [0, 3, 20][choose(3)]);
            }
            1 => {
                text.extend_from_slice(b"0.");
                for _ in 0..n { text.push(b'0') }
                text.extend_from_slice(&[d(1), d(0)]);
                text.extend_from_slice(if choose(2) == 0 { b"e+" } else { b"e00" });
                crate::docs::number(&mut text, n + [0, 1, 20][choose(3)] - 10);
            }
            2 => {
                text.extend_from_slice(&[d(1), b'.', d(0)]);
                for _ in 0..n { text.push(b'0') }
                text.extend_from_slice(&[b'e', b'-', d(0)]);
            }
            _ => {
                text.extend_from_slice(&[d(1), b'e']);
                for _ in 0..n { text.push(b'0') }
                text.push(d(0));
            }
        }
        let text = ascii_text(text);
        if param(0) == 0 { one::<f32>(&text, param(2)) } else { one::<f64>(&text, param(2)) }
    }
    // many digits, with the real conversion; one of them arbitrary: type, least and most digits, way
    h_c18_digits => {
        let n = param(1) + choose(param(2) - param(1) + 1);
        let point = crate::docs::place_in(n);
        let at = crate::docs::place_in(n);
        let zeros = choose(2) == 1;
        let d = 48 + concretize(range(0, 9)) as u8;
        let mut text = Vec::with_capacity(n + 10);
        for i in 0..n {
            if i == point {
                if i == 0 { text.push(b'0') }
                text.push(b'.')
            }
            text.push(if i == at && (i > 0 || d != 48) { d } else if i == 0 { b'4' } else if zeros { b'0' } else { b'0' + (i * 7 % 10) as u8 });
        }
        match choose(3) {
            0 => {}
            1 => {
                text.extend_from_slice(b"E-");
                crate::docs::number(&mut text, n)
            }
            _ => text.extend_from_slice(b"e12"),
        }
        let text = ascii_text(text);
        if param(0) == 0 { one::<f32>(&text, param(3)) } else { one::<f64>(&text, param(3)) }
    },
}
