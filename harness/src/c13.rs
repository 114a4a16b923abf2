//! C13: all text sinks receive the same document.
use crate::sym::*;
use crate::writes::*;
use serdere::{TextWriter, Utf8Writer, Value};
use serdere_json::*;
use std::convert::Infallible;
use std::io;

/// Takes what it is given in arbitrary portions.
struct Portions {
    got: Vec<u8>,
    /// how much it takes at most
    cap: usize,
    /// how often it may take less, or be interrupted
    odd: usize,
}
impl io::Write for Portions {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.cap);
        if self.odd > 0 && n > 0 && choose(2) == 1 {
            self.odd -= 1;
            let k = choose(n);
            if k == 0 {
                cover(4);
                return Err(io::ErrorKind::Interrupted.into());
            }
            cover(5);
            n = k;
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Implements only what has to be implemented.
struct Chars(Vec<u32>);
impl TextWriter for Chars {
    type Error = Infallible;
    fn write_char(&mut self, ch: char) -> Result<(), Infallible> {
        self.0.push(ch as u32);
        Ok(())
    }
}
fn write<W: TextWriter>(w: W, p: &mut Plan, indent: Option<&'static str>, wrap: bool) -> W {
    p.again();
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, w);
    let r = if wrap { Value::with(&mut s, |v| wrapped(v, p).map(|_| ())) } else { raw(&mut s, p).map(|_| ()) };
    if r.is_err() {
        fail("a sink which takes everything does not fail")
    }
    s.close()
}
fn portions(odd: usize) -> Portions {
    Portions { got: Vec::new(), cap: [1, 2, 3, usize::MAX][choose(4)], odd }
}
fn encoded(chars: &[u32]) -> Vec<u8> {
    let mut v = Vec::new();
    for &c in chars {
        let mut b = [0; 4];
        match char::from_u32(c) {
            Some(c) => v.extend_from_slice(c.encode_utf8(&mut b).as_bytes()),
            None => fail("unreachable"),
        }
    }
    v
}
fn same(a: &[u8], b: &[u8]) {
    check(same_bytes(a, b), "every sink receives the same document");
}
/// Writes the same value by the functions of the crate.
fn whole<T>(x: &T, sink: usize, odd: usize)
where
    T: for<'a> serdere::Serialize<TextSerializer<&'a mut String>>
        + serdere::Serialize<TextSerializer<String>>
        + serdere::Serialize<TextSerializer<Utf8Writer<Portions>>>
        + for<'a> serdere::Serialize<TextSerializer<Utf8Writer<&'a mut Portions>>>
        + for<'a> serdere::Serialize<TextSerializer<&'a mut Chars>>
        + for<'a> serdere::Serialize<TextSerializer<&'a mut Utf8Writer<Portions>>>,
{
    let text = to_str(x);
    observe_bytes(text.as_bytes());
    match sink {
        0 => {
            let mut p = portions(odd);
            if to_writer(Utf8Writer::new(&mut p), x).is_err() {
                fail("a sink which takes everything does not fail")
            }
            same(&p.got, text.as_bytes());
        }
        1 => {
            let mut p = Utf8Writer::new(portions(odd));
            if to_writer(&mut p, x).is_err() {
                fail("a sink which takes everything does not fail")
            }
            same(&p.into_inner().got, text.as_bytes());
        }
        2 => {
            let mut c = Chars(Vec::new());
            let _ = to_writer(&mut c, x);
            same(&encoded(&c.0), text.as_bytes());
        }
        _ => {
            let mut s = String::from("x");
            let _ = to_writer(&mut s, x);
            check(s.len() > 0 && s.as_bytes()[0] == b'x', "what the sink holds already is kept");
            same(&s.as_bytes()[1..], text.as_bytes());
        }
    }
    cover(1);
}
#[derive(serdere::Serialize)]
enum Kind {
    #[serde(rename = "\u{e9}\"")]
    A,
    B,
}
#[derive(serdere::Serialize)]
struct Mixed {
    #[serde(rename = "k\u{20ac}\n")]
    kind: Kind,
    list: Vec<(char, Option<bool>)>,
    text: String,
    floats: [f64; 2],
}

entries! {
    // values, kinds of values, length of texts, wrappers first, sink, odd writes, few characters: a sequence of writes
    h_c13_writes => {
        let (wrap, sink, odd) = (param(3) == 1, param(4), param(5));
        let mut p = Plan::new(param(0), param(1), param(2));
        p.few = param(6) == 1;
        let indent = [None, Some("\t"), Some("\u{20ac} ")][choose(3)];
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, String::new());
        let r = if wrap { Value::with(&mut s, |v| wrapped(v, &mut p).map(|_| ())) } else { raw(&mut s, &mut p).map(|_| ()) };
        if r.is_err() { fail("writing to a string succeeds") }
        let text = s.close();
        observe_bytes(text.as_bytes());
        match sink {
            0 => {
                let w = write(Utf8Writer::new(portions(odd)), &mut p, indent, wrap);
                same(&w.into_inner().got, text.as_bytes());
            }
            1 => {
                let w = write(Chars(Vec::new()), &mut p, indent, wrap);
                same(&encoded(&w.0), text.as_bytes());
            }
            2 => {
                let mut t = String::from("x");
                write(&mut t, &mut p, indent, wrap);
                same(&t.as_bytes()[1..], text.as_bytes());
                let mut u = String::new();
                let mut r = &mut u;
                write(&mut r, &mut p, indent, wrap);
                same(u.as_bytes(), text.as_bytes());
                let mut c = Chars(Vec::new());
                let d: &mut dyn TextWriter<Error = Infallible> = &mut c;
                write(d, &mut p, indent, wrap);
                same(&encoded(&c.0), text.as_bytes());
            }
            _ => {
                let inner = portions(odd);
                let w = write(Utf8Writer::new(io::BufWriter::with_capacity([1, 4, 7][choose(3)], inner)), &mut p, indent, wrap);
                match w.into_inner().into_inner() {
                    Ok(p) => same(&p.got, text.as_bytes()),
                    Err(_) => fail("a sink which takes everything does not fail"),
                }
            }
        }
        cover(1);
    },
    // sink, odd writes, value, characters, few of them: whole values
    h_c13_values => {
        let (sink, odd) = (param(0), param(1));
        let few = param(4) == 1;
        let one = || if few { ['"', '\u{e9}', '\u{1f600}', '\u{1}'][choose(4)] } else { scalar() };
        let text = || -> String {
            let n = choose(param(3) + 1);
            (0..n).map(|_| one()).collect()
        };
        match param(2) {
            0 => whole(&text(), sink, odd),
            1 => whole(&(range(0, 9) as i32, -(range(0, 9) as i64), (flag(), u64::MAX)), sink, odd),
            2 => whole(&[0.1f64, 1e300, -0.0, 5e-324], sink, odd),
            3 => whole(&vec![Some(Some(one())), Some(None), None], sink, odd),
            4 => whole(&Mixed { kind: if choose(2) == 0 { Kind::A } else { Kind::B }, list: vec![(one(), Some(flag())), ('"', None)], text: text(), floats: [1.5, 0.0] }, sink, odd),
            _ => whole(&(), sink, odd),
        }
    },
    // sink, odd writes, length: one text, character by character and at once
    h_c13_direct => {
        let (odd, n) = (param(1), param(2));
        let mut chars = Vec::new();
        for _ in 0..choose(n + 1) { chars.push(scalar()) }
        let text: String = chars.iter().collect();
        let cut = choose(chars.len() + 1);
        let (a, b): (String, String) = (chars[..cut].iter().collect(), chars[cut..].iter().collect());
        fn put<W: TextWriter>(w: &mut W, a: &str, b: &str) {
            let mut r = Ok(());
            for c in a.chars() { r = r.and_then(|_| w.write_char(c)) }
            if r.and_then(|_| w.write_str(b)).is_err() { fail("a sink which takes everything does not fail") }
        }
        match param(0) {
            0 => {
                let mut w = Utf8Writer::new(portions(odd));
                put(&mut w, &a, &b);
                same(&w.into_inner().got, text.as_bytes())
            }
            1 => {
                let mut w = Chars(Vec::new());
                put(&mut w, &a, &b);
                same(&encoded(&w.0), text.as_bytes())
            }
            _ => {
                let mut w = String::new();
                put(&mut &mut w, &a, &b);
                same(w.as_bytes(), text.as_bytes())
            }
        }
        observe_bytes(text.as_bytes());
        cover(1);
    },
    // longest length, sink, odd writes: texts of every length, in one piece, in two, or preceded by others
    h_c13_lengths => {
        let (most, odd) = (param(0), param(2));
        let n = choose(most + 1);
        let c = scalar();
        let at = [0, n / 2, n][choose(3)];
        let mut text: String = (0..n).map(|i| if i == at { c } else { [b'x', b'\n', b'"'][i % 3] as char }).collect();
        if n == at { text.push(c) }
        let first = ["", "\u{e9}", "first, "][choose(3)];
        let whole = [first, &text[..]].concat();
        fn put<W: TextWriter>(w: &mut W, a: &str, b: &str) {
            if w.write_str(a).and_then(|_| w.write_str(b)).is_err() { fail("a sink which takes everything does not fail") }
        }
        match param(1) {
            0 => {
                let mut w = Utf8Writer::new(portions(odd));
                put(&mut w, first, &text);
                same(&w.into_inner().got, whole.as_bytes())
            }
            1 => {
                let mut w = Chars(Vec::new());
                put(&mut w, first, &text);
                same(&encoded(&w.0), whole.as_bytes())
            }
            2 => {
                let mut w = String::new();
                put(&mut &mut w, first, &text);
                same(w.as_bytes(), whole.as_bytes())
            }
            _ => {
                let mut w = Utf8Writer::new(io::BufWriter::with_capacity([16, 33][choose(2)], portions(odd)));
                put(&mut w, first, &text);
                match w.into_inner().into_inner() {
                    Ok(p) => same(&p.got, whole.as_bytes()),
                    Err(_) => fail("a sink which takes everything does not fail"),
                }
            }
        }
        observe(n as u64);
        cover(1);
    },
    // a long document: length, sink, odd writes
    h_c13_scale => {
        let n = param(0);
        let at = crate::docs::place_in(n);
        let c = scalar();
        let text: String = (0..n).map(|i| if i == at { c } else { ['x', '\u{e9}', '\n', '\u{1f600}', '\u{20ac}'][i % 5] }).collect();
        let x = (vec![7u8; n / 4], text);
        whole(&x, param(1), param(2));
    },
}
