//! C21: a failing sink stops the writer and reports its error.
use crate::sym::*;
use crate::writes::*;
use serdere::{TextWriter, Utf8Writer, Value};
use serdere_json::*;
use std::io;

/// The error of a sink (its code is arbitrary).
#[derive(Debug)]
struct Broken(u64);
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("broken")
    }
}
impl std::error::Error for Broken {}

/// Fails at a given write, and must not be written to afterwards.
struct Sink {
    got: Vec<u32>,
    /// the number of writes that succeed
    left: u64,
    writes: u64,
    code: u64,
    failed: bool,
}
impl Sink {
    fn new(left: u64, code: u64) -> Self {
        Sink { got: Vec::new(), left, writes: 0, code, failed: false }
    }
    fn step(&mut self) -> Result<(), Broken> {
        check(!self.failed, "nothing is written after a failure");
        self.writes += 1;
        if self.left == 0 {
            self.failed = true;
            return Err(Broken(self.code));
        }
        self.left -= 1;
        Ok(())
    }
}
impl TextWriter for Sink {
    type Error = Broken;
    fn write_char(&mut self, ch: char) -> Result<(), Broken> {
        self.step()?;
        self.got.push(ch as u32);
        Ok(())
    }
    fn write_str(&mut self, str: &str) -> Result<(), Broken> {
        self.step()?;
        self.got.extend(str.chars().map(|c| c as u32));
        Ok(())
    }
}
/// The same with single characters only.
struct Single(Sink);
impl TextWriter for Single {
    type Error = Broken;
    fn write_char(&mut self, ch: char) -> Result<(), Broken> {
        self.0.write_char(ch)
    }
}
/// Takes a number of bytes, then fails.
struct Bytes {
    got: Vec<u8>,
    left: usize,
    cap: usize,
    how: How,
    failed: bool,
}
/// Which error a stream fails with: 0 no progress, 1 some kind of error, 2 an error of the system.
#[derive(Clone, Copy)]
struct How(usize, u64);
const ERRORS: [io::ErrorKind; 12] = [
    io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof, io::ErrorKind::WriteZero, io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput, io::ErrorKind::Other, io::ErrorKind::NotFound, io::ErrorKind::ConnectionReset, io::ErrorKind::Unsupported, io::ErrorKind::OutOfMemory,
];
fn how(all: bool) -> How {
    match choose(3) {
        0 => How(0, 0),
        1 => How(1, choose(if all { ERRORS.len() } else { 1 }) as u64),
        _ => {
            let code = range(1, 133);
            // (EINTR is no failure)
            assume(code != 4);
            How(2, code)
        }
    }
}
impl io::Write for Bytes {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        check(!self.failed, "nothing is written after a failure");
        if buf.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            self.failed = true;
            return match self.how.0 {
                0 => Ok(0),
                1 => Err(ERRORS[self.how.1 as usize].into()),
                _ => Err(io::Error::from_raw_os_error(self.how.1 as i32)),
            };
        }
        let n = buf.len().min(self.left).min(self.cap);
        self.got.extend_from_slice(&buf[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn prefix<T: Copy + PartialEq>(a: &[T], of: &[T]) -> bool {
    let mut ok = a.len() <= of.len();
    for i in 0..a.len().min(of.len()) {
        ok &= a[i] == of[i];
    }
    ok
}
fn write<W: TextWriter>(w: W, p: &mut Plan, indent: Option<&'static str>, wrap: bool) -> (Result<(), W::Error>, TextSerializer<W>) {
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, w);
    let r = if wrap { Value::with(&mut s, |v| wrapped(v, p).map(|_| ())) } else { raw(&mut s, p).map(|_| ()) };
    (r, s)
}
fn same_failure(e: &io::Error, how: How) -> bool {
    match how.0 {
        0 => e.kind() == io::ErrorKind::WriteZero,
        1 => e.kind() == ERRORS[how.1 as usize],
        _ => e.raw_os_error() == Some(how.1 as i32),
    }
}
fn outcome(r: Result<(), Broken>, sink: &Sink, all: &[u32], total: u64, at: u64, code: u64) {
    check(prefix(&sink.got, all), "what has been written is a beginning of the document");
    match r {
        Ok(()) => {
            cover(1);
            check(at >= total && !sink.failed, "a failure is reported");
            check(sink.got.len() == all.len(), "without a failure the whole document is written");
        }
        Err(e) => {
            cover(2);
            check(at < total && sink.failed, "no failure is made up");
            check(e.0 == code, "the error is the one of the sink");
            check(sink.writes == at + 1, "the writing stops at the failure");
        }
    }
}
#[derive(serdere::Serialize)]
enum Kind {
    A,
    #[serde(rename = "\u{1}")]
    B,
}
#[derive(serdere::Serialize)]
struct Part {
    x: Option<u8>,
    kind: Kind,
}
#[derive(serdere::Serialize)]
#[serde(tag = "t")]
enum Choice {
    None,
    Some { list: Vec<bool>, c: char },
}
#[derive(serdere::Serialize)]
struct Mixed {
    a: String,
    #[serde(flatten)]
    part: Part,
    list: Vec<(i8, Option<Option<bool>>)>,
    choice: Choice,
    f: f32,
}
fn mixed() -> Mixed {
    Mixed {
        a: ['\u{e9}', '"', '\u{2}', 'a'][choose(4)].to_string(),
        part: Part { x: if choose(2) == 0 { None } else { Some(7) }, kind: if choose(2) == 0 { Kind::A } else { Kind::B } },
        list: [vec![], vec![(1, None)], vec![(-1, Some(None)), (0, Some(Some(true)))]].into_iter().nth(choose(3)).unwrap_or_default(),
        choice: if choose(2) == 0 { Choice::None } else { Choice::Some { list: vec![false, true], c: '\n' } },
        f: 1.5,
    }
}
/// One of n places (of many: only some).
fn place(n: usize) -> usize {
    if n < 150 {
        return choose(n);
    }
    match choose(30) {
        k if k < 10 => k,
        k if k < 20 => n - 1 - (k - 10),
        k => (k - 19) * n / 12,
    }
}
/// A value written by the functions of the crate into a failing sink.
fn whole<T: for<'a> serdere::Serialize<TextSerializer<&'a mut Sink>> + for<'a> serdere::Serialize<TextSerializer<&'a mut Single>> + for<'a> serdere::Serialize<TextSerializer<Utf8Writer<&'a mut Bytes>>>>(x: &T, sink: usize) {
    let code = u64();
    if sink < 2 {
        let mut s = Sink::new(u64::MAX, 0);
        let mut c = Single(Sink::new(u64::MAX, 0));
        let ok = if sink == 0 { to_writer(&mut s, x).is_ok() } else { to_writer(&mut c, x).is_ok() };
        check(ok, "no failure is made up");
        let ok = if sink == 0 { s } else { c.0 };
        let at = place(ok.writes as usize + 1) as u64;
        let mut s = Sink::new(at, code);
        let mut c = Single(Sink::new(at, code));
        let r = if sink == 0 { to_writer(&mut s, x) } else { to_writer(&mut c, x) };
        outcome(r, if sink == 0 { &s } else { &c.0 }, &ok.got, ok.writes, at, code);
        observe(ok.writes);
    } else {
        let how = how(param(2) == 1);
        let mut all = Bytes { got: Vec::new(), left: usize::MAX, cap: usize::MAX, how, failed: false };
        check(to_writer(Utf8Writer::new(&mut all), x).is_ok(), "no failure is made up");
        let at = place(all.got.len() + 1);
        let mut b = Bytes { got: Vec::new(), left: at, cap: [usize::MAX, 2][choose(2)], how, failed: false };
        let r = to_writer(Utf8Writer::new(&mut b), x);
        bytes_outcome(r, &b, &all.got, at, how);
    }
}
fn bytes_outcome(r: io::Result<()>, b: &Bytes, all: &[u8], at: usize, how: How) {
    check(prefix(&b.got, all), "what has been written is a beginning of the document");
    check(b.got.len() == at, "the writing goes on up to the failure");
    match r {
        Ok(()) => {
            cover(1);
            check(at == all.len() && !b.failed, "a failure is reported");
        }
        Err(e) => {
            cover(2);
            check(at < all.len() && b.failed, "no failure is made up");
            check(same_failure(&e, how), "the error is the one of the sink");
        }
    }
    observe(all.len() as u64);
}

entries! {
    // values, kinds of values, length of texts, wrappers first, sink (0 whole strings, 1 single characters, 2 bytes), few characters
    h_c21_writes => {
        let wrap = param(3) == 1;
        let mut p = Plan::new(param(0), param(1), param(2));
        p.few = param(5) == 1;
        let indent = [None, Some("\t")][choose(2)];
        let code = u64();
        match param(4) {
            0 => {
                let (r, s) = write(Sink::new(u64::MAX, 0), &mut p, indent, wrap);
                check(r.is_ok(), "no failure is made up");
                let all = s.close();
                let at = choose(all.writes as usize + 1) as u64;
                p.again();
                let (r, s) = write(Sink::new(at, code), &mut p, indent, wrap);
                outcome(r, &s.close(), &all.got, all.writes, at, code);
                observe(all.writes);
            }
            1 => {
                let (r, s) = write(Single(Sink::new(u64::MAX, 0)), &mut p, indent, wrap);
                check(r.is_ok(), "no failure is made up");
                let all = s.close().0;
                let at = choose(all.writes as usize + 1) as u64;
                p.again();
                let (r, s) = write(Single(Sink::new(at, code)), &mut p, indent, wrap);
                outcome(r, &s.close().0, &all.got, all.writes, at, code);
                observe(all.writes);
            }
            _ => {
                let how = how(false);
                let new = |left, cap| Utf8Writer::new(Bytes { got: Vec::new(), left, cap, how, failed: false });
                let (r, s) = write(new(usize::MAX, usize::MAX), &mut p, indent, wrap);
                check(r.is_ok(), "no failure is made up");
                let all = s.close().into_inner();
                let at = choose(all.got.len() + 1);
                p.again();
                let cap = [usize::MAX, 2][choose(2)];
                let (r, s) = write(new(at, cap), &mut p, indent, wrap);
                bytes_outcome(r, &s.close().into_inner(), &all.got, at, how);
            }
        }
    },
    // value, sink, size: whole values
    h_c21_values => {
        let sink = param(1);
        match param(0) {
            0 => whole(&mixed(), sink),
            1 => {
                let n = choose(3);
                let s: String = (0..n).map(|_| scalar()).collect();
                whole(&s, sink)
            }
            2 => whole(&[1.5f64, -0.0, 1e300], sink),
            3 => whole(&(vec![(), ()], Some('\u{e9}'), ([u64::MAX], i64::MIN)), sink),
            4 => whole(&vec![Some(Some(true)), Some(None), None], sink),
            // a long document: n numbers and a text of n characters
            _ => {
                let n = param(2);
                let at = crate::docs::place_in(n);
                let c = scalar();
                let text: String = (0..n).map(|i| if i == at { c } else { ['x', '\u{e9}', '"', '\u{1f600}', '\u{20ac}'][i % 5] }).collect();
                let numbers: Vec<u16> = (0..n).map(|i| i as u16 * 37).collect();
                whole(&(numbers, text, ((), Some(true))), sink)
            }
        }
    },
}
