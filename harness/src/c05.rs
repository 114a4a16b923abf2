//! C05: no input makes the reader panic, hang or touch invalid memory.
use crate::docs::*;
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, TextReader, Utf8Reader, Value};
use serdere_json::*;
use std::io;

/// Delivers a feed byte by byte. Known finding 1: once the first character has been delivered,
/// malformed or truncated UTF-8 and failures of the source make `Utf8Reader` panic.
struct Guarded<'a> {
    feed: &'a Feed,
    at: usize,
    /// whether the source may fail
    faulty: bool,
    /// the character that is being delivered: bytes missing, least and largest next byte
    part: (u8, u8, u8),
    first: bool,
    interrupts: u32,
}
impl Guarded<'_> {
    fn broken(&self) {
        if !self.first {
            known(1)
        }
    }
}
impl io::Read for Guarded<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.faulty && choose(2) == 1 {
            if choose(2) == 1 {
                self.interrupts += 1;
                if self.interrupts > 2 {
                    end()
                }
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.broken();
            return Err(io::ErrorKind::Other.into());
        }
        let Some(b) = self.feed.at(self.at) else {
            if self.part.0 > 0 {
                self.broken();
            }
            return Ok(0);
        };
        self.at += 1;
        buf[0] = b;
        let is = |lo: u8, hi: u8| concretize((b >= lo && b <= hi) as u64) == 1;
        let (n, lo, hi) = self.part;
        self.part = if n > 0 {
            if !is(lo, hi) {
                self.broken();
            }
            (n - 1, 0x80, 0xBF)
        } else if is(0, 0x7F) {
            (0, 0, 0)
        } else if is(0xC2, 0xDF) {
            (1, 0x80, 0xBF)
        } else if is(0xE0, 0xE0) {
            (2, 0xA0, 0xBF)
        } else if is(0xED, 0xED) {
            (2, 0x80, 0x9F)
        } else if is(0xE1, 0xEF) {
            (2, 0x80, 0xBF)
        } else if is(0xF0, 0xF0) {
            (3, 0x90, 0xBF)
        } else if is(0xF1, 0xF3) {
            (3, 0x80, 0xBF)
        } else if is(0xF4, 0xF4) {
            (3, 0x80, 0x8F)
        } else {
            self.broken();
            (0, 0, 0)
        };
        if self.part.0 == 0 {
            self.first = false;
        }
        Ok(1)
    }
}
fn read<T, R: TextReader>(r: R, permissive: bool) -> Option<T>
where
    T: Deserialize<TextDeserializer<R>>,
{
    let config = if permissive { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    let mut d = TextDeserializer::new(config, r).ok()?;
    let res = Value::with(&mut d, |v| T::deserialize(v, &mut ())).ok()?;
    d.close().ok()?;
    Some(res)
}
fn guarded(f: &Feed, faulty: bool) -> Option<Utf8Reader<Guarded<'_>>> {
    let g = Guarded { feed: f, at: 0, faulty, part: (0, 0, 0), first: true, interrupts: 0 };
    match Utf8Reader::new(g) {
        Ok(r) => Some(r),
        Err(_) => {
            cover(3);
            None
        }
    }
}
fn bytes<T: for<'a> Deserialize<TextDeserializer<Utf8Reader<Guarded<'a>>>>>() {
    let f = feed();
    let Some(r) = guarded(&f, param(4) == 2) else { return };
    match read::<T, _>(r, param(4) == 1) {
        Some(_) => cover(1),
        None => cover(2),
    }
}
fn string<T: for<'a> Deserialize<TextDeserializer<&'a str>>>() {
    let f = feed();
    let mut n = 0;
    while f.at(n).is_some() {
        n += 1;
    }
    let t = ascii_text(f.text.borrow().clone());
    match read::<T, _>(&t[..], param(4) == 1) {
        Some(_) => cover(1),
        None => cover(2),
    }
}
/// Uses the typed interface in every possible way (at most `left` steps, the rest is skipped).
fn walk<D: JsonDeserializer>(mut v: Value<D>, left: &mut usize) -> Result<(), D::Error> {
    if *left == 0 {
        return v.skip();
    }
    *left -= 1;
    match choose(15) {
        0 => v.skip(),
        1 => v.get_bool().map(|_| ()),
        2 => v.get_u8().map(|_| ()),
        3 => v.into_null(),
        4 => v.get_str().map(|_| ()),
        5 => v.get_char().map(|_| ()),
        6 => {
            let mut o = v.into_object()?;
            while *left > 0 {
                *left -= 1;
                match choose(5) {
                    0 => {
                        let Some(mut e) = o.next_entry()? else { return Ok(()) };
                        if choose(2) == 1 {
                            e.key()?;
                        }
                        walk(e.value()?, left)?
                    }
                    1 => {
                        if let Some(v) = o.try_entry("a")? {
                            walk(v, left)?
                        }
                    }
                    2 => walk(o.entry("b")?, left)?,
                    3 => {
                        if let Some(v) = o.try_entry("")? {
                            v.skip()?
                        }
                    }
                    _ => break,
                }
            }
            o.close()
        }
        7 => {
            let mut l = v.into_list()?;
            while let Some(v) = l.next()? {
                walk(v, left)?
            }
            Ok(())
        }
        8 => {
            let mut l = v.into_tuple(None)?;
            walk(l.element()?, left)?;
            walk(l.element()?, left)?;
            l.close()
        }
        9 => {
            let mut s = v.into_struct(None)?;
            walk(s.field("b")?, left)?;
            walk(s.field("a")?, left)?;
            s.close()
        }
        10 => {
            if v.check_null()? {
                Ok(())
            } else {
                walk(v, left)
            }
        }
        11 => v.validate_with(|v| walk(v, left).map(|_| Ok::<(), Refused>(()))),
        12 => v.validate_with(|v| walk(v, left).map(|_| Err::<(), Refused>(Refused))),
        13 => {
            let mut c = v.into_collection()?;
            while let Some(v) = c.next()? {
                walk(v, left)?
            }
            Ok(())
        }
        _ => Color::deserialize(v, &mut ()).map(|_| ()),
    }
}
#[derive(Debug)]
struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Refused {}

/// A document `[[[..` of containers nested `levels` deep, which notes how much stack its reader
/// uses.
struct Nest {
    text: Vec<u8>,
    at: usize,
    low: u64,
    high: u64,
}
const OPEN: [&[u8]; 2] = [b"[0,[", b"{\"b\":[],\"a\":["];
const CLOSE: [&[u8]; 2] = [b"]]", b"]}"];
impl io::Read for &mut Nest {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() || self.at == self.text.len() {
            return Ok(0);
        }
        buf[0] = self.text[self.at];
        if self.at > 0 {
            let used = stack();
            self.low = self.low.min(used);
            self.high = self.high.max(used);
        }
        self.at += 1;
        Ok(1)
    }
}
struct Late;
impl<D: JsonDeserializer, C: ?Sized> Deserialize<D, C> for Late {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut C) -> Result<Self, D::Error> {
        let mut o = value.into_object()?;
        // (reads all of it ahead)
        if o.try_entry("c")?.is_some() {
            end()
        }
        o.entry("a")?.skip()?;
        o.entry("b")?.skip()?;
        o.close()?;
        Ok(Late)
    }
}

entries! {
    // type, what the document is made of, number of parts, how it starts, 1: comments allowed, 2: faults
    h_c05_bytes => { types!(bytes, param(0)) },
    // the same, read from a string
    h_c05_string => { types!(string, param(0)) },
    // steps, what the document is made of, number of parts, how it starts, comments allowed
    h_c05_walk => {
        let f = feed();
        let r = f.reader();
        let config = if param(4) == 1 { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
        let Ok(mut d) = TextDeserializer::new(config, r) else { return cover(2) };
        let mut left = param(0);
        match Value::with(&mut d, |v| walk(v, &mut left)) {
            Err(_) => cover(2),
            Ok(()) => {
                cover(1);
                let _ = d.close();
            }
        }
    },
    // nesting, how far it differs: skipping a deeply nested value takes no more stack than a flat one
    h_c05_nest => {
        let n = param(0);
        let mut shape = vec![choose(2) == 1; n];
        for i in 0..param(1) {
            shape[n - 1 - i] = choose(2) == 1;
        }
        let ahead = param(2) == 1;
        if ahead {
            shape[0] = true;
        }
        let mut text = Vec::new();
        for s in &shape {
            text.extend_from_slice(OPEN[*s as usize])
        }
        text.push(b'1');
        let whole = choose(2) == 1;
        if whole {
            for s in shape.iter().rev() {
                text.extend_from_slice(CLOSE[*s as usize])
            }
        }
        let mut t = Nest { text, at: 0, low: u64::MAX, high: 0 };
        let Ok(r) = Utf8Reader::new(&mut t) else { return };
        let ok = if ahead { read::<Late, _>(r, false).is_some() } else { read::<Skip, _>(r, false).is_some() };
        check(ok == whole, "a deeply nested value is skipped");
        check(t.high - t.low < n as u64 * 48, "the stack needed does not grow with the nesting of a skipped value");
        cover(1);
    },
}
