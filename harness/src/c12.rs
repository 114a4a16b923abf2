//! C12: byte streams are decoded as strict UTF-8.
use crate::model::{Feed, Kind};
use crate::sym::*;
use serdere::{read_utf8, LineColumnPosition, TextReader, Utf8Reader};
use std::io;

/// What comes first in a sequence of bytes.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Item {
    End,
    /// a character, and how many bytes it takes
    Char(u32, usize),
    Malformed,
    Truncated,
}
fn within(b: u8, lo: u8, hi: u8) -> bool {
    concretize((b >= lo && b <= hi) as u64) == 1
}
/// Decodes one character (RFC 3629, section 4).
fn first(s: &[u8]) -> Item {
    let Some(&a) = s.first() else { return Item::End };
    if within(a, 0, 0x7F) {
        return Item::Char(a as u32, 1);
    }
    const ROWS: [(u8, u8, u8, u8, usize); 8] = [
        (0xC2, 0xDF, 0x80, 0xBF, 2),
        (0xE0, 0xE0, 0xA0, 0xBF, 3),
        (0xE1, 0xEC, 0x80, 0xBF, 3),
        (0xED, 0xED, 0x80, 0x9F, 3),
        (0xEE, 0xEF, 0x80, 0xBF, 3),
        (0xF0, 0xF0, 0x90, 0xBF, 4),
        (0xF1, 0xF3, 0x80, 0xBF, 4),
        (0xF4, 0xF4, 0x80, 0x8F, 4),
    ];
    for (lo, hi, lo2, hi2, n) in ROWS {
        if !within(a, lo, hi) {
            continue;
        }
        let mut x = a as u32 & (0x7F >> n);
        for i in 1..n {
            let Some(&b) = s.get(i) else { return Item::Truncated };
            let (lo, hi) = if i == 1 { (lo2, hi2) } else { (0x80, 0xBF) };
            if !within(b, lo, hi) {
                return Item::Malformed;
            }
            x = x << 6 | b as u32 & 63;
        }
        return Item::Char(x, n);
    }
    Item::Malformed
}

/// Delivers bytes in arbitrary portions.
struct Source<'a> {
    data: &'a [u8],
    at: usize,
    /// whether it may deliver less than asked for, be interrupted (so many times), and fail (where)
    short: bool,
    interrupts: usize,
    fails: Option<usize>,
}
impl io::Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts > 0 && choose(2) == 1 {
            self.interrupts -= 1;
            cover(7);
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.fails == Some(self.at) {
            return Err(io::ErrorKind::PermissionDenied.into());
        }
        let mut n = buf.len().min(self.data.len() - self.at);
        if let Some(f) = self.fails {
            n = n.min(f - self.at)
        }
        if self.short && n > 1 {
            n = 1 + choose(n)
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn bytes(n: usize, wide: usize) -> Vec<u8> {
    let mut v = Vec::new();
    // (a prefix which puts the arbitrary bytes into the middle of a character)
    v.extend_from_slice([&b""[..], b"\xE2\x82", b"\xF0\x9F\x98", b"\xED", b"\xF4", b"\xC3\xA9", b"\xE0", b"\xF0"][wide]);
    for _ in 0..choose(n + 1) {
        v.push(u8())
    }
    v
}
/// Whether the decoding has to stop at `at`: because of a failure of the source, or because of what is there.
fn stops(at: usize, fails: Option<usize>, item: Item) -> bool {
    match (item, fails) {
        (Item::Malformed | Item::Truncated, _) => true,
        (_, None) => false,
        (Item::Char(_, n), Some(f)) => f < at + n,
        (Item::End, Some(f)) => f <= at,
    }
}
/// The position behind a character.
fn advance(p: &mut LineColumnPosition, x: u32) {
    if concretize((x == 10) as u64) == 1 {
        p.line += 1;
        p.column = 0
    } else if concretize((x == 9) as u64) == 1 {
        p.column += 4
    } else if concretize((x != 13) as u64) == 1 {
        p.column += 1
    }
}

struct Forever<'a>(&'a Feed, usize, usize);
impl io::Read for Forever<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.2 > 0 && choose(2) == 1 {
            self.2 -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = 0;
        while n < buf.len() {
            if n > 0 && choose(2) == 1 {
                break;
            }
            let Some(b) = self.0.at(self.1) else { break };
            buf[n] = b;
            self.1 += 1;
            n += 1;
        }
        Ok(n)
    }
}

entries! {
    // a long text: how many characters, of which kind; one of them is arbitrary
    h_c12_scale => {
        let n = param(0);
        let at = [0, n - 1][choose(2)];
        let c = scalar();
        let mut text = String::with_capacity(4 * n + 8);
        for i in 0..n {
            text.push(if i == at { c } else { ['\n', 'x', '\u{20ac}'][param(1)] })
        }
        let mut r = match Utf8Reader::new(text.as_bytes()) { Ok(r) => r, Err(_) => fail("well-formed UTF-8 is decoded") };
        let mut p = LineColumnPosition::default();
        let mut i = 0;
        while let Some(x) = r.next() {
            let want = if i == at { c } else { ['\n', 'x', '\u{20ac}'][param(1)] };
            check(i < n && x == want, "the character is the one encoded");
            advance(&mut p, want as u32);
            i += 1;
        }
        check(i == n, "no character is lost");
        check(r.position() == p, "the position is that of the next character");
        observe(p.line as u64 * 1000 + p.column as u64);
        cover(1);
    }
    // bytes, prefix, short reads, interruptions, failing: one character after the other
    h_c12_decode => {
        let data = bytes(param(0), param(1));
        let fails = if param(4) == 1 { Some(choose(data.len() + 1)) } else { None };
        let mut s = Source { data: &data, at: 0, short: param(2) == 1, interrupts: param(3), fails };
        let mut at = 0;
        loop {
            let item = first(&data[at..]);
            let got = read_utf8(&mut s);
            match (got, stops(at, fails, item)) {
                (Err(e), true) => {
                    cover(3);
                    check(e.kind() != io::ErrorKind::Interrupted, "an interruption is not an error");
                    if matches!(item, Item::Char(..) | Item::End) {
                        check(e.kind() == io::ErrorKind::PermissionDenied, "the failure of the source is reported");
                        cover(4);
                    }
                    observe(1000);
                    return;
                }
                (Err(_), false) => fail("well-formed UTF-8 is decoded"),
                (Ok(_), true) => fail("malformed UTF-8 and failures of the source are errors"),
                (Ok(None), false) => {
                    check(item == Item::End, "no character is lost");
                    cover(1);
                    return;
                }
                (Ok(Some(c)), false) => {
                    let Item::Char(x, n) = item else { fail("nothing is delivered behind the end") };
                    check(c as u32 == x, "the character is the one encoded");
                    at += n;
                    check(s.at == at, "exactly the bytes of the character are consumed");
                    cover(2);
                    observe(c as u64);
                }
            }
        }
    },
    // bytes, prefix, short reads, interruptions, failing, how it is wrapped (0 not, 1 buffered): the reader with its position
    h_c12_reader => {
        let data = bytes(param(0), param(1));
        let fails = if param(4) == 1 { Some(choose(data.len() + 1)) } else { None };
        let s = Source { data: &data, at: 0, short: param(2) == 1, interrupts: param(3), fails };
        if param(5) == 0 {
            follow(&data, fails, Utf8Reader::new(s))
        } else {
            let cap = 1 + choose(5);
            follow(&data, fails, Utf8Reader::new(io::BufReader::with_capacity(cap, s)))
        }
    },
    // characters, alphabet, whether they come from a byte stream: literal prefixes and delimiters
    h_c12_until => {
        let feed = Feed::new(if param(1) == 0 { Kind::Scalar } else { Kind::From(b"ab\n\t\r\"") }, param(0));
        let n = choose(param(0) + 1);
        let mut chars: Vec<char> = Vec::new();
        let mut text = String::new();
        for _ in 0..n {
            let c = match feed.kind { Kind::From(a) => pick(a) as char, _ => scalar() };
            chars.push(c);
            text.push(c);
        }
        if param(2) == 0 {
            let mut r: &str = &text;
            scan(&chars, &mut r, |r: &&str, at| {
                let left: usize = chars[at..].iter().map(|c| c.len_utf8()).sum();
                check(r.len() == left, "the rest of the text is left");
            });
        } else {
            let mut r = match Utf8Reader::new(text.as_bytes()) { Ok(r) => r, Err(_) => fail("well-formed UTF-8 is decoded") };
            scan(&chars, &mut r, |r: &Utf8Reader<&[u8]>, at| {
                let mut p = LineColumnPosition::default();
                for c in &chars[..at] { advance(&mut p, *c as u32) }
                check(r.position() == p, "the position is that of the next character");
            });
        }
    },
    // characters, interruptions: a string read from a stream is the one read from memory
    h_c12_doc => {
        let feed = Feed::from("\"", Kind::Scalar, param(0)).ending("\"");
        let n = choose(param(0) + 1);
        let mut text = String::from("\"");
        for _ in 0..n { text.push(scalar()) }
        text.push('"');
        feed.text.replace(text.as_bytes().to_vec());
        feed.left.replace(0);
        feed.end.replace("");
        let want = serdere_json::from_str::<String>(&text).ok();
        let got = match Utf8Reader::new(Forever(&feed, 0, param(1))) {
            Ok(r) => serdere_json::from_reader::<_, String>(r).ok(),
            Err(_) => fail("well-formed UTF-8 is decoded"),
        };
        match (want, got) {
            (Some(a), Some(b)) => {
                cover(1);
                let mut same = a.len() == b.len();
                for (x, y) in a.bytes().zip(b.bytes()) { same &= x == y }
                check(same, "the same text is read");
            }
            (None, None) => cover(2),
            _ => fail("a document is read from a stream as it is from memory"),
        }
    },
}

fn follow<R: io::Read>(data: &[u8], fails: Option<usize>, r: io::Result<Utf8Reader<R>>) {
    let mut at = 0;
    let mut p = LineColumnPosition::default();
    let item = first(data);
    let bad = stops(at, fails, item);
    let mut r = match r {
        Ok(r) => {
            check(!bad, "a stream which does not start with a character is an error");
            r
        }
        Err(_) => {
            check(bad, "a well-formed stream is read");
            cover(3);
            return;
        }
    };
    loop {
        let item = first(&data[at..]);
        check(r.position() == p, "the position is that of the next character");
        observe(r.position().line as u64 * 1000 + r.position().column as u64);
        let Item::Char(x, n) = item else {
            check(r.peek().is_none() && r.next().is_none() && r.next().is_none(), "nothing is delivered behind the end");
            check(r.position() == p, "the position stays at the end");
            cover(1);
            return;
        };
        match r.peek() {
            Some(c) => check(c as u32 == x, "the next character is the one encoded"),
            None => fail("no character is lost"),
        }
        if stops(at + n, fails, first(&data[at + n..])) {
            // Known finding 3: what cannot be decoded behind the first character makes the reader panic
            known_panic(3);
            let _ = r.next();
            fail("what cannot be decoded is not reported")
        }
        match r.next() {
            Some(c) => check(c as u32 == x, "the character is the one encoded"),
            None => fail("no character is lost"),
        }
        cover(2);
        at += n;
        advance(&mut p, x);
    }
}

/// Reads by literals and delimiters; `place` checks that so many characters have been read.
fn scan<R: TextReader>(chars: &[char], r: &mut R, place: impl Fn(&R, usize)) {
    let mut at = 0;
    for _ in 0..2 {
        let before = r.position();
        match choose(3) {
            0 => {
                // up to a character which is chosen arbitrarily
                let lo = scalar();
                let end = chars[at..].iter().position(|c| concretize((*c == lo) as u64) == 1);
                let got = r.read_until(|c| if c == lo { Some(c as u32) } else { None });
                match (end, got) {
                    (Some(n), Some((text, x))) => {
                        check(x == lo as u32, "the result of the predicate is returned");
                        let mut it = text.chars();
                        for c in &chars[at..at + n] {
                            check(it.next() == Some(*c), "the text up to the delimiter is returned");
                        }
                        check(it.next().is_none(), "the delimiter is not part of the text");
                        drop(it);
                        drop(text);
                        at += n + 1;
                        cover(1);
                    }
                    (None, None) => {
                        at = chars.len();
                        cover(2);
                    }
                    _ => fail("a delimiter is found exactly if it is there"),
                }
            }
            1 => {
                // a literal which is there, or differs in its last character
                let n = choose(chars.len() - at + 1);
                let mut lit: String = chars[at..at + n].iter().collect();
                let c = scalar();
                let same = match chars.get(at + n) { Some(d) => concretize((*d == c) as u64) == 1, None => false };
                let longer = choose(2) == 1;
                if longer {
                    lit.push(c)
                }
                let got = r.read_exact(&lit);
                if !longer || same {
                    check(got, "a literal which is there is read");
                    at += n + longer as usize;
                    cover(3);
                } else {
                    check(!got, "a literal which is not there is not read");
                    cover(4);
                    return; // (the position is undefined)
                }
            }
            _ => {
                let got = r.peek();
                check(got == chars.get(at).copied(), "the next character is seen");
                check(r.next() == got, "the next character is read");
                at = (at + 1).min(chars.len());
            }
        }
        check(before <= r.position(), "positions increase");
        place(r, at);
    }
}
