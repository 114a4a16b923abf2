//! C14: whitespace and allowed comments never change the meaning.
use crate::docs::*;
use crate::json;
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, TextReader, Utf8Reader, Value};
use serdere_json::*;
use std::cell::RefCell;

/// Reads the whole document (0), or the value of its entry "x", which is read ahead (1).
fn read<T: Deserialize<TextDeserializer<R>>, R: TextReader>(reader: R, comments: bool, place: usize) -> Option<T> {
    let config = if comments { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    let mut d = TextDeserializer::new(config, reader).ok()?;
    let res = Value::with(&mut d, |v| {
        if place == 0 {
            return v.get::<T>().map(Some);
        }
        let mut o = v.into_object()?;
        if o.try_entry("not there")?.is_some() {
            fail("there is no entry of that name")
        }
        let res = match o.try_entry("x")? {
            None => None,
            Some(v) => Some(v.get::<T>()?),
        };
        // (this closes the object)
        while let Some(e) = o.next_entry()? {
            e.value()?.skip()?;
        }
        Ok(res)
    })
    .ok()?;
    d.close().ok()?;
    res
}

/// A sequence of tokens, chosen when they are first looked at.
struct Doc {
    toks: RefCell<Vec<&'static str>>,
    left: RefCell<usize>,
    set: &'static [&'static str],
    end: RefCell<Vec<&'static str>>,
}
const SETS: [&[&str]; 5] = [
    &["{", "}", "[", "]", ",", ":", "\"a\"", "1", "true"],
    &["[", "]", ",", "\"/*\"", "-0.5e+1", "{}", "null"],
    &["{", "}", ",", ":", "\"a\"", "\"b\"", "\"//\\\"\"", "null", "false", "20"],
    &["{", "}", ",", ":", "\"type\"", "\"Line\"", "\"a\"", "7"],
    &["[", "]", ",", "1", "20", "\"\""],
];
/// How a document starts and ends, by place.
const STARTS: [&[&str]; 7] = [&[], &["["], &["{"], &["{", "\"a\"", ":"], &["{", "\"type\"", ":"], &["["],
    &["{", "\"a\"", ":", "[", "1", ",", "-2.5e3", ",", "{", "}", ",", "[", "]", "]", ",", "\"b\"", ":", "\"/\"", ",", "\"c\"", ":", "{", "\"d\"", ":", "null", "}", "}"],
];
impl Doc {
    fn tok(&self, i: usize) -> Option<&'static str> {
        let mut t = self.toks.borrow_mut();
        let mut left = self.left.borrow_mut();
        while i >= t.len() {
            if *left > 0 {
                *left -= 1;
                let k = choose(self.set.len() + 1);
                if k < self.set.len() {
                    t.push(self.set[k]);
                    continue;
                }
                *left = 0
            }
            let mut e = self.end.borrow_mut();
            if e.is_empty() {
                return None;
            }
            t.push(e.remove(0))
        }
        Some(t[i])
    }
}
fn wordy(t: &str, last: bool) -> bool {
    let b = t.as_bytes();
    let c = if last { b[b.len() - 1] } else { b[0] };
    c.is_ascii_alphanumeric() || c == b'-'
}
/// What may stand between tokens.
struct Space {
    /// how many places may have something (more)
    left: usize,
    comments: bool,
    /// the length of comments, and whether their characters are arbitrary
    chars: usize,
    wide: bool,
    seen: bool,
}
impl Space {
    fn char(&self, out: &mut Vec<u8>) -> u32 {
        if self.wide {
            let c = scalar();
            let mut b = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            c as u32
        } else {
            let c = ascii();
            out.push(c);
            c as u32
        }
    }
    fn put(&mut self, out: &mut Vec<u8>, last: bool) {
        if self.left == 0 {
            return;
        }
        let k = choose(if self.comments { 5 } else { 3 });
        if k == 0 {
            return;
        }
        self.left -= 1;
        match k {
            1 | 2 => {
                for _ in 0..k {
                    out.push(pick(b" \t\n\r"))
                }
            }
            3 => {
                self.seen = true;
                out.extend_from_slice(b"//");
                for _ in 0..choose(self.chars + 1) {
                    let c = self.char(out);
                    assume(c != 10)
                }
                if !last || choose(2) == 0 {
                    out.push(10)
                }
            }
            _ => {
                self.seen = true;
                out.extend_from_slice(b"/*");
                let mut star = false;
                for _ in 0..choose(self.chars + 1) {
                    let c = self.char(out);
                    assume(!(star & (c == '/' as u32)));
                    star = c == '*' as u32;
                }
                out.extend_from_slice(b"*/")
            }
        }
    }
}
/// The text of a document, with something between its tokens or not.
struct Text<'a> {
    doc: &'a Doc,
    next: usize,
    at: usize,
    text: Vec<u8>,
    space: Option<&'a RefCell<Space>>,
    ended: bool,
}
impl<'a> Text<'a> {
    fn new(doc: &'a Doc, space: Option<&'a RefCell<Space>>) -> Self {
        Text { doc, next: 0, at: 0, text: Vec::with_capacity(64), space, ended: false }
    }
    fn byte(&mut self) -> Option<u8> {
        while self.at >= self.text.len() {
            if self.ended {
                return None;
            }
            let tok = self.doc.tok(self.next);
            let before = self.text.len();
            if let Some(s) = self.space {
                s.borrow_mut().put(&mut self.text, tok.is_none());
            }
            match tok {
                None => self.ended = true,
                Some(t) => {
                    if self.text.len() == before && self.next > 0 && wordy(self.doc.toks.borrow()[self.next - 1], true) && wordy(t, false) {
                        self.text.push(b' ')
                    }
                    self.text.extend_from_slice(t.as_bytes());
                    self.next += 1
                }
            }
        }
        self.at += 1;
        Some(self.text[self.at - 1])
    }
}
impl std::io::Read for Text<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.byte() {
            None => Ok(0),
            Some(b) => {
                buf[0] = b;
                Ok(1)
            }
        }
    }
}
fn inserted<T: Denote + for<'a> Deserialize<TextDeserializer<Utf8Reader<Text<'a>>>>>() {
    let (place, comments, strict) = (param(3), param(5) > 0, param(7) == 1);
    let mut toks = if place > 0 { vec!["{", "\"w\"", ":", "[", "0", "]", ",", "\"x\"", ":"] } else { vec![] };
    toks.extend_from_slice(STARTS[param(8)]);
    let end = match place { 0 => vec![], 1 => vec!["}"], _ => vec![",", "\"y\"", ":", "{", "\"z\"", ":", "null", "}", "}"] };
    let doc = Doc { toks: RefCell::new(toks), left: RefCell::new(param(2)), set: SETS[param(1)], end: RefCell::new(end) };
    let reader = |t| match Utf8Reader::new(t) {
        Ok(r) => r,
        Err(_) => fail("well-formed UTF-8 is decoded"),
    };
    let plain = read::<T, _>(reader(Text::new(&doc, None)), !strict, place);
    if param(9) == 1 && plain.is_none() {
        cover(2);
        return;
    }
    let space = RefCell::new(Space { left: param(4), comments, chars: param(5) - comments as usize, wide: param(6) == 1, seen: false });
    let spread = read::<T, _>(reader(Text::new(&doc, Some(&space))), !strict, place);
    if space.borrow().seen && strict {
        cover(3);
        if spread.is_some() { fail("a comment is an error in the strict configuration") }
        return;
    }
    if space.borrow().seen { cover(4) }
    match (plain, spread) {
        (Some(a), Some(b)) => {
            cover(1);
            check(a.same(&b), "what stands between tokens does not change the value");
            a.observe()
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("whitespace and comments between tokens are accepted"),
        (None, Some(_)) => fail("whitespace and comments do not complete a document"),
    }
}
/// A document of arbitrary characters, against the reference reader.
fn text<T: Denote + for<'a> Deserialize<TextDeserializer<Utf8Reader<FeedReader<'a>>>>>() {
    let place = param(4);
    let f = around_from(["", "{\"w\":[/**/0]/*/*/,\"x\"://\n"][place], ["", "//\n}"][place], param(3));
    let got = read::<T, _>(f.reader(), true, place);
    let want = json::parse_with(&f, true);
    let want = match &want {
        Some(t) if place == 0 => T::of(t),
        Some(json::Tree::Obj(es)) => {
            let mut w = None;
            for (i, (k, v)) in es.iter().enumerate() {
                for j in 0..i { assume(!same_text(&es[j].0, k)) }
                if is_key(k, "x") { w = T::of(v) }
            }
            w
        }
        _ => None,
    };
    match (got, want) {
        (Some(g), Some(w)) => {
            cover(1);
            check(g.same(&w), "the value delivered is the one the document denotes");
            g.observe();
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("a document that is not of the form asked for is rejected"),
        (None, Some(_)) => fail("a well-formed document with comments is accepted"),
    }
}
entries! {
    // type, tokens, number of tokens, place, how many places have something, 1 + length of comments (0: none), arbitrary characters in comments, strict, start, only well-formed documents
    h_c14_insert => { types!(inserted, param(0)) },
    // type, what the document is made of, number of parts, how it starts, place
    h_c14_text => { types!(text, param(0)) },
}
