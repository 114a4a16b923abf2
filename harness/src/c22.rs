//! C22: a document which is not JSON is reported where, and for the reason that, it breaks.
use crate::docs::*;
use crate::json::Source;
use crate::model::*;
use crate::sym::*;
use serdere::{LineColumnPosition, TextReader, Value};
use serdere_json::*;

/// What the text is within where it breaks or ends.
#[derive(Clone, Copy, PartialEq)]
enum Within {
    /// between values, or at the start of one
    Place,
    Number,
    Literal,
    Text,
    Escape,
    /// what has to follow the first half of a surrogate pair
    Pair,
    Comment,
}
use Within::*;
enum Scan {
    Whole,
    /// Nothing which starts with the text up to and including `at` is a document; `from` is where
    /// the number, literal, escape or comment starts which breaks.
    Broken { from: usize, at: usize, within: Within },
    /// The text ends too early.
    Cut { from: usize, end: usize, within: Within },
}
struct Scanner<S: Source> {
    text: S,
    i: usize,
}
fn hex(b: u8) -> Option<u32> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u32),
        b'a'..=b'f' => Some((b - b'a') as u32 + 10),
        b'A'..=b'F' => Some((b - b'A') as u32 + 10),
        _ => None,
    }
}
impl<S: Source> Scanner<S> {
    fn peek(&self) -> Option<u8> {
        self.text.get(self.i)
    }
    fn stop(&self, from: usize, within: Within) -> Scan {
        match self.peek() {
            Some(_) => Scan::Broken { from, at: self.i, within },
            None => Scan::Cut { from, end: self.i, within },
        }
    }
    fn space(&mut self, comments: bool) -> Result<(), Scan> {
        loop {
            match self.peek() {
                Some(b' ' | b'\n' | b'\r' | b'\t') => self.i += 1,
                Some(b'/') if comments => {
                    let from = self.i;
                    self.i += 1;
                    match self.peek() {
                        Some(b'/') => {
                            while let Some(b) = self.peek() {
                                self.i += 1;
                                if b == b'\n' {
                                    break;
                                }
                            }
                        }
                        Some(b'*') => {
                            self.i += 1;
                            let mut star = false;
                            loop {
                                match self.peek() {
                                    None => return Err(self.stop(from, Comment)),
                                    Some(b) => {
                                        self.i += 1;
                                        if star && b == b'/' {
                                            break;
                                        }
                                        star = b == b'*'
                                    }
                                }
                            }
                        }
                        _ => return Err(self.stop(from, Comment)),
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn digits(&mut self, from: usize) -> Result<(), Scan> {
        match self.peek() {
            Some(b'0'..=b'9') => {}
            _ => return Err(self.stop(from, Number)),
        }
        while let Some(b'0'..=b'9') = self.peek() {
            self.i += 1
        }
        Ok(())
    }
    fn number(&mut self) -> Result<(), Scan> {
        let from = self.i;
        if let Some(b'-') = self.peek() {
            self.i += 1
        }
        if let Some(b'0') = self.peek() {
            self.i += 1
        } else {
            self.digits(from)?
        }
        if let Some(b'.') = self.peek() {
            self.i += 1;
            self.digits(from)?
        }
        if let Some(b'e' | b'E') = self.peek() {
            self.i += 1;
            if let Some(b'+' | b'-') = self.peek() {
                self.i += 1
            }
            self.digits(from)?
        }
        Ok(())
    }
    fn literal(&mut self, word: &str) -> Result<(), Scan> {
        let from = self.i;
        for w in word.bytes() {
            match self.peek() {
                Some(b) if b == w => self.i += 1,
                _ => return Err(self.stop(from, Literal)),
            }
        }
        Ok(())
    }
    fn code(&mut self, from: usize, within: Within) -> Result<u32, Scan> {
        let mut c = 0;
        for _ in 0..4 {
            match self.peek().and_then(hex) {
                Some(d) => c = c << 4 | d,
                None => return Err(self.stop(from, within)),
            }
            self.i += 1
        }
        Ok(c)
    }
    /// Behind the quotation mark.
    fn string(&mut self) -> Result<(), Scan> {
        loop {
            match self.peek() {
                None | Some(0..=31) => return Err(self.stop(self.i, Text)),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(());
                }
                Some(b'\\') => {
                    let from = self.i;
                    self.i += 1;
                    match self.peek() {
                        Some(b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't') => self.i += 1,
                        Some(b'u') => {
                            self.i += 1;
                            match self.code(from, Escape)? {
                                0xD800..=0xDBFF => {
                                    for w in *b"\\u" {
                                        match self.peek() {
                                            Some(b) if b == w => self.i += 1,
                                            _ => return Err(self.stop(from, Pair)),
                                        }
                                    }
                                    match self.code(from, Pair)? {
                                        0xDC00..=0xDFFF => {}
                                        _ => return Err(Scan::Broken { from, at: self.i - 1, within: Escape }),
                                    }
                                }
                                0xDC00..=0xDFFF => return Err(Scan::Broken { from, at: self.i - 1, within: Escape }),
                                _ => {}
                            }
                        }
                        _ => return Err(self.stop(from, Escape)),
                    }
                }
                Some(_) => self.i += 1,
            }
        }
    }
    fn document(&mut self, comments: bool) -> Result<(), Scan> {
        let mut open = Vec::new();
        let mut first = false;
        'value: loop {
            // a value, or (first) the end of an empty collection
            self.space(comments)?;
            let mut key = false;
            match self.peek() {
                Some(b']') if first && matches!(open.last(), Some(b']')) => {
                    self.i += 1;
                    open.pop();
                }
                Some(b'}') if first && matches!(open.last(), Some(b'}')) => {
                    self.i += 1;
                    open.pop();
                }
                _ if first && matches!(open.last(), Some(b'}')) => key = true,
                Some(b'{') => {
                    self.i += 1;
                    open.push(b'}');
                    first = true;
                    continue 'value;
                }
                Some(b'[') => {
                    self.i += 1;
                    open.push(b']');
                    first = true;
                    continue 'value;
                }
                Some(b'"') => {
                    self.i += 1;
                    self.string()?
                }
                Some(b'-' | b'0'..=b'9') => self.number()?,
                Some(b't') => self.literal("true")?,
                Some(b'f') => self.literal("false")?,
                Some(b'n') => self.literal("null")?,
                _ => return Err(self.stop(self.i, Place)),
            }
            first = false;
            while !key {
                self.space(comments)?;
                let Some(&close) = open.last() else {
                    return match self.peek() {
                        None => Ok(()),
                        _ => Err(self.stop(self.i, Place)),
                    };
                };
                match self.peek() {
                    Some(b',') => {
                        self.i += 1;
                        if close == b']' {
                            continue 'value;
                        }
                        self.space(comments)?;
                        key = true
                    }
                    Some(b) if b == close => {
                        self.i += 1;
                        open.pop();
                    }
                    _ => return Err(self.stop(self.i, Place)),
                }
            }
            match self.peek() {
                Some(b'"') => self.i += 1,
                _ => return Err(self.stop(self.i, Place)),
            }
            self.string()?;
            self.space(comments)?;
            match self.peek() {
                Some(b':') => self.i += 1,
                _ => return Err(self.stop(self.i, Place)),
            }
        }
    }
}
fn scan<S: Source>(text: S, comments: bool) -> Scan {
    match (Scanner { text, i: 0 }).document(comments) {
        Ok(()) => Scan::Whole,
        Err(s) => s,
    }
}
/// Reads a document of any form: skipped (0), by its type (1), behind a request for an entry which
/// is not there (2), with a request for an entry (3).
fn read<R: TextReader>(r: R, comments: bool, how: usize) -> Result<(), DeserializeError<R::Position>> {
    let config = if comments { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    let mut d = TextDeserializer::new(config, r)?;
    Value::with(&mut d, |v| match how {
        1 => v.get::<Dyn>().map(drop),
        2 | 3 if v.ty() == ValueType::Object => {
            let mut o = v.into_object()?;
            if let Some(v) = o.try_entry(if how == 2 { "not there" } else { "a\u{e9}" })? {
                v.skip()?
            }
            while let Some(e) = o.next_entry()? {
                e.value()?.skip()?
            }
            Ok(())
        }
        _ => v.skip(),
    })?;
    d.close()
}
fn reason(m: &DeserializeErrorMessage, cut: bool, within: Within) -> bool {
    use DeserializeErrorMessage::*;
    match m {
        UnexpectedEof => cut,
        InvalidLiteral => within == Literal,
        UnrecognizedEscape => within == Pair || within == Escape && !cut,
        Expected(_) => !cut && (within == Place || within == Number),
        UnexpectedChar => !cut && (within == Place || within == Text || within == Comment || within == Number),
        _ => false,
    }
}
/// The line and column of an offset.
fn place<S: Source>(text: &S, at: usize) -> LineColumnPosition {
    let mut p = LineColumnPosition { line: 0, column: 0 };
    for i in 0..at {
        match text.get(i) {
            Some(b'\n') => {
                p.line += 1;
                p.column = 0
            }
            Some(b'\r') => {}
            Some(b'\t') => p.column += 4,
            Some(b) if b & 0xC0 == 0x80 => {}
            _ => p.column += 1,
        }
    }
    p
}
fn judge<P: Ord>(got: Result<(), DeserializeError<P>>, want: Scan, place: impl Fn(usize) -> P) {
    match (got, want) {
        (Ok(()), Scan::Whole) => cover(3),
        (Ok(()), _) => fail("a document which is not JSON is an error"),
        (Err(_), Scan::Whole) => fail("a document which is JSON is none"),
        (Err(e), Scan::Broken { from, at, within }) => {
            check(reason(e.message(), false, within), "what breaks the document is what the error says");
            check(*e.position() >= place(from), "the error is not before the part which is broken");
            check(*e.position() <= place(at), "the error is not behind what breaks the document");
            observe(at as u64);
            cover(1)
        }
        (Err(e), Scan::Cut { from, end, within }) => {
            check(reason(e.message(), true, within), "a document which is cut short is an unexpected end");
            check(*e.position() >= place(from), "the error is not before the part which is cut short");
            check(*e.position() <= place(end), "the error is not behind the end");
            observe(end as u64);
            cover(2)
        }
    }
}
fn feed_for(how: usize) -> Feed {
    match how {
        2 => around("{\"x\":", ""),
        _ => around("", ""),
    }
}
entries! {
    // how it is read, what the document is made of, number of parts, how it starts, comments
    h_c22_stream => {
        let f = feed_for(param(0));
        let comments = param(4) == 1;
        let got = read(f.reader(), comments, param(0));
        let want = scan(&f, comments);
        judge(got, want, |at| place(&&f, at))
    },
    // the same, from a string
    h_c22_string => {
        let f = feed_for(param(0));
        let comments = param(4) == 1;
        let mut n = 0;
        while f.at(n).is_some() {
            n += 1;
        }
        let t = ascii_text(f.text.borrow().clone());
        let got = read(&t[..], comments, param(0));
        let want = scan(t.as_bytes(), comments);
        judge(got, want, |at| (&t[at..]).position())
    },
}
