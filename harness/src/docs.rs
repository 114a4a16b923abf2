//! The kinds of documents and target types which several checks share.
use crate::json;
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, Deserializer, Serialize, Value};

/// A number read as a floating-point number (which one is C18's question).
pub struct Float;
impl<D: Deserializer + ?Sized, C: ?Sized> Deserialize<D, C> for Float {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut C) -> Result<Self, D::Error> {
        value.get_f64()?;
        Ok(Float)
    }
}
impl Denote for Float {
    fn of(t: &json::Tree) -> Option<Self> {
        match t {
            json::Tree::Num(_) => Some(Float),
            _ => None,
        }
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn observe(&self) {}
}
#[derive(Serialize, Deserialize)]
pub struct Pair {
    pub a: bool,
    pub b: Option<u8>,
}
impl Denote for Pair {
    fn of(t: &json::Tree) -> Option<Self> {
        match t {
            json::Tree::Obj(es) => {
                // (repeated keys denote no particular value)
                for i in 0..es.len() {
                    for j in 0..i {
                        assume(!same_text(&es[i].0, &es[j].0));
                    }
                }
                Some(Pair { a: field(t, "a")?, b: field(t, "b")? })
            }
            json::Tree::Arr(v) if v.len() == 2 => Some(Pair { a: bool::of(&v[0])?, b: <Option<u8>>::of(&v[1])? }),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.a == o.a && self.b.same(&o.b)
    }
    fn observe(&self) {}
}

pub struct Single;
impl<D: Deserializer + ?Sized, C: ?Sized> Deserialize<D, C> for Single {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut C) -> Result<Self, D::Error> {
        value.get_f32()?;
        Ok(Single)
    }
}
impl Denote for Single {
    fn of(t: &json::Tree) -> Option<Self> {
        match t {
            json::Tree::Num(_) => Some(Single),
            _ => None,
        }
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn observe(&self) {}
}
impl Denote for std::num::NonZeroI8 {
    fn of(t: &json::Tree) -> Option<Self> {
        std::num::NonZeroI8::new(i8::of(t)?)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn observe(&self) {
        observe(self.get() as u64)
    }
}
/// The variant a tag denotes: its name or its index.
pub fn tag_of(t: &json::Tree, names: &[(&str, u64)]) -> Option<u64> {
    match t {
        json::Tree::Str(s) => {
            for (n, i) in names {
                if is_key(s, n) {
                    return Some(*i);
                }
            }
            None
        }
        _ => {
            let x = u64::of(t)?;
            for (_, i) in names {
                if concretize((x == *i) as u64) == 1 {
                    return Some(*i);
                }
            }
            None
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
pub enum Color {
    Red,
    Green = 4,
    #[serde(rename = "blue")]
    Blue,
}
impl Denote for Color {
    fn of(t: &json::Tree) -> Option<Self> {
        Some(match tag_of(t, &[("Red", 0), ("Green", 4), ("blue", 5)])? {
            0 => Color::Red,
            4 => Color::Green,
            _ => Color::Blue,
        })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn observe(&self) {
        observe(*self as u64)
    }
}
#[derive(Serialize, Deserialize)]
pub enum Shape {
    Dot,
    Line { a: u8 },
}
impl Denote for Shape {
    fn of(t: &json::Tree) -> Option<Self> {
        let names = [("Dot", 0), ("Line", 1)];
        match t {
            json::Tree::Obj(es) => {
                for i in 0..es.len() {
                    for j in 0..i {
                        assume(!same_text(&es[i].0, &es[j].0));
                    }
                }
                let mut tag = None;
                for (k, v) in es {
                    if is_key(k, "type") {
                        tag = tag_of(v, &names);
                    }
                }
                Some(if tag? == 0 { Shape::Dot } else { Shape::Line { a: field(t, "a")? } })
            }
            json::Tree::Arr(v) => {
                if v.is_empty() {
                    return None;
                }
                match tag_of(&v[0], &names)? {
                    0 if v.len() == 1 => Some(Shape::Dot),
                    1 if v.len() == 2 => Some(Shape::Line { a: u8::of(&v[1])? }),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Shape::Dot, Shape::Dot) => true,
            (Shape::Line { a }, Shape::Line { a: b }) => a == b,
            _ => false,
        }
    }
    fn observe(&self) {}
}
pub const STRUCTURE: &[u8] = b"{}[],:\" 1t";
pub const NUMBERS: &[u8] = b"+-.eE \n";
pub const LITERALS: &[u8] = b"truefalsn ";
pub const ESCAPES: &[u8] = b"\"\\u/bfnrtD8c0";
pub const WORDS: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "true", "null", " "];
pub const WORDS2: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "0"];
pub const WORDS3: &[&str] = &["[", "]", ",", "{}", "-", "1", "\n", "0"];
pub const WORDS4: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "\"type\"", "\"Dot\"", "\"Line\"", "1", "true", "null"];
pub const COMMENTS: &[u8] = b"/*\n 1[],\"";
pub fn kind(k: usize) -> Kind {
    match k {
        0 => Kind::Ascii,
        1 => Kind::Scalar,
        2 => Kind::From(STRUCTURE),
        3 => Kind::Digits(NUMBERS),
        4 => Kind::From(LITERALS),
        5 => Kind::From(ESCAPES),
        6 => Kind::Tokens(WORDS),
        7 => Kind::Tokens(WORDS2),
        8 => Kind::Tokens(WORDS3),
        9 => Kind::Bytes,
        10 => Kind::Tokens(WORDS4),
        12 => Kind::From(b"/*\n:1}"),
        _ => Kind::From(COMMENTS),
    }
}
pub const PREFIXES: &[&str] = &["", "\"", "\"\\", "\"\\u", "[", "{\"", "{\"a\"", "{\"a\":", "[[", "-", "1.", "1e", "\"\\ud800", "[1,", "[\"", "/", "{\"type\":", "1e214748364", "-1e-214748364", "{\"b\":1e214748364", "{\"b\":0.1e-214748364", "[[[", "{\"b\":", "{\"a\":{\"a\":", "{\"b\":[{\"b\":", "{\"b\":\"", "1844674407370955161", "-922337203685477580", "0.000000000000000000000000000000", "1234567890123456789012345678901"];
pub fn feed() -> Feed {
    around("", "")
}
/// The document which the parameters 1 and 2 (and start) describe, between a and b.
pub fn around_from(a: &str, b: &'static str, start: usize) -> Feed {
    if param(1) >= 30 {
        let mut t = a.as_bytes().to_vec();
        big(&mut t, param(1), param(2));
        let f = Feed::new(Kind::Ascii, 0);
        f.text.replace(t);
        return f.ending(b);
    }
    let start = [a, PREFIXES[start]].concat();
    Feed::from(&start, kind(param(1)), param(2)).ending(b)
}
pub fn around(a: &str, b: &'static str) -> Feed {
    around_from(a, b, param(3))
}
/// One of the places in 0..n where things differ.
pub fn place_in(n: usize) -> usize {
    [0, 1, n / 2, n - 2, n - 1][choose(5)]
}
pub fn number(t: &mut Vec<u8>, mut i: usize) {
    let mut d = [0; 20];
    let mut k = 20;
    loop {
        k -= 1;
        d[k] = b'0' + (i % 10) as u8;
        i /= 10;
        if i == 0 {
            break;
        }
    }
    t.extend_from_slice(&d[k..]);
}
fn digit() -> u8 {
    range(48, 57) as u8
}
/// A value with n parts, one of them arbitrary; in one of four cases its last character is too.
pub fn big(t: &mut Vec<u8>, kind: usize, n: usize) {
    let at = place_in(n);
    match kind {
        30 => {
            t.push(b'"');
            for i in 0..n {
                if i == at {
                    let c = scalar();
                    t.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                } else {
                    t.extend_from_slice(["x", "\u{e9}", "\\n", "\u{1f600}", "\\u00e9", "\u{20ac}"][i % 6].as_bytes());
                }
            }
            t.push(b'"')
        }
        // an integer which is representable thanks to its exponent, or is not
        31 => {
            t.push(b'1');
            for i in 0..n {
                t.push(if i == at { digit() } else { b'0' });
            }
            t.extend_from_slice(b"e-");
            number(t, n - choose(2));
        }
        // digits behind the point
        32 => {
            t.extend_from_slice(b"-0.");
            for i in 0..n {
                t.push(if i == at { digit() } else { b'0' + (i % 10) as u8 });
            }
        }
        33 => {
            t.push(b'[');
            for i in 0..n {
                if i > 0 {
                    t.push(b',');
                }
                t.push(if i == at { digit() } else { b'0' + (i % 10) as u8 });
            }
            t.push(b']')
        }
        34 => {
            t.push(b'{');
            for i in 0..n {
                if i > 0 {
                    t.push(b',');
                }
                t.extend_from_slice(b"\"k");
                number(t, i);
                t.extend_from_slice(b"\":");
                if i == at {
                    t.push(digit())
                } else {
                    match i % 4 {
                        0 => number(t, i),
                        1 => t.extend_from_slice(b"\"v\""),
                        2 => t.extend_from_slice(b"[{},1]"),
                        _ => t.extend_from_slice(b"{\"k1\":null}"),
                    }
                }
            }
            t.push(b'}')
        }
        35 => {
            for _ in 0..n {
                t.push(b'[');
            }
            t.push(digit());
            for i in 0..n {
                if i == at {
                    t.push(b',');
                    t.push(digit());
                }
                t.push(b']');
            }
        }
        36 => {
            for i in 0..n {
                t.extend_from_slice(if i % 2 == 1 { b"[{\"a\":" } else { b"{\"b\":" });
            }
            t.push(digit());
            for i in 0..n {
                if i == at {
                    t.extend_from_slice(b",\"c\":");
                    t.push(digit());
                }
                t.push(b'}');
                if (n - 1 - i) % 2 == 1 {
                    t.push(b']');
                }
            }
        }
        // comments
        38 => {
            for k in 0..4 {
                t.push([b'[', b'7', b',', digit()][k]);
                let line = k % 2 == 1;
                t.extend_from_slice(if line { b"//" } else { b"/*" });
                for i in 0..n {
                    if i == at && k == at % 2 {
                        let c = scalar();
                        t.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                    } else {
                        t.extend_from_slice(["x", "*", "\u{e9}", "/", "\"", "\u{1f600}", "[", "**"][i % 8].as_bytes());
                    }
                }
                t.extend_from_slice(if line { b"\n" } else { b"*/" });
            }
            t.push(b']')
        }
        // whitespace
        _ => {
            for k in 0..4 {
                t.push([b'[', b'7', b',', digit()][k]);
                for i in 0..n {
                    t.push(if i == at && k == 1 { pick(b" \n\r\t\x0cx") } else { [b' ', b'\n', b'\r', b'\t'][i * 7 % 4] });
                }
            }
            t.push(b']')
        }
    }
    if choose(4) == 0 {
        let k = t.len() - 1;
        t[k] = ascii();
    }
}
#[macro_export]
macro_rules! types {
    ($f:ident, $t:expr) => {
        match $t {
            0 => $f::<Skip>(),
            1 => $f::<Dyn>(),
            2 => $f::<bool>(),
            3 => $f::<u8>(),
            4 => $f::<String>(),
            5 => $f::<char>(),
            6 => $f::<Option<bool>>(),
            7 => $f::<Vec<u8>>(),
            8 => $f::<(bool, u8)>(),
            9 => $f::<()>(),
            10 => $f::<Pair>(),
            11 => $f::<Float>(),
            12 => $f::<Vec<Option<bool>>>(),
            13 => $f::<[u8; 3]>(),
            14 => $f::<Vec<String>>(),
            15 => $f::<(Skip, Dyn, Skip)>(),
            16 => $f::<i64>(),
            17 => $f::<Single>(),
            18 => $f::<Option<Option<bool>>>(),
            19 => $f::<Vec<Pair>>(),
            20 => $f::<std::num::NonZeroI8>(),
            21 => $f::<Option<Pair>>(),
            22 => $f::<Color>(),
            23 => $f::<Shape>(),
            24 => $f::<Vec<Vec<()>>>(),
            25 => $f::<(u8, String, Vec<bool>)>(),
            _ => $f::<u64>(),
        }
    };
}

/// Reads the whole document (0), or the value of its entry "x", which is read ahead: its only
/// entry (1), or one of some (2).
pub fn run_at<T: for<'a> Deserialize<serdere_json::TextDeserializer<serdere::Utf8Reader<FeedReader<'a>>>>>(feed: &Feed, place: usize) -> Option<T> {
    use serdere_json::*;
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), feed.reader()).ok()?;
    let res = Value::with(&mut d, |v| {
        if place == 0 {
            return v.get::<T>().map(Some);
        }
        let mut o = v.into_object()?;
        if o.try_entry("not there")?.is_some() {
            fail("there is no entry of that name")
        }
        let res = match o.try_entry("x")? {
            None => None,
            Some(v) => Some(v.get::<T>()?),
        };
        if place == 1 {
            o.close()?;
            return Ok(res);
        }
        while let Some(e) = o.next_entry()? {
            e.value()?.skip()?
        }
        Ok(res)
    })
    .ok()?;
    d.close().ok()?;
    res
}
