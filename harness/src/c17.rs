//! C17: errors point at the offending value, or at the container which lacks or exceeds something.
use crate::docs::*;
use crate::sym::*;
use serdere::{FixedNameMap, LineColumnPosition, NameMap, TextReader, Utf8Reader, Value};
use serdere_json::*;
use serdere::{Deserializer, Outliner};
use std::num::*;

pub static TABLE: FixedNameMap<usize, 2> = FixedNameMap::new([("a", 0), ("no", 1)]);
pub const NAMES: &NameMap<usize> = TABLE.unfix();

#[derive(Debug)]
pub struct Invalid;
impl std::fmt::Display for Invalid {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Invalid {}

#[derive(Clone, Copy)]
pub enum Step {
    /// an item of an array, after so many others
    Item(usize),
    /// an element of an array read as a tuple
    Element(usize),
    /// an entry of an object: requested by name (0), after everything was read ahead (1), reached
    /// by iteration (2), as the field of a struct (3), of a struct in another order (4)
    Entry(usize),
    /// the field of a struct given as an array
    Nth(usize),
}
use Step::*;
struct Text {
    v: Vec<u8>,
    /// whether to put arbitrary whitespace everywhere (and how much)
    gaps: usize,
    /// whether what comes before is arbitrary
    rich: usize,
    after: Vec<&'static str>,
}
impl Text {
    fn put(&mut self, s: &str) {
        self.v.extend_from_slice(s.as_bytes())
    }
    fn gap(&mut self) {
        if self.gaps > 0 {
            let n = choose(3);
            if n > 0 {
                self.gaps -= 1;
                self.v.push(pick(b" \t\n\r"));
                if n > 1 {
                    self.v.push(pick(b" \t\n\r"));
                }
            }
        }
    }
    /// A value which comes before.
    fn other(&mut self) {
        match choose(1 + self.rich) {
            0 => self.put("7"),
            1 => self.put("[\"\\u00e9\", {}]"),
            2 => self.put("{\"x\":\n{\"y\": -1.5}}"),
            _ => {
                self.put("\"");
                let c = scalar();
                if (c as u32) < 32 || c == '"' || c == '\\' {
                    end()
                }
                let mut b = [0; 4];
                let s = c.encode_utf8(&mut b);
                self.v.extend_from_slice(s.as_bytes());
                self.put("\"")
            }
        }
    }
    fn open(&mut self, s: Step) {
        match s {
            Item(n) | Element(n) | Nth(n) => {
                self.put("[");
                self.gap();
                for _ in 0..n {
                    self.other();
                    self.gap();
                    self.put(",");
                    self.gap();
                }
                self.after.push(if choose(2) == 0 { "]" } else { ", null]" });
            }
            Entry(_) => {
                self.put("{");
                self.gap();
                if choose(2) == 1 {
                    self.put("\"w\u{20ac}\":");
                    self.other();
                    self.put(",");
                    self.gap();
                }
                self.put("\"x\"");
                self.gap();
                self.put(":");
                self.gap();
                self.after.push(if choose(2) == 0 { "}" } else { ", \"z\": [{\"x\":1}]}" });
            }
        }
    }
}
fn step(depth: usize) -> Step {
    match choose(if depth == 0 { 8 } else { 6 }) {
        0 => Item(choose(2)),
        1 => Entry(0),
        2 => Entry(1),
        3 => Entry(2),
        4 => Entry(3),
        5 => Element(choose(2)),
        6 => Entry(4),
        _ => Nth(choose(2)),
    }
}
/// Follows a path to the offending value.
fn follow<D: JsonDeserializer>(v: Value<D>, path: &[Step], f: &mut dyn FnMut(Value<D>) -> Result<(), D::Error>) -> Result<(), D::Error> {
    let Some((s, path)) = path.split_first() else { return f(v) };
    match *s {
        Item(n) => {
            let mut l = v.into_list()?;
            for _ in 0..n {
                match l.next()? {
                    Some(v) => v.skip()?,
                    None => fail("an array has its items"),
                }
            }
            match l.next()? {
                Some(v) => follow(v, path, f),
                None => fail("an array has its items"),
            }
        }
        Element(n) => {
            let mut t = v.into_tuple(None)?;
            for _ in 0..n {
                t.element()?.skip()?
            }
            follow(t.element()?, path, f)
        }
        Nth(n) => {
            let mut t = v.into_struct(None)?;
            for _ in 0..n {
                t.field("w")?.skip()?
            }
            follow(t.field("x")?, path, f)
        }
        Entry(k @ (3 | 4)) => {
            let mut t = v.into_struct(None)?;
            if k == 4 && t.field("not there")?.get::<Option<bool>>()?.is_some() {
                fail("there is no such field")
            }
            follow(t.field("x")?, path, f)
        }
        Entry(2) => {
            let mut o = v.into_object()?;
            while let Some(mut e) = o.next_entry()? {
                let is = e.key()? == "x";
                if is {
                    return follow(e.value()?, path, f);
                }
                e.value()?.skip()?
            }
            fail("an object has its entries")
        }
        Entry(k) => {
            let mut o = v.into_object()?;
            if k == 1 && o.try_entry("not there")?.is_some() {
                fail("there is no such entry")
            }
            follow(o.entry("x")?, path, f)
        }
    }
}
/// Ways to read a value.
const READS: usize = 22;
fn read<D: JsonDeserializer>(v: Value<D>, how: usize) -> Result<(), D::Error> {
    match how {
        0 => v.get_bool().map(drop),
        1 => v.get_u8().map(drop),
        2 => v.get_i8().map(drop),
        3 => v.get_u16().map(drop),
        4 => v.get_i16().map(drop),
        5 => v.get_u32().map(drop),
        6 => v.get_i32().map(drop),
        7 => v.get_u64().map(drop),
        8 => v.get_i64().map(drop),
        9 => v.get_f32().map(drop),
        10 => v.get_f64().map(drop),
        11 => v.get_char().map(drop),
        12 => v.get_str().map(drop),
        13 => v.get_tag(1, NAMES).map(drop),
        14 => v.into_list().map(drop),
        15 => v.into_struct(None).map(drop),
        16 => v.into_tuple(None).map(drop),
        17 => v.into_object().map(drop),
        18 => v.into_null(),
        19 => v.get::<Option<NonZeroU8>>().map(drop),
        20 => v.get::<NonZeroI32>().map(drop),
        _ => v.into_collection().map(drop),
    }
}
/// The types which reading in this way accepts.
pub fn accepts(how: usize) -> &'static [ValueType] {
    use ValueType::*;
    match how {
        0 => &[Bool],
        1..=10 | 20 => &[Number],
        11 | 12 => &[String],
        13 => &[String, Number],
        14 | 16 => &[Array],
        15 | 21 => &[Array, Object],
        17 => &[Object],
        18 => &[Null],
        _ => &[Number, Null],
    }
}
const VALUES: [(ValueType, &str); 10] = [
    (ValueType::Null, "null"),
    (ValueType::Bool, "true"),
    (ValueType::Bool, "false"),
    (ValueType::Number, "0"),
    (ValueType::Number, "-1.5e+1"),
    (ValueType::String, "\"\""),
    (ValueType::String, "\"\\n\u{e9}\""),
    (ValueType::Array, "[]"),
    (ValueType::Array, "[1, \"\\n\", [1]]"),
    (ValueType::Object, "{}"),
];
/// Numbers out of range or not integers, with the ways to read a number which reject them.
const NUMBERS: [(&str, &[usize]); 9] = [
    ("256", &[1, 2, 19]),
    ("-1", &[1, 3, 5, 7, 13, 19]),
    ("65536", &[1, 2, 3, 4, 13, 19]),
    ("1.5", &[1, 2, 3, 4, 5, 6, 7, 8, 13, 19, 20]),
    ("4294967296", &[1, 2, 3, 4, 5, 6, 13, 19, 20]),
    ("18446744073709551616", &[1, 2, 3, 4, 5, 6, 7, 8, 13, 19, 20]),
    ("1e2000000000000000", &[1, 2, 3, 4, 5, 6, 7, 8, 13, 19, 20]),
    ("2", &[13]),
    ("0", &[19, 20]),
];
const STRINGS: [(&str, usize); 5] = [("\"\"", 11), ("\"ab\"", 11), ("\"\\u00e9 \"", 11), ("\"b\"", 13), ("\"\"", 13)];

/// Containers which lack or exceed something, and how they are read.
const PARTS: [(&str, usize); 30] = [
    ("{}", 0),
    ("{\"a\":1 }", 0),
    ("{\"a\":{\"x\":1}}", 1),
    ("{ }", 2),
    ("{\"a\":[1]}", 2),
    ("{\"a\":1}", 3),
    ("{\"b\":[2],\"a\":1}", 3),
    ("[]", 4),
    ("[ ]", 5),
    ("[1]", 6),
    ("[[1],2]", 7),
    ("[1 ,2,3]", 8),
    ("[1]", 8),
    ("[]", 8),
    ("[ 1,\n{}]", 9),
    ("[]", 9),
    ("[true]", 10),
    ("[true,1,2]", 10),
    ("{\"b\":1}", 10),
    ("{}", 10),
    ("{\"type\":\"Line\"}", 11),
    ("[\"Line\"]", 11),
    ("[\"Dot\",0]", 11),
    ("{\"a\":1}", 11),
    ("[[]]", 12),
    ("[1,[2]]", 13),
    ("{}", 14),
    ("{\"a\":{}}", 15),
    ("{\"a\":\"\"}", 16),
    ("[{\"a\":\"\"},2]", 17),
];
fn part<D: JsonDeserializer>(v: Value<D>, how: usize) -> Result<(), D::Error> {
    match how {
        // a missing entry or field
        0 => v.into_object()?.entry("x").map(drop),
        1 => {
            let mut o = v.into_object()?;
            let mut i = o.entry("a")?.into_object()?;
            i.entry("x")?.get_u8()?;
            i.close()?;
            o.entry("x").map(drop)
        }
        2 => v.into_struct(None)?.field("x")?.get_bool().map(drop),
        // an extra entry
        3 => {
            let mut o = v.into_object()?;
            if let Some(v) = o.try_entry("b")? {
                v.skip()?
            }
            o.close()
        }
        // missing items
        4 => v.into_list()?.push().map(drop),
        5 => v.into_tuple(None)?.element().map(drop),
        6 => {
            let mut s = v.into_struct(None)?;
            s.field("x")?.get_u8()?;
            s.field("y").map(drop)
        }
        // extra items
        7 => {
            let mut s = v.into_struct(None)?;
            s.field("x")?.skip()?;
            s.close()
        }
        8 => v.get::<(u8, u8)>().map(drop),
        9 => v.get::<[u8; 1]>().map(drop),
        10 => v.get::<Pair>().map(drop),
        11 => v.get::<Shape>().map(drop),
        12 => v.get::<()>().map(drop),
        13 => {
            let mut l = v.into_list()?;
            if let Some(v) = l.next()? {
                v.skip()?
            }
            l.close()
        }
        14 => v.get::<Option<Option<u8>>>().map(drop),
        // what is missing, and taken as null, is not valid
        15 => {
            let mut s = v.into_struct(None)?;
            s.field("x")?.validate_with(|v| v.get::<Option<u8>>().map(|_| Err::<(), _>(Invalid)))
        }
        16 => {
            let mut s = v.into_struct(None)?;
            s.field("a")?.skip()?;
            s.field("x")?.into_list().map(drop)
        }
        _ => {
            let mut t = v.into_tuple(None)?;
            let mut o = t.element()?.into_object()?;
            o.entry("a")?.get_str()?;
            o.close()?;
            t.close()
        }
    }
}
/// Values which are read, and found not to be valid.
const REJECTED: [(&str, usize); 22] = [
    ("7", 0),
    ("true", 1),
    ("\"a\u{e9}\"", 2),
    ("\"a\"", 3),
    ("1", 4),
    ("null", 5),
    ("[1,2]", 6),
    ("[ 1,2]", 7),
    ("{\"a\":true,\"c\":[1]}", 8),
    ("[true,1]", 8),
    ("{\"a\":true,\"c\":[1]}", 9),
    ("[[],1]", 9),
    ("\"\\n\"", 9),
    ("-1.5", 9),
    ("{\"a\":[true,\"\\n\",[1]]}", 10),
    ("\"Red\"", 11),
    ("0", 11),
    ("{\"type\":\"Line\",\"a\":1}", 12),
    ("{}", 13),
    ("{\"a\":\"\"}", 14),
    ("\"ab\"", 15),
    ("null", 16),
];
fn reject<D: JsonDeserializer>(v: Value<D>, how: usize) -> Result<(), D::Error> {
    v.validate_with(|v| {
        match how {
            0 => v.get_u8().map(drop),
            1 => v.get_bool().map(drop),
            2 => v.get_str().map(drop),
            3 => v.get_char().map(drop),
            4 => v.get_f32().map(drop),
            5 => v.get::<Option<u8>>().map(drop),
            6 => v.get::<Vec<u8>>().map(drop),
            7 => v.get::<(u8, u8)>().map(drop),
            8 => v.get::<Pair>().map(drop),
            9 => v.skip(),
            10 => v.get::<crate::model::Dyn>().map(drop),
            11 => v.get::<Color>().map(drop),
            12 => v.get::<Shape>().map(drop),
            13 => v.get::<()>().map(drop),
            14 => {
                let mut o = v.into_object()?;
                while let Some(e) = o.next_entry()? {
                    e.value()?.skip()?
                }
                Ok(())
            }
            15 => {
                let (d, done) = v.into_raw();
                d.open_str()?;
                while d.next_char()?.is_some() {}
                *done = true;
                Ok(())
            }
            _ => v.into_null(),
        }?;
        Ok(Err(Invalid))
    })
}
fn offend<D: JsonDeserializer>(v: Value<D>, mode: usize, how: usize) -> Result<(), D::Error> {
    match mode {
        0 | 1 => read(v, how),
        2 => part(v, how),
        _ => reject(v, how),
    }
}
pub fn run<R: TextReader>(r: R, path: &[Step], mode: usize, how: usize) -> DeserializeError<R::Position>
where
    R::Position: Clone,
{
    let mut d = match TextDeserializer::new(TextDeserializerConfig::strict(), r) {
        Ok(d) => d,
        Err(_) => fail("the document is accepted"),
    };
    let r = Value::with(&mut d, |v| follow(v, path, &mut |v| offend(v, mode, how)));
    match r {
        Ok(()) => fail("an offending value is an error"),
        Err(e) => e,
    }
}
/// The line and column of an offset.
pub fn place(text: &[u8], at: usize) -> LineColumnPosition {
    let mut p = LineColumnPosition { line: 0, column: 0 };
    for b in &text[..at] {
        match *b {
            b'\n' => {
                p.line += 1;
                p.column = 0
            }
            b'\r' => {}
            b'\t' => p.column += 4,
            b if b & 0xC0 == 0x80 => {}
            _ => p.column += 1,
        }
    }
    p
}
pub fn is_of(ty: ValueType, set: &[ValueType]) -> bool {
    set.iter().any(|t| *t == ty)
}
/// A document with an offending value.
pub struct Case {
    pub text: String,
    /// where the offending value is, what it is, how it is reached and read
    pub at: usize,
    pub what: &'static str,
    pub ty: Option<ValueType>,
    pub path: Vec<Step>,
    pub how: usize,
}
/// What offends (0 a type, 1 a range, 2 a part, 3 validity), depth, amount of whitespace, kinds of
/// what comes before, whitespace far ahead.
pub fn case(mode: usize, depth: usize, gaps: usize, rich: usize, far: usize) -> Case {
    let mut t = Text { v: Vec::new(), gaps, rich, after: Vec::new() };
    let mut path = Vec::new();
    if far > 0 {
        let c = [" ", "\n"][choose(2)];
        for _ in 0..far { t.put(c) }
    }
    t.gap();
    for i in 0..depth {
        let s = step(i);
        t.open(s);
        path.push(s);
    }
    let at = t.v.len();
    let mut ty = None;
    let (what, how) = match mode {
        0 => {
            let how = choose(READS);
            let ok = accepts(how);
            let bad: Vec<(ValueType, &str)> = VALUES.iter().filter(|v| !is_of(v.0, ok)).copied().collect();
            let (t, s) = bad[choose(bad.len())];
            ty = Some(t);
            (s, how)
        }
        1 if choose(2) == 0 => {
            let (s, hows) = NUMBERS[choose(NUMBERS.len())];
            (s, hows[choose(hows.len())])
        }
        1 => STRINGS[choose(STRINGS.len())],
        2 => PARTS[choose(PARTS.len())],
        _ => REJECTED[choose(REJECTED.len())],
    };
    t.put(what);
    while let Some(s) = t.after.pop() {
        t.gap();
        t.put(s);
    }
    Case { text: ascii_text(t.v), at, what, ty, path, how }
}
#[cfg(not(feature = "c23"))]
entries! {
    // params: what offends (0 a type, 1 a range, 2 a part, 3 validity), depth, amount of
    // whitespace, kinds of what comes before, streamed
    h_c17_positions => {
        let mode = param(0);
        let Case { text, at, path, how, .. } = case(mode, param(1), param(2), param(3), param(5));
        if param(4) == 1 {
            let r = match Utf8Reader::new(text.as_bytes()) {
                Ok(r) => r,
                Err(_) => fail("the document is valid UTF-8"),
            };
            let e = run(r, &path, mode, how);
            let want = place(text.as_bytes(), at);
            check(e.position().line == want.line, "the error is on the line of what offends");
            check(e.position().column == want.column, "the error is at the column of what offends");
            observe(want.line as u64);
        } else {
            let e = run(&text[..], &path, mode, how);
            check(*e.position() == (&text[at..]).position(), "the error is at the position of what offends");
        }
        cover(1);
        observe_bytes(text.as_bytes());
    }
}
#[cfg(feature = "c23")]
pub const ENTRIES: &[crate::Entry] = &[];
