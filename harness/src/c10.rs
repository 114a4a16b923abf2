//! C10: optional values are never confused with their contents.
use crate::any::*;
use crate::docs::*;
use crate::json::Tree;
use crate::model::*;
use crate::sym::*;
use crate::mock::Log;
use crate::writes::same_bytes;
use serdere::{Deserialize, Serialize, Value};
use serdere_json::*;
use std::num::*;

#[derive(Serialize, Deserialize)]
pub struct Opts {
    pub a: Option<bool>,
    pub b: Option<Option<u8>>,
    #[serde(rename = "has_value")]
    pub c: Option<()>,
}
impl Denote for Opts {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Obj(_) => Some(Opts { a: field(t, "a")?, b: field(t, "b")?, c: field(t, "has_value")? }),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.a.same(&o.a) & self.b.same(&o.b) & self.c.same(&o.c)
    }
    fn observe(&self) {}
}
impl Nullable for Opts {}
impl Any for Opts {
    fn any(s: Size) -> Self {
        Opts { a: Any::any(s), b: Any::any(s), c: Any::any(s) }
    }
}
/// Fields of simple optional types may be missing.
#[derive(Serialize, Deserialize)]
pub struct Simple {
    pub a: Option<bool>,
    pub b: Option<String>,
    pub c: Option<Vec<Option<bool>>>,
}
impl Denote for Simple {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Obj(es) => {
                for i in 0..es.len() {
                    for j in 0..i {
                        assume(!same_text(&es[i].0, &es[j].0));
                    }
                }
                Some(Simple { a: field(t, "a")?, b: field(t, "b")?, c: field(t, "c")? })
            }
            Tree::Arr(v) if v.len() == 3 => Some(Simple { a: Denote::of(&v[0])?, b: Denote::of(&v[1])?, c: Denote::of(&v[2])? }),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.a.same(&o.a) & self.b.same(&o.b) & self.c.same(&o.c)
    }
    fn observe(&self) {}
}
impl Nullable for Simple {}
impl Any for Simple {
    fn any(s: Size) -> Self {
        Simple { a: Any::any(s), b: Any::any(s), c: Any::any(s) }
    }
}
impl Any for Color {
    fn any(_: Size) -> Self {
        [Color::Red, Color::Green, Color::Blue][choose(3)]
    }
}
impl Any for Shape {
    fn any(s: Size) -> Self {
        if choose(2) == 0 { Shape::Dot } else { Shape::Line { a: Any::any(s) } }
    }
}
const PARTS: &[&str] = &["{", "}", "\"has_value\":", "\"value\":", "true", "false", "null", ",", "[", "]"];
const PARTS2: &[&str] = &["\"a\":", "\"b\":", "\"c\":", "null", "true", "\"\"", "[]", ",", "}", "[null]"];
fn reads<T: Denote + for<'a> Deserialize<serdere_json::TextDeserializer<serdere::Utf8Reader<FeedReader<'a>>>>>() {
    let (before, after) = if param(3) == 0 { ("", "") } else { ("{\"x\":", "}") };
    let start = if param(2) == 0 { "" } else { "{" };
    let f = Feed::from(&[before, start].concat(), Kind::Tokens(if param(2) == 0 { PARTS } else { PARTS2 }), param(1)).ending(after);
    let got = run_at::<T>(&f, param(3));
    let tree = match crate::json::parse_with(&f, false) {
        Some(Tree::Obj(mut es)) if param(3) == 1 => if es.len() == 1 { Some(es.pop().unwrap().1) } else { None },
        t => t,
    };
    let want = match &tree {
        Some(t) => {
            distinct(t);
            T::of(t)
        }
        None => None,
    };
    match (got, want) {
        (Some(a), Some(b)) => {
            cover(1);
            check(a.same(&b), "the value read is the one the document denotes")
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("a document which denotes no such value is an error"),
        (None, Some(_)) => fail("a document which denotes such a value is read"),
    }
}
/// Objects with repeated keys denote no particular value.
fn distinct(t: &Tree) {
    match t {
        Tree::Obj(es) => {
            for i in 0..es.len() {
                for j in 0..i {
                    if same_text(&es[i].0, &es[j].0) {
                        end()
                    }
                }
                distinct(&es[i].1)
            }
        }
        Tree::Arr(v) => v.iter().for_each(distinct),
        _ => (),
    }
}
/// Whether a type has a null value is seen in every way its optional values are written and read.
macro_rules! contents {
    ($($i:literal => $t:ty: $v:expr;)*) => {
        const CONTENTS: usize = [$($i),*].len();
        fn content(which: usize) {
            match which {
                $($i => {
                    #[derive(Serialize, Deserialize)]
                    struct Both {
                        a: Option<$t>,
                        b: Option<Option<$t>>,
                    }
                    content_is(|| -> $t { $v }, |x: &Both| (&x.a, &x.b), |a, b| Both { a, b });
                })*
                _ => fail("unreachable"),
            }
        }
    };
}
fn content_is<T, B>(v: impl Fn() -> T, parts: impl Fn(&B) -> (&Option<T>, &Option<Option<T>>), make: impl Fn(Option<T>, Option<Option<T>>) -> B)
where
    T: Serialize<TextSerializer<String>> + Serialize<Log> + Deserialize<Log> + for<'a> Deserialize<TextDeserializer<&'a str>>,
    B: Serialize<TextSerializer<String>> + for<'a> Deserialize<TextDeserializer<&'a str>>,
{
    let v = v();
    let plain = written(&v, None);
    let v = Some(v);
    let like = |x: &Option<T>, there: bool| match x {
        Some(x) => there && same_bytes(written(x, None).as_bytes(), plain.as_bytes()),
        None => !there,
    };
    check(same_bytes(written(&v, None).as_bytes(), plain.as_bytes()), "a present value is written as its content");
    check(same_bytes(written(&None::<T>, None).as_bytes(), b"null"), "an absent value is written as null");
    for there in [true, false] {
        let text = if there { &plain[..] } else { "null" };
        match from_str::<Option<T>>(text) {
            Ok(x) => check(like(&x, there), "an optional value is read back"),
            Err(_) => fail("an optional value is read back"),
        }
        match ahead::<Option<T>, _>(&["{\"x\":", text, "}"].concat()[..]) {
            Some(x) => check(like(&x, there), "an optional value is read back ahead"),
            None => fail("an optional value is read back ahead"),
        }
    }
    // the formats without nulls, too
    let format = choose(4);
    let (nulls, sized) = (format & 1 == 1, format & 2 == 2);
    let again = |x: &Option<T>| {
        let mut log = Log::new(nulls);
        if Value::with(&mut log, |l| l.put(x)).is_err() {
            fail("the value can be written in another format")
        }
        log.rewind();
        log.sized = sized;
        match Value::with(&mut log, |l| l.get::<Option<T>>()) {
            Ok(y) => check(like(&y, x.is_some()) & (log.at == log.events.len()), "the value is read back in another format"),
            Err(_) => fail("the value is read back in another format"),
        }
    };
    again(&v);
    again(&None);
    // an optional and a doubly optional field
    let b = match choose(3) {
        0 => None,
        1 => Some(None),
        _ => match from_str::<T>(&plain) {
            Ok(x) => Some(Some(x)),
            Err(_) => fail("a value is read back"),
        },
    };
    let level = (b.is_some(), matches!(b, Some(Some(_))));
    let a = choose(2) == 1;
    let text = written(&make(if a { v } else { None }, b), None);
    observe_bytes(text.as_bytes());
    let text = if a { text } else { text.replace("\"a\": null, ", "") };
    match from_str::<B>(&text) {
        Ok(x) => {
            let (x, y) = parts(&x);
            check(like(x, a), "an optional field is read back, or missing");
            let l = (y.is_some(), matches!(y, Some(Some(_))));
            check(l == level, "a doubly optional field is read back");
            if let Some(Some(y)) = y {
                check(same_bytes(written(y, None).as_bytes(), plain.as_bytes()), "so is its content")
            }
        }
        Err(_) => fail("optional fields are read back, or missing"),
    }
    cover(1);
}
fn digit() -> u8 {
    range(1, 9) as u8
}
#[derive(Serialize, Deserialize)]
pub struct Unit;
#[derive(Serialize, Deserialize)]
#[serde(tag = "has_value")]
pub enum Wraps {
    #[serde(transparent)]
    One { value: Flat },
    Two { value: Option<()> },
}
#[derive(Serialize, Deserialize)]
pub struct Flat {
    #[serde(flatten)]
    value: Unit,
    #[serde(default)]
    value2: Option<Option<bool>>,
}
contents! {
    0 => bool: flag();
    1 => i8: -(digit() as i8);
    2 => i16: -(digit() as i16);
    3 => i32: -(digit() as i32);
    4 => i64: -(digit() as i64);
    5 => u8: digit() - 1;
    6 => u16: digit() as u16 - 1;
    7 => u32: digit() as u32 - 1;
    8 => u64: digit() as u64 - 1;
    9 => f32: 0.5;
    10 => f64: -0.0;
    11 => char: scalar();
    12 => String: String::any(Size { items: 0, chars: 1, rich: true });
    13 => (): ();
    14 => (bool, u8): (flag(), 1);
    15 => (Option<()>, (), Option<bool>): (None, (), None);
    16 => [u8; 0]: [];
    17 => [Option<()>; 1]: [None];
    18 => [bool; 2]: [flag(), flag()];
    19 => Vec<Option<bool>>: if choose(2) == 0 { Vec::new() } else { vec![None] };
    20 => Vec<()>: Vec::new();
    21 => NonZeroI8: match NonZeroI8::new(digit() as i8) { Some(x) => x, None => fail("unreachable") };
    22 => NonZeroI16: match NonZeroI16::new(digit() as i16) { Some(x) => x, None => fail("unreachable") };
    23 => NonZeroI32: match NonZeroI32::new(digit() as i32) { Some(x) => x, None => fail("unreachable") };
    24 => NonZeroI64: match NonZeroI64::new(digit() as i64) { Some(x) => x, None => fail("unreachable") };
    25 => NonZeroU8: match NonZeroU8::new(digit()) { Some(x) => x, None => fail("unreachable") };
    26 => NonZeroU16: match NonZeroU16::new(digit() as u16) { Some(x) => x, None => fail("unreachable") };
    27 => NonZeroU32: match NonZeroU32::new(digit() as u32) { Some(x) => x, None => fail("unreachable") };
    28 => NonZeroU64: match NonZeroU64::new(digit() as u64) { Some(x) => x, None => fail("unreachable") };
    29 => Unit: Unit;
    30 => Color: Color::any(Size { items: 0, chars: 0, rich: false });
    31 => Shape: Shape::any(Size { items: 0, chars: 0, rich: false });
    32 => Wraps: if choose(2) == 0 { Wraps::One { value: Flat { value: Unit, value2: Some(Some(true)) } } } else { Wraps::Two { value: None } };
    33 => Flat: Flat { value: Unit, value2: if choose(2) == 0 { None } else { Some(None) } };
    34 => [Vec<[(); 0]>; 1]: [Vec::new()];
}

entries! {
    // first and last type of content
    h_c10_content => {
        let (a, b) = (param(0), param(1));
        check(b < CONTENTS, "there is such a type");
        content(a + choose(b - a + 1));
    },
    // type, number of items, of characters, whether characters and numbers are arbitrary
    h_c10_rt => {
        let s = Size { items: param(1), chars: param(2), rich: param(3) == 1 };
        match param(0) {
            0 => round_trip::<Option<bool>>(s),
            1 => round_trip::<Option<Option<bool>>>(s),
            2 => round_trip::<Option<Option<Option<u8>>>>(s),
            3 => round_trip::<Option<()>>(s),
            4 => round_trip::<Option<Option<()>>>(s),
            5 => round_trip::<Option<String>>(s),
            6 => round_trip::<Option<Vec<Option<u8>>>>(s),
            7 => round_trip::<Vec<Option<Option<bool>>>>(s),
            8 => round_trip::<Option<(Option<bool>, Option<()>)>>(s),
            9 => round_trip::<Option<[Option<Option<u8>>; 2]>>(s),
            10 => round_trip::<Option<Opts>>(s),
            11 => round_trip::<Option<Option<Simple>>>(s),
            12 => round_trip::<Option<Color>>(s),
            13 => round_trip::<Option<Option<Shape>>>(s),
            14 => round_trip::<Option<Option<Option<Option<Option<bool>>>>>>(s),
            15 => round_trip::<Option<char>>(s),
            16 => round_trip::<(Option<i64>, Option<Option<u16>>, Option<i8>)>(s),
            17 => round_trip::<Vec<Option<Vec<Option<()>>>>>(s),
            18 => round_trip::<Simple>(s),
            _ => round_trip::<Opts>(s),
        }
    },
    // type, number of parts, which parts, read ahead
    h_c10_read => {
        match param(0) {
            0 => reads::<Option<bool>>(),
            1 => reads::<Option<Option<bool>>>(),
            2 => reads::<Option<Option<Option<bool>>>>(),
            3 => reads::<Option<()>>(),
            4 => reads::<Option<Vec<Option<bool>>>>(),
            5 => reads::<Simple>(),
            6 => reads::<Option<Simple>>(),
            _ => reads::<Option<Option<()>>>(),
        }
    },
}
