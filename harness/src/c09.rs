//! C09: enum tags are matched exactly, by name or index.
use crate::docs::{kind, run_at};
use crate::json::{parse, Tree};
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, FixedNameMap, NameMap, Serialize, Value};
use serdere_json::*;

pub trait Variants: Sized {
    /// The declared names and indices.
    const DECLARED: &'static [(&'static str, u64)];
    fn nth(i: usize) -> Self;
    fn which(&self) -> usize;
}
macro_rules! declared {
    ($t:ident { $($v:ident $name:literal $index:literal)* }) => {
        impl Variants for $t {
            const DECLARED: &'static [(&'static str, u64)] = &[$(($name, $index)),*];
            fn nth(i: usize) -> Self { [$($t::$v),*][i] }
            fn which(&self) -> usize {
                let mut i = 0;
                $( if *self == $t::$v { return i } i += 1; )*
                i
            }
        }
    };
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
pub enum Plain {
    A,
    Ab,
    B,
}
declared!(Plain { A "A" 0 Ab "Ab" 1 B "B" 2 });
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
pub enum Odd {
    #[serde(rename = "")]
    Empty,
    Four = 7,
    Fourth,
    #[serde(reindex = 3)]
    Third,
    #[serde(rename = "\u{e9}\u{10ffff}")]
    Five,
    #[serde(rename = "Fo\"\\\n", reindex = 1)]
    Quoted,
    #[serde(rename = "Third!")]
    Sixth = 20,
    #[serde(rename = "7")]
    Seven,
}
declared!(Odd { Empty "" 0 Four "Four" 7 Fourth "Fourth" 8 Third "Third" 3 Five "\u{e9}\u{10ffff}" 10 Quoted "Fo\"\\\n" 1 Sixth "Third!" 20 Seven "7" 21 });
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
pub enum Only {
    One = 300,
}
declared!(Only { One "One" 300 });
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
pub enum Far {
    #[serde(rename = "big")]
    Big = 70000,
    #[serde(reindex = 0)]
    Low = 5,
    Next,
    #[serde(reindex = 4294967296)]
    Huge,
    Last,
}
declared!(Far { Big "big" 70000 Low "Low" 0 Next "Next" 6 Huge "Huge" 4294967296 Last "Last" 8 });
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
pub enum Many {
    Aa, Ab, Ac, Ad, Ba, Bb, Bc, Bd, Ca, Cb, Cc, Cd, Da, Db, Dc, Dd, Aaa, Bbb, Aab,
}
declared!(Many { Aa "Aa" 0 Ab "Ab" 1 Ac "Ac" 2 Ad "Ad" 3 Ba "Ba" 4 Bb "Bb" 5 Bc "Bc" 6 Bd "Bd" 7 Ca "Ca" 8 Cb "Cb" 9 Cc "Cc" 10 Cd "Cd" 11
    Da "Da" 12 Db "Db" 13 Dc "Dc" 14 Dd "Dd" 15 Aaa "Aaa" 16 Bbb "Bbb" 17 Aab "Aab" 18 });
/// Variants with fields, whose tag is a field.
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
#[repr(u8)]
#[serde(tag = "t\"")]
pub enum Tagged {
    X,
    #[serde(rename = "y y")]
    Y {
        x: u8,
    },
    Z {
        z: bool,
    } = 9,
    #[serde(transparent)]
    W(Content),
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
pub struct Content {
    c: Option<bool>,
}
pub struct Tags;
impl Tags {
    const DECLARED: &'static [(&'static str, u64)] = &[("X", 0), ("y y", 1), ("Z", 9), ("W", 10)];
}

fn is_name(k: &[u32], name: &str) -> bool {
    let n: Vec<u32> = name.chars().map(|c| c as u32).collect();
    k.len() == n.len() && (0..n.len()).all(|i| concretize((k[i] == n[i]) as u64) == 1)
}
/// Which of the declared variants a tag denotes.
fn denoted(t: &Tree, declared: &[(&str, u64)]) -> Option<usize> {
    match t {
        Tree::Str(s) => (0..declared.len()).find(|&i| is_name(s, declared[i].0)),
        _ => {
            let x = u64::of(t)?;
            (0..declared.len()).find(|&i| concretize((x == declared[i].1) as u64) == 1)
        }
    }
}
const STARTS: &[&str] = &["", "\"", "\"Fourt", "\"\u{e9}", "\"Fo\\\"\\\\", "\"Third", "7000", "429496729", "1844674407370955161", "\"A", "\"\\u00", "2", "-", "\"bi"];
const LETTERS: &[u8] = b"AabBC\"";
const SPELT: &[u8] = b"Foutrh\"";
fn doc() -> Feed {
    let k = match param(1) {
        20 => Kind::From(LETTERS),
        21 => Kind::From(SPELT),
        k => kind(k),
    };
    let (before, after) = if param(4) == 0 { ("", "") } else { ("{\"x\":", "}") };
    Feed::from(&[before, STARTS[param(3)]].concat(), k, param(2)).ending(after)
}
fn read<T: Variants + for<'a> Deserialize<De<'a>>>() {
    let f = doc();
    let got = run_at::<T>(&f, param(4));
    let tree = parse_with(&f);
    let want = tree.and_then(|t| denoted(&t, T::DECLARED));
    match (got, want) {
        (Some(v), Some(i)) => {
            cover(1);
            check(v.which() == i, "a tag reads as the variant declared with it");
            observe(i as u64)
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("what is neither a declared name nor a declared index is an error"),
        (None, Some(_)) => fail("every declared name and index is read"),
    }
}
fn parse_with(f: &Feed) -> Option<Tree> {
    let t = crate::json::parse_with(f, false)?;
    if param(4) == 0 {
        Some(t)
    } else {
        match t {
            Tree::Obj(mut es) if es.len() == 1 => Some(es.pop().unwrap().1),
            _ => None,
        }
    }
}
type De<'a> = TextDeserializer<serdere::Utf8Reader<FeedReader<'a>>>;
fn write<T: Variants + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'a> Deserialize<TextDeserializer<&'a str>>>() {
    let i = choose(T::DECLARED.len());
    let text = to_str(&T::nth(i));
    match parse(text.as_bytes()) {
        Some(Tree::Str(s)) => check(is_name(&s, T::DECLARED[i].0), "a variant is written as its declared name"),
        _ => fail("a variant is written as a string"),
    }
    match from_str::<T>(&text) {
        Ok(v) => check(v.which() == i, "a variant reads back as itself"),
        Err(_) => fail("a variant reads back"),
    }
    let index = T::DECLARED[i].1.to_string();
    match from_str::<T>(&index) {
        Ok(v) => check(v.which() == i, "a variant reads from its index"),
        Err(_) => fail("a variant reads from its index"),
    }
    cover(1);
    observe_bytes(text.as_bytes());
}
const NAMES: &NameMap<usize> = FixedNameMap::new([("a", 0), ("ab", 3), ("", 1)]).unfix();

include!("c09_many.rs");
entries! {
    // enum, what the document is made of, number of parts, how it starts, where it is
    h_c09_read => {
        match param(0) {
            0 => read::<Plain>(),
            1 => read::<Odd>(),
            2 => read::<Only>(),
            3 => read::<Far>(),
            _ => read::<Many>(),
        }
    },
    h_c09_write => {
        match param(0) {
            0 => write::<Plain>(),
            1 => write::<Odd>(),
            2 => write::<Only>(),
            3 => write::<Far>(),
            _ => write::<Many>(),
        }
    },
    // every index, against every bound and table
    h_c09_index => {
        let i = range(0, param(0) as u64);
        let max = range(0, param(0) as u64) as usize;
        let text = i.to_string();
        let mut d = match TextDeserializer::new(TextDeserializerConfig::strict(), &text[..]) {
            Ok(d) => d,
            Err(_) => fail("a number is a document"),
        };
        match Value::with(&mut d, |v| v.get_tag(max, NAMES)) {
            Ok(j) => { cover(1); check((j as u64 == i) & (j <= max), "an index up to the largest is delivered as it is"); observe(j as u64) }
            Err(_) => { cover(2); check(i as usize > max, "an index up to the largest is accepted") }
        }
    },
    // the tag of an enum whose variants have fields: what it is made of, number of parts, how it starts
    h_c09_tagged => {
        let start = ["{\"t\\\"\":", STARTS[param(2)]].concat();
        let k = match param(0) { 20 => Kind::From(b"XyZW \""), k => kind(k) };
        let f = Feed::from(&start, k, param(1)).ending(",\"z\":true,\"x\":5,\"c\":false}");
        let got = run_at::<Tagged>(&f, 0);
        let want = match crate::json::parse_with(&f, false) {
            Some(Tree::Obj(es)) if es.len() == 4 => denoted(&es[0].1, Tags::DECLARED),
            Some(_) => return end(),
            None => None,
        };
        let want = want.map(|i| match i {
            0 => Tagged::X,
            1 => Tagged::Y { x: 5 },
            2 => Tagged::Z { z: true },
            _ => Tagged::W(Content { c: Some(false) }),
        });
        match (got, want) {
            (Some(a), Some(b)) => { cover(1); check(a == b, "a tag reads as the variant declared with it") }
            (None, None) => cover(2),
            (Some(_), None) => fail("what is neither a declared name nor a declared index is an error"),
            (None, Some(_)) => fail("every declared name and index is read"),
        }
    },
    h_c09_tagged_write => {
        let x = range(0, 9) as u8;
        let z = range(0, 1) == 1;
        let i = choose(4);
        let v = match i { 0 => Tagged::X, 1 => Tagged::Y { x }, 2 => Tagged::Z { z }, _ => Tagged::W(Content { c: Some(z) }) };
        let text = to_str(&v);
        match parse(text.as_bytes()) {
            Some(Tree::Obj(es)) => {
                let mut n = 0;
                for (k, t) in &es {
                    if is_name(k, "t\"") {
                        n += 1;
                        match t {
                            Tree::Str(s) => check(is_name(s, Tags::DECLARED[i].0), "a variant is written as its declared name"),
                            _ => fail("a variant is written as a string"),
                        }
                    }
                }
                check(n == 1, "the tag is one of the fields")
            }
            _ => fail("an enum with fields is written as an object"),
        }
        match from_str::<Tagged>(&text) {
            Ok(w) => check(v == w, "a variant reads back as itself"),
            Err(_) => fail("a variant reads back"),
        }
        cover(1);
        observe_bytes(text.as_bytes());
    },
    // an enum of 300 variants: which prefix of a name or an index
    h_c09_many => {
        let start: &str = ["\"V", "\"V2", "", "1", "2", "29", "\"", "\"V13"][param(0)];
        let mut t = start.as_bytes().to_vec();
        for _ in 0..choose(param(1) + 1) { t.push(ascii()) }
        if t.first() == Some(&b'"') { t.push(b'"') }
        let text = ascii_text(t);
        let got = if param(2) == 0 { from_str::<Hundreds>(&text).ok() } else {
            // read ahead
            let doc = ["{\"a\":", &text, ",\"b\":1}"].concat();
            let mut d = match TextDeserializer::new(Default::default(), doc.as_str()) { Ok(d) => d, Err(_) => return };
            Value::with(&mut d, |v| {
                let mut o = v.into_object()?;
                o.entry("b")?.get_u8()?;
                let m = o.entry("a")?.get::<Hundreds>()?;
                o.close()?;
                Ok(m)
            }).ok()
        };
        let want = match crate::json::parse_with(text.as_bytes(), false) {
            Some(Tree::Str(s)) => {
                let mut i = 0u64;
                let n = s.len();
                let ok = n >= 2 && n <= 4 && concretize((s[0] == b'V' as u32) as u64) == 1 && s[1..].iter().all(|c| concretize((*c >= 48 && *c <= 57) as u64) == 1);
                if ok {
                    for c in &s[1..] { i = i * 10 + *c as u64 - 48 }
                    let canonical = n == 2 || concretize((s[1] != 48) as u64) == 1;
                    if canonical && concretize((i < 300 && i != 130) as u64) == 1 { Some(i) } else { None }
                } else { None }
            }
            Some(t) => crate::model::Denote::of(&t).filter(|i: &u64| concretize((*i < 300) as u64) == 1),
            None => None,
        };
        match (got, want) {
            (Some(a), Some(i)) => {
                cover(1);
                check(a as u64 == i, "a name or index is read as the variant declared with it");
                observe(i)
            }
            (None, None) => cover(2),
            (Some(_), None) => fail("what is neither a declared name nor a declared index is an error"),
            (None, Some(_)) => fail("every declared name and index is read"),
        }
    },
}
