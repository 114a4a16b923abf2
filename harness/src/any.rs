//! Arbitrary values, and ways in which they have to survive being written and read.
use crate::json::parse;
use crate::mock::Log;
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, Serialize, Utf8Reader, Value};
use serdere_json::*;

/// How large arbitrary values are.
#[derive(Clone, Copy)]
pub struct Size {
    pub items: usize,
    pub chars: usize,
    /// whether characters and numbers range over all values
    pub rich: bool,
}
pub trait Any: Sized {
    fn any(s: Size) -> Self;
}
macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Any for $t {
            fn any(s: Size) -> Self {
                if s.rich && choose(2) == 1 {
                    [<$t>::MIN, <$t>::MAX, 0, 10, (<$t>::MIN == 0) as $t * 3 - 1 as $t][choose(5)]
                } else {
                    range(0, 9) as $t
                }
            }
        }
    )*};
}
ints!(u8 u16 u32 u64);
macro_rules! signed {
    ($($t:ty)*) => {$(
        impl Any for $t {
            fn any(s: Size) -> Self {
                if s.rich && choose(2) == 1 {
                    [<$t>::MIN, <$t>::MAX, -1, 10, -10][choose(5)]
                } else {
                    range(0, 9) as $t
                }
            }
        }
    )*};
}
signed!(i8 i16 i32 i64);
impl Any for bool {
    fn any(_: Size) -> Self {
        range(0, 1) == 1
    }
}
impl Any for char {
    fn any(s: Size) -> Self {
        if s.rich { scalar() } else { ascii() as char }
    }
}
impl Any for String {
    fn any(s: Size) -> Self {
        let mut t = String::new();
        for _ in 0..choose(s.chars + 1) {
            t.push(char::any(s))
        }
        t
    }
}
impl Any for () {
    fn any(_: Size) {}
}
impl<T: Any> Any for Option<T> {
    fn any(s: Size) -> Self {
        if choose(2) == 0 { None } else { Some(T::any(s)) }
    }
}
impl<T: Any> Any for Vec<T> {
    fn any(s: Size) -> Self {
        (0..choose(s.items + 1)).map(|_| T::any(s)).collect()
    }
}
impl<A: Any, B: Any> Any for (A, B) {
    fn any(s: Size) -> Self {
        (A::any(s), B::any(s))
    }
}
impl<A: Any, B: Any, C: Any> Any for (A, B, C) {
    fn any(s: Size) -> Self {
        (A::any(s), B::any(s), C::any(s))
    }
}
impl<T: Any, const N: usize> Any for [T; N] {
    fn any(s: Size) -> Self {
        std::array::from_fn(|_| T::any(s))
    }
}
/// What can be written and read in every way.
pub trait Both:
    Any
    + Denote
    + Serialize<TextSerializer<String>>
    + Serialize<Log>
    + Deserialize<Log>
    + for<'a> Deserialize<TextDeserializer<&'a str>>
    + for<'a> Deserialize<TextDeserializer<Utf8Reader<&'a [u8]>>>
{
}
impl<T> Both for T where
    T: Any
        + Denote
        + Serialize<TextSerializer<String>>
        + Serialize<Log>
        + Deserialize<Log>
        + for<'a> Deserialize<TextDeserializer<&'a str>>
        + for<'a> Deserialize<TextDeserializer<Utf8Reader<&'a [u8]>>>
{
}
pub fn written<T: Serialize<TextSerializer<String>>>(v: &T, indent: Option<&'static str>) -> String {
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, String::new());
    if Value::with(&mut s, |x| x.put(v)).is_err() {
        fail("writing to a string succeeds")
    }
    s.close()
}
/// Reads a value of an object's entry "x", read ahead.
pub fn ahead<T, R: serdere::TextReader>(r: R) -> Option<T>
where
    T: Deserialize<TextDeserializer<R>>,
    R::Position: Clone,
{
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r).ok()?;
    let v = Value::with(&mut d, |v| {
        let mut o = v.into_object()?;
        if o.try_entry("not there")?.is_some() {
            fail("there is no entry of that name")
        }
        let e = o.entry("x")?.get::<T>()?;
        o.close()?;
        Ok(e)
    })
    .ok()?;
    d.close().ok()?;
    Some(v)
}
fn is<T: Denote>(v: &T, got: Option<T>, what: &'static str) {
    match got {
        Some(w) => check(v.same(&w), what),
        None => fail(what),
    }
}
/// Writes an arbitrary value and reads it back.
pub fn round_trip<T: Both>(s: Size) {
    let v = T::any(s);
    let text = written(&v, None);
    match parse(text.as_bytes()) {
        Some(t) => is(&v, T::of(&t), "what is written denotes the value"),
        None => fail("what is written is well-formed JSON"),
    }
    is(&v, from_str::<T>(&text).ok(), "the value is read back from a string");
    match Utf8Reader::new(text.as_bytes()) {
        Ok(r) => is(&v, from_reader::<_, T>(r).ok(), "the value is read back from a stream"),
        Err(_) => fail("the text is valid UTF-8"),
    }
    let within = ["{\"x\": ", &text, " }"].concat();
    is(&v, ahead::<T, _>(&within[..]), "the value is read back ahead");
    let open = written(&v, Some("\t"));
    is(&v, from_str::<T>(&open).ok(), "the value is read back from an indented layout");
    for nulls in [false, true] {
        for sized in [false, true] {
            let mut log = Log::new(nulls);
            if Value::with(&mut log, |x| x.put(&v)).is_err() {
                fail("the value can be written in another format")
            }
            log.rewind();
            log.sized = sized;
            is(&v, Value::with(&mut log, |x| x.get::<T>()).ok(), "the value is read back in another format");
            check(log.at == log.events.len(), "reading uses all that was written");
        }
    }
    cover(1);
    observe_bytes(text.as_bytes());
}
