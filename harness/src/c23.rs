//! C23: errors say what is wrong with a value.
use crate::c17::*;
use crate::num::{literal, mode, value};
use crate::docs::{Color, Shape};
use crate::sym::*;
use serdere::deserialize::{InvalidIndexError, InvalidNameError};
use serdere::{LineColumnPosition, Utf8Reader, Value};
use serdere_json::DeserializeErrorMessage as M;
use serdere_json::*;
use std::error::Error;

/// What an error has to say.
enum Want {
    Missing(&'static str),
    Extra(&'static str),
    Fewer,
    More,
    Overflow,
    Index(usize),
    Name,
    OneChar,
    NotValid,
    NotZero,
}
use Want::*;
fn wanted(mode: usize, how: usize, what: &str) -> Want {
    match mode {
        1 => match (how, what) {
            (11, _) => OneChar,
            (13, "\"b\"" | "\"\"") => Name,
            (13, "65536") => Index(65536),
            (13, "4294967296") => Index(4294967296),
            (13, "2") => Index(2),
            (19 | 20, "0") => NotZero,
            _ => Overflow,
        },
        2 => match (how, what) {
            (0 | 1 | 2 | 16, _) => Missing("x"),
            (3, _) => Extra("a"),
            (4 | 5 | 6, _) => Fewer,
            (7 | 12 | 13 | 17, _) => More,
            (8, "[1 ,2,3]") => More,
            (8 | 9, "[]" | "[1]") => Fewer,
            (9, _) => More,
            (10, "[true]") => Fewer,
            (10, "[true,1,2]") => More,
            (10, _) => Missing("a"),
            (11, "{\"type\":\"Line\"}") => Missing("a"),
            (11, "[\"Line\"]") => Fewer,
            (11, "[\"Dot\",0]") => More,
            (11, _) => Missing("type"),
            (14, _) => Missing("has_value"),
            _ => NotValid,
        },
        _ => NotValid,
    }
}
fn custom<T: Error + 'static, P: std::fmt::Debug + std::fmt::Display>(e: &DeserializeError<P>) -> Option<&T> {
    match e.message() {
        M::Custom(s) => s.downcast_ref::<T>(),
        _ => None,
    }
}
fn judge<P: std::fmt::Debug + std::fmt::Display>(e: &DeserializeError<P>, want: Want) {
    match want {
        Missing(k) => check(matches!(e.message(), M::MissingKey(s) if s == k), "a missing entry is reported by its key"),
        Extra(k) => check(matches!(e.message(), M::ExtraKey(s) if s == k), "an extra entry is reported by its key"),
        Fewer => check(matches!(e.message(), M::MissingItems), "an array which is too short is reported as such"),
        More => check(matches!(e.message(), M::ExcessItems), "an array which is too long is reported as such"),
        Overflow => check(matches!(e.message(), M::NumberOverflow), "a number out of range is reported as such"),
        Index(i) => check(matches!(custom::<InvalidIndexError, P>(e), Some(x) if x.index == i), "an invalid index is reported as such"),
        Name => check(
            matches!(custom::<InvalidNameError, P>(e), Some(x) if std::ptr::eq(x.expected, NAMES)),
            "an invalid name is reported with those which are allowed",
        ),
        OneChar | NotZero => check(
            matches!(e.message(), M::Custom(_)) && custom::<Invalid, P>(e).is_none() && custom::<InvalidNameError, P>(e).is_none(),
            "a value which does not fit is reported as such",
        ),
        NotValid => check(custom::<Invalid, P>(e).is_some(), "an error from a validation is what it returned"),
    }
    let own = matches!(e.message(), M::Custom(_));
    check(e.source().is_some() == own, "only an error which is not the reader's own has a source");
    if own {
        let s: *const (dyn Error) = match e.message() {
            M::Custom(s) => &**s,
            _ => fail("(see above)"),
        };
        let got: *const dyn Error = match e.source() {
            Some(s) => s,
            None => fail("(see above)"),
        };
        check(std::ptr::addr_eq(s, got), "the source of an error is the error it wraps");
    }
}
fn types<P>(e: &DeserializeError<P>, ty: ValueType, how: usize) {
    match e.message() {
        M::Expected(set) => {
            check(set.len() > 0, "some type was expected");
            let ok = accepts(how);
            for (i, t) in set.iter().enumerate() {
                check(*t != ty, "a type which was expected is not the one there is");
                check(is_of(*t, ok), "what was expected is accepted");
                check(!is_of(*t, &set[..i]), "what was expected is listed once");
            }
            observe(set.len() as u64)
        }
        _ => fail("a value of another type is reported as such"),
    }
}
fn number_of(text: &mut Vec<u8>, mut i: usize) {
    let at = text.len();
    loop {
        text.insert(at, b'0' + (i % 10) as u8);
        i /= 10;
        if i == 0 {
            break;
        }
    }
}
fn at_place(p: &LineColumnPosition) -> String {
    let mut t = b"at line ".to_vec();
    number_of(&mut t, p.line + 1);
    t.extend_from_slice(b", column ");
    number_of(&mut t, p.column + 1);
    match std::string::String::from_utf8(t) {
        Ok(t) => t,
        Err(_) => fail("(a number is text)"),
    }
}
fn type_name(t: ValueType) -> &'static str {
    match t {
        ValueType::Null => "'null'",
        ValueType::Bool => "bool",
        ValueType::Number => "number",
        ValueType::String => "string",
        ValueType::Array => "array",
        ValueType::Object => "object",
    }
}
fn said(m: &M) -> String {
    match m {
        M::Custom(s) => s.to_string(),
        M::UnexpectedEof => "unexpected EOF".to_owned(),
        M::UnexpectedChar => "unexpected character".to_owned(),
        M::InvalidLiteral => "invalid literal".to_owned(),
        M::NumberOverflow => "numeric overflow".to_owned(),
        M::UnrecognizedEscape => "unrecognized escape sequence".to_owned(),
        M::KeyTooLong => "object key too long".to_owned(),
        M::MissingItems => "array has fewer items than expected".to_owned(),
        M::ExcessItems => "array has more items than expected".to_owned(),
        M::MissingKey(k) => ["missing object key \"", k, "\""].concat(),
        M::ExtraKey(k) => ["extra object key \"", k, "\""].concat(),
        M::Expected(set) => {
            let mut t = "expected ".to_owned();
            for (i, ty) in set.iter().enumerate() {
                if i > 0 {
                    t.push_str(if i + 1 == set.len() { " or " } else { ", " })
                }
                t.push_str(type_name(*ty))
            }
            t
        }
    }
}
fn display(e: &DeserializeError<LineColumnPosition>) {
    let want = [&said(e.message())[..], " ", &at_place(e.position())].concat();
    let got = e.to_string();
    check(got == want, "an error is displayed as what it says and where");
}
/// An arbitrary character, and one of its spellings.
fn spelled(text: &mut Vec<u8>, free: bool) -> char {
    let (s, c) = match choose(5) {
        0 => ("\\n", '\n'),
        1 => ("\\u00e9", '\u{e9}'),
        2 => ("\\uD83d\\ude00", '\u{1f600}'),
        3 => ("\\/", '/'),
        _ if !free => ("q", 'q'),
        _ => {
            let c = scalar();
            if (c as u32) < 32 || c == '"' || c == '\\' {
                end()
            }
            let mut b = [0; 4];
            text.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            return c;
        }
    };
    text.extend_from_slice(s.as_bytes());
    c
}
fn key(text: &mut Vec<u8>, n: usize, free: bool) -> String {
    let mut k = String::new();
    text.push(b'"');
    for _ in 0..choose(n + 1) {
        k.push(spelled(text, free))
    }
    text.push(b'"');
    k
}
/// Reads what is at the top (0), an item (1), an entry requested by name (2) or read ahead (3).
fn reach<D: JsonDeserializer, R>(v: Value<D>, place: usize, f: impl FnOnce(Value<D>) -> Result<R, D::Error>) -> Result<R, D::Error> {
    match place {
        0 => f(v),
        1 => {
            let mut l = v.into_list()?;
            let r = match l.next()? {
                Some(v) => f(v)?,
                None => fail("an array has its items"),
            };
            while let Some(v) = l.next()? {
                v.skip()?
            }
            Ok(r)
        }
        p => {
            let mut o = v.into_object()?;
            if p == 3 && o.try_entry("not there")?.is_some() {
                fail("there is no such entry")
            }
            let r = f(o.entry("x")?)?;
            while let Some(e) = o.next_entry()? {
                e.value()?.skip()?
            }
            Ok(r)
        }
    }
}
const BEFORE: [&str; 4] = ["", "[", "{\"x\":", "{\"x\":"];
const BEHIND: [&str; 4] = ["", ", 0]", "}", ", \"y\": 0}"];
type Failure = DeserializeError<LineColumnPosition>;
fn at<R, F>(text: &[u8], place: usize, f: F) -> Result<R, Failure>
where
    F: for<'a> FnOnce(Value<TextDeserializer<Utf8Reader<&'a [u8]>>>) -> Result<R, Failure>,
{
    let r = match Utf8Reader::new(text) {
        Ok(r) => r,
        Err(_) => fail("the document is valid UTF-8"),
    };
    let mut d = match TextDeserializer::new(TextDeserializerConfig::strict(), r) {
        Ok(d) => d,
        Err(_) => fail("the document is accepted"),
    };
    Value::with(&mut d, |v| reach(v, place, f))
}
entries! {
    // params: what offends (0 a type, 1 a range, 2 a part, 3 validity), depth, amount of
    // whitespace, kinds of what comes before, streamed (2: and displayed)
    h_c23_offends => {
        let mode = param(0);
        let c = case(mode, param(1), param(2), param(3), param(5));
        if param(4) > 0 {
            let r = match Utf8Reader::new(c.text.as_bytes()) {
                Ok(r) => r,
                Err(_) => fail("the document is valid UTF-8"),
            };
            let e = run(r, &c.path, mode, c.how);
            match c.ty {
                Some(ty) => types(&e, ty, c.how),
                None => judge(&e, wanted(mode, c.how, c.what)),
            }
            if param(4) == 2 {
                display(&e)
            }
        } else {
            let e = run(&c.text[..], &c.path, mode, c.how);
            match c.ty {
                Some(ty) => types(&e, ty, c.how),
                None => judge(&e, wanted(mode, c.how, c.what)),
            }
        }
        cover(1);
        observe_bytes(c.text.as_bytes());
    },
    // type of integer (8, 9: tags by index), digits (most), place, digits behind the point (most); more than 16 digits: exactly
    h_c23_number => {
        let (t, place) = (param(0), param(2));
        let mut text = BEFORE[place].as_bytes().to_vec();
        let l = literal(if param(1) > 16 { param(1) } else { 1 + choose(param(1)) }, choose(1 + param(3)), 0, mode(if t < 8 { 0 } else { 2 }, 7));
        text.extend_from_slice(&l.text);
        let whole = value(&l);
        text.extend_from_slice(BEHIND[place].as_bytes());
        let got = at(&text, place, |v| match t {
            0 => v.get_i8().map(drop),
            1 => v.get_i16().map(drop),
            2 => v.get_i32().map(drop),
            3 => v.get_i64().map(drop),
            4 => v.get_u8().map(drop),
            5 => v.get_u16().map(drop),
            6 => v.get_u32().map(drop),
            7 => v.get_u64().map(drop),
            8 => v.get_tag(1, NAMES).map(drop),
            _ => v.get_tag(300, NAMES).map(drop),
        });
        match got {
            Ok(()) => {
                check(whole.is_some(), "a fraction is not an integer");
                cover(2)
            }
            Err(e) if t < 8 => {
                judge(&e, Overflow);
                cover(1)
            }
            Err(e) => {
                // (an index of more than 64 bits, or below zero, is out of range)
                let index = match whole {
                    Some((minus, x)) if concretize((x <= u64::MAX as u128 && (!minus || x == 0)) as u64) == 1 => Some(x),
                    _ => None,
                };
                match (e.message(), index) {
                    (M::NumberOverflow, None) => cover(3),
                    (_, Some(x)) => {
                        check(x > if t == 8 { 1 } else { 300 }, "an index which is not reported as invalid is valid");
                        judge(&e, Index(x as usize));
                        cover(1)
                    }
                    _ => fail("what is no index is out of range"),
                }
            }
        }
    },
    // characters (most), place, how (0 a tag, 1 a derived enum, 2 the tag of one with data)
    h_c23_name => {
        let (place, how) = (param(1), param(2));
        let mut text = BEFORE[place].as_bytes().to_vec();
        if how == 2 {
            text.extend_from_slice(b"{\"type\": ")
        }
        let name = key(&mut text, param(0), true);
        if how == 2 {
            text.extend_from_slice(b"}")
        }
        text.extend_from_slice(BEHIND[place].as_bytes());
        let (names, got): (&[&str], _) = match how {
            0 => (&["a", "no"], at(&text, place, |v| v.get_tag(1, NAMES).map(drop))),
            1 => (&["Green", "Red", "blue"], at(&text, place, |v| v.get::<Color>().map(drop))),
            _ => (&["Dot", "Line"], at(&text, place, |v| v.get::<Shape>().map(drop))),
        };
        match got {
            Ok(()) => {
                check(names.iter().any(|n| *n == name), "a name which is not allowed is an error");
                cover(2)
            }
            Err(e) => {
                check(!names.iter().any(|n| *n == name), "a name which is allowed is no error");
                match custom::<InvalidNameError, _>(&e) {
                    Some(x) => {
                        let mut n = 0;
                        for (s, _) in x.expected.entries() {
                            check(names.iter().any(|n| *n == s), "a name which is listed is allowed");
                            n += 1
                        }
                        check(n == names.len(), "all names are listed");
                        if how == 0 {
                            judge(&e, Name)
                        }
                    }
                    None => fail("a name which is not allowed is reported as such"),
                }
                cover(1)
            }
        }
    },
    // characters of the missing key, of those there (most), how it is requested, entries, whether keys are arbitrary
    h_c23_missing => {
        let how = param(2);
        let mut text = b"{".to_vec();
        let n = param(3);
        let mut keys = Vec::new();
        for i in 0..n {
            if i > 0 {
                text.push(b',')
            }
            let k = key(&mut text, param(1), param(4) == 1);
            text.extend_from_slice(b": [0]");
            keys.push(k);
        }
        text.push(b'}');
        let mut missing = String::new();
        for _ in 0..param(0) {
            missing.push(if param(4) == 1 { scalar() } else { ['q', 'r', '\n', '\u{e9}'][choose(4)] })
        }
        for k in &keys {
            assume(concretize((*k != missing) as u64) == 1);
        }
        let missing = &missing[..];
        let got = at(&text, 0, |v| match how {
            0 => v.into_object()?.entry(missing).map(drop),
            1 => {
                let mut o = v.into_object()?;
                while let Some(e) = o.next_entry()? {
                    e.value()?.skip()?
                }
                Ok(())
            }
            2 => {
                let mut o = v.into_object()?;
                if let Some(mut e) = o.next_entry()? {
                    e.key()?;
                    e.value()?.skip()?
                } else {
                    end()
                }
                o.entry(missing).map(drop)
            }
            _ => v.into_object()?.entry(missing)?.skip(),
        });
        match got {
            Ok(()) => {
                check(how == 1, "a missing entry is an error");
                cover(2)
            }
            Err(e) => {
                check(matches!(e.message(), M::MissingKey(k) if *k == *missing), "a missing entry is reported by its key");
                cover(1)
            }
        }
    },
    // characters of the keys (most), entries, how many are read, by which way, whether they are arbitrary
    h_c23_extra => {
        let (n, seen, how) = (param(1), param(2), param(3));
        let mut text = b"{".to_vec();
        let mut keys = Vec::new();
        for i in 0..n {
            if i > 0 {
                text.push(b',')
            }
            let k = key(&mut text, param(0), param(4) == 1);
            text.extend_from_slice([": 0", ": {\"q\":0}"][choose(2)].as_bytes());
            for o in &keys {
                assume(concretize((k != *o) as u64) == 1)
            }
            keys.push(k);
        }
        text.push(b'}');
        let got = at(&text, 0, |v| {
            let mut o = v.into_object()?;
            if how == 2 && o.try_entry("not there")?.is_some() {
                fail("there is no such entry")
            }
            for i in 0..seen {
                if how == 0 {
                    if let Some(e) = o.next_entry()? {
                        e.value()?.skip()?
                    }
                } else {
                    o.entry(&keys[n - 1 - i])?.skip()?
                }
            }
            o.close()
        });
        let left = if how == 0 { &keys[seen..] } else { &keys[..n - seen] };
        match got {
            Ok(()) => {
                check(left.is_empty(), "an object with entries left is not closed");
                cover(2)
            }
            Err(e) => {
                check(
                    matches!(e.message(), M::ExtraKey(k) if left.iter().any(|l| *l == *k)),
                    "an extra entry is reported by its key",
                );
                cover(1)
            }
        }
    },
    // what is displayed, and where: the line and column are below 10^n
    h_c23_display => {
        let most = 10u64.pow(param(1) as u32);
        let line = range(0, most - 1) as usize;
        let column = range(0, most - 1) as usize;
        let m = match param(0) {
            0 => match choose(8) {
                0 => M::UnexpectedEof,
                1 => M::UnexpectedChar,
                2 => M::InvalidLiteral,
                3 => M::NumberOverflow,
                4 => M::UnrecognizedEscape,
                5 => M::KeyTooLong,
                6 => M::MissingItems,
                _ => M::ExcessItems,
            },
            1 => {
                use ValueType::*;
                let sets: [&'static [ValueType]; 10] = [
                    &[Null], &[Bool], &[Number], &[String], &[Array], &[Object], &[String, Number], &[Object, Array],
                    &[Bool, Null, Array], &[Null, Bool, Number, String, Array, Object],
                ];
                M::Expected(sets[choose(10)])
            }
            2 => M::MissingKey(["", "a", "two words"][choose(3)].to_owned()),
            3 => M::ExtraKey(["", "a", "two words"][choose(3)].to_owned()),
            4 => M::Custom(Box::new(InvalidNameError { expected: NAMES })),
            _ => M::Custom(Box::new(InvalidIndexError { index: 17 })),
        };
        if let M::Custom(s) = &m {
            let t = s.to_string();
            check(
                t == "name is not one of the allowed options (\"a\", \"no\")"
                    || t == "name is not one of the allowed options (\"no\", \"a\")"
                    || t == "index 17 is invalid",
                "an error says which names or index it is about",
            )
        }
        let e = DeserializeError::new(LineColumnPosition { line, column }, m);
        // (which the position is when displayed depends on its digits)
        let text = e.to_string();
        let mut want = said(e.message()).into_bytes();
        want.extend_from_slice(b" at line ");
        let t = text.as_bytes();
        check(t.len() > want.len() && t[..want.len()] == want[..], "an error is displayed as what it says");
        let mut i = want.len();
        let mut read = || {
            let start = i;
            let mut x = 0u64;
            while i < t.len() && t[i] >= b'0' && t[i] <= b'9' {
                x = x * 10 + (t[i] - b'0') as u64;
                i += 1
            }
            check(i > start && (t[start] != b'0' || i == start + 1), "a position is displayed as a number");
            (x, i)
        };
        let (l, j) = read();
        check(l == line as u64 + 1, "the line is displayed, counted from 1");
        let sep = b", column ";
        check(t.len() > j + sep.len() && t[j..j + sep.len()] == sep[..], "the column is displayed");
        i = j + sep.len();
        let mut x = 0u64;
        while i < t.len() {
            check(t[i] >= b'0' && t[i] <= b'9', "nothing follows the column");
            x = x * 10 + (t[i] - b'0') as u64;
            i += 1
        }
        check(x == column as u64 + 1, "the column is displayed, counted from 1");
        cover(1)
    },
}
