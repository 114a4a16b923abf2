//! C19: fixed-length sequences require exactly their length, lists keep their items.
use crate::any::*;
use crate::json::{parse, Tree};
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, TextReader, Utf8Reader, Value};
use serdere_json::*;

/// Appends an arbitrary value: arrays nested up to so deep, of up to so many items.
fn value(t: &mut Vec<u8>, depth: usize, most: usize, odd: &mut usize) {
    let k = if depth > 0 { choose(2) } else { 0 };
    if k == 1 {
        t.push(b'[');
        let n = choose(most + 1);
        for i in 0..n {
            if i > 0 {
                t.extend_from_slice(if i % 2 == 0 { b" ," } else { b", " });
            }
            value(t, depth - 1, most, odd);
        }
        t.push(b']');
    } else if *odd > 0 && choose(2) == 1 {
        *odd -= 1;
        const ODD: [&str; 7] = ["null", "\"1\"", "{}", "{\"0\":1,\"1\":2}", "false", "[]", "300"];
        t.extend_from_slice(ODD[choose(ODD.len())].as_bytes());
    } else {
        t.push(b'0' + range(0, 9) as u8);
    }
}
fn get<T, R: TextReader>(r: R) -> Option<T>
where
    T: Deserialize<TextDeserializer<R>>,
    R::Position: Clone,
{
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r).ok()?;
    let v = Value::with(&mut d, |v| v.get::<T>()).ok()?;
    d.close().ok()?;
    Some(v)
}
fn reads<T: Both>() {
    let mut t = Vec::with_capacity(60);
    let mut odd = param(3);
    let outer = choose(param(2) + 1);
    t.push(b'[');
    for i in 0..outer {
        if i > 0 {
            t.push(b',');
        }
        value(&mut t, param(1), param(2), &mut odd);
    }
    t.push(b']');
    let text = ascii_text(t);
    let got = match param(4) {
        0 => get::<T, _>(&text[..]),
        1 => ahead::<T, _>(&["{\"x\": ", &text, " }"].concat()[..]),
        2 => Utf8Reader::new(text.as_bytes()).ok().and_then(get::<T, _>),
        _ => Utf8Reader::new(["{\"x\": ", &text, " }"].concat().as_bytes()).ok().and_then(ahead::<T, _>),
    };
    let Some(tree) = parse(text.as_bytes()) else { fail("the document is well-formed") };
    match (got, T::of(&tree)) {
        (Some(a), Some(b)) => {
            cover(1);
            check(a.same(&b), "every item is in its own place");
            a.observe()
        }
        (None, None) => {
            cover(2);
            observe(1 << 40)
        }
        (Some(_), None) => fail("an array of another length is an error"),
        (None, Some(_)) => fail("an array of the right length is read"),
    }
}
macro_rules! kinds {
    ($f:ident $(, $s:expr)?) => {
        match param(0) {
            0 => $f::<[u8; 0]>($($s)?),
            1 => $f::<[u16; 1]>($($s)?),
            2 => $f::<[u8; 3]>($($s)?),
            3 => $f::<(u8, i8)>($($s)?),
            4 => $f::<(u8, i64, u32)>($($s)?),
            5 => $f::<Vec<u8>>($($s)?),
            6 => $f::<[[u8; 2]; 2]>($($s)?),
            7 => $f::<((u8, u8), [u8; 1], Vec<u8>)>($($s)?),
            8 => $f::<Vec<(u8, u8)>>($($s)?),
            9 => $f::<Vec<Vec<u8>>>($($s)?),
            10 => $f::<[Vec<u8>; 2]>($($s)?),
            11 => $f::<Option<[u8; 2]>>($($s)?),
            12 => $f::<Vec<[String; 1]>>($($s)?),
            13 => $f::<(Option<u8>, Option<Vec<u8>>)>($($s)?),
            14 => $f::<Vec<Option<(u8, u8)>>>($($s)?),
            15 => $f::<[u8; 6]>($($s)?),
            16 => $f::<[(); 2]>($($s)?),
            17 => $f::<Vec<()>>($($s)?),
            18 => $f::<(bool, String, Vec<bool>)>($($s)?),
            19 => $f::<Vec<Vec<Vec<u8>>>>($($s)?),
            _ => $f::<[[[i16; 1]; 2]; 1]>($($s)?),
        }
    };
}
entries! {
    // type, nesting, number of items, number of values which are no digits, where
    h_c19_read => {
        kinds!(reads)
    }
    // type, number of items, of characters, whether characters and numbers are arbitrary
    h_c19_rt => {
        let s = Size { items: param(1), chars: param(2), rich: param(3) == 1 };
        kinds!(round_trip, s)
    }
    // long arrays, read as a list and as an array of 24 items, written and read back: most items, where
    h_c19_long => {
        let n = choose(param(0) + 1);
        // (no zeros, to keep the number of executions down)
        let items: Vec<u8> = (0..n).map(|_| range(1, 9) as u8).collect();
        let mut t = Vec::with_capacity(2 * n + 20);
        t.extend_from_slice(if param(1) == 1 { b"{\"x\": [" } else { b"[" });
        for i in 0..n {
            if i > 0 {
                t.push(b',');
            }
            t.push(b'0' + items[i]);
        }
        t.extend_from_slice(if param(1) == 1 { b"]}" } else { b"]" });
        let text = ascii_text(t);
        let list = if param(1) == 1 { ahead::<Vec<u8>, _>(&text[..]) } else { from_str(&text).ok() };
        match list {
            Some(l) => check(l.same(&items), "a list keeps its items"),
            None => fail("a list of any length is read"),
        }
        let array = if param(1) == 1 { ahead::<[u8; 24], _>(&text[..]) } else { from_str(&text).ok() };
        match array {
            Some(a) => {
                if n != 24 { fail("an array of another length is an error") }
                cover(1);
                check((0..24).fold(true, |r, i| r & (a[i] == items[i])), "every item is in its own place");
                let mut log = crate::mock::Log::new(true);
                if Value::with(&mut log, |v| v.put(&a)).is_err() { fail("an array is written") }
                check(to_str(&a) == to_str(&items), "arrays and lists are written alike");
            }
            None => {
                if n == 24 { fail("an array of the right length is read") }
                cover(2)
            }
        }
        match from_str::<Vec<u8>>(&to_str(&items)) {
            Ok(l) => check(l.same(&items), "a list is read back"),
            Err(_) => fail("a list is read back"),
        }
        observe_bytes(to_str(&items).as_bytes());
    }
}
