//! C01: strings and characters survive a JSON round trip.
use crate::json;
use crate::sym::*;
use serdere::{Deserializer, Outliner, Serializer, Utf8Reader, Value};
use serdere_json::*;

fn text(n: usize) -> (String, Vec<u32>) {
    let mut s = String::with_capacity(4 * n);
    let mut cs = Vec::new();
    for _ in 0..n {
        let c = scalar();
        s.push(c);
        cs.push(c as u32);
    }
    (s, cs)
}
fn check_literal(t: &[u8], cs: &[u32]) {
    match json::literal(t) {
        None => fail("the written string is a well-formed JSON string"),
        Some(got) => {
            check(got.len() == cs.len(), "the written string has the right length");
            for i in 0..cs.len() {
                check(got[i] == cs[i], "the written string denotes the text");
            }
        }
    }
}
/// How hexadecimal digits are written: 0: decimal, 1: lower case, 2: upper case, 3: any of these.
/// A hexadecimal digit of value in lo..=hi.
fn hex(out: &mut Vec<u8>, lo: u32, hi: u32, kind: usize) -> u32 {
    let kind = if kind == 3 { choose(3) } else { kind };
    let (lo, hi) = if kind == 0 { (lo, hi.min(9)) } else { (lo.max(10), hi) };
    assume(lo <= hi);
    let d = range(lo as u64, hi as u64) as u8;
    out.push(match kind {
        0 => b'0' + d,
        1 => b'a' - 10 + d,
        _ => b'A' - 10 + d,
    });
    d as u32
}
/// An arbitrary character in an arbitrary spelling (if not `full`: escapes with digits only of
/// one kind where there is a choice).
fn spell(out: &mut Vec<u8>, full: bool) -> u32 {
    match choose(4) {
        0 => {
            let c = scalar();
            assume(c >= ' ' && c != '"' && c != '\\');
            out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
            c as u32
        }
        1 => {
            let i = choose(8);
            out.push(b'\\');
            out.push(b"\"\\/bfnrt"[i]);
            b"\"\\/\x08\x0c\n\r\t"[i] as u32
        }
        2 => {
            out.extend_from_slice(b"\\u");
            let k = if full { 3 } else { choose(3) };
            let (a, b) = match choose(3) {
                0 => (hex(out, 0, 12, k), hex(out, 0, 15, k)),
                1 => (hex(out, 13, 13, k.max(1)), hex(out, 0, 7, 0)),
                _ => (hex(out, 14, 15, k.max(1)), hex(out, 0, 15, k)),
            };
            a << 12 | b << 8 | hex(out, 0, 15, k) << 4 | hex(out, 0, 15, k)
        }
        _ => {
            out.extend_from_slice(b"\\u");
            let k = if full { 3 } else { choose(3) };
            // (12 and 13 are letters, k = 0 writes the rest in decimal)
            let h = hex(out, 13, 13, k.max(1)) << 12 | hex(out, 8, 11, k) << 8 | hex(out, 0, 15, k) << 4 | hex(out, 0, 15, k);
            out.extend_from_slice(b"\\u");
            let k = if full { choose(3) } else { k };
            let l = hex(out, 13, 13, k.max(1)) << 12 | hex(out, 12, 15, k.max(1)) << 8 | hex(out, 0, 15, k) << 4 | hex(out, 0, 15, k);
            0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)
        }
    }
}
/// n characters in arbitrary spellings (one of them in full generality).
fn spelled(out: &mut Vec<u8>, n: usize) -> Vec<u32> {
    let full = choose(n);
    (0..n).map(|i| spell(out, i == full)).collect()
}
/// As `spell`, for few concrete characters.
fn spell_few(out: &mut Vec<u8>) -> u32 {
    const SPELLINGS: [(&str, u32); 14] = [
        ("a", 97), ("\\n", 10), ("\\u0061", 97), ("\u{e9}", 0xe9), ("\\u00e9", 0xe9), ("\u{20ac}", 0x20ac), ("\\u20AC", 0x20ac),
        ("\u{1f600}", 0x1f600), ("\\ud83d\\uDE00", 0x1f600), ("\\/", 47), ("/", 47), ("\\\"", 34), ("\\\\", 92), ("\\u0000", 0),
    ];
    let (s, c) = SPELLINGS[choose(14)];
    out.extend_from_slice(s.as_bytes());
    c
}
fn doc(v: Vec<u8>) -> String {
    // (well-formed by construction)
    unsafe { String::from_utf8_unchecked(v) }
}
fn eq(s: &str, cs: &[u32]) {
    check(json::same_chars(s, cs), "the string read is the text denoted");
    cover(1);
}
fn read<R>(r: Result<R, DeserializeError<serdere::StrPosition>>) -> R {
    match r {
        Ok(x) => x,
        Err(_) => fail("a well-formed string is read"),
    }
}
entries! {
    // write a string of n arbitrary characters and read it back
    h_c01_string => {
        let (s, cs) = text(param(0));
        let t = to_str(&s);
        check_literal(t.as_bytes(), &cs);
        eq(&read(from_str::<String>(&t)), &cs);
        observe_bytes(t.as_bytes());
    },
    // a long string with one arbitrary character somewhere, read in place and read ahead
    h_c01_long => {
        let n = 1 + choose(param(0));
        let at = [0, n / 2, n - 1][choose(3)];
        let mut s = String::with_capacity(4 * n + 8);
        let mut cs = Vec::new();
        for i in 0..n {
            let c = if i == at { scalar() } else { ['x', '\u{e9}', '\u{1f600}', '\n'][i % param(1)] };
            s.push(c);
            cs.push(c as u32);
        }
        let t = to_str(&s);
        check_literal(t.as_bytes(), &cs);
        eq(&read(from_str::<String>(&t)), &cs);
        let doc = to_str(&(s, 1u8));
        let mut d = read(TextDeserializer::new(Default::default(), doc.as_str()));
        read(d.open_list());
        read(d.push_item());
        eq(&read(d.read_str()), &cs);
        read(d.push_item());
        check(read(d.get_u8()) == 1, "the value after the string is read");
        read(d.close_list());
        read(d.close());
    },
    // an arbitrary character
    h_c01_char => {
        let c = scalar();
        let t = to_str(&c);
        check_literal(t.as_bytes(), &[c as u32]);
        let got = read(from_str::<char>(&t));
        check(got == c, "the character read back is the one written");
        cover(1);
        observe(c as u64);
    },
    // strings which are not one character are no char; one character in any spelling is
    h_c01_as_char => {
        let n = param(0);
        let mut v = vec![b'"'];
        let cs: Vec<u32> = spelled(&mut v, n);
        v.push(b'"');
        let t = doc(v);
        match from_str::<char>(&t) {
            Ok(c) => {
                cover(1);
                check(n == 1 && c as u32 == cs[0], "a char is read from a string of exactly that character");
            }
            Err(_) => {
                cover(2);
                check(n != 1, "a string of one character is read as a char");
            }
        }
    },
    // an object key and value, written through the wrappers or piece by piece
    h_c01_key => {
        let (k, kcs) = text(param(0));
        let (s, cs) = text(param(1));
        let pieces = choose(3);
        let mut ser = TextSerializer::new(TextSerializerConfig { indent: if choose(2) == 0 { None } else { Some("\t") } }, String::new());
        let r = Value::with(&mut ser, |v| {
            let mut o = v.into_object()?;
            match pieces {
                0 => o.entry(&k)?.put_str(&s)?,
                1 => {
                    let (raw, done) = o.entry(&k)?.into_raw();
                    raw.open_str()?;
                    for c in s.chars() { raw.append_char(c)? }
                    raw.close_str()?;
                    *done = true;
                }
                _ => {
                    let (raw, done) = o.entry(&k)?.into_raw();
                    raw.open_str()?;
                    raw.append_str(&s)?;
                    raw.close_str()?;
                    *done = true;
                }
            }
            o.close()
        });
        if r.is_err() { fail("writing to a string succeeds") }
        let t = ser.close();
        match json::parse(t.as_bytes()) {
            Some(json::Tree::Obj(es)) => {
                check(es.len() == 1 && es[0].0.len() == kcs.len(), "one entry is written, its key has the right length");
                for i in 0..kcs.len() { check(es[0].0[i] == kcs[i], "the key written denotes the text") }
                match &es[0].1 {
                    json::Tree::Str(x) => {
                        check(x.len() == cs.len(), "the value written has the right length");
                        for i in 0..cs.len() { check(x[i] == cs[i], "the value written denotes the text") }
                    }
                    _ => fail("the value written is a string"),
                }
            }
            _ => fail("the document written is a well-formed object"),
        }
        // and back
        let mut d = read(TextDeserializer::new(Default::default(), t.as_str()));
        read(d.open_object());
        if choose(2) == 0 {
            check(read(d.next_entry()), "the entry is there");
            eq(&read(d.flush_str()), &kcs);
        } else {
            check(read(d.try_push_entry(&k)), "the entry is found by its key");
        }
        eq(&read(d.read_str()), &cs);
        check(!read(d.next_entry()), "there is no other entry");
        read(d.close());
        observe_bytes(t.as_bytes());
    },
    // every spelling of n characters, consumed in place in different ways
    h_c01_read => {
        let n = param(0);
        let mut v = Vec::with_capacity(64);
        let mode = choose(7);
        v.extend_from_slice(if mode == 4 { b"{\"" } else { b"\"" });
        let cs: Vec<u32> = spelled(&mut v, n);
        v.extend_from_slice(if mode == 4 { b"\":1}" } else { b"\"" });
        let t = doc(v);
        match mode {
            0 => eq(&read(from_str::<String>(&t)), &cs),
            1 => {
                // character by character
                let mut d = read(TextDeserializer::new(Default::default(), t.as_str()));
                read(d.open_str());
                for i in 0..n {
                    match read(d.next_char()) {
                        Some(c) => check(c as u32 == cs[i], "the character read is the one denoted"),
                        None => fail("no character is lost"),
                    }
                }
                if choose(2) == 0 {
                    check(read(d.next_char()).is_none(), "the string ends");
                } else {
                    read(d.close_str());
                }
                read(d.close());
                cover(1);
            }
            2 => {
                // the first character alone, then the rest
                let mut d = read(TextDeserializer::new(Default::default(), t.as_str()));
                read(d.open_str());
                if n > 0 {
                    match read(d.next_char()) {
                        Some(c) => check(c as u32 == cs[0], "the character read is the one denoted"),
                        None => fail("no character is lost"),
                    }
                }
                eq(&read(d.flush_str()), &cs[n.min(1)..]);
                read(d.close());
            }
            3 => {
                let r = match Utf8Reader::new(t.as_bytes()) { Ok(r) => r, Err(_) => fail("UTF-8 is read") };
                match from_reader::<_, String>(r) {
                    Ok(s) => eq(&s, &cs),
                    Err(_) => fail("a well-formed string is read"),
                }
            }
            4 => {
                let mut d = read(TextDeserializer::new(Default::default(), t.as_str()));
                read(d.open_object());
                check(read(d.next_entry()), "the entry is there");
                eq(&read(d.flush_str()), &cs);
                check(read(d.get_u8()) == 1, "the value behind the key is read");
                check(!read(d.next_entry()), "there is no other entry");
                read(d.close());
            }
            5 => {
                // skipped
                let mut d = read(TextDeserializer::new(Default::default(), t.as_str()));
                read(d.skip_value());
                read(d.close());
                cover(1);
            }
            _ => {
                // closing early is an error exactly if there are characters left
                let mut d = read(TextDeserializer::new(Default::default(), t.as_str()));
                read(d.open_str());
                check(d.close_str().is_ok() == (n == 0), "close_str asserts the end of the string");
                cover(1);
            }
        }
        observe_bytes(t.as_bytes());
    },
    // a string value that is read ahead
    h_c01_ahead => {
        let n = param(0);
        let mut v = Vec::with_capacity(64);
        v.extend_from_slice(b"{\"a\":\"");
        let cs: Vec<u32> = spelled(&mut v, n);
        v.extend_from_slice(b"\",\"b\":1}");
        let t = doc(v);
        let mut d = read(TextDeserializer::new(Default::default(), t.as_str()));
        read(d.open_object());
        check(read(d.try_push_entry("b")), "the second entry is found");
        check(read(d.get_u8()) == 1, "the second entry is read");
        check(read(d.try_push_entry("a")), "the first entry is found");
        match choose(3) {
            0 => eq(&read(d.read_str()), &cs),
            1 => {
                read(d.open_str());
                for i in 0..n {
                    match read(d.next_char()) {
                        Some(c) => check(c as u32 == cs[i], "the character read is the one denoted"),
                        None => fail("no character is lost"),
                    }
                }
                read(d.close_str());
                cover(1);
            }
            _ => {
                let r = d.get_char();
                check(r.is_ok() == (n == 1), "a char is read from a string of one character");
                if let Ok(c) = r {
                    check(c as u32 == cs[0], "the char read is the one denoted");
                    cover(1);
                } else {
                    return;
                }
            }
        }
        check(!read(d.next_entry()), "there is no other entry");
        read(d.close());
    },
    // keys: compared with the wanted one, and read ahead; a few concrete characters
    h_c01_keys => {
        let n = choose(param(0) + 1);
        let mut v = Vec::with_capacity(64);
        v.extend_from_slice(b"{\"");
        let cs: Vec<u32> = (0..n).map(|_| spell_few(&mut v)).collect();
        v.extend_from_slice(b"\":1,\"end\":2}");
        let t = doc(v);
        let mut key = String::new();
        for c in &cs { key.push(char::from_u32(*c).unwrap()) }
        let mut d = read(TextDeserializer::new(Default::default(), t.as_str()));
        read(d.open_object());
        match choose(4) {
            0 => {
                check(read(d.try_push_entry(&key)), "an entry is found by its key");
                check(read(d.get_u8()) == 1, "and it is that one");
                check(read(d.try_push_entry("end")), "so is the next");
                check(read(d.get_u8()) == 2, "and it is that one");
            }
            1 => {
                check(read(d.try_push_entry("end")), "the second entry is found");
                check(read(d.get_u8()) == 2, "and it is that one");
                check(read(d.try_push_entry(&key)), "an entry that was read ahead is found by its key");
                check(read(d.get_u8()) == 1, "and it is that one");
            }
            2 => {
                check(read(d.try_push_entry("end")), "the second entry is found");
                check(read(d.get_u8()) == 2, "and it is that one");
                check(read(d.next_entry()), "there is another entry");
                eq(&read(d.flush_str()), &cs);
                check(read(d.get_u8()) == 1, "and it is that one");
            }
            _ => {
                // a longer and a shorter key are not the same
                let other = if n > 0 && choose(2) == 0 {
                    let mut k = key.clone();
                    k.pop();
                    k
                } else {
                    let mut k = key.clone();
                    k.push('x');
                    k
                };
                check(!read(d.try_push_entry(&other)), "an entry is not found by another key");
                check(read(d.next_entry()), "it is still there");
                eq(&read(d.flush_str()), &cs);
                check(read(d.get_u8()) == 1, "and it is that one");
                check(read(d.next_entry()), "so is the next");
                read(d.skip_str());
                check(read(d.get_u8()) == 2, "and it is that one");
            }
        }
        check(!read(d.next_entry()), "there is no other entry");
        read(d.close());
        cover(1);
    },
    // a long text, key and name: length, kinds of characters, whether it is a key
    h_c01_scale => {
        let n = param(0);
        let at = [0, n - 1, n / 2][choose(3)];
        let arbitrary = if param(2) == 1 { ['a', '"', '\u{e9}', '\u{1f600}', '\u{1}', '\u{0}'][choose(6)] } else { scalar() };
        let mut s = String::with_capacity(4 * n + 8);
        let mut cs = Vec::new();
        for i in 0..n {
            let c = if i == at { arbitrary } else { ['x', '\u{e9}', '\u{1f600}', '\n'][i % param(1)] };
            s.push(c);
            cs.push(c as u32);
        }
        let t = to_str(&s);
        check_literal(t.as_bytes(), &cs);
        eq(&read(from_str::<String>(&t)), &cs);
        // as a key and as a value, read ahead
        let key = if param(2) == 1 { &t } else { "\"key\"" };
        let doc = ["{", key, ": ", &t, ",\"b\":1}"].concat();
        let mut d = read(TextDeserializer::new(Default::default(), doc.as_str()));
        read(d.open_object());
        check(read(d.try_push_entry("b")), "the second entry is found");
        check(read(d.get_u8()) == 1, "the second entry is read");
        if choose(2) == 0 {
            check(read(d.try_push_entry(if param(2) == 1 { &s } else { "key" })), "an entry that was read ahead is found by its key");
        } else {
            check(read(d.next_entry()), "the entry is there");
            let k = read(d.flush_str());
            if param(2) == 1 { eq(&k, &cs) } else { check(&k[..] == "key", "a key is read back") }
        }
        eq(&read(d.read_str()), &cs);
        check(!read(d.next_entry()), "there is no other entry");
        read(d.close());
    },
}
