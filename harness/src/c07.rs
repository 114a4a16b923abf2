//! C07: values read ahead are the same as values read in place.
use crate::docs::*;
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, Deserializer, NameMap, Outliner, Utf8Reader, Value};
use serdere_json::*;

type De<'a> = TextDeserializer<Utf8Reader<FeedReader<'a>>>;

/// Where the value is: what precedes and follows it.
const AROUND: &[(&str, &str)] = &[
    ("{\"x\":", "}"),
    ("{\"w\":[1,{\"a\":-2.5},\"s\"],\"x\":", ",\"v\":{\"b\":[]}}"),
    ("{\"o\":{\"u\":7,\"x\":", "}}"),
    ("{\"o\":{\"u\":7,\"x\":", ",\"v\":\"\\u00e9\"},\"p\":1}"),
    ("{\"o\":[0,{\"x\":", "},2]}"),
];
const ABSENT: &str = "not there";

/// Delivers the value at "x" of the documents above, read ahead or not.
fn locate<D: JsonDeserializer, R>(
    v: Value<D>,
    around: usize,
    ahead: bool,
    f: &mut dyn FnMut(Value<D>) -> Result<R, D::Error>,
) -> Result<Option<R>, D::Error> {
    let mut o = v.into_object()?;
    let res;
    match around {
        0 | 1 => {
            if ahead {
                if o.try_entry(ABSENT)?.is_some() {
                    end()
                }
            } else {
                while let Some(mut e) = o.next_entry()? {
                    let x = is_x(&e.key()?);
                    if x {
                        let res = f(e.value()?)?;
                        while let Some(e) = o.next_entry()? {
                            e.value()?.skip()?;
                        }
                        return Ok(Some(res));
                    }
                    e.value()?.skip()?;
                }
                return Ok(None);
            }
            res = match o.try_entry("x")? {
                None => return Ok(None),
                Some(v) => f(v)?,
            };
        }
        2 | 3 => {
            // the outer (3) or the inner object is read ahead
            if ahead && around == 3 {
                if o.try_entry(ABSENT)?.is_some() {
                    end()
                }
            }
            let v = match o.try_entry("o")? {
                None => return Ok(None),
                Some(v) => v,
            };
            let mut i = v.into_object()?;
            if ahead && around == 2 {
                if i.try_entry(ABSENT)?.is_some() {
                    end()
                }
            }
            if !ahead {
                match i.next_entry()? {
                    None => return Ok(None),
                    Some(e) => e.value()?.skip()?,
                }
            }
            res = match i.try_entry("x")? {
                None => return Ok(None),
                Some(v) => f(v)?,
            };
            while let Some(e) = i.next_entry()? {
                e.value()?.skip()?;
            }
        }
        _ => {
            if ahead {
                if o.try_entry(ABSENT)?.is_some() {
                    end()
                }
            }
            let v = match o.try_entry("o")? {
                None => return Ok(None),
                Some(v) => v,
            };
            let mut l = v.into_list()?;
            match l.next()? {
                None => return Ok(None),
                Some(v) => v.skip()?,
            }
            res = match l.next()? {
                None => return Ok(None),
                Some(v) => {
                    let mut i = v.into_object()?;
                    let r = match i.try_entry("x")? {
                        None => return Ok(None),
                        Some(v) => f(v)?,
                    };
                    while let Some(e) = i.next_entry()? {
                        e.value()?.skip()?;
                    }
                    r
                }
            };
            while let Some(v) = l.next()? {
                v.skip()?
            }
        }
    }
    while let Some(e) = o.next_entry()? {
        e.value()?.skip()?;
    }
    Ok(Some(res))
}
fn is_x(k: &str) -> bool {
    k.len() == 1 && concretize((k.as_bytes()[0] == b'x') as u64) == 1
}
fn run<R>(feed: &Feed, ahead: bool, f: &mut dyn FnMut(Value<De>) -> Result<R, DeserializeError<serdere::LineColumnPosition>>) -> Option<R> {
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), feed.reader()).ok()?;
    let res = Value::with(&mut d, |v| locate(v, param(3), ahead, f)).ok()?;
    d.close().ok()?;
    res
}
fn doc() -> Feed {
    let (a, b) = AROUND[param(3)];
    around_from(a, b, param(4))
}
fn typed<T: Denote + for<'a> Deserialize<De<'a>>>() {
    let f = doc();
    let mut get = |v: Value<De>| v.get::<T>();
    let ahead = run(&f, true, &mut get);
    let direct = run(&f, false, &mut get);
    match (direct, ahead) {
        (Some(a), Some(b)) => {
            cover(1);
            check(a.same(&b), "a value read ahead is the same as one read in place");
            a.observe();
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("a value which can be read in place can be read when read ahead"),
        (None, Some(_)) => fail("a value which cannot be read in place cannot be read when read ahead"),
    }
}

/// Choices which are made once and then repeated, and what was seen.
struct Script {
    picks: Vec<usize>,
    at: usize,
    fresh: bool,
    left: usize,
    steps: usize,
    log: Vec<u64>,
}
impl Script {
    fn pick(&mut self, n: usize) -> usize {
        if self.fresh {
            let k = choose(n);
            self.picks.push(k);
            k
        } else if self.at < self.picks.len() {
            self.at += 1;
            self.picks[self.at - 1]
        } else {
            fail("reading goes further with a value read ahead than in place")
        }
    }
    fn text(&mut self, s: &str) {
        self.log.push(s.len() as u64);
        for b in s.bytes() {
            self.log.push(b as u64)
        }
    }
    fn again(&mut self) {
        self.fresh = false;
        self.at = 0;
        self.left = self.steps;
        self.log = Vec::new();
    }
}
const NAMES: &NameMap<usize> = serdere::FixedNameMap::new([("a", 0), ("ab", 1), ("", 2)]).unfix();
fn walk<D: JsonDeserializer>(mut v: Value<D>, s: &mut Script) -> Result<(), D::Error> {
    if s.left == 0 {
        return v.skip();
    }
    s.left -= 1;
    let ty = v.ty();
    s.log.push(ty as u64);
    match ty {
        ValueType::Bool => match s.pick(2) {
            0 => s.log.push(v.get_bool()? as u64),
            _ => return v.get_u8().map(|_| ()),
        },
        ValueType::Null => match s.pick(4) {
            0 => v.into_null()?,
            1 => {
                if !v.check_null()? {
                    fail("null is null")
                }
            }
            2 => v.skip()?,
            _ => return v.get_str().map(|_| ()),
        },
        ValueType::Number => match s.pick(6) {
            0 => s.log.push(v.get_u8()? as u64),
            1 => s.log.push(v.get_i16()? as u64),
            2 => s.log.push(v.get_u64()?),
            3 => s.log.push(v.get_tag(2, NAMES)? as u64),
            4 => v.skip()?,
            _ => return v.get_bool().map(|_| ()),
        },
        ValueType::String => match s.pick(9) {
            0 => {
                let t = v.get_str()?;
                s.text(&t)
            }
            1 => s.log.push(v.get_char()? as u64),
            2 => s.log.push(v.get_tag(2, NAMES)? as u64),
            3 => v.skip()?,
            4 => return v.get_u8().map(|_| ()),
            5 => return v.into_null(),
            k => {
                let (d, done) = v.into_raw();
                d.open_str()?;
                if let Some(c) = d.next_char()? {
                    s.log.push(c as u64);
                    match k {
                        6 => d.close_str()?,
                        7 => d.skip_str()?,
                        _ => {
                            let t = d.flush_str()?.into_owned();
                            s.text(&t)
                        }
                    }
                }
                *done = true;
            }
        },
        ValueType::Array => match s.pick(5) {
            0 => {
                let mut l = v.into_list()?;
                while let Some(v) = l.next()? {
                    s.log.push(1);
                    walk(v, s)?
                }
            }
            1 => {
                let mut l = v.into_tuple(None)?;
                walk(l.element()?, s)?;
                if s.pick(2) == 1 {
                    walk(l.element()?, s)?
                }
                l.close()?
            }
            2 => v.skip()?,
            3 => {
                let mut t = v.into_struct(None)?;
                walk(t.field("b")?, s)?;
                walk(t.field("a")?, s)?;
                t.close()?
            }
            _ => return v.into_object().map(|_| ()),
        },
        ValueType::Object => match s.pick(5) {
            0 | 1 => {
                let mut o = v.into_object()?;
                while s.left > 0 {
                    s.left -= 1;
                    match s.pick(5) {
                        0 => {
                            let Some(mut e) = o.next_entry()? else { return Ok(()) };
                            s.text(&e.key()?);
                            walk(e.value()?, s)?
                        }
                        1 => {
                            let Some(e) = o.next_entry()? else { return Ok(()) };
                            walk(e.value()?, s)?
                        }
                        2 => {
                            if let Some(v) = o.try_entry("a")? {
                                s.log.push(2);
                                walk(v, s)?
                            }
                        }
                        3 => walk(o.entry("b")?, s)?,
                        _ => break,
                    }
                }
                o.close()?
            }
            2 => v.skip()?,
            3 => {
                let mut t = v.into_struct(None)?;
                walk(t.field("b")?, s)?;
                walk(t.field("a")?, s)?;
                t.close()?
            }
            _ => return v.into_list().map(|_| ()),
        },
    }
    Ok(())
}

/// Writes an arbitrary value of at most `left` nodes.
fn shape(t: &mut Vec<u8>, left: &mut usize, depth: usize) {
    *left -= 1;
    match if depth == 0 || *left == 0 { choose(3) } else { choose(5) } {
        0 => t.push(b'0' + *left as u8),
        1 => t.extend_from_slice(b"[]"),
        2 => t.extend_from_slice(b"{}"),
        k => {
            t.push(if k == 3 { b'[' } else { b'{' });
            for i in 0.. {
                if i > 0 {
                    if *left == 0 || choose(2) == 0 {
                        break;
                    }
                    t.push(b',')
                }
                if k == 4 {
                    t.extend_from_slice([&b"\"\":"[..], b"\"a\":", b"\"ab\":"][choose(3)])
                }
                shape(t, left, depth - 1)
            }
            t.push(if k == 3 { b']' } else { b'}' })
        }
    }
}
/// Reads some of it: the members of a collection in turn, each as a whole or not at all, in an object
/// those with two of the names first, or in the end.
fn some<D: JsonDeserializer>(v: Value<D>, s: &mut Script, named: bool) -> Result<(), D::Error> {
    match v.ty() {
        ValueType::Array => {
            s.log.push(1);
            let mut l = v.into_list()?;
            while let Some(v) = l.next()? {
                if s.pick(2) == 0 { some(v, s, named)? } else { v.skip()? }
            }
            s.log.push(2);
        }
        ValueType::Object => {
            s.log.push(3);
            let mut o = v.into_object()?;
            if named {
                for (i, n) in ["", "ab"].into_iter().enumerate() {
                    if s.pick(2) == 0 {
                        if let Some(v) = o.try_entry(n)? {
                            s.log.push(4 + i as u64);
                            some(v, s, named)?
                        }
                    }
                }
            }
            while let Some(mut e) = o.next_entry()? {
                s.text(&e.key()?);
                let v = e.value()?;
                if s.pick(2) == 0 { some(v, s, named)? } else { v.skip()? }
            }
            s.log.push(6);
        }
        _ => s.log.push(v.get_u8()? as u64 + 7),
    }
    Ok(())
}

entries! {
    // any value of some nodes, nested to some depth, read as a whole or in parts: nodes, depth, by name, where
    h_c07_shape => {
        let (a, b) = AROUND[param(3)];
        let mut t = a.as_bytes().to_vec();
        let mut left = param(0);
        shape(&mut t, &mut left, param(1));
        let f = Feed::new(Kind::Ascii, 0);
        f.text.replace(t);
        let f = f.ending(b);
        let mut s = Script { picks: Vec::new(), at: 0, fresh: true, left: 0, steps: 0, log: Vec::new() };
        let direct = run(&f, false, &mut |v| some(v, &mut s, param(2) == 1)).is_some();
        let log = std::mem::take(&mut s.log);
        s.again();
        let ahead = run(&f, true, &mut |v| some(v, &mut s, param(2) == 1)).is_some();
        check(direct == ahead, "reading ahead changes neither success nor failure");
        if direct {
            cover(1);
            check(s.at == s.picks.len() && log.len() == s.log.len(), "the same can be read from a value read ahead");
            for i in 0..log.len() { check(log[i] == s.log[i], "the same is read from a value read ahead") }
            observe(log.len() as u64);
        }
    },
    // a string consumed in every way, in place and read ahead: characters, steps, kinds of characters, where
    h_c07_text => {
        let (a, b) = AROUND[param(3)];
        let mut t = a.as_bytes().to_vec();
        t.push(b'"');
        for _ in 0..param(0) {
            match choose(param(2)) {
                0 => {
                    let c = scalar();
                    assume(c >= ' ' && c != '"' && c != '\\');
                    t.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
                k => t.extend_from_slice([&b"\\n"[..], b"\\u20aC", b"\\uD83d\\uDe00", b"\\u0000"][k - 1])
            }
        }
        t.push(b'"');
        let f = Feed::new(Kind::Ascii, 0);
        f.text.replace(t);
        let f = f.ending(b);
        let mut s = Script { picks: Vec::new(), at: 0, fresh: true, left: 0, steps: 0, log: Vec::new() };
        let mut read = |v: Value<De>, s: &mut Script| {
            let (d, done) = v.into_raw();
            d.open_str()?;
            for k in 0.. {
                // (the end of it is read in one way only)
                match if k < param(1) { s.pick(4) } else { 0 } {
                    0 => match d.next_char()? {
                        None => break,
                        Some(c) => s.log.push(c as u64),
                    },
                    1 => {
                        let t = d.flush_str()?.into_owned();
                        s.text(&t);
                        break
                    }
                    2 => {
                        d.close_str()?;
                        break
                    }
                    _ => {
                        d.skip_str()?;
                        break
                    }
                }
            }
            *done = true;
            Ok(())
        };
        let direct = run(&f, false, &mut |v| read(v, &mut s)).is_some();
        let log = std::mem::take(&mut s.log);
        s.again();
        let ahead = run(&f, true, &mut |v| read(v, &mut s)).is_some();
        check(direct == ahead, "reading ahead changes neither success nor failure");
        if direct {
            cover(1);
            check(s.at == s.picks.len() && log.len() == s.log.len(), "the same can be read from a value read ahead");
            for i in 0..log.len() { check(log[i] == s.log[i], "the same is read from a value read ahead") }
            observe(log.len() as u64);
        } else {
            cover(2)
        }
    },
    // type, what the value is made of, number of parts, where it is, how it starts
    h_c07_type => { types!(typed, param(0)) },
    // the same uses of the value, in place and read ahead: steps, ...
    h_c07_walk => {
        let f = doc();
        let mut s = Script { picks: Vec::new(), at: 0, fresh: true, left: param(0), steps: param(0), log: Vec::new() };
        let direct = run(&f, false, &mut |v| walk(v, &mut s)).is_some();
        let log = std::mem::take(&mut s.log);
        s.again();
        let ahead = run(&f, true, &mut |v| walk(v, &mut s)).is_some();
        check(direct == ahead, "reading ahead changes neither success nor failure");
        if direct {
            cover(1);
            check(s.at == s.picks.len() && log.len() == s.log.len(), "the same can be read from a value read ahead");
            for i in 0..log.len() {
                check(log[i] == s.log[i], "the same is read from a value read ahead");
                observe(log[i]);
            }
        } else {
            cover(2);
        }
    },
}
