//! C06: structs read the same whatever the field order.
use crate::json::{self, Tree};
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, Serialize, Utf8Reader};
use serdere_json::*;

#[derive(Deserialize, Serialize)]
struct Four {
    a: u8,
    b: Option<bool>,
    #[serde(default)]
    c: String,
    d: Vec<u8>,
}
#[derive(Deserialize, Serialize)]
struct Outer {
    p: Four,
    #[serde(rename = "")]
    q: Option<Inner>,
    r: (Inner, u8),
}
#[derive(Deserialize, Serialize)]
struct Inner {
    #[serde(rename = "xx")]
    x: char,
    #[serde(default)]
    y: i8,
}
#[derive(Deserialize, Serialize)]
struct Forty { f0: u8, f1: u8, f2: u8, f3: Option<u8>, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: Option<u8>, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: Option<u8>, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: Option<u8>, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: Option<u8>, f32: u8, f33: u8, f34: u8, f35: u8, f36: u8, f37: u8, f38: Option<u8>, f39: u8 }
impl Forty {
    fn all(&self) -> [Option<u8>; 40] {
        [Some(self.f0), Some(self.f1), Some(self.f2), self.f3, Some(self.f4), Some(self.f5), Some(self.f6), Some(self.f7), Some(self.f8), Some(self.f9), self.f10, Some(self.f11), Some(self.f12), Some(self.f13), Some(self.f14), Some(self.f15), Some(self.f16), self.f17, Some(self.f18), Some(self.f19), Some(self.f20), Some(self.f21), Some(self.f22), Some(self.f23), self.f24, Some(self.f25), Some(self.f26), Some(self.f27), Some(self.f28), Some(self.f29), Some(self.f30), self.f31, Some(self.f32), Some(self.f33), Some(self.f34), Some(self.f35), Some(self.f36), Some(self.f37), self.f38, Some(self.f39)]
    }
}
/// Names which are alike, or need to be escaped.
#[derive(Deserialize, Serialize)]
struct Odd {
    #[serde(rename = " a")]
    f0: u8,
    #[serde(rename = "a b")]
    f1: u8,
    #[serde(rename = "a")]
    f2: u8,
    #[serde(rename = "")]
    f3: u8,
    #[serde(rename = "a\"\n")]
    f4: u8,
    #[serde(rename = "\u{e9}\u{20ac}\u{1f600}\\")]
    f5: u8,
    #[serde(rename = " ab")]
    f6: u8,
}
const ODD: [&str; 7] = [" a", "a b", "a", "", "a\"\n", "\u{e9}\u{20ac}\u{1f600}\\", " ab"];
/// A key, its characters spelled in one of three ways.
fn spell(t: &mut Vec<u8>, k: &str, way: usize) {
    t.push(b'"');
    for (i, c) in k.chars().enumerate() {
        if c == '\n' && way == 0 {
            t.extend_from_slice(b"\\n")
        } else if c < ' ' || way == 2 || way == 1 && i % 2 == 0 {
            for u in c.encode_utf16(&mut [0; 2]) {
                t.extend_from_slice(b"\\u");
                for k in (0..4).rev() { t.push(b"0123456789aBcDeF"[(*u >> (4 * k)) as usize & 15]) }
            }
        } else {
            if matches!(c, '"' | '\\') { t.push(b'\\') }
            t.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes())
        }
    }
    t.push(b'"')
}
fn item<T: Denote>(v: &[Tree], i: usize) -> Option<T> {
    T::of(&v[i])
}
/// The value of a defaulted field.
fn or_default<T: Denote + Default>(t: Option<&Tree>) -> Option<T> {
    match t {
        None | Some(Tree::Null) => Some(T::default()),
        Some(t) => T::of(t),
    }
}
fn find<'a>(es: &'a [(Vec<u32>, Tree)], name: &str) -> Option<&'a Tree> {
    for (k, v) in es {
        if is_key(k, name) {
            return Some(v);
        }
    }
    None
}
impl Denote for Four {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Obj(es) => Some(Four { a: field(t, "a")?, b: field(t, "b")?, c: or_default(find(es, "c"))?, d: field(t, "d")? }),
            Tree::Arr(v) if v.len() == 4 => Some(Four { a: item(v, 0)?, b: item(v, 1)?, c: or_default(Some(&v[2]))?, d: item(v, 3)? }),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.a.same(&o.a) & self.b.same(&o.b) & self.c.same(&o.c) & self.d.same(&o.d)
    }
    fn observe(&self) {
        self.a.observe();
        self.b.observe();
        self.c.observe();
        self.d.observe();
    }
}
impl Nullable for Four {}
impl Denote for Inner {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Obj(es) => Some(Inner { x: field(t, "xx")?, y: or_default(find(es, "y"))? }),
            Tree::Arr(v) if v.len() == 2 => Some(Inner { x: item(v, 0)?, y: or_default(Some(&v[1]))? }),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) & self.y.same(&o.y)
    }
    fn observe(&self) {
        self.x.observe();
        self.y.observe();
    }
}
impl Nullable for Inner {}
impl Denote for Outer {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Obj(_) => Some(Outer { p: field(t, "p")?, q: field(t, "")?, r: field(t, "r")? }),
            Tree::Arr(v) if v.len() == 3 => Some(Outer { p: item(v, 0)?, q: item(v, 1)?, r: item(v, 2)? }),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.p.same(&o.p) & self.q.same(&o.q) & self.r.same(&o.r)
    }
    fn observe(&self) {
        self.p.observe();
        self.q.observe();
        self.r.observe();
    }
}

/// A document under construction.
struct Doc(Vec<u8>, bool);
impl Doc {
    fn put(&mut self, s: &str) {
        self.0.extend_from_slice(s.as_bytes())
    }
    fn digit(&mut self) {
        self.0.push(range(48, 57) as u8)
    }
    /// An arbitrary character of a string, spelled in an arbitrary way.
    fn ch(&mut self) {
        match choose(if self.1 { 4 } else { 1 }) {
            0 => {
                let c = range(32, 126) as u8;
                assume(c != b'"' && c != b'\\');
                self.0.push(c)
            }
            1 => {
                self.0.push(b'\\');
                self.0.push(pick(b"\"\\/bfnrt"))
            }
            2 => {
                self.put("\\u00");
                self.0.push(range(48, 55) as u8);
                self.0.push(pick(b"0123456789abcdefABCDEF"))
            }
            _ => {
                self.0.push(range(0xC3, 0xDF) as u8);
                self.0.push(range(0x80, 0xBF) as u8)
            }
        }
    }
    /// Any value, at most `depth` levels deep.
    fn junk(&mut self, depth: usize) {
        match choose(if depth > 0 { 12 } else { 6 }) {
            0 => self.put("null"),
            1 => self.put(["false", "true"][choose(2)]),
            2 => self.digit_number(),
            3 => {
                self.put("\"");
                self.ch();
                self.put("\"")
            }
            4 => self.put(["[]", "{}", "\"\"", "0"][choose(4)]),
            5 => self.put("\"},\\\"a\\\":{[\""),
            6 => {
                self.put("[");
                self.junk(depth - 1);
                self.put("]")
            }
            7 => {
                self.put("[");
                self.junk(0);
                self.put(" , ");
                self.junk(depth - 1);
                self.put("]")
            }
            8 => {
                self.put("{\"a\":");
                self.junk(depth - 1);
                self.put("}")
            }
            9 => {
                self.put("{ \"x\" : 1 , \"b\":");
                self.junk(depth - 1);
                self.put(" }")
            }
            10 => {
                self.put("[{\"a\":[");
                self.junk(0);
                self.put("]},[0]]")
            }
            _ => {
                self.put("{\"\":");
                self.junk(0);
                self.put(",\"d\":{\"c\":0}}")
            }
        }
    }
    fn digit_number(&mut self) {
        self.put(["", "-"][choose(2)]);
        self.0.push(range(49, 57) as u8);
        self.digit();
        match choose(3) {
            0 => {}
            1 => {
                self.put(".");
                self.digit()
            }
            _ => self.put("E-2"),
        }
    }
    fn unknown(&mut self, depth: usize) {
        self.put(["\"x\":", "\"\":", "\"\\u0041\":", "\"aa\":", "\"ab\" : ", "\"\u{e9}\":"][choose(if self.1 { 6 } else { 2 })]);
        self.junk(depth)
    }
    /// A value for a field of `Four` (the given way).
    fn field(&mut self, f: usize, way: usize) {
        match f {
            0 => {
                self.put(["\"a\":", "\"\\u0061\":", " \"a\" : "][way % 3]);
                self.number()
            }
            1 => {
                self.put(["\"b\":", "\"\\u0062\":"][way % 2]);
                self.boolean()
            }
            2 => {
                self.put("\"c\":");
                self.text()
            }
            _ => {
                self.put("\"d\":");
                self.list()
            }
        }
    }
    fn number(&mut self) {
        self.0.push(range(49, 57) as u8);
        self.digit()
    }
    fn boolean(&mut self) {
        self.put(["true", "null", "false"][choose(if self.1 { 3 } else { 1 })])
    }
    fn text(&mut self) {
        match choose(if self.1 { 3 } else { 1 }) {
            1 => self.put("null"),
            2 => self.put("\"\""),
            _ => {
                self.put("\"");
                self.ch();
                self.put("z\"")
            }
        }
    }
    fn list(&mut self) {
        match choose(if self.1 { 3 } else { 1 }) {
            2 => self.put("[]"),
            1 => {
                self.put("[");
                self.number();
                self.put(" , ");
                self.number();
                self.put("]")
            }
            _ => {
                self.put("[");
                self.digit();
                self.put("]")
            }
        }
    }
}

fn judge<T: Denote, E>(got: Result<T, E>, text: &[u8]) {
    let t = json::parse(text);
    check(t.is_some(), "(the document is well-formed)");
    match (got, T::of(&t.unwrap())) {
        (Ok(g), Some(w)) => {
            cover(1);
            check(g.same(&w), "every field has the value of its entry");
            g.observe();
        }
        (Err(_), None) => {
            cover(2);
            observe(77);
        }
        (Ok(_), None) => fail("a struct without a required field is rejected"),
        (Err(_), Some(_)) => fail("a struct is read whatever the order of its entries"),
    }
}
fn read_and_judge<T>(d: Doc)
where
    T: Denote + for<'a> Deserialize<TextDeserializer<&'a str>> + for<'a> Deserialize<TextDeserializer<Utf8Reader<&'a [u8]>>>,
{
    let text = unsafe { String::from_utf8_unchecked(d.0) };
    if param(4) == 1 {
        judge(from_str::<T>(&text), text.as_bytes())
    } else {
        judge(from_reader::<_, T>(Utf8Reader::new(text.as_bytes()).unwrap()), text.as_bytes())
    }
}

entries! {
    // entries: any known fields (each at most once) and unknown ones, in any order; depth of unknown values; at most so many unknown
    h_c06_order => {
        let (n, depth, mut unknown) = (param(0), param(1), param(2));
        let mut d = Doc(Vec::with_capacity(128), param(3) == 1);
        d.put("{");
        let mut left = vec![0, 1, 2, 3];
        let mut first = true;
        for _ in 0..n {
            let k = choose(left.len() + 1 + (unknown > 0) as usize);
            if k == left.len() {
                break;
            }
            if !first {
                d.put(",");
            }
            first = false;
            if k > left.len() {
                unknown -= 1;
                d.unknown(depth)
            } else {
                let f = left.remove(k);
                d.field(f, n + left.len())
            }
        }
        d.put("}");
        read_and_judge::<Four>(d)
    },
    // unknown entries with any value, before and after known ones
    h_c06_unknown => {
        let depth = param(0);
        let mut d = Doc(Vec::with_capacity(128), param(3) == 1);
        d.put("{");
        let at = choose(3);
        for i in 0..3 {
            if i > 0 {
                d.put(",");
            }
            if at == i {
                d.unknown(depth);
                d.put(",");
            }
            match i {
                0 => { d.put("\"d\":["); d.digit(); d.put("]") }
                1 => { d.put("\"a\":"); d.digit() }
                _ => { d.put("\"c\":\""); d.0.push(range(97, 122) as u8); d.put("\"") }
            }
        }
        d.put("}");
        read_and_judge::<Four>(d)
    },
    // the positional form: elements, wrong lengths included
    h_c06_array => {
        let mut d = Doc(Vec::with_capacity(128), param(3) == 1);
        d.put("[");
        let n = choose(6);
        for i in 0..n {
            if i > 0 {
                d.put(",");
            }
            match i {
                0 => d.number(),
                1 => d.boolean(),
                2 => d.text(),
                3 => d.list(),
                _ => d.junk(0),
            }
        }
        d.put("]");
        read_and_judge::<Four>(d)
    },
    // structs within structs, each in every order
    h_c06_nested => {
        let mut d = Doc(Vec::with_capacity(128), param(3) == 1);
        d.put("{");
        let mut left = vec![0, 1, 2];
        let drop = choose(4);
        if drop < 3 && param(0) == 1 {
            left.remove(drop);
        }
        let mut first = true;
        while !left.is_empty() {
            if !first {
                d.put(",");
            }
            first = false;
            match left.remove(choose(left.len())) {
                0 => {
                    d.put("\"p\":{");
                    let order: [usize; 4] = [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]][choose(4)];
                    for (i, f) in order.iter().enumerate() {
                        if i > 0 {
                            d.put(",");
                        }
                        if i == 2 && param(1) == 1 {
                            d.put("\"p\":[{\"a\":1}],");
                        }
                        match f {
                            0 => { d.put("\"a\":"); d.number() }
                            1 => d.put("\"b\":true"),
                            2 => { d.put("\"c\":\""); d.0.push(range(97, 122) as u8); d.put("\"") }
                            _ => { d.put("\"d\":["); d.digit(); d.put("]") }
                        }
                    }
                    d.put("}")
                }
                1 => {
                    d.put("\"\":");
                    match choose(5) {
                        0 => d.put("null"),
                        1 => { d.put("{\"xx\":\""); d.ch(); d.put("\"}") }
                        2 => { d.put("{\"y\":"); d.digit(); d.put(",\"xx\":\"q\"}") }
                        3 => { d.put("[\""); d.ch(); d.put("\",null]") }
                        _ => d.put("{\"y\":{},\"xx\":\"q\"}"),
                    }
                }
                _ => {
                    d.put("\"r\":[");
                    match choose(4) {
                        0 => { d.put("{\"xx\":\"r\",\"y\":-"); d.digit(); d.put("}") }
                        1 => { d.put("{\"y\":-"); d.digit(); d.put(",\"r\":[0],\"xx\":\"r\"}") }
                        2 => d.put("[\"s\",5]"),
                        _ => d.put("{\"y\":1}"),
                    }
                    d.put(",");
                    d.number();
                    d.put("]")
                }
            }
        }
        d.put("}");
        read_and_judge::<Outer>(d)
    },
    // a missing field is reported by its name
    h_c06_missing => {
        let mut d = Doc(Vec::with_capacity(128), param(3) == 1);
        d.put("{");
        let (ahead, embed) = (choose(2) == 1, choose(2) == 1);
        let order: [usize; 4] = [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]][choose(3)];
        let mut has = [false; 4];
        let mut first = true;
        if embed {
            d.put("\"p\":{");
            if !ahead {
                d.put("\"w\":[{}],");
            }
        }
        if ahead {
            d.put("\"z\":[{\"a\":1,\"d\":[]},\"]\"]");
            first = false;
        }
        if embed && !ahead {
            d.0.pop();
            first = false;
        }
        for f in order {
            if choose(2) == 1 {
                has[f] = true;
                if !first {
                    d.put(",");
                }
                first = false;
                d.field(f, 0)
            }
        }
        d.put("}");
        if embed {
            d.put(",\"r\":0}");
        }
        let text = unsafe { String::from_utf8_unchecked(d.0) };
        let err = if embed { from_str::<Outer>(&text).err() } else { from_str::<Four>(&text).err() };
        let want = if !has[0] { Some("a") } else if !has[3] { Some("d") } else { None };
        match (want, &err) {
            (None, _) => cover(3),
            (Some(_), None) => fail("a missing field is an error"),
            (Some(w), Some(e)) => {
                cover(4);
                match e.message() {
                    DeserializeErrorMessage::MissingKey(k) => check(k.as_bytes() == w.as_bytes(), "a missing field is reported by its name"),
                    _ => fail("a missing field is reported as missing"),
                }
            }
        }
    },
    // names which are alike: the spelling of keys, an unknown key which is a beginning of a name and `param(1)` arbitrary characters; where
    h_c06_names => {
        let way = param(0);
        let start = [0, 4][choose(2)];
        let back = choose(2) == 1;
        let gap = [1, 7][choose(2)];
        let base: Vec<char> = ODD[choose(7)].chars().collect();
        let mut key: String = base[..choose(base.len() + 1)].iter().collect();
        for _ in 0..param(1) {
            let c = if param(2) == 1 { scalar() } else { range(32, 126) as u8 as char };
            assume(c >= ' ' && c != '"' && c != '\\');
            key.push(c)
        }
        for n in ODD { assume(n.len() != key.len() || n != key) }
        let digit = range(48, 57) as u8;
        let mut t = vec![b'{'];
        let mut first = true;
        let mut unknown = |t: &mut Vec<u8>, first: &mut bool| {
            if !*first { t.push(b',') }
            *first = false;
            // (its arbitrary characters stand for themselves)
            t.push(b'"');
            let n = key.chars().count() - param(1);
            let known: String = key.chars().take(n).collect();
            let mut k = Vec::new();
            spell(&mut k, &known, way);
            t.extend_from_slice(&k[1..k.len() - 1]);
            for c in key.chars().skip(n) { t.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()) }
            t.extend_from_slice(b"\":[{\"a\":0}]");
        };
        for k in 0..7 {
            if k == gap { unknown(&mut t, &mut first) }
            let i = if back { (start + 7 - k) % 7 } else { (start + k) % 7 };
            if !first { t.push(b',') }
            first = false;
            spell(&mut t, ODD[i], way);
            t.push(b':');
            if i == start { t.push(digit) } else { t.push(b'1' + i as u8) }
        }
        if gap == 7 { unknown(&mut t, &mut first) }
        t.push(b'}');
        let got = match Utf8Reader::new(&t[..]) { Ok(r) => from_reader::<_, Odd>(r), Err(_) => fail("well-formed UTF-8 is decoded") };
        match got {
            Ok(x) => {
                cover(1);
                for (i, v) in [x.f0, x.f1, x.f2, x.f3, x.f4, x.f5, x.f6].into_iter().enumerate() {
                    check(v == if i == start { digit - 48 } else { i as u8 + 1 }, "each field has its own value");
                    observe(v as u64);
                }
            }
            Err(_) => fail("a complete struct is read"),
        }
    },
    // a struct of forty fields: its entries rotated or turned round, one missing or null; how it is read
    h_c06_wide => {
        let n = 40;
        let at = crate::docs::place_in(n);
        let digit = range(48, 57) as u8;
        let start = crate::docs::place_in(n);
        let back = choose(2) == 1;
        let missing = if choose(2) == 1 { [3, 0, 19, 39, 38][choose(5)] } else { n };
        let extra = choose(2) == 1;
        let mut t = Vec::new();
        t.extend_from_slice(if param(0) == 1 { b"[{" } else { b"{" });
        let mut first = true;
        for k in 0..n {
            let i = if back { (start + n - k) % n } else { (start + k) % n };
            if i == missing {
                continue;
            }
            if !first {
                t.push(b',')
            }
            first = false;
            t.extend_from_slice(b"\"f");
            crate::docs::number(&mut t, i);
            t.extend_from_slice(b"\":");
            if i == at { t.push(digit) } else { crate::docs::number(&mut t, i + 100) }
            if extra && k % 3 == 0 {
                t.extend_from_slice(b",\"g");
                crate::docs::number(&mut t, i);
                t.extend_from_slice(b"\":[{\"f0\":1},2]");
            }
        }
        t.push(b'}');
        if param(0) == 1 { t.push(b']') }
        let text = ascii_text(t);
        let got = if param(0) == 1 { from_str::<[Forty; 1]>(&text).map(|x| { let [x] = x; x }) } else { from_str::<Forty>(&text) };
        match got {
            Ok(x) => {
                cover(1);
                check(missing == n || missing % 7 == 3, "a missing field is an error");
                let all = x.all();
                for i in 0..n {
                    match all[i] {
                        None => check(i == missing, "only what is missing is absent"),
                        Some(v) => check(i != missing && v == if i == at { digit - 48 } else { i as u8 + 100 }, "each field has its own value"),
                    }
                }
                // and back
                let again = to_str(&x);
                match from_str::<Forty>(&again) {
                    Ok(y) => for i in 0..n { check(y.all()[i] == all[i], "what is written reads back") },
                    Err(_) => fail("what is written reads back"),
                }
            }
            Err(_) => {
                cover(2);
                check(missing != n && missing % 7 != 3, "a complete struct is read");
            }
        }
        observe_bytes(text.as_bytes());
    },
}
