//! C16: whatever mixture of accesses is used on an object, each entry is delivered exactly once.
use crate::sym::*;
use serdere::{Deserializer, Outliner, TextReader, Utf8Reader};
use serdere_json::*;
use std::cell::Cell;
use DeserializeErrorMessage::*;

struct Ent {
    key: &'static str,
    val: Val,
    read: Cell<bool>,
}
enum Val {
    /// which one it is, and an arbitrary digit
    Num(u64, u8),
    Str(u8),
    Arr(Vec<Val>),
    Obj(Vec<Ent>),
}
/// Keys, and how they are written.
const WORDS: [(&str, &str); 7] = [("a", "a"), ("", ""), ("ab", "a\\u0062"), ("b", "b"), ("aa", "aa"), ("\u{e9}", "\u{e9}"), ("a\"", "a\\\"")];
const ABSENT: &str = "abc";

struct Doc {
    text: Vec<u8>,
    ids: u64,
    /// the kinds of values
    kinds: &'static [u8],
    words: usize,
    /// whether keys come in any order
    orders: bool,
}
impl Doc {
    fn put(&mut self, s: &str) {
        self.text.extend_from_slice(s.as_bytes())
    }
    fn val(&mut self, depth: usize, most: usize) -> Val {
        let k = if depth == 0 { 0 } else { self.kinds[choose(self.kinds.len())] };
        match k {
            0 => {
                self.ids += 1;
                let d = range(48, 57) as u8;
                let id = self.ids;
                self.text.push(48 + id as u8);
                self.text.push(d);
                Val::Num(id, d - 48)
            }
            1 => {
                let c = range(97, 122) as u8;
                self.put("\"");
                self.text.push(c);
                self.put("\"");
                Val::Str(c)
            }
            2 => {
                let mut v = Vec::new();
                self.put("[");
                for i in 0..choose(most + 1) {
                    if i > 0 {
                        self.put(", ")
                    }
                    v.push(self.val(depth - 1, most));
                }
                self.put("]");
                Val::Arr(v)
            }
            3 => Val::Obj(self.obj(depth - 1, most, 0)),
            // (an object within an array)
            _ => {
                self.put("[");
                let o = self.obj(depth - 1, most, 1);
                self.put("]");
                Val::Arr(vec![Val::Obj(o)])
            }
        }
    }
    fn obj(&mut self, depth: usize, most: usize, least: usize) -> Vec<Ent> {
        let n = least + choose(most + 1 - least);
        let mut es: Vec<Ent> = Vec::new();
        self.put("{");
        for i in 0..n {
            if i > 0 {
                self.put(",")
            }
            // (distinct keys, in any order)
            let mut free = Vec::new();
            for w in 0..self.words {
                if !es.iter().any(|e| e.key == WORDS[w].0) {
                    free.push(w)
                }
            }
            let (key, written) = WORDS[free[if self.orders { choose(free.len()) } else { 0 }]];
            self.put("\"");
            self.put(written);
            self.put("\": ");
            let val = self.val(depth, most);
            es.push(Ent { key, val, read: Cell::new(false) });
        }
        self.put("}");
        es
    }
}
/// Particular documents: digits stand for keys, N and S for numbers and strings.
const SHAPES: [&str; 10] = [
    "{0{0N1N}1N}",
    "{1N0{1N0N}}",
    "{0{}1N2[N{}]}",
    "{0[{0N2N}]1S}",
    "{1{0{1N}}0N}",
    "[{0N}{0N1N}]",
    "{0[NN]1S2[]}",
    "{0{0{0N}}}",
    "{0N1{0{}1[{0N}]}2N}",
    "{0{1N}1{0N}}",
];
impl Doc {
    fn shape(&mut self, t: &[u8], at: &mut usize) -> Val {
        *at += 1;
        match t[*at - 1] {
            b'N' => {
                let k = std::mem::replace(&mut self.kinds, &[0]);
                let v = self.val(0, 0);
                self.kinds = k;
                v
            }
            b'S' => {
                let k = std::mem::replace(&mut self.kinds, &[1]);
                let v = self.val(1, 0);
                self.kinds = k;
                v
            }
            b'[' => {
                let mut v = Vec::new();
                self.put("[");
                while t[*at] != b']' {
                    if !v.is_empty() {
                        self.put(",")
                    }
                    v.push(self.shape(t, at));
                }
                *at += 1;
                self.put("]");
                Val::Arr(v)
            }
            _ => {
                let mut es: Vec<Ent> = Vec::new();
                self.put("{");
                while t[*at] != b'}' {
                    if !es.is_empty() {
                        self.put(",")
                    }
                    let (key, written) = WORDS[(t[*at] - 48) as usize];
                    *at += 1;
                    self.put("\"");
                    self.put(written);
                    self.put("\": ");
                    let val = self.shape(t, at);
                    es.push(Ent { key, val, read: Cell::new(false) });
                }
                *at += 1;
                self.put("}");
                Val::Obj(es)
            }
        }
    }
}
struct Use {
    steps: Cell<usize>,
    /// through the wrappers
    wrapped: bool,
    words: usize,
    /// whether values may be skipped, and keys read in different ways
    skips: bool,
    keys: bool,
    /// all ways to end an object, and to request an entry
    ends: bool,
    ways: bool,
    /// how many entries were delivered
    count: Cell<usize>,
}
/// The document is over: an error was reported, as it had to.
struct Over;
type Res = Result<(), Over>;
fn ok<T, P>(r: Result<T, DeserializeError<P>>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => fail("reading what is there succeeds"),
    }
}
type De<R> = TextDeserializer<R>;
/// What a request yields.
enum Got {
    Value,
    No,
    Missing(String),
}
/// Requests an entry.
fn request<R: TextReader>(u: &Use, d: &mut De<R>, key: &str, must: bool) -> Got
where
    R::Position: Clone,
{
    let r = if u.wrapped {
        let mut done = false;
        let mut o = Object::new(d, &mut done);
        if must { o.entry(key).map(|v| Some(v.into_raw()).is_some()) } else { o.try_entry(key).map(|v| v.is_some()) }
    } else if must {
        d.push_entry(key).map(|_| true)
    } else {
        d.try_push_entry(key)
    };
    match r {
        Ok(true) => Got::Value,
        Ok(false) => Got::No,
        Err(e) => match e.message() {
            MissingKey(k) if must => Got::Missing(k.clone()),
            _ => fail("a request which fails says that the key is missing"),
        },
    }
}
/// Reads a value which is on top of the stack.
fn consume<R: TextReader>(u: &Use, d: &mut De<R>, v: &Val) -> Res
where
    R::Position: Clone,
{
    if u.skips && choose(2) == 0 {
        ok(d.skip_value());
        return Ok(());
    }
    match v {
        Val::Num(id, x) => {
            check(d.peek_value_type() == ValueType::Number, "an entry is delivered with its own value");
            check(ok(d.get_u8()) == *id as u8 * 10 + x, "an entry is delivered with its own value");
        }
        Val::Str(c) => {
            check(d.peek_value_type() == ValueType::String, "an entry is delivered with its own value");
            let s = ok(d.read_str());
            check(s.len() == 1 && s.as_bytes()[0] == *c, "an entry is delivered with its own value");
        }
        Val::Arr(a) => {
            check(d.peek_value_type() == ValueType::Array, "an entry is delivered with its own value");
            ok(d.open_list());
            for x in a {
                if !ok(d.next_item()) {
                    fail("an array is delivered with all its items")
                }
                consume(u, d, x)?;
            }
            check(!ok(d.next_item()), "an array is delivered with its own items");
        }
        Val::Obj(es) => {
            check(d.peek_value_type() == ValueType::Object, "an entry is delivered with its own value");
            ok(d.open_object());
            object(u, d, es)?;
        }
    }
    Ok(())
}
fn find<'a>(es: &'a [Ent], key: &str) -> Option<&'a Ent> {
    es.iter().find(|e| e.key == key && !e.read.get())
}
fn left(es: &[Ent]) -> usize {
    es.iter().filter(|e| !e.read.get()).count()
}
/// Reads the key of an entry; returns it unless it is skipped.
fn key<R: TextReader>(d: &mut De<R>, may_skip: bool) -> Option<String>
where
    R::Position: Clone,
{
    match choose(2 + may_skip as usize) {
        0 => Some(ok(d.flush_str()).into_owned()),
        1 => {
            let mut s = String::new();
            while let Some(c) = ok(d.next_char()) {
                s.push(c)
            }
            Some(s)
        }
        _ => {
            ok(d.skip_str());
            None
        }
    }
}
/// The value of an entry which iteration delivers; returns false at the end.
fn next<R: TextReader>(u: &Use, d: &mut De<R>, es: &[Ent], simply: bool) -> Result<bool, Over>
where
    R::Position: Clone,
{
    if left(es) == 0 {
        check(!ok(d.next_entry()), "iteration ends once everything is delivered");
        return Ok(false);
    }
    if !ok(d.next_entry()) {
        fail("iteration delivers every unread entry")
    }
    let all = es.iter().filter(|e| !e.read.get()).all(|e| matches!(e.val, Val::Num(..)));
    let k = if simply || !u.keys { Some(ok(d.flush_str()).into_owned()) } else { key(d, all) };
    match k {
        Some(k) => match find(es, &k) {
            None => fail("iteration delivers an unread entry with its own key"),
            Some(e) => {
                e.read.set(true);
                consume(u, d, &e.val)?;
            }
        },
        None => {
            // (it is known by its value)
            let x = ok(d.get_u8());
            let id = concretize((x / 10) as u64);
            match es.iter().find(|e| !e.read.get() && matches!(e.val, Val::Num(i, _) if i == id)) {
                Some(Ent { val: Val::Num(_, y), read, .. }) => {
                    check(x == id as u8 * 10 + y, "an entry is delivered with its own value");
                    read.set(true)
                }
                _ => fail("iteration delivers the value of an unread entry"),
            }
        }
    }
    u.count.set(u.count.get() + 1);
    Ok(true)
}
/// Uses an opened object in an arbitrary way.
fn object<R: TextReader>(u: &Use, d: &mut De<R>, es: &[Ent]) -> Res
where
    R::Position: Clone,
{
    loop {
        let n = u.steps.get();
        if n == 0 || choose(2) == 0 {
            return finish(u, d, es);
        }
        u.steps.set(n - 1);
        let way = if u.ways { choose(4) } else { 3 * choose(2) };
        if way == 3 {
            if !next(u, d, es, false)? {
                return Ok(());
            }
            cover(1);
            continue;
        }
        let w = choose(u.words + 1);
        let name: &'static str = if w == u.words { ABSENT } else { WORDS[w].0 };
        let e = find(es, name);
        if way == 2 {
            // as a struct
            ok(d.push_field(name));
            match e {
                Some(e) => {
                    e.read.set(true);
                    consume(u, d, &e.val)?;
                    u.count.set(u.count.get() + 1);
                }
                None => check(ok(d.check_null()), "a field which is missing is taken as null"),
            }
            continue;
        }
        match (request(u, d, name, way == 1), e) {
            (Got::Value, Some(e)) => {
                e.read.set(true);
                consume(u, d, &e.val)?;
                u.count.set(u.count.get() + 1);
                cover(2);
            }
            (Got::No, None) => cover(3),
            (Got::Missing(k), None) => {
                check(k == name, "the key which is missing is named");
                return Err(Over);
            }
            (Got::Value, None) => fail("a request by name yields only an unread entry"),
            _ => fail("a request by name yields an unread entry"),
        }
    }
}
/// Ends an object in one of the possible ways.
fn finish<R: TextReader>(u: &Use, d: &mut De<R>, es: &[Ent]) -> Res
where
    R::Position: Clone,
{
    match choose(if u.ends { 4 } else { 2 }) {
        0 => {
            while next(u, d, es, true)? {}
            cover(4);
        }
        1 => {
            let n = left(es);
            let r = if u.wrapped {
                let mut done = false;
                Object::new(d, &mut done).close()
            } else {
                d.close_object()
            };
            match r {
                Ok(()) => {
                    check(n == 0, "closing an object reports an unread entry");
                    cover(5)
                }
                Err(e) => match e.message() {
                    ExtraKey(k) => {
                        check(find(es, k).is_some(), "the entry which closing reports is an unread one");
                        cover(6);
                        return Err(Over);
                    }
                    _ => fail("closing an object reports unread entries as such"),
                },
            }
        }
        2 => ok(d.close_struct()),
        _ => ok(d.skip_object()),
    }
    Ok(())
}
fn run<R: TextReader>(r: R, u: &Use, root: &Val) -> Res
where
    R::Position: Clone,
{
    let mut d = match TextDeserializer::new(TextDeserializerConfig::strict(), r) {
        Ok(d) => d,
        Err(_) => fail("the document is accepted"),
    };
    match root {
        Val::Obj(es) => {
            ok(d.open_object());
            object(u, &mut d, es)?;
        }
        v => consume(u, &mut d, v)?,
    }
    ok(d.close());
    Ok(())
}
const KINDS: [&[u8]; 5] = [&[0], &[0, 1, 2], &[0, 3], &[0, 4], &[0, 1, 3, 4]];
/// Reads a document in an arbitrary way.
fn histories(doc: Doc, root: Val, steps: usize, how: usize, varies: usize) {
    let u = Use { steps: Cell::new(steps), wrapped: how & 1 == 1, words: doc.words, skips: varies & 2 != 0, keys: varies & 4 != 0, ends: varies & 8 != 0, ways: varies & 16 != 0, count: Cell::new(0) };
    let text = ascii_text(doc.text);
    let r = if how & 2 == 2 {
        match Utf8Reader::new(text.as_bytes()) {
            Ok(r) => run(r, &u, &root),
            Err(_) => fail("the document is valid UTF-8"),
        }
    } else {
        run(&text[..], &u, &root)
    };
    observe(u.count.get() as u64);
    observe(r.is_ok() as u64);
    observe_bytes(text.as_bytes());
}
entries! {
    // params: entries at most, and at least, kinds of values, depth, keys, steps, through the
    // wrappers (1) and streamed (2), what varies (1 order of keys, 2 skipping,
    // 4 reading keys, 8 ending objects, 16 requests)
    h_c16_histories => {
        let (most, least, kinds, depth, words) = (param(0), param(1), param(2), param(3), param(4));
        let mut doc = Doc { text: Vec::new(), ids: 0, kinds: KINDS[kinds], words, orders: param(7) & 1 != 0 };
        let root = Val::Obj(doc.obj(depth, most, least));
        histories(doc, root, param(5), param(6), param(7))
    }
    // params: which document, keys, steps, through the wrappers and streamed, what varies
    h_c16_shapes => {
        let mut doc = Doc { text: Vec::new(), ids: 0, kinds: KINDS[0], words: param(1), orders: false };
        let root = doc.shape(SHAPES[param(0)].as_bytes(), &mut 0);
        histories(doc, root, param(2), param(3), param(4))
    },
    // objects of many entries: how many, which way (0 top, 1 within an object which is read ahead), requests
    h_c16_wide => {
        let n = param(0);
        let at = crate::docs::place_in(n);
        let c = range(48, 57) as u8;
        let mut t = Vec::new();
        t.extend_from_slice(if param(1) == 1 { b"{\"o\":{" } else { b"{" });
        for i in 0..n {
            if i > 0 { t.push(b',') }
            t.extend_from_slice(b"\"k");
            crate::docs::number(&mut t, i);
            t.extend_from_slice(b"\":");
            if i == at { t.push(c) } else {
                match i % 3 {
                    0 => crate::docs::number(&mut t, i),
                    1 => t.extend_from_slice(b"{\"k0\":1,\"k1\":{\"k2\":3}}"),
                    _ => t.extend_from_slice(b"[\"k\",{\"k1\":[]}]"),
                }
            }
        }
        t.push(b'}');
        if param(1) == 1 { t.extend_from_slice(b",\"k1\":0}") }
        let text = ascii_text(t);
        let name = |i: usize| {
            let mut k = vec![b'k'];
            crate::docs::number(&mut k, i);
            ascii_text(k)
        };
        fn get<R, P>(r: Result<R, DeserializeError<P>>) -> R {
            match r { Ok(x) => x, Err(_) => fail("a well-formed document is read") }
        }
        let mut d = get(TextDeserializer::new(Default::default(), text.as_str()));
        get(d.open_object());
        if param(1) == 1 {
            check(get(d.try_push_entry("k1")), "the last entry is found");
            check(get(d.get_u8()) == 0, "and it is that one");
            check(get(d.try_push_entry("o")), "the first entry is found");
            get(d.open_object());
        }
        let mut unread = vec![true; n];
        // the value of entry i is next
        let value = |d: &mut TextDeserializer<&str>, i: usize| {
            if i == at {
                check(get(d.get_u16()) == c as u16 - 48, "an entry is delivered with its own value");
            } else {
                match i % 3 {
                    0 => check(get(d.get_u16()) as usize == i, "an entry is delivered with its own value"),
                    1 => {
                        get(d.open_object());
                        if choose(if i < 5 { 2 } else { 1 }) == 0 {
                            check(get(d.try_push_entry("k1")), "an entry of a nested object is found");
                            get(d.skip_value());
                            check(!get(d.try_push_entry("k1")), "it is found once");
                        }
                        check(get(d.try_push_entry("k0")), "an entry of a nested object is found");
                        check(get(d.get_u16()) == 1, "an entry is delivered with its own value");
                        get(d.skip_object());
                    }
                    _ => get(d.skip_value()),
                }
            }
        };
        for _ in 0..param(2) {
            let i = crate::docs::place_in(n + 1); // (one is not there)
            let found = get(d.try_push_entry(&name(i)));
            check(found == (i < n && unread[i]), "an entry is found by name exactly if it is still unread");
            if found {
                unread[i] = false;
                value(&mut d, i);
                cover(1);
            } else {
                cover(2);
            }
        }
        while get(d.next_entry()) {
            let k = get(d.flush_str());
            let mut i = 0;
            for b in k.as_bytes()[1..].iter() { i = i * 10 + (*b - 48) as usize }
            drop(k);
            check(i < n && unread[i], "iteration delivers the entries still unread");
            unread[i] = false;
            value(&mut d, i);
        }
        for u in unread { check(!u, "no entry is lost") }
        if param(1) == 1 { check(!get(d.next_entry()), "there is no other entry") }
        get(d.close());
        cover(3);
    },
    // objects within objects, all read ahead: how deep; how many other entries each has
    h_c16_deep => {
        let (n, m) = (param(0), param(1));
        let at = crate::docs::place_in(n);
        let c = range(48, 57) as u8;
        let mut t = Vec::new();
        for _ in 0..n { t.extend_from_slice(b"{\"a\":") }
        t.extend_from_slice(b"true");
        for i in (0..n).rev() {
            for k in 0..m {
                t.extend_from_slice(b",\"k");
                crate::docs::number(&mut t, k);
                t.extend_from_slice(b"\":");
                if i == at { t.push(c) } else { crate::docs::number(&mut t, (i + k) % 256) }
            }
            t.push(b'}');
        }
        let text = ascii_text(t);
        fn get<R, P>(r: Result<R, DeserializeError<P>>) -> R {
            match r { Ok(x) => x, Err(_) => fail("a well-formed document is read") }
        }
        let name = |i: usize| {
            let mut k = vec![b'k'];
            crate::docs::number(&mut k, i);
            ascii_text(k)
        };
        let mut d = get(TextDeserializer::new(Default::default(), text.as_str()));
        let early = choose(2) == 0;
        for i in 0..n {
            get(d.open_object());
            for k in 0..m {
                if (k % 2 == 0) == early {
                    check(get(d.try_push_entry(&name(k))), "an entry is found by name");
                    check(get(d.get_u8()) == if i == at { c - 48 } else { ((i + k) % 256) as u8 }, "an entry is delivered with its own value");
                }
            }
            check(get(d.try_push_entry("a")), "an entry is found by name");
        }
        check(get(d.get_bool()), "the innermost value is read");
        for i in (0..n).rev() {
            for k in 0..m {
                let there = (k % 2 == 0) != early;
                check(get(d.try_push_entry(&name(k))) == there, "an entry is found by name exactly if it is still unread");
                if there { check(get(d.get_u8()) == if i == at { c - 48 } else { ((i + k) % 256) as u8 }, "an entry is delivered with its own value") }
            }
            get(d.close_object());
        }
        get(d.close());
        cover(1);
    },
}
