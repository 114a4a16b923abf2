//! The typed wrappers enforce the protocol: every call is passed through unchanged, and misuse
//! panics before it reaches the format underneath.
use crate::sym::*;
use serdere::deserialize::DeserializeStruct;
use serdere::serialize::SerializeStruct;
use serdere::{Deserialize, Deserializer, FixedNameMap, List, NameMap, Outliner, Serialize, Serializer, Struct, Tuple, Value};
use serdere_json::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Null,
    CheckNull,
    Scalar(u8),
    Str,
    Tag,
    OpenStruct,
    Field,
    CloseStruct,
    OpenTuple,
    Element,
    CloseTuple,
    ListSized,
    ListStreaming,
    List,
    Item,
    NextItem,
    CloseList,
    Object,
    Entry,
    TryEntry,
    NextEntry,
    Key,
    SkipKey,
    CloseObject,
    Skip,
    Custom,
}
/// A call which the format underneath expects, and its answer.
struct Want {
    op: Op,
    x: u64,
    name: String,
    /// what it returns, or the error it fails with
    answer: Result<u64, u64>,
}
struct World {
    want: RefCell<Option<Want>>,
    text: RefCell<String>,
    nulls: Cell<bool>,
    ty: Cell<ValueType>,
    steps: Cell<usize>,
    kinds: usize,
    reading: bool,
    json: bool,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Code(u64);
impl std::fmt::Display for Code {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Code {}
type W = Rc<World>;
/// The format underneath: it accepts exactly the expected call.
pub struct Mach {
    w: W,
}
impl Mach {
    fn call(&self, op: Op, x: u64, name: &str) -> Result<u64, Code> {
        let want = match self.w.want.borrow_mut().take() {
            Some(w) => w,
            None => fail("a call which has to be rejected does not reach the format underneath"),
        };
        if want.op != op {
            fail("the call made to the format underneath is the requested one")
        }
        check(want.x == x, "a number is passed to the format underneath unchanged");
        check(want.name == name, "a name is passed to the format underneath unchanged");
        want.answer.map_err(Code)
    }
    fn unit(&self, op: Op) -> Result<(), Code> {
        self.call(op, 0, "").map(|_| ())
    }
}
fn named(name: Option<&'static str>) -> String {
    match name {
        Some(n) => ["+", n].concat(),
        None => String::new(),
    }
}
impl Outliner for Mach {
    type Error = Code;
    fn supports_null(&self) -> bool {
        self.w.nulls.get()
    }
    fn pop_null(&mut self) -> Result<(), Code> {
        self.unit(Op::Null)
    }
    fn open_str(&mut self) -> Result<(), Code> {
        fail("strings are passed on as a whole")
    }
    fn close_str(&mut self) -> Result<(), Code> {
        fail("strings are passed on as a whole")
    }
    fn open_struct(&mut self, name: Option<&'static str>) -> Result<(), Code> {
        self.call(Op::OpenStruct, 0, &named(name)).map(|_| ())
    }
    fn push_field(&mut self, name: &'static str) -> Result<(), Code> {
        self.call(Op::Field, 0, name).map(|_| ())
    }
    fn close_struct(&mut self) -> Result<(), Code> {
        self.unit(Op::CloseStruct)
    }
    fn open_tuple(&mut self, name: Option<&'static str>) -> Result<(), Code> {
        self.call(Op::OpenTuple, 0, &named(name)).map(|_| ())
    }
    fn push_element(&mut self) -> Result<(), Code> {
        self.unit(Op::Element)
    }
    fn close_tuple(&mut self) -> Result<(), Code> {
        self.unit(Op::CloseTuple)
    }
    fn push_item(&mut self) -> Result<(), Code> {
        self.unit(Op::Item)
    }
    fn close_list(&mut self) -> Result<(), Code> {
        self.unit(Op::CloseList)
    }
}
impl JsonOutliner for Mach {
    fn open_object(&mut self) -> Result<(), Code> {
        self.unit(Op::Object)
    }
    fn push_entry(&mut self, key: &str) -> Result<(), Code> {
        self.call(Op::Entry, 0, key).map(|_| ())
    }
    fn close_object(&mut self) -> Result<(), Code> {
        self.unit(Op::CloseObject)
    }
}
macro_rules! scalars {
    ($($n:literal $put:ident $get:ident $t:ty, |$v:ident| $to:expr, |$x:ident| $of:expr;)*) => {
        impl Serializer for Mach {
            $(fn $put(&mut self, $v: $t) -> Result<(), Code> { self.call(Op::Scalar($n), $to, "").map(|_| ()) })*
            fn append_char(&mut self, _: char) -> Result<(), Code> {
                fail("strings are passed on as a whole")
            }
            fn put_str(&mut self, value: &str) -> Result<(), Code> {
                self.call(Op::Str, 0, value).map(|_| ())
            }
            fn put_tag(&mut self, max_index: usize, index: usize, name: Option<&'static str>) -> Result<(), Code> {
                self.call(Op::Tag, index as u64, &[&max_index.to_string()[..], &named(name)].concat()).map(|_| ())
            }
            fn open_list_sized(&mut self, len: usize) -> Result<(), Code> {
                self.call(Op::ListSized, len as u64, "").map(|_| ())
            }
        }
        impl Deserializer for Mach {
            $(fn $get(&mut self) -> Result<$t, Code> { self.call(Op::Scalar($n), 0, "").map(|$x| $of) })*
            fn next_char(&mut self) -> Result<Option<char>, Code> {
                fail("strings are passed on as a whole")
            }
            fn read_str(&mut self) -> Result<Cow<str>, Code> {
                self.call(Op::Str, 0, "").map(|_| Cow::Owned(self.w.text.borrow().clone()))
            }
            fn flush_str(&mut self) -> Result<Cow<str>, Code> {
                self.call(Op::Key, 0, "").map(|_| Cow::Owned(self.w.text.borrow().clone()))
            }
            fn skip_str(&mut self) -> Result<(), Code> {
                self.unit(Op::SkipKey)
            }
            fn get_tag(&mut self, max_index: usize, names: &'static NameMap<usize>) -> Result<usize, Code> {
                check(std::ptr::eq(names, NAMES), "the names of the tags are passed on unchanged");
                self.call(Op::Tag, 0, &max_index.to_string()).map(|x| x as usize)
            }
            fn check_null(&mut self) -> Result<bool, Code> {
                self.call(Op::CheckNull, 0, "").map(|x| x == 1)
            }
            fn open_list(&mut self) -> Result<Option<usize>, Code> {
                self.call(Op::List, 0, "").map(|x| x.checked_sub(1).map(|n| n as usize))
            }
            fn next_item(&mut self) -> Result<bool, Code> {
                self.call(Op::NextItem, 0, "").map(|x| x == 1)
            }
            fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> Code {
                let c = match source.downcast_ref::<Code>() {
                    Some(c) => c.0,
                    None => fail("a custom error is passed on"),
                };
                match self.call(Op::Custom, c, "") {
                    Ok(_) => Code(0),
                    Err(e) => e,
                }
            }
            fn error_missing_item(&self) -> Code {
                fail("no items are missing")
            }
            fn error_extra_item(&self) -> Code {
                fail("there are no extra items")
            }
        }
        const SCALARS: usize = [$($n),*].len();
        /// Writes an arbitrary scalar.
        fn put(w: &W, v: Value<Mach>, kind: usize) -> Status {
            match kind {
                $($n => {
                    let $x = bits($n);
                    let $v: $t = $of;
                    let (c, a) = w.expect(Op::Scalar($n), $to, "", 0);
                    unit(w, v.$put($v), c, a)
                })*
                $(k if k == 20 + $n => {
                    let $x = bits($n);
                    let $v: $t = $of;
                    let (c, a) = w.expect(Op::Scalar($n), $to, "", 0);
                    unit(w, v.put(&$v), c, a)
                })*
                _ => Status::Left,
            }
        }
        /// Reads an arbitrary scalar.
        fn get(w: &W, v: Value<Mach>, kind: usize) -> Status {
            match kind {
                $($n => {
                    let (c, a) = w.expect(Op::Scalar($n), 0, "", bits($n));
                    number(w, v.$get().map(|$v| $to), c, a)
                })*
                $(k if k == 20 + $n => {
                    let (c, a) = w.expect(Op::Scalar($n), 0, "", bits($n));
                    number(w, v.get::<$t>().map(|$v| $to), c, a)
                })*
                _ => Status::Left,
            }
        }
    };
}
/// Arbitrary bits of a scalar.
fn bits(kind: usize) -> u64 {
    match kind {
        0 => range(0, 1),
        1 | 5 => u8() as u64,
        2 | 6 => u16() as u64,
        3 | 7 | 9 => u32() as u64,
        11 => scalar() as u64,
        _ => u64(),
    }
}
scalars! {
    0 put_bool get_bool bool, |v| v as u64, |x| x == 1;
    1 put_i8 get_i8 i8, |v| v as u8 as u64, |x| x as i8;
    2 put_i16 get_i16 i16, |v| v as u16 as u64, |x| x as i16;
    3 put_i32 get_i32 i32, |v| v as u32 as u64, |x| x as i32;
    4 put_i64 get_i64 i64, |v| v as u64, |x| x as i64;
    5 put_u8 get_u8 u8, |v| v as u64, |x| x as u8;
    6 put_u16 get_u16 u16, |v| v as u64, |x| x as u16;
    7 put_u32 get_u32 u32, |v| v as u64, |x| x as u32;
    8 put_u64 get_u64 u64, |v| v, |x| x;
    9 put_f32 get_f32 f32, |v| v.to_bits() as u64, |x| f32::from_bits(x as u32);
    10 put_f64 get_f64 f64, |v| v.to_bits(), |x| f64::from_bits(x);
    11 put_char get_char char, |v| v as u64, |x| unsafe { char::from_u32_unchecked(x as u32) };
}
impl JsonDeserializer for Mach {
    fn peek_value_type(&self) -> ValueType {
        self.w.ty.get()
    }
    fn peek_collection_type(&self) -> CollectionType {
        fail("only the types of values are looked at")
    }
    fn skip_value(&mut self) -> Result<(), Code> {
        self.unit(Op::Skip)
    }
    fn push_null(&mut self, _: Option<&'static str>) {
        fail("no null is made up")
    }
    fn try_push_entry(&mut self, key: &str) -> Result<bool, Code> {
        self.call(Op::TryEntry, 0, key).map(|x| x == 1)
    }
    fn next_entry(&mut self) -> Result<bool, Code> {
        self.call(Op::NextEntry, 0, "").map(|x| x == 1)
    }
    fn error_expected_type(&self, _: &'static [ValueType]) -> Code {
        fail("no errors are made up")
    }
    fn error_missing_entry(&self, _: String) -> Code {
        fail("no errors are made up")
    }
    fn error_extra_entry(&self, _: String) -> Code {
        fail("no errors are made up")
    }
}
impl JsonSerializer for Mach {
    fn open_list_streaming(&mut self) -> Result<(), Code> {
        self.unit(Op::ListStreaming)
    }
    fn add_entry(&mut self) -> Result<(), Code> {
        fail("keys are passed on together")
    }
}
static TABLE: FixedNameMap<usize, 2> = FixedNameMap::new([("a", 0), ("b", 1)]);
const NAMES: &NameMap<usize> = TABLE.unfix();

/// What has become of a value.
#[derive(Clone, Copy, PartialEq)]
enum Status {
    Done,
    /// it is unfinished
    Left,
    /// a call failed with this error
    Failed(u64),
}
use Status::*;
impl World {
    /// Has the format underneath expect a call, which may succeed (with the given answer) or
    /// fail; returns the error code (0 if none), and the answer.
    fn expect(&self, op: Op, x: u64, name: &str, answer: u64) -> (u64, u64) {
        let code = if self.fails() { range(1, 99) } else { 0 };
        let a = if code == 0 { Ok(answer) } else { Err(code) };
        *self.want.borrow_mut() = Some(Want { op, x, name: name.to_string(), answer: a });
        (code, answer)
    }
    fn fails(&self) -> bool {
        choose(2) == 1
    }
    fn used(&self) {
        if self.want.borrow().is_some() {
            fail("the call reaches the format underneath")
        }
    }
    fn step(&self) -> bool {
        let n = self.steps.get();
        self.steps.set(n.saturating_sub(1));
        n > 0
    }
    fn text(&self) -> String {
        self.text.borrow().clone()
    }
}
/// The next call is misuse.
fn misuse() {
    cover(1);
    expect_panic(true)
}
fn survived() -> ! {
    expect_panic(false);
    fail("misuse of a wrapper panics")
}
/// Checks the outcome of a call which returns nothing.
fn unit(w: &W, r: Result<(), Code>, code: u64, _: u64) -> Status {
    number(w, r.map(|_| 0), code, 0)
}
fn number(w: &W, r: Result<u64, Code>, code: u64, answer: u64) -> Status {
    w.used();
    match r {
        Ok(x) => {
            if code != 0 {
                fail("an error is passed on")
            }
            check(x == answer, "what is returned is passed on unchanged");
            Done
        }
        Err(e) => {
            if code == 0 {
                fail("no error is made up")
            }
            check(e.0 == code, "an error is passed on unchanged");
            Failed(code)
        }
    }
}
fn text(w: &W, r: Result<Cow<str>, Code>, code: u64) -> Status {
    w.used();
    let same = |s: &str| check(s == &w.text.borrow()[..], "text is passed on unchanged");
    let n = r.map(|s| {
        same(&s);
        0
    });
    number(w, n, code, 0)
}
fn opened<T>(w: &W, r: Result<T, Code>, code: u64) -> Result<T, Status> {
    w.used();
    match r {
        Ok(x) => {
            if code != 0 {
                fail("an error is passed on")
            }
            Ok(x)
        }
        Err(e) => {
            if code == 0 {
                fail("no error is made up")
            }
            check(e.0 == code, "an error is passed on unchanged");
            Err(Failed(code))
        }
    }
}
const TYPES: [Option<&'static str>; 2] = [None, Some("T")];

/// Uses a value in an arbitrary way.
fn value(w: &W, mut v: Value<Mach>, depth: usize) -> Status {
    if choose(2) == 0 {
        // the simplest thing
        return if w.reading { get(w, v, 8) } else { put(w, v, 8) };
    }
    let ways = if depth == 0 { 2 } else { 8 };
    match choose(ways) {
        0 => Left,
        1 if w.kinds == 0 => return if w.reading { get(w, v, 4) } else { put(w, v, 4) },
        1 => {
            // other kinds
            match choose(7) {
                0 if w.reading => get(w, v, choose(12)),
                0 => put(w, v, choose(12)),
                1 if w.reading => get(w, v, 20 + choose(12)),
                1 => put(w, v, 20 + choose(12)),
                2 if w.reading => {
                    let (c, _) = w.expect(Op::Str, 0, "", 0);
                    match choose(2) {
                        0 => text(w, v.get_str(), c),
                        _ => text(w, v.get::<String>().map(Cow::Owned), c),
                    }
                }
                2 => {
                    let s = w.text();
                    let (c, a) = w.expect(Op::Str, 0, &s, 0);
                    match choose(2) {
                        0 => unit(w, v.put_str(&s), c, a),
                        _ => unit(w, v.put(&s), c, a),
                    }
                }
                3 if w.reading => {
                    let m = choose(3);
                    let (c, a) = w.expect(Op::Tag, 0, &m.to_string(), u64());
                    number(w, v.get_tag(m, NAMES).map(|x| x as u64), c, a)
                }
                3 => {
                    let (m, i, t) = (choose(3), u64(), TYPES[choose(2)]);
                    let (c, a) = w.expect(Op::Tag, i, &[&m.to_string()[..], &named(t)].concat(), 0);
                    unit(w, v.put_tag(m, i as usize, t), c, a)
                }
                4 => {
                    let (c, a) = w.expect(Op::Null, 0, "", 0);
                    unit(w, v.into_null(), c, a)
                }
                5 if w.reading => {
                    w.ty.set([ValueType::String, ValueType::Null][choose(2)]);
                    check(v.ty() == w.ty.get(), "the type of a value is passed on");
                    let (c, a) = w.expect(Op::Skip, 0, "", 0);
                    unit(w, v.skip(), c, a)
                }
                6 if w.reading && w.step() => {
                    w.nulls.set(choose(2) == 1);
                    let mut yes = 0;
                    let mut c = 0;
                    if w.nulls.get() {
                        yes = choose(2) as u64;
                        c = w.expect(Op::CheckNull, 0, "", yes).0;
                    }
                    match number(w, v.check_null().map(|x| x as u64), c, yes) {
                        Done if yes == 0 => value(w, v, depth.saturating_sub(1)),
                        Done if choose(2) == 1 => {
                            // (it is gone)
                            misuse();
                            again(w, v)
                        }
                        s => s,
                    }
                }
                _ => Left,
            }
        }
        2 => {
            let t = TYPES[choose(2)];
            let (c, _) = w.expect(Op::OpenStruct, 0, &named(t), 0);
            match opened(w, v.into_struct(t), c) {
                Ok(s) => structure(w, s, depth),
                Err(s) => s,
            }
        }
        3 => {
            let t = TYPES[choose(2)];
            let (c, _) = w.expect(Op::OpenTuple, 0, &named(t), 0);
            match opened(w, v.into_tuple(t), c) {
                Ok(s) => tuple(w, s, depth),
                Err(s) => s,
            }
        }
        4 => {
            let n = choose(4);
            if w.reading {
                let (c, _) = w.expect(Op::List, 0, "", n as u64);
                match opened(w, v.into_list(), c) {
                    Ok(l) => list(w, l, n.checked_sub(1), depth),
                    Err(s) => s,
                }
            } else if n == 0 {
                let (c, _) = w.expect(Op::ListStreaming, 0, "", 0);
                match opened(w, v.into_list_streaming(), c) {
                    Ok(l) => list(w, l, None, depth),
                    Err(s) => s,
                }
            } else {
                let (c, _) = w.expect(Op::ListSized, (n - 1) as u64, "", 0);
                match opened(w, v.into_list_sized(n - 1), c) {
                    Ok(l) => list(w, l, Some(n - 1), depth),
                    Err(s) => s,
                }
            }
        }
        5 if w.json => {
            let (c, _) = w.expect(Op::Object, 0, "", 0);
            match opened(w, v.into_object(), c) {
                Ok(o) => object(w, o, depth),
                Err(s) => s,
            }
        }
        6 if w.json && w.reading => {
            let is = choose(2) == 0;
            w.ty.set(if is { ValueType::Object } else { ValueType::Array });
            let n = if is { 0 } else { choose(3) };
            let (c, _) = w.expect(if is { Op::Object } else { Op::List }, 0, "", n as u64);
            match opened(w, v.into_collection(), c) {
                Ok(Collection::Object(_)) if !is => fail("an array is not an object"),
                Ok(Collection::List(_)) if is => fail("an object is not an array"),
                Ok(o) => collection(w, o, n.checked_sub(1), depth),
                Err(s) => s,
            }
        }
        7 => {
            let status = Cell::new(Left);
            let mut own = choose(2) == 1;
            if w.reading && choose(2) == 0 {
                // through a value which is validated
                let r = v.validate_with(|v| {
                    status.set(value(w, v, depth - 1));
                    match status.get() {
                        Failed(c) => {
                            own = false;
                            Err(Code(c))
                        }
                        s => {
                            if s == Left {
                                misuse()
                            }
                            if !own {
                                return Ok(Ok(7u64));
                            }
                            let (x, c) = (u64(), range(1, 99));
                            if s == Done {
                                *w.want.borrow_mut() = Some(Want { op: Op::Custom, x, name: String::new(), answer: Err(c) });
                                status.set(Failed(c));
                            }
                            Ok(Err(Code(x)))
                        }
                    }
                });
                match status.get() {
                    Left => survived(),
                    Done => number(w, r, 0, 7),
                    Failed(c) => match number(w, r, c, 7) {
                        // (a value which is used up, but not valid)
                        Failed(_) if own => Done,
                        s => s,
                    },
                }
            } else {
                through(w, v, depth)
            }
        }
        _ => Left,
    }
}
/// A type which reads and writes itself in an arbitrary way.
pub struct Probe(Cell<Status>);
pub struct Ctx(W, usize);
impl Deserialize<Mach, Ctx> for Probe {
    const NULLABLE: bool = false;
    fn deserialize(v: Value<Mach>, c: &mut Ctx) -> Result<Self, Code> {
        match value(&c.0, v, c.1) {
            Failed(e) => Err(Code(e)),
            s => Ok(Probe(Cell::new(s))),
        }
    }
}
impl Serialize<Mach, Ctx> for Probe {
    const NULLABLE: bool = false;
    fn serialize(&self, v: Value<Mach>, c: &mut Ctx) -> Result<(), Code> {
        self.0.set(value(&c.0, v, c.1));
        match self.0.get() {
            Failed(e) => Err(Code(e)),
            _ => Ok(()),
        }
    }
}
impl DeserializeStruct<Mach, Ctx> for Probe {
    fn deserialize_content(st: &mut Struct<Mach>, c: &mut Ctx) -> Result<Self, Code> {
        match fields(&c.0, st, c.1) {
            Failed(e) => Err(Code(e)),
            s => Ok(Probe(Cell::new(s))),
        }
    }
}
impl SerializeStruct<Mach, Ctx> for Probe {
    fn serialize_content(&self, st: &mut Struct<Mach>, c: &mut Ctx) -> Result<(), Code> {
        self.0.set(fields(&c.0, st, c.1));
        match self.0.get() {
            Failed(e) => Err(Code(e)),
            _ => Ok(()),
        }
    }
}
fn through(w: &W, v: Value<Mach>, depth: usize) -> Status {
    let c = &mut Ctx(w.clone(), depth - 1);
    if w.reading {
        match v.get_using::<Probe, Ctx>(c) {
            Ok(p) => p.0.get(),
            Err(e) => Failed(e.0),
        }
    } else {
        let p = Probe(Cell::new(Left));
        let r = v.put_using(&p, c);
        match (r, p.0.get()) {
            (Err(e), _) => Failed(e.0),
            (Ok(()), Failed(_)) => fail("an error is passed on"),
            (Ok(()), s) => s,
        }
    }
}
/// Uses a value which is already consumed.
fn again(w: &W, mut v: Value<Mach>) -> ! {
    match choose(14) {
        0 => {
            get(w, v, [8, 9, 11, 28][choose(4)]);
        }
        1 => {
            let _ = v.into_struct(None);
        }
        2 => {
            let _ = v.check_null();
        }
        3 => {
            let _ = v.into_tuple(None);
        }
        4 => {
            let _ = v.into_list();
        }
        5 => {
            let _ = v.get_tag(1, NAMES);
        }
        6 => {
            let _ = v.get_str();
        }
        7 => {
            let _ = v.into_null();
        }
        8 => {
            let _ = v.into_object();
        }
        9 => {
            let _ = v.into_collection();
        }
        10 => {
            let _ = v.skip();
        }
        11 => {
            let _ = v.into_list_streaming();
        }
        12 => {
            let _ = v.validate_with(|_| -> Result<Result<(), Code>, Code> { Err(Code(1)) });
        }
        _ => {
            let _ = v.into_list_sized(1);
        }
    }
    survived()
}
const FIELDS: [&str; 2] = ["a", "bb"];

/// Uses an opened struct in an arbitrary way, without closing it. Left: a field is unfinished.
fn fields(w: &W, s: &mut Struct<Mach>, depth: usize) -> Status {
    let mut last = Done;
    let mut failed = 0;
    while w.step() {
        let broken = last != Done;
        match choose(3) {
            0 => break,
            1 => {
                let name = FIELDS[choose(2)];
                if broken {
                    misuse();
                    let _ = s.field(name);
                    survived()
                }
                let (c, _) = w.expect(Op::Field, 0, name, 0);
                last = match opened(w, s.field(name), c) {
                    Ok(v) => value(w, v, depth - 1),
                    Err(s) => s,
                };
            }
            _ => {
                if broken {
                    continue;
                }
                // a struct within it
                let c = &mut Ctx(w.clone(), depth);
                last = if w.reading {
                    match s.inline_get_using::<Probe, Ctx>(c) {
                        Ok(p) => p.0.get(),
                        Err(e) => Failed(e.0),
                    }
                } else {
                    let p = Probe(Cell::new(Left));
                    match s.inline_put_using(&p, c) {
                        Ok(()) => p.0.get(),
                        Err(e) => Failed(e.0),
                    }
                };
            }
        }
        if let Failed(c) = last {
            failed = c;
        }
    }
    match last {
        Failed(_) => Failed(failed),
        s => s,
    }
}
/// Whether an unfinished thing is closed (which panics) or left.
fn close_broken(last: Status) -> bool {
    last != Done && choose(2) == 1
}
fn structure(w: &W, mut s: Struct<Mach>, depth: usize) -> Status {
    let last = fields(w, &mut s, depth);
    if close_broken(last) {
        misuse();
        let _ = s.close();
        survived()
    }
    if last != Done {
        return last;
    }
    if choose(4) == 3 {
        return Left;
    }
    let (c, a) = w.expect(Op::CloseStruct, 0, "", 0);
    unit(w, s.close(), c, a)
}
fn tuple(w: &W, mut s: Tuple<Mach>, depth: usize) -> Status {
    let mut last = Done;
    while w.step() {
        if choose(2) == 0 {
            break;
        }
        if last != Done {
            misuse();
            let _ = s.element();
            survived()
        }
        let (c, _) = w.expect(Op::Element, 0, "", 0);
        last = match opened(w, s.element(), c) {
            Ok(v) => value(w, v, depth - 1),
            Err(s) => s,
        };
    }
    if close_broken(last) {
        misuse();
        let _ = s.close();
        survived()
    }
    if last != Done {
        return last;
    }
    if choose(4) == 3 {
        return Left;
    }
    let (c, a) = w.expect(Op::CloseTuple, 0, "", 0);
    unit(w, s.close(), c, a)
}
fn list(w: &W, mut l: List<Mach>, mut rem: Option<usize>, depth: usize) -> Status {
    let mut last = Done;
    let mut over = false;
    check(l.rem_len() == rem, "the remaining length is exact after opening");
    while w.step() {
        let ways = if w.reading { 3 } else { 2 };
        match choose(ways) {
            0 => break,
            1 => {
                if last != Done || over || rem == Some(0) {
                    misuse();
                    let _ = l.push();
                    survived()
                }
                let (c, _) = w.expect(Op::Item, 0, "", 0);
                last = match opened(w, l.push(), c) {
                    Ok(v) => value(w, v, depth - 1),
                    Err(s) => s,
                };
                rem = rem.map(|n| n - 1);
            }
            _ => {
                if last != Done || over {
                    misuse();
                    let _ = l.next();
                    survived()
                }
                let more = match rem {
                    Some(n) => n > 0,
                    None => choose(2) == 1,
                };
                let (c, _) = w.expect(Op::NextItem, 0, "", more as u64);
                match opened(w, l.next(), c) {
                    Ok(Some(v)) => {
                        if !more {
                            fail("the end of a list is passed on")
                        }
                        last = value(w, v, depth - 1);
                        rem = rem.map(|n| n - 1);
                    }
                    Ok(None) => {
                        if more {
                            fail("an item is passed on")
                        }
                        over = true;
                    }
                    Err(s) => last = s,
                }
            }
        }
        if last == Done {
            check(l.rem_len() == rem, "the remaining length is exact after every step");
            cover(2);
        }
    }
    if last != Done || over || rem.is_some_and(|n| n > 0) {
        if choose(2) == 1 {
            misuse();
            let _ = l.close();
            survived()
        }
        return if last != Done {
            last
        } else if over {
            Done
        } else {
            Left
        };
    }
    if choose(4) == 3 {
        return Left;
    }
    let (c, a) = w.expect(Op::CloseList, 0, "", 0);
    unit(w, l.close(), c, a)
}
fn object(w: &W, mut o: Object<Mach>, depth: usize) -> Status {
    let mut last = Done;
    let mut over = false;
    while w.step() {
        let ways = if w.reading { 5 } else { 2 };
        let bad = last != Done || over;
        let way = choose(ways);
        let name = if matches!(way, 1 | 2) { FIELDS[choose(2)] } else { "" };
        match way {
            0 => break,
            1 => {
                if bad {
                    misuse();
                    let _ = o.entry(name);
                    survived()
                }
                let (c, _) = w.expect(Op::Entry, 0, name, 0);
                last = match opened(w, o.entry(name), c) {
                    Ok(v) => value(w, v, depth - 1),
                    Err(s) => s,
                };
            }
            2 => {
                if bad {
                    misuse();
                    let _ = o.try_entry(name);
                    survived()
                }
                let there = choose(2) == 1;
                let (c, _) = w.expect(Op::TryEntry, 0, name, there as u64);
                match opened(w, o.try_entry(name), c) {
                    Ok(Some(v)) => {
                        if !there {
                            fail("a missing entry is passed on")
                        }
                        last = value(w, v, depth - 1)
                    }
                    Ok(None) => {
                        if there {
                            fail("an entry is passed on")
                        }
                    }
                    Err(s) => last = s,
                }
            }
            3 => {
                if bad {
                    misuse();
                    let _ = o.next_entry();
                    survived()
                }
                let more = choose(2) == 1;
                let (c, _) = w.expect(Op::NextEntry, 0, "", more as u64);
                match opened(w, o.next_entry(), c) {
                    Ok(Some(e)) => {
                        if !more {
                            fail("the end of an object is passed on")
                        }
                        last = entry(w, e, depth)
                    }
                    Ok(None) => {
                        if more {
                            fail("an entry is passed on")
                        }
                        over = true
                    }
                    Err(s) => last = s,
                }
            }
            _ => {
                let c = &mut Ctx(w.clone(), depth);
                if bad {
                    misuse();
                    let _ = o.inline_using::<Probe, Ctx>(c);
                    survived()
                }
                cover(3);
                last = match o.inline_using::<Probe, Ctx>(c) {
                    Ok(p) => p.0.get(),
                    Err(e) => Failed(e.0),
                };
            }
        }
    }
    if last != Done || over {
        if choose(2) == 1 {
            misuse();
            let _ = o.close();
            survived()
        }
        return if last != Done { last } else { Done };
    }
    if choose(4) == 3 {
        return Left;
    }
    let (c, a) = w.expect(Op::CloseObject, 0, "", 0);
    unit(w, o.close(), c, a)
}
fn entry(w: &W, mut e: Entry<Mach>, depth: usize) -> Status {
    let mut read = false;
    match choose(3) {
        0 => return Left,
        1 => {
            let (c, _) = w.expect(Op::Key, 0, "", 0);
            let s = text(w, e.key(), c);
            if s != Done {
                return s;
            }
            read = true;
            match choose(3) {
                0 => {
                    misuse();
                    let _ = e.key();
                    survived()
                }
                1 => return Left,
                _ => {}
            }
        }
        _ => {}
    }
    if !read {
        let (c, _) = w.expect(Op::SkipKey, 0, "", 0);
        match opened(w, e.value(), c) {
            Ok(v) => value(w, v, depth - 1),
            Err(s) => s,
        }
    } else {
        match opened(w, e.value(), 0) {
            Ok(v) => value(w, v, depth - 1),
            Err(s) => s,
        }
    }
}
fn collection(w: &W, mut o: Collection<Mach>, mut rem: Option<usize>, depth: usize) -> Status {
    let mut last = Done;
    let mut over = false;
    let is = matches!(o, Collection::Object(_));
    while w.step() {
        if choose(2) == 0 {
            break;
        }
        if last != Done || over {
            misuse();
            let _ = o.next();
            survived()
        }
        let more = match rem {
            Some(n) => n > 0,
            None => choose(2) == 1,
        };
        if is && more {
            // (the entry, and its key)
            if let Collection::Object(ob) = &mut o {
                let (c, _) = w.expect(Op::NextEntry, 0, "", 1);
                last = match opened(w, ob.next_entry(), c) {
                    Ok(Some(e)) => entry(w, e, depth),
                    Ok(None) => fail("an entry is passed on"),
                    Err(s) => s,
                };
            }
            continue;
        }
        let (c, _) = w.expect(if is { Op::NextEntry } else { Op::NextItem }, 0, "", more as u64);
        match opened(w, o.next(), c) {
            Ok(Some(v)) => {
                if !more {
                    fail("the end of a collection is passed on")
                }
                last = value(w, v, depth - 1);
                rem = rem.map(|n| n - 1);
            }
            Ok(None) => {
                if more {
                    fail("an item is passed on")
                }
                over = true;
            }
            Err(s) => last = s,
        }
    }
    match last {
        Done if over => Done,
        Done => Left,
        s => s,
    }
}
/// params: whether it is read (1) or written (0), how many steps, how deep, all kinds of scalars,
/// JSON's own wrappers
fn histories() {
    let w: W = Rc::new(World {
        want: RefCell::new(None),
        text: RefCell::new(String::new()),
        nulls: Cell::new(true),
        ty: Cell::new(ValueType::Null),
        steps: Cell::new(param(1)),
        reading: param(0) == 1,
        kinds: param(3),
        json: param(4) == 1,
    });
    if w.kinds > 0 {
        *w.text.borrow_mut() = ascii_string(2);
    }
    let mut m = Mach { w: w.clone() };
    let depth = param(2);
    if choose(2) == 0 {
        let mut done = false;
        let s = value(&w, Value::new(&mut m, &mut done), depth);
        if s == Done {
            cover(4)
        }
        check(done == (s == Done), "exactly a value which is used up is marked so");
    } else {
        let status = Cell::new(Left);
        let r = Value::with(&mut m, |v| {
            status.set(value(&w, v, depth));
            match status.get() {
                Failed(c) => Err(Code(c)),
                s => {
                    if s == Left {
                        misuse()
                    }
                    Ok(9)
                }
            }
        });
        match status.get() {
            Left => survived(),
            Done => {
                number(&w, r, 0, 9);
            }
            Failed(c) => {
                number(&w, r, c, 9);
            }
        }
    }
    observe(1);
}
/// params: whether it is read (1) or written (0), most items
fn lengths() {
    let w: W = Rc::new(World {
        want: RefCell::new(None),
        text: RefCell::new(String::new()),
        nulls: Cell::new(true),
        ty: Cell::new(ValueType::Null),
        steps: Cell::new(0),
        reading: param(0) == 1,
        kinds: 0,
        json: false,
    });
    let n = range(0, u64::MAX - 1);
    let mut m = Mach { w: w.clone() };
    let mut done = false;
    let v = Value::new(&mut m, &mut done);
    let will = |op, x, answer| *w.want.borrow_mut() = Some(Want { op, x, name: String::new(), answer: Ok(answer) });
    fn ok<T>(w: &W, r: Result<T, Code>) -> T {
        w.used();
        match r {
            Ok(x) => x,
            Err(_) => fail("no error is made up"),
        }
    }
    let mut l = if w.reading {
        will(Op::List, 0, n + 1);
        ok(&w, v.into_list())
    } else {
        will(Op::ListSized, n, 0);
        ok(&w, v.into_list_sized(n as usize))
    };
    check(l.rem_len() == Some(n as usize), "the remaining length is exact after opening");
    let most = param(1) as u64;
    let count = if most < 20 { choose(param(1) + 1) as u64 } else { [most, most - 1][choose(2)] };
    let by_next = w.reading && choose(2) == 1;
    for i in 0..count {
        if n == i {
            if by_next {
                will(Op::NextItem, 0, 0);
                if ok(&w, l.next()).is_some() {
                    fail("a list ends after as many items as were announced")
                }
                cover(2);
                return;
            }
            misuse();
            let _ = l.push();
            survived()
        }
        let v = if by_next {
            will(Op::NextItem, 0, 1);
            match ok(&w, l.next()) {
                Some(v) => v,
                None => fail("a list does not end before as many items as were announced"),
            }
        } else {
            will(Op::Item, 0, 0);
            ok(&w, l.push())
        };
        let x = i % 256;
        if w.reading {
            will(Op::Scalar(5), 0, x);
            check(ok(&w, v.get_u8()) as u64 == x, "a number is passed on");
        } else {
            will(Op::Scalar(5), x, 0);
            ok(&w, v.put_u8(x as u8))
        }
        check(l.rem_len() == Some((n - i - 1) as usize), "the remaining length is exact after every step");
    }
    if n > count {
        cover(3);
        misuse();
        let _ = l.close();
        survived()
    }
    will(Op::CloseList, 0, 0);
    ok(&w, l.close());
    check(done, "exactly a value which is used up is marked so");
    cover(2);
}
/// Every use of a value which was consumed before the wrapper is made.
fn spent() {
    let w: W = Rc::new(World {
        want: RefCell::new(None),
        text: RefCell::new(String::new()),
        nulls: Cell::new(true),
        ty: Cell::new(ValueType::Null),
        steps: Cell::new(0),
        reading: true,
        kinds: 0,
        json: true,
    });
    let mut m = Mach { w: w.clone() };
    let mut done = true;
    let v = Value::new(&mut m, &mut done);
    cover(2);
    misuse();
    match choose(28) {
        0 => drop(v.get_bool().is_ok()),
        1 => drop(v.get_i8().is_ok()),
        2 => drop(v.get_i16().is_ok()),
        3 => drop(v.get_i32().is_ok()),
        4 => drop(v.get_i64().is_ok()),
        5 => drop(v.get_u8().is_ok()),
        6 => drop(v.get_u16().is_ok()),
        7 => drop(v.get_u32().is_ok()),
        8 => drop(v.get_u64().is_ok()),
        9 => drop(v.get_f32().is_ok()),
        10 => drop(v.get_f64().is_ok()),
        11 => drop(v.get_char().is_ok()),
        12 => drop(v.put_bool(flag()).is_ok()),
        13 => drop(v.put_i8(1).is_ok()),
        14 => drop(v.put_i16(1).is_ok()),
        15 => drop(v.put_i32(1).is_ok()),
        16 => drop(v.put_i64(1).is_ok()),
        17 => drop(v.put_u8(1).is_ok()),
        18 => drop(v.put_u16(1).is_ok()),
        19 => drop(v.put_u32(1).is_ok()),
        20 => drop(v.put_u64(1).is_ok()),
        21 => drop(v.put_f32(1.0).is_ok()),
        22 => drop(v.put_f64(1.0).is_ok()),
        23 => drop(v.put_char('a').is_ok()),
        24 => drop(v.put_str("a").is_ok()),
        25 => drop(v.put_tag(1, 0, None).is_ok()),
        26 => drop(v.put_tag(1, 1, Some("a")).is_ok()),
        _ => again(&w, v),
    }
    survived()
}
/// Temporary wrappers: a value has to be consumed in them, structs and tuples must not be closed.
fn temporary() {
    let mut s = TextSerializer::new(TextSerializerConfig::default(), String::new());
    let (a, b) = (flag(), flag());
    let items = choose(3);
    let name = |x: bool| if x { "true" } else { "false" };
    let want = match choose(3) {
        0 => {
            let how = choose(3);
            if how > 0 {
                misuse();
            }
            let r = Value::with(&mut s, |v| {
                match how {
                    0 => v.put_bool(a)?,
                    1 => drop(v),
                    _ => drop(v.into_struct(None)?),
                }
                Ok(7)
            });
            if how > 0 {
                survived();
            }
            check(matches!(r, Ok(7)), "a temporary value wrapper returns what the function returns");
            name(a).to_string()
        }
        1 => {
            check(s.open_struct(None).is_ok(), "a struct is opened");
            let close = choose(2) == 1;
            if close {
                misuse();
            }
            let r = Struct::with(&mut s, |mut st| {
                if items > 0 {
                    st.field("k")?.put_bool(a)?;
                }
                if items > 1 {
                    st.field("l")?.put_bool(b)?;
                }
                if close {
                    st.close()?;
                }
                Ok(7)
            });
            if close {
                survived();
            }
            check(matches!(r, Ok(7)), "a temporary struct wrapper returns what the function returns");
            check(s.close_struct().is_ok(), "the struct can be closed afterwards");
            match items {
                0 => "{}".to_string(),
                1 => ["{ \"k\": ", name(a), " }"].concat(),
                _ => ["{ \"k\": ", name(a), ", \"l\": ", name(b), " }"].concat(),
            }
        }
        _ => {
            check(s.open_tuple(None).is_ok(), "a tuple is opened");
            let close = choose(2) == 1;
            if close {
                misuse();
            }
            let r = Tuple::with(&mut s, |mut t| {
                if items > 0 {
                    t.element()?.put_bool(a)?;
                }
                if items > 1 {
                    t.element()?.put_bool(b)?;
                }
                if close {
                    t.close()?;
                }
                Ok(7)
            });
            if close {
                survived();
            }
            check(matches!(r, Ok(7)), "a temporary tuple wrapper returns what the function returns");
            check(s.close_tuple().is_ok(), "the tuple can be closed afterwards");
            match items {
                0 => "[]".to_string(),
                1 => ["[", name(a), "]"].concat(),
                _ => ["[", name(a), ", ", name(b), "]"].concat(),
            }
        }
    };
    cover(3);
    check(s.close() == want, "what is written through a temporary wrapper arrives");
}
entries! {
    h_c15_spent => { spent() },
    h_c15_with => { temporary() },
    h_c15_histories => { histories() },
    h_c15_lengths => { lengths() },
}
