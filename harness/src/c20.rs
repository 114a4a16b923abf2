//! C20: derived types round-trip under every attribute.
use crate::any::*;
use crate::docs::{run_at, tag_of};
use crate::json::{parse, parse_with, Tree};
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, Outliner, Serialize, Serializer, Utf8Reader, Value};
use serdere_json::*;
use std::cell::Cell;

/// The values of a struct's fields: by name, or by position.
pub enum Fields<'a> {
    Named(&'a [(Vec<u32>, Tree)]),
    Listed(&'a [Tree], Cell<usize>),
}
impl<'a> Fields<'a> {
    /// The value of the next field.
    fn get(&self, name: &str) -> Option<Option<&'a Tree>> {
        match self {
            Fields::Named(es) => {
                let name: Vec<u32> = name.chars().map(|c| c as u32).collect();
                for (k, v) in es.iter() {
                    if same_text(k, &name) {
                        return Some(Some(v));
                    }
                }
                Some(None)
            }
            Fields::Listed(v, at) => {
                let i = at.get();
                at.set(i + 1);
                if i < v.len() { Some(Some(&v[i])) } else { None }
            }
        }
    }
    fn req<T: Denote>(&self, name: &str) -> Option<T> {
        match self.get(name)? {
            Some(t) => T::of(t),
            None => T::missing(),
        }
    }
    /// The value of a field with a default.
    fn or<T: Denote>(&self, name: &str, default: T) -> Option<T> {
        match self.get(name)? {
            None | Some(Tree::Null) => Some(default),
            Some(t) => T::of(t),
        }
    }
    fn tag(&self, name: &str, names: &[(&str, u64)]) -> Option<u64> {
        tag_of(self.get(name)??, names)
    }
}
/// A declared struct.
pub trait Declared: Sized {
    const TAG: Option<(&'static str, &'static [(&'static str, u64)])> = None;
    /// What the given fields denote.
    fn content(f: &Fields) -> Option<Self>;
    /// The names of the value's fields, in order.
    fn names(&self) -> Vec<&'static str>;
    fn alike(&self, o: &Self) -> bool;
}
macro_rules! declared {
    ($($t:ty)*) => {$(
        impl Denote for $t {
            fn of(t: &Tree) -> Option<Self> {
                match t {
                    Tree::Obj(es) => Self::content(&Fields::Named(es)),
                    Tree::Arr(v) => {
                        let f = Fields::Listed(v, Cell::new(0));
                        let x = Self::content(&f)?;
                        match f {
                            Fields::Listed(_, at) if at.get() == v.len() => Some(x),
                            _ => None,
                        }
                    }
                    _ => None,
                }
            }
            fn same(&self, o: &Self) -> bool {
                self.alike(o)
            }
            fn observe(&self) {}
        }
        impl Nullable for $t {}
    )*};
}
/// A struct: its fields with their types, and how each reads.
macro_rules! plain {
    ($t:ty { $($f:ident: $how:ident $name:literal $(($d:expr))?),* }) => {
        impl Declared for $t {
            fn content(_f: &Fields) -> Option<Self> {
                $( let $f = _f.$how($name $(, $d)?)?; )*
                Some(Self { $($f),* })
            }
            fn names(&self) -> Vec<&'static str> {
                vec![$($name),*]
            }
            fn alike(&self, _o: &Self) -> bool {
                true $( & self.$f.same(&_o.$f) )*
            }
        }
        impl Any for $t {
            fn any(_s: Size) -> Self {
                Self { $($f: Any::any(_s)),* }
            }
        }
        declared!($t);
    };
}

/// Names of fields which are others' names, which need escapes, and which nest.
#[derive(Serialize, Deserialize)]
pub struct Names {
    #[serde(rename = "b")]
    a: u8,
    #[serde(rename = "a")]
    b: bool,
    #[serde(rename = "")]
    c: Option<u8>,
    #[serde(rename = "a\"\\\n\u{e9}\u{1f600}")]
    d: (),
    #[serde(rename = " {} ")]
    r#type: String,
}
plain!(Names { a: req "b", b: req "a", c: req "", d: req "a\"\\\n\u{e9}\u{1f600}", r#type: req " {} " });

/// Names which the derived code may have uses of its own for, and names which are keywords.
#[derive(Serialize, Deserialize)]
pub struct Clash<D, S: Clone, Ctx> {
    st: D,
    ctx: S,
    #[serde(default)]
    value: Ctx,
    r#type: u8,
    #[serde(flatten)]
    r#fn: Clashes,
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "tag")]
pub enum Clashes {
    st { st: bool, ctx: Raw, #[serde(default)] value: u8 },
    r#let,
    #[serde(transparent)]
    ctx { st: Inner },
    #[serde(rename = "r#if")]
    de { index: u8, de: u8, r#done_flag: bool, inner: bool },
}
/// A struct of its own name.
#[derive(Serialize, Deserialize)]
pub struct Inner {
    ser: u8,
    #[serde(flatten)]
    inner: Leaf,
}
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
pub enum Raw {
    r#match,
    r#NAMES,
    #[serde(rename = "r#match")]
    index,
}
type Clashed = Clash<u8, bool, Option<u8>>;
impl Declared for Clashed {
    fn content(f: &Fields) -> Option<Self> {
        let st = f.req("st")?;
        let ctx = f.req("ctx")?;
        let value = f.or("value", None)?;
        let r#type = f.req("type")?;
        Some(Clash { st, ctx, value, r#type, r#fn: Clashes::content(f)? })
    }
    fn names(&self) -> Vec<&'static str> {
        let mut v = vec!["st", "ctx", "value", "type"];
        v.extend(self.r#fn.names());
        v
    }
    fn alike(&self, o: &Self) -> bool {
        self.st.same(&o.st) & self.ctx.same(&o.ctx) & self.value.same(&o.value) & self.r#type.same(&o.r#type) & self.r#fn.alike(&o.r#fn)
    }
}
impl Any for Clashed {
    fn any(s: Size) -> Self {
        Clash { st: Any::any(s), ctx: Any::any(s), value: Any::any(s), r#type: Any::any(s), r#fn: Clashes::r#let }
    }
}
declared!(Clashed);
impl Denote for Raw {
    fn of(t: &Tree) -> Option<Self> {
        Some([Raw::r#match, Raw::NAMES, Raw::index][tag_of(t, &[("match", 0), ("NAMES", 1), ("r#match", 2)])? as usize])
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn observe(&self) {}
}
impl Nullable for Raw {}
impl Any for Raw {
    fn any(_: Size) -> Self {
        [Raw::r#match, Raw::NAMES, Raw::index][choose(3)]
    }
}
const CLASHES: [(&str, u64); 4] = [("st", 0), ("let", 1), ("ctx", 2), ("r#if", 3)];
impl Declared for Clashes {
    const TAG: Option<(&'static str, &'static [(&'static str, u64)])> = Some(("tag", &CLASHES));
    fn content(f: &Fields) -> Option<Self> {
        Some(match f.tag("tag", &CLASHES)? {
            0 => {
                let st = f.req("st")?;
                let ctx = f.req("ctx")?;
                Clashes::st { st, ctx, value: f.or("value", 0)? }
            }
            1 => Clashes::r#let,
            2 => {
                let ser = f.req("ser")?;
                Clashes::ctx { st: Inner { ser, inner: Leaf::content(f)? } }
            }
            _ => {
                let index = f.req("index")?;
                let de = f.req("de")?;
                let done_flag = f.req("done_flag")?;
                Clashes::de { index, de, done_flag, inner: f.req("inner")? }
            }
        })
    }
    fn names(&self) -> Vec<&'static str> {
        match self {
            Clashes::st { .. } => vec!["tag", "st", "ctx", "value"],
            Clashes::r#let => vec!["tag"],
            Clashes::ctx { .. } => vec!["tag", "ser", "x", "z"],
            Clashes::de { .. } => vec!["tag", "index", "de", "done_flag", "inner"],
        }
    }
    fn alike(&self, o: &Self) -> bool {
        match (self, o) {
            (Clashes::st { st, ctx, value }, Clashes::st { st: a, ctx: b, value: c }) => st.same(a) & ctx.same(b) & value.same(c),
            (Clashes::r#let, Clashes::r#let) => true,
            (Clashes::ctx { st: a }, Clashes::ctx { st: b }) => a.ser.same(&b.ser) & a.inner.alike(&b.inner),
            (Clashes::de { index, de, done_flag, inner }, Clashes::de { index: a, de: b, done_flag: c, inner: d }) => index.same(a) & de.same(b) & done_flag.same(c) & inner.same(d),
            _ => false,
        }
    }
}
impl Any for Clashes {
    fn any(s: Size) -> Self {
        match choose(4) {
            0 => Clashes::st { st: Any::any(s), ctx: Any::any(s), value: Any::any(s) },
            1 => Clashes::r#let,
            2 => Clashes::ctx { st: Inner { ser: Any::any(s), inner: Any::any(s) } },
            _ => Clashes::de { index: Any::any(s), de: Any::any(s), done_flag: Any::any(s), inner: Any::any(s) },
        }
    }
}
declared!(Clashes);

#[derive(Serialize, Deserialize)]
pub struct Nothing;
plain!(Nothing {});

/// Structs within structs.
#[derive(Serialize, Deserialize)]
pub struct Leaf {
    x: u8,
    #[serde(rename = "z")]
    y: Option<bool>,
}
plain!(Leaf { x: req "x", y: req "z" });
#[derive(Serialize, Deserialize)]
pub struct Branch {
    #[serde(flatten)]
    x: Leaf,
    y: Vec<u8>,
    #[serde(flatten)]
    none: Nothing,
}
impl Declared for Branch {
    fn content(f: &Fields) -> Option<Self> {
        let x = Leaf::content(f)?;
        Some(Branch { x, y: f.req("y")?, none: Nothing })
    }
    fn names(&self) -> Vec<&'static str> {
        vec!["x", "z", "y"]
    }
    fn alike(&self, o: &Self) -> bool {
        self.x.alike(&o.x) & self.y.same(&o.y)
    }
}
impl Any for Branch {
    fn any(s: Size) -> Self {
        Branch { x: Any::any(s), y: Any::any(s), none: Nothing }
    }
}
declared!(Branch);
#[derive(Serialize, Deserialize)]
pub struct Trunk {
    a: bool,
    #[serde(flatten)]
    b: Branch,
    #[serde(default)]
    c: u8,
}
impl Declared for Trunk {
    fn content(f: &Fields) -> Option<Self> {
        let a = f.req("a")?;
        let b = Branch::content(f)?;
        Some(Trunk { a, b, c: f.or("c", 0)? })
    }
    fn names(&self) -> Vec<&'static str> {
        vec!["a", "x", "z", "y", "c"]
    }
    fn alike(&self, o: &Self) -> bool {
        self.a.same(&o.a) & self.b.alike(&o.b) & self.c.same(&o.c)
    }
}
impl Any for Trunk {
    fn any(s: Size) -> Self {
        Trunk { a: Any::any(s), b: Any::any(s), c: Any::any(s) }
    }
}
declared!(Trunk);

/// Defaults which are not all zero.
#[derive(Serialize, Deserialize)]
pub struct Level {
    at: u8,
}
plain!(Level { at: req "at" });
impl Default for Level {
    fn default() -> Self {
        Level { at: 7 }
    }
}
#[derive(Serialize, Deserialize)]
pub struct Defaults {
    #[serde(default)]
    a: Level,
    #[serde(default, rename = "a\u{e9}")]
    b: String,
    #[serde(rename = "b", default)]
    c: Option<Option<bool>>,
    #[serde(default, rename = " d\n")]
    d: Mode,
}
plain!(Defaults { a: or "a" (Level { at: 7 }), b: or "a\u{e9}" (String::new()), c: or "b" (None), d: or " d\n" (Mode::Third) });

/// Tags: names, indices and both.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
pub enum Mode {
    #[serde(rename = "1")]
    First,
    Second = 0x10,
    #[serde(reindex = 3, rename = "")]
    Third,
    Fourth,
    #[serde(rename = "fourth ")]
    Fifth = 4,
    #[serde(rename = "First")]
    Sixth,
}
impl Default for Mode {
    fn default() -> Self {
        Mode::Third
    }
}
const MODES: [(Mode, &str, u64); 6] =
    [(Mode::First, "1", 0), (Mode::Second, "Second", 16), (Mode::Third, "", 3), (Mode::Fourth, "Fourth", 18), (Mode::Fifth, "fourth ", 4), (Mode::Sixth, "First", 5)];
impl Denote for Mode {
    fn of(t: &Tree) -> Option<Self> {
        let i = tag_of(t, &MODES.map(|(_, n, i)| (n, i)))?;
        MODES.iter().find(|m| m.2 == i).map(|m| m.0)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn observe(&self) {}
}
impl Nullable for Mode {}
impl Any for Mode {
    fn any(_: Size) -> Self {
        MODES[choose(6)].0
    }
}
/// A tag in a struct.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
#[serde(tag = "kind", rename = "K")]
pub enum Kept {
    One,
    #[serde(rename = "kind")]
    Two,
}
impl Declared for Kept {
    const TAG: Option<(&'static str, &'static [(&'static str, u64)])> = Some(("kind", &[("One", 0), ("kind", 1)]));
    fn content(f: &Fields) -> Option<Self> {
        Some([Kept::One, Kept::Two][f.tag("kind", Self::TAG.unwrap().1)? as usize])
    }
    fn names(&self) -> Vec<&'static str> {
        vec!["kind"]
    }
    fn alike(&self, o: &Self) -> bool {
        self == o
    }
}
impl Any for Kept {
    fn any(_: Size) -> Self {
        [Kept::One, Kept::Two][choose(2)]
    }
}
declared!(Kept);
/// Variants of every sort.
#[derive(Serialize, Deserialize)]
#[serde(rename = "Sorts of things", tag = "t")]
pub enum Sort {
    #[serde(rename = "none")]
    Unit,
    #[serde(reindex = 6)]
    Fields {
        #[serde(rename = "u")]
        t: u8,
        #[serde(default)]
        v: bool,
    },
    #[serde(transparent, rename = "leaf", reindex = 1)]
    Tuple(Leaf),
    #[serde(transparent)]
    Named { inner: Kept },
    Mixed {
        a: Option<Mode>,
        #[serde(flatten)]
        b: Leaf,
    },
    Empty {},
}
// (positions count on: variants with another index leave a gap)
const SORTS: [(&str, u64); 6] = [("none", 0), ("Fields", 6), ("leaf", 1), ("Named", 3), ("Mixed", 4), ("Empty", 5)];

impl Declared for Sort {
    const TAG: Option<(&'static str, &'static [(&'static str, u64)])> = Some(("t", &SORTS));
    fn content(f: &Fields) -> Option<Self> {
        Some(match f.tag("t", &SORTS)? {
            0 => Sort::Unit,
            6 => {
                let t = f.req("u")?;
                Sort::Fields { t, v: f.or("v", false)? }
            }
            1 => Sort::Tuple(Leaf::content(f)?),
            3 => Sort::Named { inner: Kept::content(f)? },
            4 => {
                let a = f.req("a")?;
                Sort::Mixed { a, b: Leaf::content(f)? }
            }
            _ => Sort::Empty {},
        })
    }
    fn names(&self) -> Vec<&'static str> {
        let mut v = vec!["t"];
        v.extend(match self {
            Sort::Unit | Sort::Empty {} => vec![],
            Sort::Fields { .. } => vec!["u", "v"],
            Sort::Tuple(x) => x.names(),
            Sort::Named { inner } => inner.names(),
            Sort::Mixed { b, .. } => {
                let mut v = vec!["a"];
                v.extend(b.names());
                v
            }
        });
        v
    }
    fn alike(&self, o: &Self) -> bool {
        match (self, o) {
            (Sort::Unit, Sort::Unit) | (Sort::Empty {}, Sort::Empty {}) => true,
            (Sort::Fields { t, v }, Sort::Fields { t: a, v: b }) => t.same(a) & v.same(b),
            (Sort::Tuple(a), Sort::Tuple(b)) => a.alike(b),
            (Sort::Named { inner: a }, Sort::Named { inner: b }) => a.alike(b),
            (Sort::Mixed { a, b }, Sort::Mixed { a: c, b: d }) => a.same(c) & b.alike(d),
            _ => false,
        }
    }
}
impl Any for Sort {
    fn any(s: Size) -> Self {
        match choose(6) {
            0 => Sort::Unit,
            1 => Sort::Fields { t: Any::any(s), v: Any::any(s) },
            2 => Sort::Tuple(Any::any(s)),
            3 => Sort::Named { inner: Any::any(s) },
            4 => Sort::Mixed { a: Any::any(s), b: Any::any(s) },
            _ => Sort::Empty {},
        }
    }
}
declared!(Sort);
/// Enums within structs and enums, spread out.
#[derive(Serialize, Deserialize)]
pub enum Deep {
    #[serde(transparent)]
    Sort(Sort),
    #[serde(transparent, rename = "both")]
    Both { b: Spread },
}
impl Declared for Deep {
    const TAG: Option<(&'static str, &'static [(&'static str, u64)])> = Some(("type", &[("Sort", 0), ("both", 1)]));
    fn content(f: &Fields) -> Option<Self> {
        Some(match f.tag("type", Self::TAG.unwrap().1)? {
            0 => Deep::Sort(Sort::content(f)?),
            _ => Deep::Both { b: Spread::content(f)? },
        })
    }
    fn names(&self) -> Vec<&'static str> {
        let mut v = vec!["type"];
        v.extend(match self {
            Deep::Sort(x) => x.names(),
            Deep::Both { b } => b.names(),
        });
        v
    }
    fn alike(&self, o: &Self) -> bool {
        match (self, o) {
            (Deep::Sort(a), Deep::Sort(b)) => a.alike(b),
            (Deep::Both { b: a }, Deep::Both { b }) => a.alike(b),
            _ => false,
        }
    }
}
impl Any for Deep {
    fn any(s: Size) -> Self {
        if choose(2) == 0 { Deep::Sort(Any::any(s)) } else { Deep::Both { b: Any::any(s) } }
    }
}
declared!(Deep);
#[derive(Serialize, Deserialize)]
pub struct Spread {
    #[serde(default, rename = "v")]
    a: u8,
    #[serde(flatten)]
    b: Kept,
    c: Mode,
}
impl Declared for Spread {
    fn content(f: &Fields) -> Option<Self> {
        let a = f.or("v", 0)?;
        let b = Kept::content(f)?;
        Some(Spread { a, b, c: f.req("c")? })
    }
    fn names(&self) -> Vec<&'static str> {
        vec!["v", "kind", "c"]
    }
    fn alike(&self, o: &Self) -> bool {
        self.a.same(&o.a) & self.b.alike(&o.b) & self.c.same(&o.c)
    }
}
impl Any for Spread {
    fn any(s: Size) -> Self {
        Spread { a: Any::any(s), b: Any::any(s), c: Any::any(s) }
    }
}
declared!(Spread);
/// Declarations with parameters.
#[derive(Serialize, Deserialize)]
pub struct Param<T, U: Clone, const N: usize>
where
    T: Default,
{
    #[serde(rename = "value", default)]
    t: T,
    has_value: Option<U>,
    #[serde(default, rename = "n")]
    n: List<U>,
    m: [bool; N],
}
/// A list, with a default.
pub struct List<U>(Vec<U>);
impl<U> Default for List<U> {
    fn default() -> Self {
        List(Vec::new())
    }
}
impl<U, D: serdere::Deserializer + ?Sized, C: ?Sized> Deserialize<D, C> for List<U>
where
    Vec<U>: Deserialize<D, C>,
{
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut C) -> Result<Self, D::Error> {
        Ok(List(value.get_using(ctx)?))
    }
}
impl<U, S: Serializer + ?Sized, C: ?Sized> Serialize<S, C> for List<U>
where
    Vec<U>: Serialize<S, C>,
{
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        value.put_using(&self.0, ctx)
    }
}
impl<U: Denote> Denote for List<U> {
    fn of(t: &Tree) -> Option<Self> {
        Some(List(Denote::of(t)?))
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
    fn observe(&self) {}
}
impl<U: Any> Any for List<U> {
    fn any(s: Size) -> Self {
        List(Any::any(s))
    }
}
plain!(Param<Option<bool>, u8, 1> { t: or "value" (None), has_value: req "has_value", n: or "n" (List::default()), m: req "m" });

/// Fields which are read as other types.
#[derive(Deserialize)]
pub struct Proxies {
    #[serde(proxy = u8)]
    a: Twice,
    #[serde(proxy = bool, rename = "a\"", default)]
    b: Twice,
    #[serde(flatten, proxy = Leaf)]
    c: Twice,
    #[serde(default, proxy = Level)]
    d: Twice,
}
#[derive(Clone, Copy, PartialEq)]
pub struct Twice(u16);
impl Default for Twice {
    fn default() -> Self {
        Twice(999)
    }
}
impl From<u8> for Twice {
    fn from(x: u8) -> Self {
        Twice(2 * x as u16)
    }
}
impl From<bool> for Twice {
    fn from(x: bool) -> Self {
        Twice(700 + x as u16)
    }
}
impl From<Leaf> for Twice {
    fn from(x: Leaf) -> Self {
        Twice(x.x as u16 + if x.y == Some(true) { 300 } else { 0 })
    }
}
impl From<Level> for Twice {
    fn from(x: Level) -> Self {
        Twice(x.at as u16 + 1)
    }
}
/// What those fields are read as.
mod read_as {
    use super::*;
    #[derive(Serialize, Deserialize)]
    pub struct Proxies {
        pub a: u8,
        #[serde(rename = "a\"")]
        pub b: bool,
        #[serde(flatten)]
        pub c: Leaf,
        pub d: Level,
    }
}
impl<S: Serializer + ?Sized, C: ?Sized> Serialize<S, C> for Proxies {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        value.put_using(
            &read_as::Proxies {
                a: (self.a.0 / 2) as u8,
                b: self.b.0 == 701,
                c: Leaf { x: (self.c.0 % 300) as u8, y: if self.c.0 >= 300 { Some(true) } else { None } },
                d: Level { at: (self.d.0 - 1) as u8 },
            },
            ctx,
        )
    }
}
impl Declared for Proxies {
    fn content(f: &Fields) -> Option<Self> {
        let a = u8::into(f.req::<u8>("a")?);
        let b = match f.get("a\"")? {
            None | Some(Tree::Null) => Twice(999),
            Some(t) => bool::of(t)?.into(),
        };
        let c = Leaf::content(f)?.into();
        let d = match f.get("d")? {
            None | Some(Tree::Null) => Twice(999),
            Some(t) => Level::of(t)?.into(),
        };
        Some(Proxies { a, b, c, d })
    }
    fn names(&self) -> Vec<&'static str> {
        vec!["a", "a\"", "x", "z", "d"]
    }
    fn alike(&self, o: &Self) -> bool {
        (self.a == o.a) & (self.b == o.b) & (self.c == o.c) & (self.d == o.d)
    }
}
impl Any for Proxies {
    fn any(s: Size) -> Self {
        Proxies { a: u8::any(s).into(), b: bool::any(s).into(), c: Leaf { x: u8::any(s), y: if choose(2) == 1 { Some(true) } else { None } }.into(), d: Level::any(s).into() }
    }
}
declared!(Proxies);

/// Objects with repeated keys denote no particular value.
fn distinct(t: &Tree) {
    match t {
        Tree::Obj(es) => {
            for i in 0..es.len() {
                for j in 0..i {
                    if same_text(&es[i].0, &es[j].0) {
                        end()
                    }
                }
                distinct(&es[i].1)
            }
        }
        Tree::Arr(v) => v.iter().for_each(distinct),
        _ => (),
    }
}
/// Appends a value in a layout of its own.
fn emit(t: &Tree, to: &mut Vec<u8>) {
    match t {
        Tree::Null => to.extend_from_slice(b"null"),
        Tree::Bool(b) => to.extend_from_slice(if *b { b"true" } else { b"false" }),
        Tree::Num(n) => to.extend_from_slice(n),
        Tree::Str(s) => emit_str(s, to),
        Tree::Arr(v) => {
            to.push(b'[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    to.push(b',');
                }
                emit(x, to)
            }
            to.extend_from_slice(b" ]")
        }
        Tree::Obj(es) => {
            to.push(b'{');
            for (i, (k, x)) in es.iter().enumerate() {
                if i > 0 {
                    to.push(b',');
                }
                emit_str(k, to);
                to.push(b':');
                emit(x, to)
            }
            to.push(b'}')
        }
    }
}
fn emit_str(s: &[u32], to: &mut Vec<u8>) {
    to.push(b'"');
    for &c in s {
        let pair = [0xD800 + (c.wrapping_sub(0x10000) >> 10), 0xDC00 + (c & 0x3FF)];
        for u in if c < 0x10000 { vec![c] } else { pair.to_vec() } {
            to.extend_from_slice(b"\\u");
            for sh in [12, 8, 4, 0] {
                let d = (u >> sh) & 15;
                to.push((48 + d + (d > 9) as u32 * 39) as u8)
            }
        }
    }
    to.push(b'"')
}
fn verdict<T: Declared + Denote>(got: Option<T>, tree: &Tree, must: Option<&T>) {
    distinct(tree);
    match (got, T::of(tree)) {
        (Some(a), Some(b)) => {
            cover(1);
            check(a.same(&b), "the value read is the one the document denotes");
            if let Some(v) = must {
                check(a.same(v), "the order of entries does not matter")
            }
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("a document which denotes no such value is an error"),
        (None, Some(_)) => fail("a document which denotes such a value is read"),
    }
}
/// Writes an arbitrary value, and reads its entries back in any order.
fn order<T: Both + Declared>() {
    let s = Size { items: param(1), chars: param(2), rich: false };
    let v = T::any(s);
    let Some(Tree::Obj(mut es)) = parse(written(&v, None).as_bytes()) else { fail("a struct is written as an object") };
    let names = v.names();
    check(names.len() == es.len(), "exactly the declared fields are written");
    for (n, e) in names.iter().zip(&es) {
        let n: Vec<u32> = n.chars().map(|c| c as u32).collect();
        check(same_text(&n, &e.0), "fields are written with the declared names")
    }
    let mut whole = true;
    if param(3) & 1 == 1 {
        // an entry may be absent, or null, or of another type
        let k = choose(es.len() + 1);
        if k < es.len() {
            whole = false;
            match choose(3) {
                0 => { es.remove(k); }
                1 => es[k].1 = Tree::Null,
                _ => es[k].1 = Tree::Arr(vec![Tree::Bool(true)]),
            }
        }
    }
    if param(3) & 2 == 2 {
        // an entry of no field
        let k: &str = ["", "A", "a\u{e9}\u{1f600}", "Type"][choose(4)];
        let k: Vec<u32> = k.chars().map(|c| c as u32).collect();
        if !es.iter().any(|e| same_text(&e.0, &k)) {
            es.push((k, [Tree::Obj(vec![(vec![97], Tree::Null)]), Tree::Arr(vec![Tree::Str(vec![])]), Tree::Num(b"-1e3".to_vec())][choose(3)].clone()))
        }
    }
    if let Some((name, tags)) = T::TAG {
        // tags are names or indices
        if choose(2) == 1 {
            for e in &mut es {
                if is_key(&e.0, name) {
                    for (n, i) in tags {
                        if matches!(&e.1, Tree::Str(s) if is_key(s, n)) {
                            e.1 = Tree::Num(i.to_string().into_bytes());
                            break;
                        }
                    }
                }
            }
        }
    }
    let mut mixed = Vec::new();
    while !es.is_empty() {
        let k = choose(es.len());
        mixed.push(es.remove(k));
    }
    let tree = Tree::Obj(mixed);
    let mut t = Vec::new();
    emit(&tree, &mut t);
    let text = ascii_text(t);
    let got = match param(4) {
        0 => from_str::<T>(&text).ok(),
        1 => Utf8Reader::new(text.as_bytes()).ok().and_then(|r| from_reader::<_, T>(r).ok()),
        2 => ahead::<T, _>(&["{\"x\":", &text, "}"].concat()[..]),
        _ => from_str::<(bool, T, bool)>(&["[false,", &text, ",true]"].concat()).ok().map(|x| x.1),
    };
    verdict(got, &tree, if whole { Some(&v) } else { None });
    observe_bytes(text.as_bytes());
}
/// Documents made of parts.
fn reads<T: Declared + Denote + for<'a> Deserialize<serdere_json::TextDeserializer<serdere::Utf8Reader<FeedReader<'a>>>>>(parts: &'static [&'static str]) {
    let (before, after) = if param(3) == 0 { ("", "") } else { ("{\"x\":", "}") };
    let start = ["", "{", "["][param(2)];
    let f = Feed::from(&[before, start].concat(), Kind::Tokens(parts), param(1)).ending(after);
    let got = run_at::<T>(&f, param(3));
    let tree = match parse_with(&f, false) {
        Some(Tree::Obj(mut es)) if param(3) == 1 => if es.len() == 1 { Some(es.pop().unwrap().1) } else { None },
        t => t,
    };
    match tree {
        Some(t) => verdict(got, &t, None),
        None => {
            check(got.is_none(), "malformed documents are errors");
            cover(2)
        }
    }
}

entries! {
    // type, number of items, of characters, whether characters and numbers are arbitrary
    h_c20_rt => {
        let s = Size { items: param(1), chars: param(2), rich: param(3) == 1 };
        match param(0) {
            0 => round_trip::<Names>(s),
            1 => round_trip::<Trunk>(s),
            2 => round_trip::<Defaults>(s),
            3 => round_trip::<Mode>(s),
            4 => round_trip::<Kept>(s),
            5 => round_trip::<Sort>(s),
            6 => round_trip::<Deep>(s),
            7 => round_trip::<Spread>(s),
            8 => round_trip::<Param<Option<bool>, u8, 1>>(s),
            9 => round_trip::<Proxies>(s),
            10 => round_trip::<Nothing>(s),
            11 => round_trip::<Branch>(s),
            12 => round_trip::<Vec<Sort>>(s),
            13 => round_trip::<Option<Deep>>(s),
            14 => round_trip::<(Mode, Kept, Nothing)>(s),
            15 => round_trip::<[Option<Option<Spread>>; 2]>(s),
            16 => round_trip::<Clashed>(s),
            17 => round_trip::<Clashes>(s),
            _ => round_trip::<Vec<Raw>>(s),
        }
    },
    // type, number of items, of characters, what else happens to the entries, where they are
    h_c20_order => {
        match param(0) {
            0 => order::<Names>(),
            1 => order::<Trunk>(),
            2 => order::<Defaults>(),
            4 => order::<Kept>(),
            5 => order::<Sort>(),
            6 => order::<Deep>(),
            7 => order::<Spread>(),
            8 => order::<Param<Option<bool>, u8, 1>>(),
            9 => order::<Proxies>(),
            10 => order::<Nothing>(),
            16 => order::<Clashed>(),
            17 => order::<Clashes>(),
            _ => order::<Branch>(),
        }
    },
    // type, number of parts, what they follow, read ahead
    h_c20_read => {
        match param(0) {
            0 => reads::<Names>(&["\"a\":", "\"b\":", "\"\":", "\"{}\":", "true", "1", "null", "\"\"", "{}", ",", "}", "]", "\"a\\\"\\\\\\n\u{e9}\u{1f600}\":{}"]),
            1 => reads::<Trunk>(&["\"a\":true", "\"x\":1", "\"z\":null", "\"y\":[]", "\"c\":", "true", "1", "null", "[]", ",", "}", "]"]),
            2 => reads::<Defaults>(&["\"a\":", "\"a\u{e9}\":", "\"b\":", "\"d\":", "{", "\"at\":2", "\"\"", "null", "3", ",", "}", "]"]),
            4 => reads::<Kept>(&["\"kind\":", "\"kind\"", "\"One\"", "0", "1", "2", "null", ",", "}", "]"]),
            5 => reads::<Sort>(&["\"t\":", "\"none\"", "\"Fields\"", "1", "3", "4", "2", "\"kind\":\"One\"", "\"u\":", "\"x\":", "\"a\":", "null", ",", "}", "]"]),
            6 => reads::<Deep>(&["\"type\":", "\"Sort\"", "\"both\"", "\"t\":\"none\"", "\"t\":1", "\"x\":", "\"v\":", "0", "\"kind\":\"One\"", "\"c\":", ",", "}", "]"]),
            7 => reads::<Spread>(&["\"v\":", "\"kind\":", "\"kind\"", "\"c\":", "1", "\"1\"", "\"\"", "5", "16", "null", ",", "}", "]"]),
            8 => reads::<Param<Option<bool>, u8, 1>>(&["\"value\":", "\"has_value\":", "\"n\":", "\"m\":[true]", "null", "1", "[", "true", ",", "}", "]"]),
            9 => reads::<Proxies>(&["\"a\":", "\"a\\\"\":", "\"x\":", "\"z\":", "\"d\":", "{\"at\":3}", "null", "1", "true", ",", "}", "]"]),
            17 => reads::<Clashes>(&["\"tag\":", "\"st\"", "\"let\"", "\"r#let\"", "\"r#if\"", "\"ctx\":", "\"match\"", "\"r#match\"", "1", "\"st\":true", "\"inner\":true", ",", "}", "]"]),
            10 => reads::<Nothing>(&["\"a\":", "{", "null", "1", "[", ",", "}", "]"]),
            _ => reads::<Branch>(&["\"x\":", "\"z\":", "\"y\":", "true", "1", "null", "[", ",", "}", "]"]),
        }
    },
}
