//! What a JSON value denotes as a value of a Rust type (the oracle for reading), documents that
//! are made up while they are read, and target types.
use crate::json::{self, Tree};
use crate::sym::*;
use serdere::{Deserialize, Deserializer, Outliner, Value};
use serdere_json::{JsonDeserializer, JsonOutliner, ValueDeserializerExt, ValueType};
use std::cell::RefCell;

/// A Rust type for which it is known what JSON denotes which value.
pub trait Denote: Sized {
    /// What a missing struct field of this type reads as.
    fn missing() -> Option<Self> {
        None
    }
    fn of(t: &Tree) -> Option<Self>;
    /// Equality (avoids splitting on symbolic parts).
    fn same(&self, o: &Self) -> bool;
    fn observe(&self);
}
/// The exact value of a number literal, if it is an integer of moderate size.
pub fn int_of(lit: &[u8]) -> Option<(bool, u128)> {
    let mut l = crate::num::Lit { text: Vec::new(), negative: false, mantissa: 0, scale: 0 };
    let (mut exp, mut frac, mut eneg) = (None::<i32>, false, false);
    for &c in lit {
        // (the shape of the literal is known at this point, its digits may not be)
        if c == b'-' {
            if exp.is_some() { eneg = true } else { l.negative = true }
        } else if c == b'+' {
        } else if c == b'.' {
            frac = true
        } else if c == b'e' || c == b'E' {
            exp = Some(0)
        } else if let Some(e) = exp {
            exp = Some(e * 10 + concretize((c - b'0') as u64) as i32)
        } else {
            l.mantissa = l.mantissa * 10 + (c - b'0') as u128;
            if frac { l.scale -= 1 }
        }
    }
    let e = exp.unwrap_or(0);
    l.scale += if eneg { -e } else { e };
    if concretize((l.mantissa == 0) as u64) == 1 { return Some((false, 0)) }
    if l.scale < 0 {
        if l.scale < -25 { return None }
        // (decide divisibility first)
        let p = 10u128.pow((-l.scale) as u32);
        if concretize((l.mantissa % p == 0) as u64) == 0 { return None }
        return Some((l.negative, l.mantissa / p));
    }
    crate::num::value(&l)
}
macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Denote for $t {
            fn of(t: &Tree) -> Option<Self> {
                let Tree::Num(n) = t else { return None };
                let (neg, m) = int_of(n)?;
                let lim = if !neg { <$t>::MAX as u128 } else if <$t>::MIN == 0 { 0 } else { <$t>::MAX as u128 + 1 };
                if concretize((m <= lim) as u64) == 0 { return None }
                Some(if neg { (m as u64).wrapping_neg() as $t } else { m as $t })
            }
            fn same(&self, o: &Self) -> bool { *self == *o }
            fn observe(&self) { observe(*self as u64) }
        }
    )*};
}
ints!(i8 i16 i32 i64 u8 u16 u32 u64);
impl Denote for bool {
    fn of(t: &Tree) -> Option<Self> {
        match t { Tree::Bool(b) => Some(*b), _ => None }
    }
    fn same(&self, o: &Self) -> bool { *self == *o }
    fn observe(&self) { observe(*self as u64) }
}
impl Denote for char {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Str(s) if s.len() == 1 => Some(unsafe { char::from_u32_unchecked(s[0]) }),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool { *self == *o }
    fn observe(&self) { observe(*self as u64) }
}
impl Denote for String {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Str(s) => Some(s.iter().map(|&c| unsafe { char::from_u32_unchecked(c) }).collect()),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (self.as_bytes(), o.as_bytes());
        let mut ok = a.len() == b.len();
        for i in 0..a.len().min(b.len()) {
            ok &= a[i] == b[i];
        }
        ok
    }
    fn observe(&self) { observe_bytes(self.as_bytes()) }
}
impl Denote for () {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Obj(_) => Some(()),
            Tree::Arr(a) if a.is_empty() => Some(()),
            _ => None,
        }
    }
    fn same(&self, _: &Self) -> bool { true }
    fn observe(&self) {}
}
impl<T: Denote + Nullable> Denote for Option<T> {
    fn missing() -> Option<Self> { if T::NULLABLE { None } else { Some(None) } }
    fn of(t: &Tree) -> Option<Self> {
        if !T::NULLABLE {
            match t {
                Tree::Null => Some(None),
                _ => Some(Some(T::of(t)?)),
            }
        } else {
            match t {
                Tree::Obj(_) => {
                    if field::<bool>(t, "has_value")? {
                        Some(Some(field::<T>(t, "value")?))
                    } else {
                        Some(None)
                    }
                }
                Tree::Arr(a) => {
                    if a.is_empty() { return None }
                    if bool::of(&a[0])? {
                        if a.len() != 2 { return None }
                        Some(Some(T::of(&a[1])?))
                    } else if a.len() == 1 {
                        Some(None)
                    } else {
                        None
                    }
                }
                _ => None,
            }
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn observe(&self) {
        match self {
            None => observe(0),
            Some(x) => { observe(1); x.observe() }
        }
    }
}
/// Types with a null value.
pub trait Nullable {
    const NULLABLE: bool = false;
}
impl<T> Nullable for Option<T> {
    const NULLABLE: bool = true;
}
macro_rules! not_null { ($($t:ty)*) => { $(impl Nullable for $t {})* } }
not_null!(() i8 i16 i32 i64 u8 u16 u32 u64 bool char String Skip Dyn crate::docs::Pair crate::docs::Color crate::docs::Shape);
impl<T> Nullable for Vec<T> {}
impl<A, B> Nullable for (A, B) {}
impl<T, const N: usize> Nullable for [T; N] {}

/// The value of a struct field in an object.
pub fn field<T: Denote>(t: &Tree, name: &str) -> Option<T> {
    match t {
        Tree::Obj(es) => {
            for (k, v) in es {
                if is_key(k, name) { return T::of(v) }
            }
            T::missing()
        }
        _ => None,
    }
}
pub fn is_key(k: &[u32], name: &str) -> bool {
    // (ASCII names)
    let n = name.as_bytes();
    k.len() == n.len() && (0..n.len()).all(|i| k[i] == n[i] as u32)
}
impl<A: Denote, B: Denote> Denote for (A, B) {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Arr(a) if a.len() == 2 => Some((A::of(&a[0])?, B::of(&a[1])?)),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) & self.1.same(&o.1) }
    fn observe(&self) { self.0.observe(); self.1.observe() }
}
impl<A: Denote, B: Denote, C: Denote> Denote for (A, B, C) {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Arr(a) if a.len() == 3 => Some((A::of(&a[0])?, B::of(&a[1])?, C::of(&a[2])?)),
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) & self.1.same(&o.1) & self.2.same(&o.2) }
    fn observe(&self) { self.0.observe(); self.1.observe(); self.2.observe() }
}
impl<T: Denote, const N: usize> Denote for [T; N] {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Arr(a) if a.len() == N => {
                let mut v = Vec::new();
                for x in a { v.push(T::of(x)?) }
                v.try_into().ok()
            }
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        let mut ok = true;
        for i in 0..N { ok &= self[i].same(&o[i]) }
        ok
    }
    fn observe(&self) { for x in self { x.observe() } }
}
impl<T: Denote> Denote for Vec<T> {
    fn of(t: &Tree) -> Option<Self> {
        match t {
            Tree::Arr(a) => {
                let mut v = Vec::new();
                for x in a { v.push(T::of(x)?) }
                Some(v)
            }
            _ => None,
        }
    }
    fn same(&self, o: &Self) -> bool {
        let mut ok = self.len() == o.len();
        for i in 0..self.len().min(o.len()) { ok &= self[i].same(&o[i]) }
        ok
    }
    fn observe(&self) { observe(self.len() as u64); for x in self { x.observe() } }
}
/// Any value, skipped.
pub struct Skip;
impl<D: JsonDeserializer, C: ?Sized> Deserialize<D, C> for Skip {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut C) -> Result<Self, D::Error> {
        value.skip()?;
        Ok(Skip)
    }
}
impl Denote for Skip {
    fn of(_: &Tree) -> Option<Self> { Some(Skip) }
    fn same(&self, _: &Self) -> bool { true }
    fn observe(&self) {}
}
/// Any value, read according to its type (numbers are skipped).
pub struct Dyn(pub Tree);
pub fn read_tree<D: JsonDeserializer>(d: &mut D) -> Result<Tree, D::Error> {
    Ok(match d.peek_value_type() {
        ValueType::Null => {
            d.pop_null()?;
            Tree::Null
        }
        ValueType::Bool => Tree::Bool(d.get_bool()?),
        ValueType::Number => {
            d.skip_value()?;
            Tree::Num(Vec::new())
        }
        ValueType::String => Tree::Str(d.read_str()?.chars().map(|c| c as u32).collect()),
        ValueType::Array => {
            d.open_list()?;
            let mut v = Vec::new();
            while d.next_item()? { v.push(read_tree(d)?) }
            Tree::Arr(v)
        }
        ValueType::Object => {
            d.open_object()?;
            let mut v = Vec::new();
            while d.next_entry()? {
                let k = d.flush_str()?.chars().map(|c| c as u32).collect();
                v.push((k, read_tree(d)?));
            }
            Tree::Obj(v)
        }
    })
}
impl<D: JsonDeserializer, C: ?Sized> Deserialize<D, C> for Dyn {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut C) -> Result<Self, D::Error> {
        let (d, done) = value.into_raw();
        let t = read_tree(d)?;
        *done = true;
        Ok(Dyn(t))
    }
}
pub fn same_text(a: &[u32], b: &[u32]) -> bool {
    let mut ok = a.len() == b.len();
    for i in 0..a.len().min(b.len()) { ok &= a[i] == b[i] }
    ok
}
pub fn same_tree(a: &Tree, b: &Tree) -> bool {
    match (a, b) {
        (Tree::Null, Tree::Null) => true,
        (Tree::Bool(x), Tree::Bool(y)) => x == y,
        (Tree::Num(_), Tree::Num(_)) => true,
        (Tree::Str(x), Tree::Str(y)) => same_text(x, y),
        (Tree::Arr(x), Tree::Arr(y)) => {
            let mut ok = x.len() == y.len();
            for i in 0..x.len().min(y.len()) { ok &= same_tree(&x[i], &y[i]) }
            ok
        }
        (Tree::Obj(x), Tree::Obj(y)) => {
            let mut ok = x.len() == y.len();
            for i in 0..x.len().min(y.len()) { ok &= same_text(&x[i].0, &y[i].0) & same_tree(&x[i].1, &y[i].1) }
            ok
        }
        _ => false,
    }
}
impl Denote for Dyn {
    fn of(t: &Tree) -> Option<Self> { Some(Dyn(t.clone())) }
    fn same(&self, o: &Self) -> bool { same_tree(&self.0, &o.0) }
    fn observe(&self) {}
}

/// A document whose parts are chosen when they are first looked at, so that a reader which stops
/// at an error is run once for everything that could follow.
pub struct Feed {
    pub kind: Kind,
    pub text: RefCell<Vec<u8>>,
    pub left: RefCell<usize>,
    /// what follows the chosen parts
    pub end: RefCell<&'static str>,
}
#[derive(Clone, Copy)]
pub enum Kind {
    /// arbitrary ASCII characters
    Ascii,
    /// arbitrary Unicode characters
    Scalar,
    /// arbitrary bytes
    Bytes,
    /// digits and characters from the given set
    Digits(&'static [u8]),
    /// characters from the given set
    From(&'static [u8]),
    /// the given tokens
    Tokens(&'static [&'static str]),
}
impl Feed {
    /// At most `n` parts.
    pub fn new(kind: Kind, n: usize) -> Self {
        Feed { kind, text: RefCell::new(Vec::with_capacity(64)), left: RefCell::new(n), end: RefCell::new("") }
    }
    pub fn from(text: &str, kind: Kind, n: usize) -> Self {
        let f = Feed::new(kind, n);
        f.text.borrow_mut().extend_from_slice(text.as_bytes());
        f
    }
    pub fn ending(self, text: &'static str) -> Self {
        self.end.replace(text);
        self
    }
    pub fn at(&self, i: usize) -> Option<u8> {
        let mut t = self.text.borrow_mut();
        let mut left = self.left.borrow_mut();
        while i >= t.len() {
            if *left == 0 {
                let end = self.end.replace("");
                if end.is_empty() { return None }
                t.extend_from_slice(end.as_bytes());
                continue;
            }
            *left -= 1;
            match self.kind {
                Kind::Tokens(x) => {
                    let k = choose(x.len() + 1);
                    if k == x.len() {
                        *left = 0
                    } else {
                        t.extend_from_slice(x[k].as_bytes())
                    }
                }
                k => {
                    if choose(2) == 1 {
                        *left = 0
                    } else {
                        match k {
                            Kind::Ascii => t.push(ascii()),
                            Kind::Bytes => t.push(u8()),
                            Kind::From(a) => t.push(pick(a)),
                            Kind::Digits(a) => t.push(if choose(2) == 0 { range(48, 57) as u8 } else { pick(a) }),
                            _ => {
                                let mut b = [0; 4];
                                t.extend_from_slice(scalar().encode_utf8(&mut b).as_bytes())
                            }
                        }
                    }
                }
            }
        }
        Some(t[i])
    }
}
impl json::Source for &Feed {
    fn get(&self, i: usize) -> Option<u8> { self.at(i) }
}
/// Reads a feed, one byte at a time.
pub struct FeedReader<'a> {
    pub feed: &'a Feed,
    pub at: usize,
}
impl std::io::Read for FeedReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0) }
        match self.feed.at(self.at) {
            None => Ok(0),
            Some(b) => {
                self.at += 1;
                buf[0] = b;
                Ok(1)
            }
        }
    }
}
impl Feed {
    pub fn reader(&self) -> serdere::Utf8Reader<FeedReader<'_>> {
        match serdere::Utf8Reader::new(FeedReader { feed: self, at: 0 }) {
            Ok(r) => r,
            Err(_) => { end(); unreachable!() }
        }
    }
}
