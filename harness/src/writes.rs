//! Arbitrary sequences of write operations, and what they denote.
use crate::json::Tree;
use crate::model::int_of;
use crate::sym::*;
use serdere::Value;
use serdere_json::*;

/// What a sequence of writes denotes.
pub enum Want {
    Null,
    Bool(bool),
    Int(bool, u64),
    Float,
    Str(Vec<u32>),
    Arr(Vec<Want>),
    Obj(Vec<(Vec<u32>, Want)>),
}
fn same_text(a: &[u32], b: &[u32]) -> bool {
    let mut ok = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        ok &= a[i] == b[i];
    }
    ok
}
impl Want {
    pub fn is(&self, t: &Tree) -> bool {
        match (self, t) {
            (Want::Null, Tree::Null) => true,
            (Want::Bool(x), Tree::Bool(y)) => x == y,
            (Want::Float, Tree::Num(_)) => true,
            (Want::Int(neg, x), Tree::Num(n)) => {
                // (canonical text)
                let Some((n, y)) = int_of(n) else { return false };
                (*neg == n) & (*x as u128 == y)
            }
            (Want::Str(x), Tree::Str(y)) => same_text(x, y),
            (Want::Arr(x), Tree::Arr(y)) => {
                let mut ok = x.len() == y.len();
                for i in 0..x.len().min(y.len()) {
                    ok &= x[i].is(&y[i]);
                }
                ok
            }
            (Want::Obj(x), Tree::Obj(y)) => {
                let mut ok = x.len() == y.len();
                for i in 0..x.len().min(y.len()) {
                    ok &= same_text(&x[i].0, &y[i].0) & x[i].1.is(&y[i].1);
                }
                ok
            }
            _ => false,
        }
    }
}
/// Choices and arbitrary values, made once and then repeated.
pub struct Plan {
    vals: Vec<u64>,
    at: usize,
    fresh: bool,
    nodes: usize,
    /// how many more values may be written
    pub left: usize,
    /// which kinds of values there are
    pub rich: usize,
    /// the length of texts
    pub chars: usize,
    /// only a few characters
    pub few: bool,
}
impl Plan {
    pub fn new(nodes: usize, rich: usize, chars: usize) -> Self {
        Plan { vals: Vec::new(), at: 0, fresh: true, nodes, left: nodes, rich, chars, few: false }
    }
    /// The same once more.
    pub fn again(&mut self) {
        self.fresh = false;
        self.at = 0;
        self.left = self.nodes;
    }
    fn val(&mut self, f: impl FnOnce() -> u64) -> u64 {
        if self.fresh {
            let x = f();
            self.vals.push(x);
            x
        } else {
            self.at += 1;
            self.vals[self.at - 1]
        }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.val(|| choose(n) as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        self.val(|| range(lo, hi))
    }
    pub fn char(&mut self) -> char {
        if self.few {
            return ['"', '\u{e9}', '\u{1f600}', '\u{1}'][self.pick(4)];
        }
        let any = self.rich > 0;
        let x = self.val(|| if any { scalar() as u64 } else { ascii() as u64 });
        unsafe { char::from_u32_unchecked(x as u32) }
    }
    pub fn text(&mut self) -> String {
        let n = self.pick(self.chars + 1);
        let mut s = String::new();
        for _ in 0..n {
            let c = self.char();
            s.push(c)
        }
        s
    }
}
fn chars(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
fn int(x: i64) -> Want {
    if x < 0 {
        Want::Int(true, (x as u64).wrapping_neg())
    } else {
        Want::Int(false, x as u64)
    }
}
pub const FIELDS: [&str; 4] = ["", "a", "type", "has \"x\"\n"];
const FLOATS: [f64; 8] = [0.0, -0.0, 0.5, -1.0, 1e16, 1.7976931348623157e308, 5e-324, 123456.789];

/// Kinds of values: those without parts, in the order in which `rich` adds them, then the others.
fn leaf(p: &mut Plan) -> usize {
    let n = match p.rich {
        0 => 2,
        1 => 7,
        _ => 17,
    };
    p.pick(n)
}
/// Writes a value through the raw interface.
pub fn raw<S: JsonSerializer>(s: &mut S, p: &mut Plan) -> Result<Want, S::Error> {
    p.left -= 1;
    let more = p.left > 0;
    let kind = p.pick(if p.rich == 0 || more { 7 } else { 6 });
    Ok(match kind {
        0 => match leaf(p) {
            0 => {
                s.pop_null()?;
                Want::Null
            }
            1 => {
                let t = p.text();
                s.put_str(&t)?;
                Want::Str(chars(&t))
            }
            2 => {
                let x = p.range(0, 1) == 1;
                s.put_bool(x)?;
                Want::Bool(x)
            }
            3 => {
                let x = p.range(0, 9);
                s.put_u8(x as u8)?;
                Want::Int(false, x)
            }
            4 => {
                let c = p.char();
                s.put_char(c)?;
                Want::Str(vec![c as u32])
            }
            5 => {
                s.open_str()?;
                let t = p.text();
                s.append_str(&t)?;
                let c = p.char();
                s.append_char(c)?;
                let u = p.text();
                s.append_str(&u)?;
                s.close_str()?;
                Want::Str(chars(&[&t[..], &c.to_string(), &u].concat()))
            }
            6 => {
                s.put_tag(3, 2, Some(FIELDS[3]))?;
                Want::Str(chars(FIELDS[3]))
            }
            7 => {
                let i = p.range(0, 9);
                s.put_tag(255, i as usize, None)?;
                Want::Int(false, i)
            }
            8 => {
                let x = -(p.range(0, 9) as i8);
                s.put_i8(x)?;
                int(x as i64)
            }
            9 => {
                let x = [i16::MIN, -1, 0, 10, i16::MAX][p.pick(5)];
                s.put_i16(x)?;
                int(x as i64)
            }
            10 => {
                let x = [i32::MIN, -1, 0, 10, i32::MAX][p.pick(5)];
                s.put_i32(x)?;
                int(x as i64)
            }
            11 => {
                let x = [i64::MIN, -1, 0, 10, i64::MAX][p.pick(5)];
                s.put_i64(x)?;
                int(x)
            }
            12 => {
                let x = [0, 10, u16::MAX][p.pick(3)];
                s.put_u16(x)?;
                Want::Int(false, x as u64)
            }
            13 => {
                let x = [0, 10, u32::MAX][p.pick(3)];
                s.put_u32(x)?;
                Want::Int(false, x as u64)
            }
            14 => {
                let x = [0, 10, u64::MAX][p.pick(3)];
                s.put_u64(x)?;
                Want::Int(false, x)
            }
            15 => {
                s.put_f64(FLOATS[p.pick(8)])?;
                Want::Float
            }
            16 => {
                s.put_f32([0.0, -0.0, 0.1, 1e10, f32::MAX, 1e-45][p.pick(6)])?;
                Want::Float
            }
            _ => fail("unreachable"),
        },
        1 => {
            s.open_list_streaming()?;
            let mut v = Vec::new();
            while p.left > 0 && p.pick(2) == 1 {
                s.push_item()?;
                v.push(raw(s, p)?)
            }
            s.close_list()?;
            Want::Arr(v)
        }
        2 => {
            let n = p.pick(p.left.min(3) + 1);
            s.open_list_sized(n)?;
            let mut v = Vec::new();
            // (the items' parts must not use up what the later items need)
            for i in 0..n {
                let keep = n - 1 - i;
                p.left -= keep;
                s.push_item()?;
                v.push(raw(s, p)?);
                p.left += keep;
            }
            s.close_list()?;
            Want::Arr(v)
        }
        3 => {
            s.open_tuple(None)?;
            let mut v = Vec::new();
            while p.left > 0 && p.pick(2) == 1 {
                s.push_element()?;
                v.push(raw(s, p)?)
            }
            s.close_tuple()?;
            Want::Arr(v)
        }
        4 => {
            s.open_struct(Some("T"))?;
            let mut v = Vec::new();
            while p.left > 0 && p.pick(2) == 1 {
                let f = FIELDS[v.len() % 4];
                s.push_field(f)?;
                v.push((chars(f), raw(s, p)?))
            }
            s.close_struct()?;
            Want::Obj(v)
        }
        5 => {
            s.open_object()?;
            let mut v = Vec::new();
            while p.left > 0 && p.pick(2) == 1 {
                let mut key = p.text();
                if p.rich == 0 || p.pick(2) == 0 {
                    s.push_entry(&key)?;
                } else {
                    s.add_entry()?;
                    s.append_str(&key)?;
                    let c = p.char();
                    s.append_char(c)?;
                    key.push(c);
                    s.close_str()?;
                }
                v.push((chars(&key), raw(s, p)?))
            }
            s.close_object()?;
            Want::Obj(v)
        }
        // through the wrappers
        _ => {
            p.left += 1;
            let mut w = None;
            Value::with(s, |v| {
                w = Some(wrapped(v, p)?);
                Ok(())
            })?;
            match w {
                Some(w) => w,
                None => fail("Value::with runs its argument"),
            }
        }
    })
}
#[derive(serdere::Serialize)]
pub struct Inner {
    pub b: Option<u8>,
    #[serde(rename = "c d")]
    pub c: bool,
}
#[derive(serdere::Serialize)]
pub struct Outer {
    pub a: String,
    #[serde(flatten)]
    pub inner: Inner,
}
/// Writes a value through the wrappers.
pub fn wrapped<S: JsonSerializer>(v: Value<S>, p: &mut Plan) -> Result<Want, S::Error> {
    p.left -= 1;
    let kind = p.pick(if p.rich > 1 { 8 } else { 6 });
    Ok(match kind {
        0 => match leaf(p) % 12 {
            0 => {
                v.into_null()?;
                Want::Null
            }
            1 => {
                let t = p.text();
                v.put(&t)?;
                Want::Str(chars(&t))
            }
            2 => {
                let x = p.range(0, 1) == 1;
                v.put(&x)?;
                Want::Bool(x)
            }
            3 => {
                let x = p.range(0, 9);
                v.put(&(x as u8))?;
                Want::Int(false, x)
            }
            4 => {
                let c = p.char();
                v.put(&c)?;
                Want::Str(vec![c as u32])
            }
            5 => {
                v.put_tag(3, 2, Some("tag"))?;
                Want::Str(chars("tag"))
            }
            6 => {
                v.put(&[1i16, -2])?;
                Want::Arr(vec![int(1), int(-2)])
            }
            7 => {
                v.put(&(-1i64, 7u32, ()))?;
                Want::Arr(vec![int(-1), int(7), Want::Obj(vec![])])
            }
            8 => {
                v.put(&Some(Some(true)))?;
                Want::Obj(vec![(chars("has_value"), Want::Bool(true)), (chars("value"), Want::Bool(true))])
            }
            9 => {
                v.put(&None::<Option<u8>>)?;
                Want::Obj(vec![(chars("has_value"), Want::Bool(false))])
            }
            10 => {
                v.put(&vec![Some(-5i8), None])?;
                Want::Arr(vec![int(-5), Want::Null])
            }
            _ => {
                v.put(&(u64::MAX, i32::MIN))?;
                Want::Arr(vec![Want::Int(false, u64::MAX), int(i32::MIN as i64)])
            }
        },
        1 => {
            let mut l = v.into_list_streaming()?;
            let mut w = Vec::new();
            while p.left > 0 && p.pick(2) == 1 {
                w.push(either(l.push()?, p)?)
            }
            l.close()?;
            Want::Arr(w)
        }
        2 => {
            let n = p.pick(p.left.min(3) + 1);
            let mut l = v.into_list_sized(n)?;
            let mut w = Vec::new();
            for i in 0..n {
                let keep = n - 1 - i;
                p.left -= keep;
                w.push(either(l.push()?, p)?);
                p.left += keep;
            }
            l.close()?;
            Want::Arr(w)
        }
        3 => {
            let mut l = v.into_tuple(Some("T"))?;
            let mut w = Vec::new();
            while p.left > 0 && p.pick(2) == 1 {
                w.push(either(l.element()?, p)?)
            }
            l.close()?;
            Want::Arr(w)
        }
        4 => {
            let mut l = v.into_struct(None)?;
            let mut w = Vec::new();
            while p.left > 0 && p.pick(2) == 1 {
                let f = FIELDS[3 - w.len() % 4];
                w.push((chars(f), either(l.field(f)?, p)?))
            }
            l.close()?;
            Want::Obj(w)
        }
        5 => {
            let mut l = v.into_object()?;
            let mut w = Vec::new();
            while p.left > 0 && p.pick(2) == 1 {
                let k = p.text();
                let e = l.entry(&k)?;
                w.push((chars(&k), either(e, p)?))
            }
            l.close()?;
            Want::Obj(w)
        }
        6 => {
            let a = p.text();
            let b = p.pick(2) == 1;
            let x = p.range(0, 9);
            let c = p.range(0, 1) == 1;
            v.put(&Outer { a: a.clone(), inner: Inner { b: if b { Some(x as u8) } else { None }, c } })?;
            Want::Obj(vec![
                (chars("a"), Want::Str(chars(&a))),
                (chars("b"), if b { Want::Int(false, x) } else { Want::Null }),
                (chars("c d"), Want::Bool(c)),
            ])
        }
        _ => {
            let mut st = v.into_struct(None)?;
            let c = p.range(0, 1) == 1;
            let a = p.text();
            st.field("x")?.put_str(&a)?;
            st.inline_put(&Inner { b: None, c })?;
            st.close()?;
            Want::Obj(vec![(chars("x"), Want::Str(chars(&a))), (chars("b"), Want::Null), (chars("c d"), Want::Bool(c))])
        }
    })
}
fn either<S: JsonSerializer>(v: Value<S>, p: &mut Plan) -> Result<Want, S::Error> {
    if p.rich > 0 && p.pick(2) == 1 {
        let (s, done) = v.into_raw();
        let w = raw(s, p)?;
        *done = true;
        Ok(w)
    } else {
        wrapped(v, p)
    }
}
/// A document without the whitespace between its tokens.
pub fn stripped(t: &[u8]) -> Vec<u8> {
    let (mut out, mut text, mut escaped) = (Vec::new(), false, false);
    for &c in t {
        if text {
            out.push(c);
            if escaped {
                escaped = false
            } else if c == b'\\' {
                escaped = true
            } else if c == b'"' {
                text = false
            }
        } else if !(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r') {
            out.push(c);
            text = c == b'"';
        }
    }
    out
}
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        ok &= a[i] == b[i];
    }
    ok
}
