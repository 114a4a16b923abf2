//! C08: the serializer always produces well-formed JSON.
use crate::json::parse;
use crate::sym::*;
use crate::writes::*;
use serdere::{Outliner, Serializer, Value};
use serdere_json::*;

fn written(p: &mut Plan, indent: Option<&'static str>, wrap: bool) -> (String, Want) {
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, String::new());
    let mut w = None;
    if wrap {
        let _ = Value::with(&mut s, |v| {
            w = Some(wrapped(v, p)?);
            Ok(())
        });
    } else {
        w = raw(&mut s, p).ok();
    }
    match w {
        Some(w) => (s.close(), w),
        None => fail("writing to a string succeeds"),
    }
}
const INDENTS: [Option<&str>; 4] = [None, Some("\t"), Some("  "), Some("")];

entries! {
    // values, kinds of values, length of texts, wrappers first
    h_c08_write => {
        let mut p = Plan::new(param(0), param(1), param(2));
        let (text, want) = written(&mut p, None, param(3) == 1);
        let tree = match parse(text.as_bytes()) {
            Some(t) => t,
            None => fail("the output is well-formed JSON"),
        };
        check(want.is(&tree), "the output denotes what was written");
        check(!text.contains('\n'), "the compact layout has no line breaks");
        cover(1);
        if matches!(want, Want::Arr(_)) { cover(2) }
        if matches!(want, Want::Obj(_)) { cover(3) }
        observe_bytes(text.as_bytes());
        let short = stripped(text.as_bytes());
        for i in 1..4 {
            p.again();
            let (other, _) = written(&mut p, INDENTS[i], param(3) == 1);
            check(same_bytes(&stripped(other.as_bytes()), &short), "layouts differ only in whitespace between tokens");
            if parse(other.as_bytes()).is_none() { fail("the indented output is well-formed JSON") }
        }
    },
    // floating-point numbers that are not finite
    h_c08_nonfinite => {
        let x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][choose(3)];
        let mut s = TextSerializer::new(TextSerializerConfig { indent: None }, String::new());
        let _ = if choose(2) == 0 { s.put_f64(x) } else { s.put_f32(x as f32) };
        let text = s.close();
        observe_bytes(text.as_bytes());
        // (what such a number denotes is open, but it has to denote something)
        if parse(text.as_bytes()).is_none() { known(2) }
    },
    // one value after another within deeply nested lists and objects: depth, indent
    h_c08_deep => {
        let depth = param(0);
        let indent = INDENTS[param(1)];
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, String::new());
        let mut kinds = Vec::new();
        let mut after = Vec::new();
        for i in 0..depth {
            // (arbitrary at both ends, alternating between)
            let k = if i < 2 || i + 2 >= depth { choose(3) } else { i % 3 };
            kinds.push(k);
            after.push(if i < 1 || i + 1 >= depth { choose(2) } else { i / 3 % 2 });
            let r = match k {
                0 => s.open_list_streaming().and_then(|_| s.push_item()),
                1 => s.open_object().and_then(|_| s.push_entry("k")),
                _ => s.open_tuple(None).and_then(|_| s.push_element()),
            };
            if r.is_err() { fail("writing to a string succeeds") }
        }
        let x = range(0, 255) as u8;
        let _ = s.put_u8(x);
        let mut want = Want::Int(false, x as u64);
        let key = |c: u32| vec![c];
        for i in (0..depth).rev() {
            let more = after[i] == 1;
            want = match kinds[i] {
                0 => {
                    let mut v = vec![want];
                    if more {
                        let _ = s.push_item();
                        let _ = s.pop_null();
                        v.push(Want::Null)
                    }
                    let _ = s.close_list();
                    Want::Arr(v)
                }
                1 => {
                    let mut v = vec![(key('k' as u32), want)];
                    if more {
                        let _ = s.push_entry("l");
                        let _ = s.put_bool(true);
                        v.push((key('l' as u32), Want::Bool(true)))
                    }
                    let _ = s.close_object();
                    Want::Obj(v)
                }
                _ => {
                    let mut v = vec![want];
                    if more {
                        let _ = s.push_element();
                        let _ = s.open_object();
                        let _ = s.close_object();
                        v.push(Want::Obj(Vec::new()))
                    }
                    let _ = s.close_tuple();
                    Want::Arr(v)
                }
            };
        }
        let text = s.close();
        match parse(text.as_bytes()) {
            Some(t) => check(want.is(&t), "the output denotes what was written"),
            None => fail("the output is well-formed JSON"),
        }
        cover(1);
        observe(text.len() as u64);
    },
    // many items, elements and entries: how many, layout
    h_c08_wide => {
        let n = param(0);
        let at = crate::docs::place_in(n);
        let indent = [None, Some("\t"), Some("  ")][param(1)];
        let kind = choose(3);
        let c = scalar();
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, String::new());
        let mut list = Vec::new();
        let mut object = Vec::new();
        let ok = (|| -> Result<(), std::convert::Infallible> {
            match kind {
                0 if choose(2) == 0 => s.open_list_streaming()?,
                0 => s.open_list_sized(n)?,
                1 => s.open_tuple(None)?,
                _ => s.open_object()?,
            }
            for i in 0..n {
                let mut key = String::from("k");
                match kind {
                    0 => s.push_item()?,
                    1 => s.push_element()?,
                    _ => {
                        let mut d = Vec::new();
                        crate::docs::number(&mut d, i);
                        key.push_str(&ascii_text(d));
                        if i == at { key.push(c) }
                        s.push_entry(&key)?
                    }
                }
                let want = if i == at {
                    s.put_char(c)?;
                    Want::Str(vec![c as u32])
                } else if i % 16 == 5 {
                    s.open_list_sized(0)?;
                    s.close_list()?;
                    Want::Arr(Vec::new())
                } else {
                    s.put_u16(i as u16)?;
                    Want::Int(false, i as u64)
                };
                if kind == 2 { object.push((key.chars().map(|c| c as u32).collect(), want)) } else { list.push(want) }
            }
            match kind {
                0 => s.close_list(),
                1 => s.close_tuple(),
                _ => s.close_object(),
            }
        })();
        if ok.is_err() { fail("writing to a string succeeds") }
        let want = if kind == 2 { Want::Obj(object) } else { Want::Arr(list) };
        let text = s.close();
        match parse(text.as_bytes()) {
            Some(t) => check(want.is(&t), "the output denotes what was written"),
            None => fail("the output is well-formed JSON"),
        }
        cover(1);
        observe(text.len() as u64);
    },
}
