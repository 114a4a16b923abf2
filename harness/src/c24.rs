//! C24: the indented layout shows the structure.
use crate::json::parse;
use crate::sym::*;
use crate::writes::*;
use serdere::{Outliner, Serialize, Serializer, Value};
use serdere_json::*;

const INDENTS: [Option<&str>; 5] = [None, Some("\t"), Some("  "), Some(""), Some(" \t ")];

/// The tokens of a document, laid out.
fn laid_out(tokens: &[u8], indent: &str) -> Vec<u8> {
    let mut to = Vec::new();
    let mut depth = 0;
    let mut i = 0;
    let line = |to: &mut Vec<u8>, depth: usize| {
        to.push(b'\n');
        for _ in 0..depth {
            to.extend_from_slice(indent.as_bytes())
        }
    };
    while i < tokens.len() {
        let b = tokens[i];
        i += 1;
        match b {
            b'"' => {
                to.push(b);
                while tokens[i] != b'"' {
                    if tokens[i] == b'\\' {
                        to.push(tokens[i]);
                        i += 1;
                    }
                    to.push(tokens[i]);
                    i += 1;
                }
                to.push(b'"');
                i += 1;
            }
            b'[' | b'{' => {
                to.push(b);
                if tokens[i] == b']' || tokens[i] == b'}' {
                    to.push(tokens[i]);
                    i += 1;
                } else {
                    depth += 1;
                    line(&mut to, depth);
                }
            }
            b']' | b'}' => {
                depth -= 1;
                line(&mut to, depth);
                to.push(b);
            }
            b',' => {
                to.push(b);
                line(&mut to, depth);
            }
            b':' => to.extend_from_slice(b": "),
            _ => to.push(b),
        }
    }
    to
}
fn check_layout(text: &str, indent: Option<&str>) {
    if parse(text.as_bytes()).is_none() {
        fail("the output is well-formed JSON")
    }
    match indent {
        None => {
            for &b in text.as_bytes() {
                check(b != b'\n' && b != b'\r' && b != b'\t', "without indentation, there are no line breaks")
            }
        }
        Some(indent) => {
            let want = laid_out(&stripped(text.as_bytes()), indent);
            check(same_bytes(text.as_bytes(), &want), "every item, entry and closing bracket is on its line, indented by its depth")
        }
    }
}
fn config(i: usize) -> TextSerializerConfig {
    TextSerializerConfig { indent: INDENTS[i] }
}
#[derive(Serialize)]
enum Variants {
    Unit,
    Other { list: Vec<bool>, text: String },
    #[serde(transparent)]
    Bare { x: Flat },
}
#[derive(Serialize)]
struct Shown {
    list: Vec<Variants>,
    nothing: (),
    empty: [u8; 0],
    #[serde(flatten)]
    flat: Flat,
}
#[derive(Serialize)]
struct Flat {
    pair: (Option<bool>, [u8; 2]),
}

entries! {
    // values, kinds of values, length of texts, wrappers first, layout
    h_c24_writes => {
        let mut p = Plan::new(param(0), param(1), param(2));
        let i = param(4);
        let mut s = TextSerializer::new(config(i), String::new());
        let ok = if param(3) == 1 {
            Value::with(&mut s, |v| wrapped(v, &mut p).map(|_| ())).is_ok()
        } else {
            raw(&mut s, &mut p).is_ok()
        };
        check(ok, "writing to a string succeeds");
        let text = s.close();
        observe_bytes(text.as_bytes());
        check_layout(&text, INDENTS[i]);
        cover(1);
    },
    // lists, objects and tuples within each other: depth, layout
    h_c24_deep => {
        let (depth, i) = (param(0), param(1));
        let mut s = TextSerializer::new(config(i), String::new());
        let at = choose(3);
        let kind = choose(3);
        let kinds: Vec<usize> = (0..depth).map(|k| if k == [0, depth / 2, depth - 1][at] { kind } else { k % 3 }).collect();
        let more = choose(2) == 1;
        let ok = (|| -> Result<(), std::convert::Infallible> {
            for k in &kinds {
                match k {
                    0 => s.open_list_streaming().and_then(|_| s.push_item())?,
                    1 => s.open_object().and_then(|_| s.push_entry("k"))?,
                    _ => s.open_tuple(None).and_then(|_| s.push_element())?,
                }
            }
            s.put_u8(range(0, 9) as u8)?;
            for k in kinds.iter().rev() {
                match k {
                    0 => {
                        if more { s.push_item().and_then(|_| s.put_bool(true))? }
                        s.close_list()?
                    }
                    1 => {
                        if more { s.push_entry("l").and_then(|_| s.put_bool(false))? }
                        s.close_object()?
                    }
                    _ => {
                        if more { s.push_element().and_then(|_| s.pop_null())? }
                        s.close_tuple()?
                    }
                }
            }
            Ok(())
        })();
        check(ok.is_ok(), "writing to a string succeeds");
        let text = s.close();
        check_layout(&text, INDENTS[i]);
        observe(text.len() as u64);
        cover(1);
    },
    // many items: how many, layout
    h_c24_wide => {
        let (n, i) = (param(0), param(1));
        let x = (vec![range(0, 9) as u8; n], vec![(); n / 4], vec![scalar(); 3]);
        let mut s = TextSerializer::new(config(i), String::new());
        let ok = match choose(2) {
            0 => Value::with(&mut s, |v| v.put(&x)).is_ok(),
            _ => Value::with(&mut s, |v| {
                let mut o = v.into_object()?;
                let at = choose(n);
                for k in 0..n {
                    let mut name = vec![b'k'];
                    crate::docs::number(&mut name, k);
                    let name = std::str::from_utf8(&name).unwrap_or_else(|_| fail("unreachable"));
                    let e = o.entry(name)?;
                    if k == at { e.put(&[true, false])? } else { e.put_bool(true)? }
                }
                o.close()
            }).is_ok(),
        };
        check(ok, "writing to a string succeeds");
        let text = s.close();
        check_layout(&text, INDENTS[i]);
        observe(text.len() as u64);
        cover(1);
    },
    // items, layout: derived values
    h_c24_derived => {
        let i = param(1);
        let list = (0..choose(param(0) + 1)).map(|_| match choose(4) {
            0 => Variants::Unit,
            1 => Variants::Other { list: if choose(2) == 0 { Vec::new() } else { vec![flag()] }, text: String::from(scalar()) },
            2 => Variants::Bare { x: Flat { pair: (None, [range(0, 9) as u8; 2]) } },
            _ => Variants::Other { list: vec![true, false], text: String::new() },
        }).collect();
        let x = Shown { list, nothing: (), empty: [], flat: Flat { pair: ([None, Some(true)][choose(2)], [1, 2]) } };
        let text = if i == 5 {
            // (the default is the compact layout)
            to_str(&x)
        } else {
            let mut s = TextSerializer::new(config(i), String::new());
            check(Value::with(&mut s, |v| v.put(&x)).is_ok(), "writing to a string succeeds");
            s.close()
        };
        observe_bytes(text.as_bytes());
        check_layout(&text, if i == 5 { None } else { INDENTS[i] });
        cover(1);
    },
}
