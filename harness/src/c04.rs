//! C04: the parser accepts exactly the JSON grammar.
use crate::docs::*;
use crate::json;
use crate::model::*;
use crate::sym::*;
use serdere::{Deserialize, Utf8Reader};
use serdere_json::*;

fn judge<T: Denote, P>(got: Result<T, DeserializeError<P>>, text: impl json::Source) {
    let want = json::parse_with(text, false);
    let want = match &want {
        Some(t) => T::of(t),
        None => None,
    };
    match (got, want) {
        (Ok(g), Some(w)) => {
            cover(1);
            check(g.same(&w), "the value delivered is the one the document denotes");
            g.observe();
        }
        (Err(_), None) => {
            cover(2);
            observe(77);
        }
        (Ok(_), None) => fail("a document that is not of the form asked for is rejected"),
        (Err(_), Some(_)) => fail("a well-formed document of the form asked for is accepted"),
    }
}
fn stream<T: Denote + for<'a> Deserialize<TextDeserializer<Utf8Reader<FeedReader<'a>>>>>() {
    let f = feed();
    judge(from_reader::<_, T>(f.reader()), &f);
}
fn string<T: Denote + for<'a> Deserialize<TextDeserializer<&'a str>>>() {
    let f = feed();
    // all of it at once
    let mut n = 0;
    while f.at(n).is_some() {
        n += 1;
    }
    let t = ascii_text(f.text.borrow().clone());
    judge(from_str::<T>(&t), &f);
}
/// The value of the entry "x", read ahead.
fn ahead<T: Denote + for<'a> Deserialize<TextDeserializer<Utf8Reader<FeedReader<'a>>>>>() {
    let f = around("{\"x\":", "}");
    let got = run_at::<T>(&f, 2);
    let want = match json::parse_with(&f, false) {
        Some(json::Tree::Obj(es)) => {
            let mut w = None;
            for (i, (k, v)) in es.iter().enumerate() {
                for j in 0..i { assume(!same_text(&es[j].0, k)) }
                if is_key(k, "x") { w = T::of(v) }
            }
            w
        }
        _ => None,
    };
    match (got, want) {
        (Some(g), Some(w)) => {
            cover(1);
            check(g.same(&w), "the value delivered is the one the document denotes");
            g.observe();
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("a document that is not of the form asked for is rejected"),
        (None, Some(_)) => fail("a well-formed document of the form asked for is accepted"),
    }
}
entries! {
    // type, what the document is made of, number of parts, how it starts; read from a stream
    h_c04_stream => { types!(stream, param(0)) },
    // the same, read from a string
    h_c04_string => { types!(string, param(0)) },
    // the same, read ahead
    h_c04_ahead => { types!(ahead, param(0)) },
}
