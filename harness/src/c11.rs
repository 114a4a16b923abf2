//! C11: name tables find exactly the names they contain.
use crate::sym::*;
use serdere::{FixedNameMap, NameMap};

fn leak(v: Vec<u8>) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(Box::leak(v.into_boxed_slice())) }
}
/// A name of at most `max` characters.
fn name(max: usize, exact: bool, wide: bool) -> Vec<u8> {
    let n = if exact { max } else { choose(max + 1) };
    let mut v = Vec::new();
    for _ in 0..n {
        if wide && choose(2) == 1 {
            v.push(range(0xC2, 0xDF) as u8);
            v.push(range(0x80, 0xBF) as u8);
        } else {
            v.push(ascii())
        }
    }
    v
}
/// Equality, as one condition.
fn equal(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        ok &= a[i] == b[i];
    }
    ok
}
/// Looks a name up in one of the possible ways: 0 as a whole, 1 by characters, 2 in arbitrary pieces.
fn find<'a>(map: &'a NameMap<u64>, q: &[u8], how: usize) -> Option<&'a u64> {
    let text = unsafe { std::str::from_utf8_unchecked(q) };
    match how {
        0 => map.get(text),
        1 => {
            let mut l = map.lookup();
            for c in text.chars() {
                l.write_char(c)
            }
            l.result()
        }
        _ => {
            let mut l = map.lookup();
            let mut at = 0;
            while at < q.len() {
                let n = 1 + choose(q.len() - at);
                l.write_bytes(&q[at..at + n]);
                at += n;
                if choose(2) == 1 {
                    l.write_str("");
                }
            }
            l.result()
        }
    }
}
fn decide(got: Option<&u64>, names: &[&'static str], q: &[u8]) {
    match got {
        Some(&v) => {
            cover(1);
            let v = concretize(v) as usize;
            if v >= names.len() {
                fail("a value of the table is delivered")
            }
            check(equal(names[v].as_bytes(), q), "the value delivered is that of the name looked up");
            observe(v as u64);
        }
        None => {
            cover(2);
            for n in names {
                check(!equal(n.as_bytes(), q), "every name of the table is found")
            }
        }
    }
}
fn table<const N: usize>(len: usize, exact: bool, wide: bool, how: usize) {
    let names: [&'static str; N] = std::array::from_fn(|_| leak(name(len, exact, wide)));
    for i in 0..N {
        for j in 0..i {
            assume(!equal(names[i].as_bytes(), names[j].as_bytes()));
        }
    }
    let fixed: FixedNameMap<u64, N> = FixedNameMap::new(std::array::from_fn(|i| (names[i], i as u64)));
    let map: &NameMap<u64> = fixed.unfix();
    check(map.size() == N, "the size is the number of entries");
    if param(5) == 0 {
        let q = name(len + 1, false, wide);
        decide(find(map, &q, how), &names, &q);
    } else {
        // every name is found, and listed once
        let mut seen = [false; N];
        for (n, v) in map.entries() {
            let v = concretize(*v) as usize;
            check(!seen[v], "every entry is listed once");
            seen[v] = true;
            check(n.as_ptr() == names[v].as_ptr() && n.len() == names[v].len(), "entries are listed with their own names");
            match find(map, n.as_bytes(), how) {
                Some(w) => check(*w == v as u64, "the value delivered is that of the name looked up"),
                None => fail("every name of the table is found"),
            }
        }
        for s in seen {
            check(s, "every entry is listed")
        }
        cover(1);
    }
}
const WORDS: [&str; 11] = ["pot", "boy", "rice", "film", "taxi", "debt", "fat", "firm", "run", "bat", "fi"];
const PREFIXES: [&str; 9] = ["", "a", "aa", "aab", "aaa", "ab", "b", "aaaa", "\0"];
const LETTERS: [&str; 8] = ["\u{e9}", "e", "\u{e9}a", "\u{20ac}", "\u{10ffff}", "\u{10fffe}", "\u{ea}", "z"];
fn big<const N: usize>(names: [&'static str; N], n: usize, how: usize) {
    // (in any order which swaps and rotates)
    let mut order: [usize; N] = std::array::from_fn(|i| i);
    order.rotate_left(choose(N));
    let (i, j) = (choose(N), choose(N));
    order.swap(i, j);
    let fixed: FixedNameMap<u64, N> = FixedNameMap::new(std::array::from_fn(|i| (names[order[i]], order[i] as u64)));
    let map: &NameMap<u64> = fixed.unfix();
    let len = choose(n + 1);
    let mut q = Vec::new();
    for _ in 0..len {
        if param(3) == 1 {
            let mut b = [0; 4];
            q.extend_from_slice(scalar().encode_utf8(&mut b).as_bytes())
        } else {
            q.push(ascii())
        }
    }
    decide(find(map, &q, how), &names, &q);
}

/// Names n0 .. n299 (and a few others), each with its number.
fn many<const N: usize>(n: usize, how: usize) {
    let names: [&'static str; N] = std::array::from_fn(|i| {
        let mut t = vec![b'n'];
        crate::docs::number(&mut t, i * 37 % N);
        leak(t)
    });
    let turn = crate::docs::place_in(N);
    let fixed: FixedNameMap<u64, N> = FixedNameMap::new(std::array::from_fn(|i| (names[(i + turn) % N], ((i + turn) % N * 37 % N) as u64)));
    let map: &NameMap<u64> = fixed.unfix();
    check(map.size() == N, "the size is the number of entries");
    let mut q = [&b"n"[..], b"n1", b"n2", b""][choose(4)].to_vec();
    for _ in 0..choose(n + 1) {
        q.push(ascii())
    }
    let k = q.len();
    // (which number the name is)
    let mut want = None;
    if k >= 2 && k <= 4 && concretize((q[0] == b'n') as u64) == 1 && q[1..].iter().all(|c| concretize((*c >= 48 && *c <= 57) as u64) == 1) {
        let mut i = 0u64;
        for c in &q[1..] {
            i = i * 10 + *c as u64 - 48
        }
        if (k == 2 || concretize((q[1] != 48) as u64) == 1) && concretize((i < N as u64) as u64) == 1 {
            want = Some(i)
        }
    }
    match (find(map, &q, how), want) {
        (Some(v), Some(w)) => {
            cover(1);
            check(*v == w, "the value delivered is that of the name looked up");
        }
        (None, None) => cover(2),
        (Some(_), None) => fail("only names of the table are found"),
        (None, Some(_)) => fail("every name of the table is found"),
    }
}
/// Names of one length which differ at the start and at `k`, and queries of about that length.
fn long<const N: usize>(len: usize, k: usize, how: usize) {
    let text = |n: usize| {
        let mut t = vec![b'm'; n];
        if n > 0 {
            t[0] = range(b'l' as u64, b'n' as u64) as u8
        }
        if n > k {
            t[k] = ascii()
        }
        t
    };
    let names: [&'static str; N] = std::array::from_fn(|_| leak(text(len)));
    for i in 0..N {
        for j in 0..i {
            assume(names[i].as_bytes()[0] != names[j].as_bytes()[0] || names[i].as_bytes()[k] != names[j].as_bytes()[k]);
        }
    }
    let fixed: FixedNameMap<u64, N> = FixedNameMap::new(std::array::from_fn(|i| (names[i], i as u64)));
    let map: &NameMap<u64> = fixed.unfix();
    let q = text([len, len - 1, len + 1, len % 256, k, 0][choose(6)]);
    let got = match how {
        0 | 1 => find(map, &q, how),
        _ => {
            let at = [1, k, k + 1, len - 1][choose(4)].min(q.len());
            let mut l = map.lookup();
            l.write_bytes(&q[..at]);
            l.write_bytes(&q[at..]);
            l.result()
        }
    };
    decide(got, &names, &q)
}
entries! {
    // the length of the names, where they differ, how to look up, how many
    h_c11_long => {
        match param(3) {
            2 => long::<2>(param(0), param(1), param(2)),
            3 => long::<3>(param(0), param(1), param(2)),
            _ => long::<4>(param(0), param(1), param(2)),
        }
    },
    // number of names, their length, exactly that length, two-byte characters, how to look up, whether to look up the names themselves
    h_c11_table => {
        let (len, exact, wide, how) = (param(1), param(2) == 1, param(3) == 1, param(4));
        match param(0) {
            0 => table::<0>(len, exact, wide, how),
            1 => table::<1>(len, exact, wide, how),
            2 => table::<2>(len, exact, wide, how),
            3 => table::<3>(len, exact, wide, how),
            4 => table::<4>(len, exact, wide, how),
            5 => table::<5>(len, exact, wide, how),
            6 => table::<6>(len, exact, wide, how),
            7 => table::<7>(len, exact, wide, how),
            _ => table::<8>(len, exact, wide, how),
        }
    },
    // which names, length of the name looked up, how to look up, arbitrary characters
    h_c11_big => {
        match param(0) {
            0 => big(WORDS, param(1), param(2)),
            1 => big(PREFIXES, param(1), param(2)),
            _ => big(LETTERS, param(1), param(2)),
        }
    },
    // number of names (40 or 300), length of the end of the name looked up, how to look up
    h_c11_many => {
        if param(0) == 40 { many::<40>(param(1), param(2)) } else { many::<300>(param(1), param(2)) }
    },
}
