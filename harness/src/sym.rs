//! The interface between the harnesses and the symbolic executor (or the native replayer).
//! Every function below is an "intrinsic": /verif/engine gives it its symbolic meaning, and
//! `bin/replay.rs` its concrete one (reading recorded values).

mod raw {
    extern "C-unwind" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_range(lo: u64, hi: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_fail(p: *const u8, n: usize);
        pub fn sym_check(c: bool, p: *const u8, n: usize);
        pub fn sym_cover(id: u32);
        pub fn sym_observe(x: u64);
        pub fn sym_known(id: u32);
        pub fn sym_expect_panic(mode: u32);
        pub fn sym_end();
        pub fn sym_param(i: u32) -> u64;
        pub fn sym_concretize(x: u64) -> u64;
        pub fn sym_stack() -> u64;
        pub fn sym_contracts(on: bool);
        pub fn sym_decimal(ty: u64, high: u64, low: u64, digits: u64, exponent: i64, size: i64) -> u64;
        pub fn sym_sample(x: u64) -> u64;
    }
}

/// An arbitrary byte.
pub fn u8() -> u8 {
    unsafe { raw::sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { raw::sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { raw::sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { raw::sym_u64() }
}
/// An arbitrary value in `lo..=hi`.
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { raw::sym_range(lo, hi) }
}
/// Restricts attention to executions in which `c` holds.
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
/// Reports a violation.
pub fn fail(msg: &str) -> ! {
    unsafe { raw::sym_fail(msg.as_ptr(), msg.len()) }
    loop {
        end()
    }
}
/// Asserts that `c` holds on every execution.
#[inline(never)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { raw::sym_check(c, msg.as_ptr(), msg.len()) }
}
/// Marks a situation that has to be reachable for the check to mean anything.
pub fn cover(id: u32) {
    unsafe { raw::sym_cover(id) }
}
/// Records a value which the native run must reproduce.
pub fn observe(x: u64) {
    unsafe { raw::sym_observe(x) }
}
pub fn observe_bytes(x: &[u8]) {
    observe(x.len() as u64);
    for b in x {
        observe(*b as u64);
    }
}
/// Ends the execution: it runs into a listed known finding.
pub fn known(id: u32) -> ! {
    unsafe { raw::sym_known(id) }
    loop {
        end()
    }
}
/// From here on a panic is the required outcome (true) or a violation (false).
pub fn expect_panic(on: bool) {
    unsafe { raw::sym_expect_panic(on as u32) }
}
/// From here on a panic is a listed known finding.
pub fn known_panic(id: u32) {
    unsafe { raw::sym_expect_panic(2 + id) }
}
/// Ends the execution normally.
pub fn end() {
    unsafe { raw::sym_end() }
}
/// The i-th configuration parameter (a concrete bound).
pub fn param(i: u32) -> usize {
    unsafe { raw::sym_param(i) as usize }
}
/// Splits into one execution per possible value.
pub fn concretize(x: u64) -> u64 {
    unsafe { raw::sym_concretize(x) }
}
/// How much of the stack is in use (in bytes; 64 for each call in a symbolic execution).
#[inline(never)]
pub fn stack() -> u64 {
    unsafe { raw::sym_stack() }
}
/// Whether floating-point conversions of the dependencies are executed by their contracts (only in
/// a symbolic execution).
pub fn contracts(on: bool) {
    unsafe { raw::sym_contracts(on) }
}
/// The floating-point number (of 32 or 64 bits) nearest to (high * 10^digits + low) * 10^exponent,
/// where low has the given number of digits, and the number is at least 10^(size-1) and less than
/// 10^size.
pub fn decimal(ty: u64, high: u64, low: u64, digits: u64, exponent: i64, size: i64) -> u64 {
    unsafe { raw::sym_decimal(ty, high, low, digits, exponent, size) }
}
/// One of the possible values (the symbolic execution is then incomplete).
pub fn sample(x: u64) -> u64 {
    unsafe { raw::sym_sample(x) }
}
/// An arbitrary concrete choice in 0..n (one execution for each).
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    concretize(range(0, n as u64 - 1)) as usize
}
pub fn flag() -> bool {
    range(0, 1) == 1
}
/// An arbitrary member of the given set of bytes.
pub fn pick(alphabet: &'static [u8]) -> u8 {
    alphabet[range(0, alphabet.len() as u64 - 1) as usize]
}
/// An arbitrary Unicode scalar value (split by the length and ranges of its UTF-8 encoding, the
/// bits of each byte stay symbolic).
pub fn scalar() -> char {
    let b = |lo, hi| range(lo, hi) as u32;
    let x = match choose(9) {
        0 => b(0, 127),
        1 => b(2, 31) << 6 | b(0, 63),
        2 => b(32, 63) << 6 | b(0, 63),
        3 => b(1, 12) << 12 | b(0, 63) << 6 | b(0, 63),
        4 => 13 << 12 | b(0, 31) << 6 | b(0, 63),
        5 => b(14, 15) << 12 | b(0, 63) << 6 | b(0, 63),
        6 => b(16, 63) << 12 | b(0, 63) << 6 | b(0, 63),
        7 => b(1, 3) << 18 | b(0, 63) << 12 | b(0, 63) << 6 | b(0, 63),
        _ => 4 << 18 | b(0, 15) << 12 | b(0, 63) << 6 | b(0, 63),
    };
    char::from_u32(x).unwrap()
}
/// An ASCII byte.
pub fn ascii() -> u8 {
    range(0, 127) as u8
}
pub fn ascii_string(n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| ascii()).collect();
    ascii_text(v)
}
/// A string of exactly `n` members of an (ASCII) alphabet.
pub fn text_of(alphabet: &'static [u8], n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| pick(alphabet)).collect();
    ascii_text(v)
}
/// Converts bytes known to be ASCII.
pub fn ascii_text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
