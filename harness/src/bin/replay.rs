//! Runs harness entries natively on recorded values. Reads lines
//!   ENTRY|PARAMS,..|VALUES ..
//! from stdin and answers each with
//!   OUTCOME|OBSERVED ..|MESSAGE
//! Every line is run in a process of its own, so that a crash or a hang is an outcome.
use std::cell::UnsafeCell;
use std::io::{BufRead, Read, Write};

struct G(UnsafeCell<State>);
unsafe impl Sync for G {}
struct State {
    params: Vec<u64>,
    vals: Vec<u64>,
    at: usize,
    obs: Vec<u64>,
    expect: u32,
    fd: i32,
}
static S: G = G(UnsafeCell::new(State { params: vec![], vals: vec![], at: 0, obs: vec![], expect: 0, fd: -1 }));
fn s() -> &'static mut State {
    unsafe { &mut *S.0.get() }
}
extern "C" {
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn close(f: i32) -> i32;
    fn write(f: i32, p: *const u8, n: usize) -> isize;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
}
fn finish(outcome: &str, msg: &str) -> ! {
    let st = s();
    let obs: Vec<String> = st.obs.iter().map(|x| x.to_string()).collect();
    let line = format!("{}|{}|{}", outcome, obs.join(" "), msg.replace('\n', " ").replace('|', "/"));
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { write(st.fd, b[i..].as_ptr(), b.len() - i) };
        if n <= 0 {
            break;
        }
        i += n as usize;
    }
    unsafe { _exit(0) }
}
fn next() -> u64 {
    let st = s();
    if st.at >= st.vals.len() {
        finish("starved", "");
    }
    st.at += 1;
    st.vals[st.at - 1]
}
#[no_mangle]
extern "C-unwind" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C-unwind" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C-unwind" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C-unwind" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C-unwind" fn sym_range(lo: u64, hi: u64) -> u64 {
    let v = next();
    if v < lo || v > hi {
        finish("starved", "value out of range");
    }
    v
}
#[no_mangle]
extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        finish("assume", "")
    }
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_fail(p: *const u8, n: usize) {
    finish("violation", &text(p, n))
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        finish("violation", &text(p, n))
    }
}
#[no_mangle]
extern "C-unwind" fn sym_cover(_: u32) {}
#[no_mangle]
extern "C-unwind" fn sym_observe(x: u64) {
    s().obs.push(x)
}
#[no_mangle]
extern "C-unwind" fn sym_known(id: u32) {
    finish(&format!("known{}", id), "")
}
#[no_mangle]
extern "C-unwind" fn sym_expect_panic(m: u32) {
    s().expect = m
}
#[no_mangle]
extern "C-unwind" fn sym_end() {
    finish("end", "")
}
#[no_mangle]
extern "C-unwind" fn sym_param(i: u32) -> u64 {
    s().params[i as usize]
}
#[no_mangle]
extern "C-unwind" fn sym_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C-unwind" fn sym_contracts(_: bool) {}
#[no_mangle]
extern "C-unwind" fn sym_decimal(_: u64, _: u64, _: u64, _: u64, _: i64, _: i64) -> u64 {
    unreachable!()
}
#[no_mangle]
extern "C-unwind" fn sym_sample(x: u64) -> u64 {
    x
}
#[no_mangle]
#[inline(never)]
extern "C-unwind" fn sym_stack() -> u64 {
    // (the stack grows downwards)
    let x = 0u8;
    u64::MAX / 2 - (std::hint::black_box(&x) as *const u8 as u64)
}

fn main() {
    let limit: u32 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(20);
    let table = harness::table();
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        let outcome = match s().expect {
            0 => "violation".to_string(),
            1 => "panic".to_string(),
            k => format!("known{}", k - 2),
        };
        finish(&outcome, &format!("panic: {}", m))
    }));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split('|');
        let entry = it.next().unwrap().to_string();
        let nums = |x: &str, c: char| -> Vec<u64> { x.split(c).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
        let params = nums(it.next().unwrap(), ',');
        let vals = nums(it.next().unwrap(), ' ');
        let f = table.iter().find(|e| e.0 == entry).expect("entry").1;
        let mut fds = [0i32; 2];
        unsafe { pipe(fds.as_mut_ptr()) };
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                close(fds[0]);
                alarm(limit);
            }
            let st = s();
            st.params = params;
            st.vals = vals;
            st.fd = fds[1];
            f();
            finish("end", "");
        }
        unsafe { close(fds[1]) };
        let mut res = String::new();
        use std::os::fd::FromRawFd;
        unsafe { std::fs::File::from_raw_fd(fds[0]) }.read_to_string(&mut res).unwrap();
        let mut st = 0i32;
        unsafe { waitpid(pid, &mut st, 0) };
        let sig = st & 0x7f;
        if sig == 14 {
            res = "violation||hang".into();
        } else if sig != 0 {
            res = format!("violation||crash: signal {}", sig);
        }
        writeln!(out.lock(), "{}", res).unwrap();
        out.lock().flush().unwrap();
    }
}
