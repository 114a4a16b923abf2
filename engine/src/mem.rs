//! Symbolic memory: object-based, copy-on-write, with redzones.
use crate::expr::Ex;
use std::collections::HashMap;
use std::rc::Rc;

pub const KIND_GLOBAL: u64 = 1;
pub const KIND_HEAP: u64 = 2;
pub const KIND_STACK: u64 = 3;
pub const KIND_FUNC: u64 = 4;
pub const BASE: u64 = 0x1000;
const NOSYM: u32 = u32::MAX;

pub fn addr(kind: u64, id: u32) -> u64 {
    kind << 56 | (id as u64) << 28 | BASE
}
/// (kind, id, offset) of an address.
pub fn split(a: u64) -> (u64, u32, i64) {
    (a >> 56, (a >> 28 & 0xfff_ffff) as u32, (a & 0xfff_ffff) as i64 - BASE as i64)
}

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Option<Vec<(u32, u8)>>,
    pub ro: bool,
    pub align: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    C(u8),
    S(Ex, u8),
}

impl Obj {
    pub fn new(size: usize, align: u32) -> Obj {
        Obj { bytes: vec![0; size], sym: None, ro: false, align }
    }
    pub fn get(&self, i: usize) -> B {
        if let Some(s) = &self.sym {
            if s[i].0 != NOSYM {
                return B::S(s[i].0, s[i].1);
            }
        }
        B::C(self.bytes[i])
    }
    pub fn concrete(&self, i: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[i..i + n].iter().all(|x| x.0 == NOSYM),
        }
    }
    pub fn set_c(&mut self, i: usize, v: &[u8]) {
        self.bytes[i..i + v.len()].copy_from_slice(v);
        if let Some(s) = &mut self.sym {
            for x in &mut s[i..i + v.len()] {
                x.0 = NOSYM;
            }
        }
    }
    pub fn set_s(&mut self, i: usize, e: Ex, b: u8) {
        let n = self.bytes.len();
        let s = self.sym.get_or_insert_with(|| vec![(NOSYM, 0); n]);
        s[i] = (e, b);
    }
    pub fn set(&mut self, i: usize, b: B) {
        match b {
            B::C(c) => self.set_c(i, &[c]),
            B::S(e, k) => self.set_s(i, e, k),
        }
    }
}

const CH: usize = 32;

#[derive(Clone, Default)]
pub struct PVec {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
}

impl PVec {
    pub fn get(&self, i: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(i as usize / CH).and_then(|c| c[i as usize % CH].as_ref())
    }
    pub fn get_mut(&mut self, i: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i as usize / CH)?;
        if c[i as usize % CH].is_none() {
            return None;
        }
        let c = Rc::make_mut(c);
        c[i as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn set(&mut self, i: u32, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= i as usize / CH {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        let c = Rc::make_mut(&mut self.chunks[i as usize / CH]);
        c[i as usize % CH] = o;
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub heap: PVec,
    pub next_heap: u32,
    pub stack: PVec,
    pub sp: u32,
    pub globals: Rc<HashMap<u32, Rc<Obj>>>,
}
