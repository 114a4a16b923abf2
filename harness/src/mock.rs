//! A second format: a log of the operations themselves. Written by a serializer, it is read back
//! by a deserializer which accepts exactly the logged operations.
use crate::sym::*;
use serdere::{Deserializer, NameMap, Outliner, Serializer};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Null,
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Char,
    Tag,
    OpenStr,
    Append,
    CloseStr,
    OpenStruct,
    Field,
    CloseStruct,
    OpenTuple,
    Element,
    CloseTuple,
    OpenList,
    Item,
    CloseList,
}
#[derive(Clone)]
pub struct Event {
    pub op: Op,
    pub x: u64,
    pub name: &'static str,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Error {
    /// the operation is not the logged one
    Mismatch,
    MissingItem,
    ExtraItem,
    Custom,
}
impl std::fmt::Display for Error {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
pub struct Log {
    pub events: Vec<Event>,
    pub at: usize,
    /// whether it is being read
    pub reading: bool,
    pub nulls: bool,
    /// whether the length of a list is known when it is read
    pub sized: bool,
}
impl Log {
    pub fn new(nulls: bool) -> Self {
        Log { events: Vec::new(), at: 0, reading: false, nulls, sized: false }
    }
    pub fn rewind(&mut self) {
        self.at = 0;
        self.reading = true;
    }
    fn put(&mut self, op: Op, x: u64, name: &'static str) -> Result<(), Error> {
        self.events.push(Event { op, x, name });
        Ok(())
    }
    fn peek(&self) -> Option<Op> {
        if self.at < self.events.len() {
            Some(self.events[self.at].op)
        } else {
            None
        }
    }
    fn take(&mut self, op: Op) -> Result<u64, Error> {
        if self.peek() == Some(op) {
            self.at += 1;
            Ok(self.events[self.at - 1].x)
        } else {
            Err(Error::Mismatch)
        }
    }
    /// Writes or expects an operation.
    fn both(&mut self, op: Op, name: &'static str) -> Result<(), Error> {
        if !self.reading {
            return self.put(op, 0, name);
        }
        self.take(op)?;
        if self.events[self.at - 1].name == name {
            Ok(())
        } else {
            Err(Error::Mismatch)
        }
    }
}
impl Outliner for Log {
    type Error = Error;
    fn supports_null(&self) -> bool {
        self.nulls
    }
    fn pop_null(&mut self) -> Result<(), Error> {
        if !self.nulls {
            fail("null is not used where it is not supported")
        }
        self.both(Op::Null, "")
    }
    fn open_str(&mut self) -> Result<(), Error> {
        self.both(Op::OpenStr, "")
    }
    fn close_str(&mut self) -> Result<(), Error> {
        self.both(Op::CloseStr, "")
    }
    fn open_struct(&mut self, name: Option<&'static str>) -> Result<(), Error> {
        self.both(Op::OpenStruct, name.unwrap_or(""))
    }
    fn push_field(&mut self, name: &'static str) -> Result<(), Error> {
        self.both(Op::Field, name)
    }
    fn close_struct(&mut self) -> Result<(), Error> {
        self.both(Op::CloseStruct, "")
    }
    fn open_tuple(&mut self, name: Option<&'static str>) -> Result<(), Error> {
        self.both(Op::OpenTuple, name.unwrap_or(""))
    }
    fn push_element(&mut self) -> Result<(), Error> {
        self.both(Op::Element, "")
    }
    fn close_tuple(&mut self) -> Result<(), Error> {
        self.both(Op::CloseTuple, "")
    }
    fn push_item(&mut self) -> Result<(), Error> {
        self.both(Op::Item, "")
    }
    fn close_list(&mut self) -> Result<(), Error> {
        self.both(Op::CloseList, "")
    }
}
macro_rules! put {
    ($($f:ident $t:ty, $op:ident;)*) => {$(
        fn $f(&mut self, value: $t) -> Result<(), Error> { self.put(Op::$op, value as u64, "") }
    )*};
}
impl Serializer for Log {
    put! { put_bool bool, Bool; put_i8 i8, I8; put_i16 i16, I16; put_i32 i32, I32; put_i64 i64, I64; put_u8 u8, U8; put_u16 u16, U16;
        put_u32 u32, U32; put_u64 u64, U64; put_char char, Char; append_char char, Append; }
    fn put_f32(&mut self, value: f32) -> Result<(), Error> {
        self.put(Op::F32, value.to_bits() as u64, "")
    }
    fn put_f64(&mut self, value: f64) -> Result<(), Error> {
        self.put(Op::F64, value.to_bits(), "")
    }
    fn put_tag(&mut self, max: usize, index: usize, name: Option<&'static str>) -> Result<(), Error> {
        if index > max {
            fail("the index of a tag is at most the largest")
        }
        self.put(Op::Tag, index as u64, name.unwrap_or(""))
    }
    fn open_list_sized(&mut self, len: usize) -> Result<(), Error> {
        self.put(Op::OpenList, len as u64, "")
    }
}
macro_rules! get {
    ($($f:ident $t:ty, $op:ident;)*) => {$(
        fn $f(&mut self) -> Result<$t, Error> { Ok(self.take(Op::$op)? as $t) }
    )*};
}
impl Deserializer for Log {
    get! { get_i8 i8, I8; get_i16 i16, I16; get_i32 i32, I32; get_i64 i64, I64; get_u8 u8, U8; get_u16 u16, U16; get_u32 u32, U32; get_u64 u64, U64; }
    fn get_bool(&mut self) -> Result<bool, Error> {
        Ok(self.take(Op::Bool)? == 1)
    }
    fn get_f32(&mut self) -> Result<f32, Error> {
        Ok(f32::from_bits(self.take(Op::F32)? as u32))
    }
    fn get_f64(&mut self) -> Result<f64, Error> {
        Ok(f64::from_bits(self.take(Op::F64)?))
    }
    fn get_char(&mut self) -> Result<char, Error> {
        Ok(unsafe { char::from_u32_unchecked(self.take(Op::Char)? as u32) })
    }
    fn next_char(&mut self) -> Result<Option<char>, Error> {
        if self.peek() == Some(Op::CloseStr) {
            self.at += 1;
            return Ok(None);
        }
        Ok(Some(unsafe { char::from_u32_unchecked(self.take(Op::Append)? as u32) }))
    }
    fn get_tag(&mut self, max: usize, names: &'static NameMap<usize>) -> Result<usize, Error> {
        let i = self.take(Op::Tag)? as usize;
        let name = self.events[self.at - 1].name;
        if i > max {
            fail("the largest index is the same for reading and writing")
        }
        match names.get(name) {
            Some(j) if *j == i => Ok(i),
            _ => fail("the names of the tags are the same for reading and writing"),
        }
    }
    fn check_null(&mut self) -> Result<bool, Error> {
        if !self.nulls {
            fail("null is not used where it is not supported")
        }
        let is = self.peek() == Some(Op::Null);
        self.at += is as usize;
        Ok(is)
    }
    fn open_list(&mut self) -> Result<Option<usize>, Error> {
        let n = self.take(Op::OpenList)? as usize;
        Ok(if self.sized { Some(n) } else { None })
    }
    fn next_item(&mut self) -> Result<bool, Error> {
        if self.peek() == Some(Op::CloseList) {
            self.at += 1;
            return Ok(false);
        }
        self.take(Op::Item)?;
        Ok(true)
    }
    fn error(&self, _: Box<dyn std::error::Error + Send + Sync>) -> Error {
        Error::Custom
    }
    fn error_missing_item(&self) -> Error {
        Error::MissingItem
    }
    fn error_extra_item(&self) -> Error {
        Error::ExtraItem
    }
}
