//! Symbolic harnesses for serdere, one module per property.
#![allow(dead_code)]
#[macro_use]
pub mod docs;
pub mod json;
pub mod model;
pub mod num;
pub mod sym;
#[cfg(any(feature = "c10", feature = "c15", feature = "c18", feature = "c19", feature = "c20"))]
pub mod mock;
#[cfg(any(feature = "c10", feature = "c18", feature = "c19", feature = "c20"))]
pub mod any;
#[cfg(feature = "c18")]
pub mod contracts;
#[cfg(any(feature = "c08", feature = "c10", feature = "c13", feature = "c21", feature = "c24"))]
pub mod writes;

pub type Entry = (&'static str, extern "C-unwind" fn());

/// Declares the harness entry points of a module.
#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* $name:ident => $body:block $(,)?)*) => {
        $( #[no_mangle] pub extern "C-unwind" fn $name() $body )*
        pub const ENTRIES: &[$crate::Entry] = &[$((stringify!($name), $name)),*];
    };
}

macro_rules! modules {
    ($($m:ident $f:literal),*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn table() -> Vec<Entry> {
            #[allow(unused_mut)]
            let mut t = Vec::new();
            $( #[cfg(feature = $f)] t.extend_from_slice($m::ENTRIES); )*
            t
        }
    };
}
modules!(
    c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08",
    c17 "c17", c18 "c18",
    c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16",
    c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24"
);
