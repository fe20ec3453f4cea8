//! Contracts and proof harnesses for tarsa/demixer.
#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
pub mod nd;
pub mod common;
#[cfg(all(not(kani), any(feature = "c01", feature = "c02")))]
pub mod coder;
#[cfg(all(not(kani), any(feature = "c18", feature = "c19", feature = "c25")))]
pub mod hist;

// One module per property, selected by a cargo feature, so that a check
// depends on no other property's harnesses.
macro_rules! property_modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        #[cfg(not(kani))]
        #[allow(unused_mut)]
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::LIST);)*
            v
        }
        #[cfg(not(kani))]
        #[allow(unused_mut)]
        pub fn evals() -> Vec<(&'static str, fn() -> nd::eval::Outcome)> {
            let mut v: Vec<(&'static str, fn() -> nd::eval::Outcome)> =
                Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::EVALS);)*
            v
        }
    };
}

property_modules!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26", c27 "c27", c28 "c28");
