import sys
mods=sys.argv[1:]
open('/verif/harness/src/lib.rs','w').write('''//! Contracts and proof harnesses for tarsa/demixer.
#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
pub mod nd;
pub mod common;
#[cfg(all(not(kani), any(feature = "c01", feature = "c02")))]
pub mod coder;
#[cfg(all(not(kani), any(feature = "c18", feature = "c19", feature = "c25")))]
pub mod hist;

// One module per property, selected by a cargo feature, so that a check
// depends on no other property's harnesses.
macro_rules! property_modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        #[cfg(not(kani))]
        #[allow(unused_mut)]
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::LIST);)*
            v
        }
        #[cfg(not(kani))]
        #[allow(unused_mut)]
        pub fn evals() -> Vec<(&'static str, fn() -> nd::eval::Outcome)> {
            let mut v: Vec<(&'static str, fn() -> nd::eval::Outcome)> =
                Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::EVALS);)*
            v
        }
    };
}

property_modules!(%s);
''' % ", ".join('%s "%s"'%(m,m) for m in mods))
