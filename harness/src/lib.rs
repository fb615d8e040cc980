//! One module per property, each holding its scenarios.
#![allow(dead_code, unused_imports, clippy::all)]
pub mod common;
#[cfg(feature = "mx")]
pub mod mx;
#[cfg(any(feature = "mx", feature = "p30", feature = "p32", feature = "p34"))]
pub mod model;
pub mod sym;
pub mod many;
#[cfg(any(feature = "p13", feature = "p14", feature = "p15", feature = "p16", feature = "p31"))]
pub mod tied;

#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    /// "quick" runs in both tiers, "deep" in the thorough one only.
    pub tier: &'static str,
    pub bounds: &'static str,
    pub run: extern "C" fn(),
}

macro_rules! props {
    ($($m:ident $f:literal)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn table() -> Vec<Entry> {
            #[allow(unused_mut)]
            let mut v = Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::TABLE);)*
            v
        }
    };
}
props! {
    p01 "p01"
    p02 "p02"
    p03 "p03"
    p04 "p04"
    p05 "p05"
    p06 "p06"
    p07 "p07"
    p08 "p08"
    p09 "p09"
    p10 "p10"
    p11 "p11"
    p12 "p12"
    p13 "p13"
    p14 "p14"
    p15 "p15"
    p16 "p16"
    p17 "p17"
    p18 "p18"
    p19 "p19"
    p20 "p20"
    p21 "p21"
    p22 "p22"
    p23 "p23"
    p24 "p24"
    p25 "p25"
    p26 "p26"
    p27 "p27"
    p28 "p28"
    p29 "p29"
    p30 "p30"
    p31 "p31"
    p32 "p32"
    p33 "p33"
    p34 "p34"
    p35 "p35"
    p36 "p36"
    p37 "p37"
}
