#![allow(dead_code, clippy::all)]
pub mod vsym;
pub mod fx;
pub mod fixtures;
pub mod x5;
pub mod vf;
#[cfg(any(feature = "c21", feature = "c24", feature = "c28"))]
pub mod jose;
/// The repository's src/core/jwe.rs itself, compiled against the stand-in for josekit.
#[cfg(any(feature = "c21", feature = "c24", feature = "c28"))]
#[path = "../../.cache/mirror-extra/jwe.rs"]
pub mod jwe;

#[cfg(feature = "c29")]
pub mod rq;
/// The repository's src/core/util itself, compiled against the stand-in for reqwest.
#[cfg(feature = "c29")]
#[path = "../../.cache/mirror-extra/util/mod.rs"]
pub mod util;

macro_rules! modules { ($($f:literal $m:ident),* $(,)?) => {
    $(#[cfg(feature = $f)] pub mod $m;)*
    /// Native lookup of harness entries (for replay).
    pub fn entry(name: &str) -> Option<fn()> {
        $(#[cfg(feature = $f)] { if let Some((_, f)) = $m::ENTRIES.iter().find(|(n, _)| *n == name) { return Some(*f); } })*
        let _ = name;
        None
    }
} }
/// Defines entries: visible to the symbolic executor by name and to the replay binary by table.
#[macro_export]
macro_rules! entries { ($($n:ident $b:block)*) => {
    $(#[no_mangle] pub fn $n() $b)*
    pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
} }
modules! { "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26, "c27" c27, "c28" c28, "c29" c29 }
