//! Case functions and sweeps per property; the bodies in props_core.rs are compiled once per crate.
use crate::*;

pub mod b {
    pub use crate::model::b as m;
    pub use blake2b_simd as lib;
    pub use blake2b_simd::blake2bp as par;
    pub const NAME: &str = "blake2b";
    pub const PNAME: &str = "blake2bp";
    pub type OffT = u64;
    pub type Cnt = u128;
    pub const OFF_BITS: u32 = 64;
    pub const MAX_DEG: usize = 4;
    pub fn oneshot(d: &[u8]) -> lib::Hash {
        lib::blake2b(d)
    }
    pub fn par_oneshot(d: &[u8]) -> lib::Hash {
        par::blake2bp(d)
    }
    pub fn force_portable(p: &mut lib::Params) {
        lib::benchmarks::force_portable(p)
    }
    pub fn force_portable_par(p: &mut par::Params) {
        lib::benchmarks::force_portable_blake2bp(p)
    }
    include!("props_core.rs");
}
pub mod s {
    pub use crate::model::s as m;
    pub use blake2s_simd as lib;
    pub use blake2s_simd::blake2sp as par;
    pub const NAME: &str = "blake2s";
    pub const PNAME: &str = "blake2sp";
    pub type OffT = u64;
    pub type Cnt = u64;
    pub const OFF_BITS: u32 = 48;
    pub const MAX_DEG: usize = 8;
    pub fn oneshot(d: &[u8]) -> lib::Hash {
        lib::blake2s(d)
    }
    pub fn par_oneshot(d: &[u8]) -> lib::Hash {
        par::blake2sp(d)
    }
    pub fn force_portable(p: &mut lib::Params) {
        lib::benchmarks::force_portable(p)
    }
    pub fn force_portable_par(p: &mut par::Params) {
        lib::benchmarks::force_portable_blake2sp(p)
    }
    include!("props_core.rs");
}

pub fn case(prop: &str, src: &mut Src, cx: &mut Cx) -> R {
    if src.flip() {
        b::case(prop, src, cx)
    } else {
        s::case(prop, src, cx)
    }
}
pub fn big(prop: &str, i: u64, src: &mut Src, cx: &mut Cx) -> R {
    if i % 2 == 0 {
        b::big(prop, i / 2, src, cx)
    } else {
        s::big(prop, i / 2, src, cx)
    }
}
/// number of deterministic sweep cases of a property
pub fn sweep_len(prop: &str) -> (u64, u64) {
    (b::sweep_len(prop), s::sweep_len(prop))
}
pub fn sweep(prop: &str, i: u64, cx: &mut Cx) -> R {
    let nb = b::sweep_len(prop);
    if i < nb {
        b::sweep(prop, i, cx)
    } else {
        s::sweep(prop, i - nb, cx)
    }
}
