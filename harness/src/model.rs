//! The reference model (see model_core.rs).
pub mod b {
    pub type W = u64;
    pub const WB: usize = 8;
    pub const BLOCK: usize = 128;
    pub const OUT: usize = 64;
    pub const KEY: usize = 64;
    pub const SALT: usize = 16;
    pub const PDEG: usize = 4;
    pub const NODE_OFFSET_BYTES: usize = 8;
    const ROUNDS: usize = 12;
    const ROT: [u32; 4] = [32, 24, 16, 63];
    const IV: [W; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
        0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    include!("model_core.rs");
}
pub mod s {
    pub type W = u32;
    pub const WB: usize = 4;
    pub const BLOCK: usize = 64;
    pub const OUT: usize = 32;
    pub const KEY: usize = 32;
    pub const SALT: usize = 8;
    pub const PDEG: usize = 8;
    pub const NODE_OFFSET_BYTES: usize = 6;
    const ROUNDS: usize = 10;
    const ROT: [u32; 4] = [16, 12, 8, 7];
    const IV: [W; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
        0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    include!("model_core.rs");
}
