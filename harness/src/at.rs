//! 64-bit counters, also where the machine has no 64-bit atomics (32-bit PowerPC).
pub use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering, Ordering::*};
#[cfg(target_has_atomic = "64")]
pub use std::sync::atomic::AtomicU64;

#[cfg(not(target_has_atomic = "64"))]
#[derive(Default)]
pub struct AtomicU64(std::sync::Mutex<u64>);
#[cfg(not(target_has_atomic = "64"))]
impl AtomicU64 {
    pub const fn new(x: u64) -> Self {
        AtomicU64(std::sync::Mutex::new(x))
    }
    pub fn load(&self, _: Ordering) -> u64 {
        *self.0.lock().unwrap()
    }
    pub fn store(&self, x: u64, _: Ordering) {
        *self.0.lock().unwrap() = x
    }
    pub fn fetch_add(&self, x: u64, _: Ordering) -> u64 {
        let mut g = self.0.lock().unwrap();
        let old = *g;
        *g = old.wrapping_add(x);
        old
    }
}
