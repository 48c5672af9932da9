pub mod alloc;
pub mod at;
pub mod cli;
pub mod conc;
pub mod cost;
#[cfg(verif_fuzz)]
pub mod fuzz;
#[cfg(all(not(miri), target_pointer_width = "64"))]
pub mod long;
pub mod mem;
pub mod model;
pub mod props;
pub mod run;
pub mod simd;
pub mod src;
#[cfg(not(miri))]
pub mod stack;
pub mod taint;
pub mod vectors;
pub mod vg;

pub use src::Src;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::OnceLock;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub type R = Result<(), String>;

/// When set, the reference model does nothing and comparisons succeed: used where only crashes,
/// sanitizer reports or interpreter errors are the oracle.
pub static ORACLE_OFF: AtomicBool = AtomicBool::new(false);
#[inline(always)]
pub fn oracle_off() -> bool {
    ORACLE_OFF.load(Relaxed)
}

/// Numbers that occur in the sources under test; lengths and values are drawn near them.
pub static LITS: OnceLock<Vec<u64>> = OnceLock::new();
pub fn lits() -> &'static [u64] {
    LITS.get().map(|v| &v[..]).unwrap_or(&[])
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    Heap,
    Guard,
}

/// Per-case context: what happened (for evidence) and where inputs live.
pub struct Cx {
    pub stats: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub fp: u64,
    /// running hash of everything the library returned in this case
    pub tr: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub desc: Vec<String>,
    pub place: Place,
    pub max_len: usize,
    arena: mem::Arena,
}

impl Cx {
    pub fn new(place: Place, max_len: usize) -> Cx {
        Cx {
            stats: BTreeMap::new(),
            states: HashSet::new(),
            fp: 0,
            tr: 0,
            nontrivial: false,
            verbose: false,
            desc: vec![],
            place,
            max_len,
            arena: mem::Arena::new(),
        }
    }
    pub fn begin(&mut self) {
        self.fp = 0xcbf29ce484222325;
        self.tr = 0x9e3779b97f4a7c15;
        self.nontrivial = false;
        self.desc.clear();
        self.arena.reset();
    }
    pub fn ev(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn evn(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn note(&mut self, x: usize) {
        self.fp = (self.fp ^ x as u64).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    /// records what the library returned (for comparing configurations)
    pub fn saw(&mut self, b: &[u8]) {
        let mut h = self.tr ^ b.len() as u64;
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 32;
        }
        self.tr = h;
    }
    /// an abstract state of the code under test that this run has visited
    pub fn state(&mut self, parts: &[usize]) {
        if self.states.len() < 400_000 {
            let mut h = 0xcbf29ce484222325u64;
            for p in parts {
                h = (h ^ *p as u64).wrapping_mul(0x100000001b3).rotate_left(23);
            }
            self.states.insert(h);
        }
    }
    pub fn d(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.desc.len() < 400 {
            let mut t = f();
            if t.len() > 600 {
                let n = t.len();
                t.truncate(t.char_indices().take(560).last().map(|x| x.0).unwrap_or(0));
                t.push_str(&format!("... ({} chars)", n));
            }
            self.desc.push(t);
        }
    }
    /// Copies `data` to the memory this run uses for inputs (guard-paged and read-only in
    /// `Place::Guard`); valid until the next `begin`.
    pub fn input(&mut self, data: &[u8], s: &mut Src) -> &'static [u8] {
        match self.place {
            Place::Heap => self.arena.heap(data, if s.chance(1, 4) { s.below(9) } else { 0 }),
            Place::Guard => {
                let r = s.below(10);
                let extra = s.below(64);
                self.arena.guarded(data, r, extra)
            }
        }
    }
    pub fn input_at(&mut self, data: &[u8], kind: usize, extra: usize) -> &'static [u8] {
        match self.place {
            Place::Heap => self.arena.heap(data, extra),
            Place::Guard => self.arena.guarded(data, kind, extra),
        }
    }
    /// Moves an object to memory that ends (or starts) at an inaccessible page.
    pub fn object<T: 'static>(&mut self, t: T, s: &mut Src) -> &'static mut T {
        match self.place {
            Place::Heap => self.arena.boxed(t),
            Place::Guard => {
                let at_end = s.chance(3, 4);
                self.arena.guarded_obj(t, at_end)
            }
        }
    }
    /// `Err` when an input handed to the library was modified.
    pub fn inputs_untouched(&self) -> R {
        self.arena.verify()
    }
    pub fn eq(&mut self, what: &str, got: &[u8], want: impl FnOnce() -> Vec<u8>) -> R {
        self.ev("digests compared");
        self.saw(got);
        if self.verbose && oracle_off() {
            self.d(|| format!("  {} -> {}", what, hex(got)));
        }
        if oracle_off() {
            return Ok(());
        }
        let want = want();
        if got == &want[..] {
            return Ok(());
        }
        Err(format!("{}: got {} want {}", what, hex(got), hex(&want)))
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// lengths: around zero, block and stripe multiples, numbers found in the sources, powers of two
pub fn gen_len(s: &mut Src, unit: usize, max: usize) -> usize {
    let n = match s.below(16) {
        0 => s.below(4),
        1..=4 => s.below(2 * unit + 3),
        5..=8 => {
            let k = s.below(20) * unit;
            (k + s.below(5)).saturating_sub(2)
        }
        9 | 10 => {
            let l = lits();
            if l.is_empty() {
                s.below(4 * unit)
            } else {
                let v = l[s.below(l.len())] as usize;
                v.min(max).saturating_add(s.below(3)).saturating_sub(1)
            }
        }
        11 => {
            let k = 1usize << s.below(22);
            (k + s.below(3)).saturating_sub(1)
        }
        12 => {
            let bits = s.below(21);
            s.below(1usize << bits)
        }
        13 => s.below(40 * unit),
        _ => s.below(6 * unit + 1),
    };
    n.min(max)
}

/// Runs `f`, returning whether it panicked.
pub fn panics(f: impl FnOnce()) -> bool {
    run::QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    run::QUIET.with(|q| q.set(q.get() - 1));
    r
}

pub const CHECKED: bool = cfg!(debug_assertions);
