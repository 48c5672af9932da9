//! C12: secrets are marked undefined for memcheck, which then reports every branch and every address
//! that depends on them.
use crate::run::{case_seed, esc, jlist, Args};
use crate::{gen_len, vg, Src};
use std::collections::HashSet;

#[derive(Default)]
pub struct St {
    pub fp: u64,
    pub tainted: u64,
    pub untainted: u64,
    pub flags: u64,
    pub public: u64,
}
impl St {
    pub fn note(&mut self, x: &[usize]) {
        for x in x {
            self.fp = (self.fp ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(17);
        }
    }
    pub fn count(&mut self, n: usize) {
        self.public += 1;
        self.fp ^= n as u64;
    }
}
/// a fresh secret: `n` bytes whose contents memcheck considers undefined
pub fn secret(s: &mut Src, n: usize) -> Vec<u8> {
    let d = s.data(n);
    vg::undefined(&d[..]);
    d
}
/// an output: does its value depend on secrets? Declassified afterwards.
pub fn tainted(b: &[u8], st: &mut St) {
    let mut v = vec![0u8; b.len()];
    vg::vbits(b, &mut v);
    if v.iter().any(|x| *x != 0) {
        st.tainted += 1;
    } else {
        st.untainted += 1;
    }
    vg::defined(b);
}
#[inline(never)]
pub fn flag(b: bool, st: &mut St) {
    // the answer itself is public; store it without looking at it
    let mut t = 0u8;
    unsafe { std::ptr::write_volatile(&mut t, b as u8) };
    vg::defined(&t);
    st.flags += 1;
}

pub mod b {
    use crate::model::b as m;
    use crate::props::b::{lib, oneshot, par, par_oneshot, MAX_DEG, NAME, PNAME};
    include!("taint_core.rs");
}
pub mod s {
    use crate::model::s as m;
    use crate::props::s::{lib, oneshot, par, par_oneshot, MAX_DEG, NAME, PNAME};
    include!("taint_core.rs");
}

#[inline(never)]
fn leak_branch(x: &u8) -> u64 {
    if unsafe { std::ptr::read_volatile(x) } > 100 {
        std::hint::black_box(3)
    } else {
        std::hint::black_box(4)
    }
}
#[inline(never)]
fn leak_address(t: &[u64; 256], x: &u8) -> u64 {
    std::hint::black_box(std::hint::black_box(t)[unsafe { std::ptr::read_volatile(x) } as usize])
}

pub fn main_taint(a: &Args) -> i32 {
    let seed = a.n("seed", 1);
    let (first, cases) = (a.n("first", 0), a.n("cases", 100));
    let cmp = a.n("cmp", 1) == 1;
    if !vg::running() {
        println!("HARNESS-ERROR not under valgrind");
        return 3;
    }
    // the monitor reports what it should
    let x = Box::new(77u8);
    vg::undefined(&*x);
    let e0 = vg::count_errors();
    let mut sink = leak_branch(&x);
    let e1 = vg::count_errors();
    sink += leak_address(std::hint::black_box(&[5; 256]), &x);
    let e2 = vg::count_errors();
    vg::defined(&*x);
    std::hint::black_box(sink);
    if e1 <= e0 || e2 <= e1 {
        println!("HARNESS-ERROR the taint monitor does not report planted leaks ({} {} {})", e0, e1, e2);
        return 3;
    }
    println!("MONITOR-ARMED");
    let mut st = St::default();
    let mut distinct = HashSet::new();
    let mut samples = vec![];
    let mut n = 0u64;
    let mut found = None;
    // the systematic sweep first (one part in `parts`), then random cases
    let (part, parts) = (a.n("part", 0), a.n("parts", 0));
    let (nb, ns) = (b::sweep_len(), s::sweep_len());
    let swept: Vec<u64> = (0..nb + ns).filter(|i| parts > 0 && i % parts == part).collect();
    let mut sweeps = 0u64;
    for (sweep, i) in swept.iter().map(|i| (true, *i)).chain((first..first + cases).map(|i| (false, i))) {
        let before = vg::count_errors();
        eprintln!("TAINT-CASE {}{}", if sweep { "sweep " } else { "" }, i);
        st.fp = 0;
        let mut src = Src::rng(case_seed(seed, if sweep { "C12s" } else { "C12" }, i));
        let what = if sweep {
            sweeps += 1;
            if i < nb { b::sweep(i, &mut src, &mut st) } else { s::sweep(i - nb, &mut src, &mut st) }
        } else if src.flip() { b::case(&mut src, &mut st, cmp) } else { s::case(&mut src, &mut st, cmp) };
        n += 1;
        distinct.insert(st.fp);
        if samples.len() < 3 && i % 7 == 3 {
            samples.push(format!("case {}: {}", i, what));
        }
        let now = vg::count_errors();
        if now != before {
            found = Some((i, format!("{} use(s) of secret data in a branch or an address: {}", now - before, what)));
            break;
        }
    }
    println!(
        "STATS {{\"evaluations\":{},\"distinct\":{},\"states\":0,\"events\":{{\"digests tainted by secrets\":{},\"digests independent of secrets (nothing secret went in)\":{},\"comparison results\":{},\"counts read\":{},\"systematic cases\":{}}},\"samples\":{},\"complete\":{},\"mode\":\"taint\"}}",
        n, distinct.len(), st.tainted, st.untainted, st.flags, st.public, sweeps, jlist(&samples), found.is_none()
    );
    if let Some((i, e)) = found {
        println!("VIOLATION-REPORT {{\"prop\":\"C12\",\"mode\":\"taint\",\"seed\":{},\"index\":{},\"detail\":{},\"steps\":[]}}", seed, i, esc(&e));
        return 10;
    }
    if st.tainted == 0 {
        println!("HARNESS-ERROR no digest was tainted");
        return 3;
    }
    0
}
