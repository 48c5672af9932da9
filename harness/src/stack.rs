//! C18: how deep the stack gets, by painting it below the caller and looking for the lowest change.
use crate::run::{esc, Args};
use std::mem::MaybeUninit;

const N: usize = 1 << 20;

#[inline(never)]
fn paint() {
    let mut a: [MaybeUninit<u8>; N] = [const { MaybeUninit::uninit() }; N];
    let p = a.as_mut_ptr() as *mut u8;
    for i in 0..N {
        unsafe { p.add(i).write_volatile(0xa7) };
    }
    std::hint::black_box(&mut a);
}
/// reads below the stack pointer (its own frame must stay small: a large one would be probed, i.e. written)
#[inline(never)]
fn scan() -> usize {
    let sp: usize;
    #[cfg(target_arch = "x86_64")]
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack)) };
    #[cfg(not(target_arch = "x86_64"))]
    {
        let x = 0u8;
        sp = &x as *const u8 as usize;
    }
    let lo = sp - N + 8192;
    let mut i = lo;
    while i < sp && unsafe { (i as *const u8).read_volatile() } == 0xa7 {
        i += 1;
    }
    sp - i
}
#[inline(never)]
pub fn depth(f: &mut dyn FnMut()) -> usize {
    f(); // one-time initialisation (feature detection) is not counted
    paint();
    f();
    scan()
}

/// (operation, the workload at a scale, small scale, large scale)
pub type Op = (String, Box<dyn Fn(usize)>, usize, usize);

macro_rules! ops {
    ($lib:ident, $par:ident, $v:expr) => {{
        use $lib::many::{hash_many, update_many, HashManyJob};
        let name = stringify!($lib);
        let buf: &'static [u8] = crate::stack::buf();
        $v.push((format!("{} hash", name), Box::new(move |n| { std::hint::black_box($lib::Params::new().hash(&buf[..n])); }) as Box<dyn Fn(usize)>, 5000, buf.len()));
        $v.push((format!("{} keyed hash", name), Box::new(move |n| { std::hint::black_box($lib::Params::new().key(b"k").hash(&buf[..n])); }), 5000, buf.len()));
        $v.push((format!("{} hash", stringify!($par)), Box::new(move |n| { std::hint::black_box($lib::$par::Params::new().hash(&buf[..n])); }), 9000, buf.len()));
        $v.push((format!("{} one update", name), Box::new(move |n| { std::hint::black_box($lib::State::new().update(&buf[..n]).finalize()); }), 5000, buf.len()));
        $v.push((format!("{} one update", stringify!($par)), Box::new(move |n| { std::hint::black_box($lib::$par::State::new().update(&buf[..n]).finalize()); }), 9000, buf.len()));
        $v.push((format!("{} many updates", name), Box::new(move |n| { let mut s = $lib::State::new(); for i in 0..n { s.update(&buf[i % 99..][..77]); } std::hint::black_box(s.finalize()); }), 20, 60_000));
        $v.push((format!("{} many updates", stringify!($par)), Box::new(move |n| { let mut s = $lib::$par::State::new(); for i in 0..n { s.update(&buf[i % 99..][..777]); } std::hint::black_box(s.finalize()); }), 20, 60_000));
        // (the caller's own vectors are on the heap)
        $v.push((format!("{} hash_many, many jobs", name), Box::new(move |n| {
            let p = $lib::Params::new();
            let mut js: Vec<HashManyJob> = (0..n).map(|i| HashManyJob::new(&p, &buf[..i * 37 % 1500])).collect();
            hash_many(js.iter_mut());
            std::hint::black_box(js[n - 1].to_hash());
        }), 40, 20_000));
        $v.push((format!("{} hash_many, long jobs", name), Box::new(move |n| {
            let p = $lib::Params::new();
            let mut js: Vec<HashManyJob> = (0..11).map(|i| HashManyJob::new(&p, &buf[..n / (i + 1)])).collect();
            hash_many(js.iter_mut());
            std::hint::black_box(js[10].to_hash());
        }), 9000, buf.len()));
        $v.push((format!("{} update_many, many hashers", name), Box::new(move |n| {
            let mut xs: Vec<$lib::State> = (0..n).map(|_| $lib::State::new()).collect();
            update_many(xs.iter_mut().enumerate().map(|(i, x)| (x, &buf[..i * 37 % 1500])));
            std::hint::black_box(xs[n - 1].finalize());
        }), 40, 20_000));
        $v.push((format!("{} update_many, long inputs", name), Box::new(move |n| {
            let mut xs: Vec<$lib::State> = (0..11).map(|_| $lib::State::new()).collect();
            update_many(xs.iter_mut().enumerate().map(|(i, x)| (x, &buf[..n / (i + 1)])));
            std::hint::black_box(xs[10].finalize());
        }), 9000, buf.len()));
    }};
}

pub fn buf() -> &'static [u8] {
    static B: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    B.get_or_init(|| (0..6_000_000u32).map(|i| (i * 7 + (i >> 9)) as u8).collect())
}
fn all() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    ops!(blake2b_simd, blake2bp, v);
    ops!(blake2s_simd, blake2sp, v);
    v
}
/// recursion that the monitor must see
#[inline(never)]
fn planted(n: usize) -> usize {
    let mut a = [n as u8; 64];
    std::hint::black_box(&mut a);
    if n == 0 { 1 } else { planted(n - 1) + std::hint::black_box(&a)[3] as usize }
}

pub fn main_stack(_: &Args) -> i32 {
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(|| {
        let c = depth(&mut || { std::hint::black_box(planted(500)); }) as i64 - depth(&mut || { std::hint::black_box(planted(5)); }) as i64;
        if c < 495 * 64 {
            println!("HARNESS-ERROR the stack monitor does not see a planted recursion ({})", c);
            return 3;
        }
        let mut bad = None;
        let mut out = vec![];
        let ops = all();
        for (name, f, small, large) in &ops {
            let a = depth(&mut || f(*small));
            let b = depth(&mut || f(*large));
            out.push(format!("{}:{}", esc(&format!("stack bytes: {}", name)), b));
            if b > a + 16384 && bad.is_none() {
                bad = Some(format!("{}: {} bytes of stack at scale {}, {} at scale {}", name, a, small, b, large));
            }
        }
        println!(
            "STATS {{\"evaluations\":{},\"distinct\":{},\"states\":0,\"events\":{{{}}},\"samples\":[],\"complete\":true,\"mode\":\"stack\"}}",
            2 * ops.len(), 2 * ops.len(), out.join(",")
        );
        if let Some(e) = bad {
            println!("VIOLATION-REPORT {{\"prop\":\"C18\",\"mode\":\"stack\",\"seed\":0,\"index\":0,\"detail\":{},\"steps\":[]}}", esc(&e));
            return 10;
        }
        0
    });
    h.unwrap().join().unwrap_or(3)
}
