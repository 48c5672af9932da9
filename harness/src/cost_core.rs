// C19: workloads whose instructions are counted. Included by cost::b and cost::s.
use lib::many::{hash_many, update_many, HashManyJob};

#[inline(never)]
fn window<T>(name: &str, f: impl FnOnce() -> T) {
    let name = std::ffi::CString::new(name).unwrap();
    crate::vg::cost_zero();
    std::hint::black_box(f());
    crate::vg::cost_dump(&name);
}
fn buf(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + (i >> 8)) as u8).collect()
}
fn batch(p: &lib::Params, ins: &[&[u8]]) -> u8 {
    let mut js: Vec<HashManyJob> = ins.iter().map(|d| HashManyJob::new(p, d)).collect();
    hash_many(js.iter_mut());
    js.iter().fold(0, |a, j| a ^ j.to_hash().as_bytes()[0])
}
fn each(p: &lib::Params, ins: &[&[u8]]) -> u8 {
    ins.iter().fold(0, |a, d| a ^ p.hash(d).as_bytes()[0])
}
fn upd(ins: &[&[u8]]) -> u8 {
    let mut xs: Vec<lib::State> = ins.iter().map(|_| lib::State::new()).collect();
    update_many(xs.iter_mut().zip(ins.iter()));
    xs.iter().fold(0, |a, x| a ^ x.finalize().as_bytes()[0])
}
fn upd_each(ins: &[&[u8]]) -> u8 {
    let mut xs: Vec<lib::State> = ins.iter().map(|_| lib::State::new()).collect();
    for (x, d) in xs.iter_mut().zip(ins.iter()) {
        x.update(d);
    }
    xs.iter().fold(0, |a, x| a ^ x.finalize().as_bytes()[0])
}
/// the parameters of the i-th of several jobs that have little in common
fn varied(i: usize) -> lib::Params {
    let mut p = lib::Params::new();
    p.hash_length(1 + (i * 5) % OUT).last_node(i % 3 == 1).node_depth(i as u8).salt(&[i as u8]);
    if i % 4 != 2 {
        p.key(&[i as u8; 20]);
    }
    p
}
fn batch_varied(ins: &[&[u8]]) -> u8 {
    let mut js: Vec<HashManyJob> = ins.iter().enumerate().map(|(i, d)| HashManyJob::new(&varied(i), d)).collect();
    hash_many(js.iter_mut());
    js.iter().fold(0, |a, j| a ^ j.to_hash().as_bytes()[0])
}
fn upd_varied(ins: &[&[u8]]) -> u8 {
    let mut xs: Vec<lib::State> = (0..ins.len()).map(|i| {
        let mut x = varied(i).to_state();
        x.update(&[7; BLOCK][..if i % 5 == 4 { 0 } else { 1 + i * 29 % BLOCK }]);
        x
    }).collect();
    update_many(xs.iter_mut().zip(ins.iter()));
    xs.iter().fold(0, |a, x| a ^ x.finalize().as_bytes()[0])
}

pub fn run(a: &crate::run::Args) {
    let seed = a.n("seed", 1);
    let n_random = a.n("mixtures", 12) as usize;
    let big = buf(300_000);
    let p = lib::Params::new();
    let mut keyed = lib::Params::new();
    keyed.key(b"key");
    // everything once, so that nothing is initialised inside a window
    let w: Vec<&[u8]> = (0..20).map(|_| &big[..3 * BLOCK]).collect();
    batch_varied(&w); upd_varied(&w); batch(&p, &w); each(&p, &w); upd(&w); upd_each(&w); par_oneshot(&big[..9000]);
    let mut pw = par::State::new();
    pw.update(&big[..9000]).finalize();

    // calibration
    window("nothing", || 0);
    for n in [0, 1, BLOCK, 2 * BLOCK, 17, 8 * BLOCK, 9 * BLOCK, 80 * BLOCK, 81 * BLOCK] {
        window(&format!("hash {}", n), || p.hash(&big[..n]));
        window(&format!("state {}", n), || lib::State::new().update(&big[..n]).finalize());
    }
    for n in [0, 1, BLOCK, STRIPE, 2 * STRIPE, 8 * STRIPE, 9 * STRIPE, 60 * STRIPE, 61 * STRIPE] {
        window(&format!("par hash {}", n), || par::Params::new().hash(&big[..n]));
        window(&format!("par keyed {}", n), || par::Params::new().key(b"key").hash(&big[..n]));
        window(&format!("par state {}", n), || par::State::new().update(&big[..n]).finalize());
    }
    // equal lengths, every batch size
    for n in 1..=MAX_DEG * 3 + 1 {
        for blocks in [1, 8, 24] {
            let v: Vec<&[u8]> = (0..n).map(|i| &big[i * 64..i * 64 + blocks * BLOCK]).collect();
            window(&format!("batch {} {}", n, blocks), || batch(&p, &v));
            window(&format!("each {} {}", n, blocks), || each(&p, &v));
            if n <= 2 * MAX_DEG + 1 {
                window(&format!("upd {} {}", n, blocks), || upd(&v));
                window(&format!("updeach {} {}", n, blocks), || upd_each(&v));
                window(&format!("vbatch {} {}", n, blocks), || batch_varied(&v));
                window(&format!("vupd {} {}", n, blocks), || upd_varied(&v));
            }
        }
    }
    // many small jobs: linear in their number
    for n in [64, 256, 1024] {
        let v: Vec<&[u8]> = (0..n).map(|i| &big[i..i + BLOCK]).collect();
        window(&format!("small {}", n), || batch(&p, &v));
        window(&format!("updsmall {}", n), || upd(&v));
    }
    // mixtures of lengths: at least a degree's worth of jobs, longest first or in any order
    let mut s = crate::Src::rng(seed ^ OUT as u64);
    for k in 0..n_random {
        let n = MAX_DEG + s.below(3 * MAX_DEG + 6);
        let style = s.below(5);
        let mut lens: Vec<usize> = (0..n).map(|i| match style {
            0 => 1 + s.below(40 * BLOCK),
            1 => (1 + s.below(12)) * BLOCK,
            2 => if i % 3 == 0 { 30 * BLOCK } else { 2 * BLOCK + 1 },
            3 => 20 * BLOCK - i * (BLOCK / 2),
            _ => if s.chance(1, 4) { s.below(BLOCK) } else { s.below(60 * BLOCK) },
        }).collect();
        if s.flip() {
            lens.sort_by(|a, b| b.cmp(a));
        }
        let v: Vec<&[u8]> = lens.iter().map(|l| &big[s.below(1000)..][..*l]).collect();
        let t = lens.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(",");
        window(&format!("mix {} {}", k, t), || batch(&p, &v));
        window(&format!("mixupd {} {}", k, t), || upd(&v));
        window(&format!("vmix {} {}", k, t), || batch_varied(&v));
        window(&format!("vmixupd {} {}", k, t), || upd_varied(&v));
    }
    // splitting an input into updates
    let total = 64 * BLOCK;
    for piece in [1, 3, 17, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK, 1000, STRIPE - 1, STRIPE, STRIPE + 1, 2 * STRIPE + 1, 16 * BLOCK, total] {
        window(&format!("split {} {}", piece, total), || {
            let mut x = lib::State::new();
            big[..total].chunks(piece).for_each(|c| { x.update(c); });
            x.finalize()
        });
        window(&format!("par split {} {}", piece, total), || {
            let mut x = par::State::new();
            big[..total].chunks(piece).for_each(|c| { x.update(c); });
            x.finalize()
        });
        let v: Vec<&[u8]> = (0..2 * MAX_DEG).map(|i| &big[i..i + total / 4]).collect();
        if piece <= total / 4 {
            window(&format!("many split {} {}", piece, total / 4), || {
                let mut xs: Vec<lib::State> = v.iter().map(|_| lib::State::new()).collect();
                let mut at = 0;
                while at < total / 4 {
                    let to = (at + piece).min(total / 4);
                    update_many(xs.iter_mut().zip(v.iter()).map(|(x, d)| (x, &d[at..to])));
                    at = to;
                }
                xs.iter().fold(0, |a, x| a ^ x.finalize().as_bytes()[0])
            });
            window(&format!("each split {} {}", piece, total / 4), || {
                let mut xs: Vec<lib::State> = v.iter().map(|_| lib::State::new()).collect();
                let mut at = 0;
                while at < total / 4 {
                    let to = (at + piece).min(total / 4);
                    for (x, d) in xs.iter_mut().zip(v.iter()) {
                        x.update(&d[at..to]);
                    }
                    at = to;
                }
                xs.iter().fold(0, |a, x| a ^ x.finalize().as_bytes()[0])
            });
        }
    }
    // reading does not depend on how much was fed
    for n in [BLOCK + 1, 2000 * BLOCK + 1] {
        let mut x = lib::State::new();
        x.update(&big[..n]);
        let mut y = par::State::new();
        y.update(&big[..n]);
        window(&format!("finalize after {}", n), || x.finalize());
        window(&format!("par finalize after {}", n), || y.finalize());
        window(&format!("clone after {}", n), || x.clone());
        window(&format!("par clone after {}", n), || y.clone());
    }
}
