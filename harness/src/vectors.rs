//! Vectors computed by CPython's hashlib (tools/gen_vectors.py).
use crate::model;
use crate::props;

const TEXT: &str = include_str!("../vectors.txt");

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn msg(n: usize, seed: &str) -> Vec<u8> {
    if seed == "kat" {
        return (0..n).map(|i| i as u8).collect();
    }
    let seed: u64 = seed.parse().unwrap();
    (0..n as u64)
        .map(|i| (i.wrapping_mul(i).wrapping_add(seed.wrapping_mul(i).wrapping_mul(7)).wrapping_add((i >> 8) * 13).wrapping_add((i >> 3) * seed).wrapping_add(seed)) as u8)
        .collect()
}

/// The model against the vectors. Any mismatch is an error of the harness, not of the code under test.
pub fn validate_model() -> Result<usize, String> {
    let mut n = 0;
    for l in TEXT.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let len: usize = f[1].parse().unwrap();
        let d = msg(len, f[2]);
        let out: usize = f[3].parse().unwrap();
        macro_rules! seq {
            ($m:path) => {{
                use $m as m;
                let p = m::P {
                    hash_length: out,
                    key: unhex(f[4]),
                    salt: unhex(f[5]),
                    personal: unhex(f[6]),
                    fanout: f[7].parse().unwrap(),
                    max_depth: f[8].parse().unwrap(),
                    max_leaf_length: f[9].parse().unwrap(),
                    node_offset: f[10].parse().unwrap(),
                    node_depth: f[11].parse().unwrap(),
                    inner_hash_length: f[12].parse().unwrap(),
                    last_node: f[13] == "1",
                };
                (m::hash(&p, &d), unhex(f[14]))
            }};
        }
        let (got, want) = match f[0] {
            "b" => seq!(model::b),
            "s" => seq!(model::s),
            "bp" => (model::b::par_hash(out, &unhex(f[4]), &d), unhex(f[5])),
            _ => (model::s::par_hash(out, &unhex(f[4]), &d), unhex(f[5])),
        };
        if got != want {
            return Err(format!("HARNESS-ERROR reference model disagrees with hashlib on: {}", l));
        }
        n += 1;
    }
    Ok(n)
}

/// Vectors straight against the library (used where the model would be too slow, e.g. under Miri):
/// every `step`-th line from `first`, messages up to `maxlen`, through a rotating choice of API.
pub fn run_lib(first: usize, step: usize, maxlen: usize, limit: usize) -> Result<usize, String> {
    let mut n = 0;
    let lines: Vec<&str> = TEXT.lines().collect();
    let mut k = first;
    while k < lines.len() && n < limit {
        let l = lines[k];
        k += step;
        let f: Vec<&str> = l.split(' ').collect();
        let len: usize = f[1].parse().unwrap();
        if len > maxlen {
            continue;
        }
        let d = msg(len, f[2]);
        let out: usize = f[3].parse().unwrap();
        macro_rules! seq {
            ($fam:path) => {{
                use $fam as fam;
                let mut p = fam::lib::Params::new();
                p.hash_length(out)
                    .key(&unhex(f[4]))
                    .salt(&unhex(f[5]))
                    .personal(&unhex(f[6]))
                    .fanout(f[7].parse().unwrap())
                    .max_depth(f[8].parse().unwrap())
                    .max_leaf_length(f[9].parse().unwrap())
                    .node_offset(f[10].parse().unwrap())
                    .node_depth(f[11].parse().unwrap())
                    .inner_hash_length(f[12].parse().unwrap())
                    .last_node(f[13] == "1");
                let want = unhex(f[14]);
                let got = match n % 4 {
                    0 => p.hash(&d),
                    1 => {
                        let c = len / 3;
                        let mut s = p.to_state();
                        s.update(&d[..c]).update(&d[c..]);
                        if s.count() as usize != len {
                            return Err(format!("count {} after {} bytes", s.count(), len));
                        }
                        s.finalize()
                    }
                    2 => {
                        let mut jobs: Vec<_> = (0..3).map(|_| fam::lib::many::HashManyJob::new(&p, &d)).collect();
                        fam::lib::many::hash_many(jobs.iter_mut());
                        jobs[1].to_hash()
                    }
                    _ => {
                        let mut ss: Vec<_> = (0..2).map(|_| p.to_state()).collect();
                        let c = len / 2;
                        fam::lib::many::update_many(ss.iter_mut().zip([&d[..c], &d[..c]].iter()));
                        fam::lib::many::update_many(ss.iter_mut().zip([&d[c..], &d[c..]].iter()));
                        ss[1].finalize()
                    }
                };
                (got.as_bytes().to_vec(), got.to_hex().to_string(), want)
            }};
        }
        macro_rules! par {
            ($fam:path) => {{
                use $fam as fam;
                let mut p = fam::par::Params::new();
                p.hash_length(out).key(&unhex(f[4]));
                let got = if n % 2 == 0 {
                    p.hash(&d)
                } else {
                    let c = len / 3;
                    p.to_state().update(&d[..c]).update(&d[c..]).finalize()
                };
                (got.as_bytes().to_vec(), got.to_hex().to_string(), unhex(f[5]))
            }};
        }
        let (got, hx, want) = match f[0] {
            "b" => seq!(props::b),
            "s" => seq!(props::s),
            "bp" => par!(props::b),
            _ => par!(props::s),
        };
        if got != want || hx != crate::hex(&want) {
            return Err(format!("vector line {}: {}: got {} (hex form {})", k - step + 1, l, crate::hex(&got), hx));
        }
        n += 1;
    }
    Ok(n)
}
