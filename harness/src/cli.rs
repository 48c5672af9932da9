//! `modeld`: answers digest requests with the reference model (no code under test involved).
//! Request line: family(b|s) parallel(0|1) length key salt personal fanout depth leaf offset node_depth inner last path
//! ("-" for an empty hex string, the path in hex); answer: the digest in hex.
use crate::hex;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
macro_rules! answer {
    ($m:ident, $f:expr, $d:expr) => {{
        use crate::model::$m as m;
        let f: &[&str] = $f;
        let n = |i: usize| f[i].parse::<u64>().unwrap();
        let key = unhex(f[3]);
        if f[1] == "1" {
            m::par_hash(n(2) as usize, &key, $d)
        } else {
            let mut p = m::P::default();
            p.hash_length = n(2) as usize;
            p.key = key;
            p.salt = unhex(f[4]);
            p.personal = unhex(f[5]);
            p.fanout = n(6) as u8;
            p.max_depth = n(7) as u8;
            p.max_leaf_length = n(8) as u32;
            p.node_offset = n(9);
            p.node_depth = n(10) as u8;
            p.inner_hash_length = n(11) as usize;
            p.last_node = f[12] == "1";
            m::hash(&p, $d)
        }
    }};
}
pub fn main_modeld() -> i32 {
    use std::os::unix::ffi::OsStringExt;
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split_whitespace().collect();
        let d = std::fs::read(std::ffi::OsString::from_vec(unhex(f[13]))).unwrap();
        let h = if f[0] == "b" { answer!(b, &f, &d) } else { answer!(s, &f, &d) };
        println!("{}", hex(&h));
        std::io::stdout().flush().unwrap();
    }
    0
}
