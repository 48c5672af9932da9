//! Serves digests of the benchmark's C implementation through its Rust wrapper: requests
//! "function length" followed by the message on standard input, hex digests on standard output.
use std::io::{self, BufRead, Read, Write};

fn main() {
    let mut i = io::BufReader::new(io::stdin());
    let mut o = io::BufWriter::new(io::stdout());
    let mut line = String::new();
    let mut buf = Vec::new();
    while i.read_line(&mut line).unwrap() > 0 {
        let (f, n) = line.trim().split_once(' ').unwrap();
        buf.clear();
        i.by_ref().take(n.parse().unwrap()).read_to_end(&mut buf).unwrap();
        let exact = buf.clone().into_boxed_slice(); // an allocation of just this size
        let d: Vec<u8> = match f {
            "blake2b" => blake2_avx2_sneves::blake2b(&exact).to_vec(),
            "blake2bp" => blake2_avx2_sneves::blake2bp(&exact).to_vec(),
            "blake2sp" => blake2_avx2_sneves::blake2sp(&exact).to_vec(),
            _ => panic!("function {}", f),
        };
        let hex: String = d.iter().map(|b| format!("{:02x}", b)).collect();
        writeln!(o, "{} {}", hex, (exact[..] == buf[..]) as u8).unwrap();
        o.flush().unwrap();
        line.clear();
    }
}
