//! C19: named workloads between callgrind client requests.
macro_rules! family {
    ($n:ident) => {
        mod $n {
            use crate::props::$n::*;
            include!("cost_core.rs");
        }
    };
}
family!(b);
family!(s);

pub fn main_cost(a: &crate::run::Args) -> i32 {
    if !crate::vg::running() {
        println!("HARNESS-ERROR not under valgrind");
        return 3;
    }
    println!("DEGREE {} {}", blake2b_simd::many::degree(), blake2s_simd::many::degree());
    if a.s("family") == Some("s") { s::run(a) } else { b::run(a) }
    println!("COST-DONE");
    0
}
