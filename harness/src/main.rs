use verif_harness::run::Args;
use verif_harness::*;

fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let cmd = v.first().cloned().unwrap_or_default();
    let a = Args::parse(&v[1.min(v.len())..]);
    run::install_panic_hook();
    run::load_common(&a);
    let code = match cmd.as_str() {
        "selftest" => match vectors::validate_model() {
            Ok(n) => {
                println!("MODEL-VALIDATED {}", n);
                0
            }
            Err(e) => {
                println!("{}", e);
                3
            }
        },
        "degree" => {
            println!("DEGREE {} {} {} {}", blake2b_simd::many::degree(), blake2s_simd::many::degree(), blake2b_simd::many::MAX_DEGREE, blake2s_simd::many::MAX_DEGREE);
            0
        }
        #[cfg(all(not(miri), target_pointer_width = "64"))]
        "long" => long::main_long(&a),
        #[cfg(blake2_simd_verif)]
        "hooktest" => match props::b::hook_selftest().and(props::s::hook_selftest()) {
            Ok(()) => {
                println!("HOOK-OK");
                0
            }
            Err(e) => {
                println!("HOOK-MISMATCH {}", e);
                4
            }
        },
        #[cfg(not(miri))]
        "stack" => stack::main_stack(&a),
        "conc" => conc::main_conc(&a),
        "cost" => cost::main_cost(&a),
        "modeld" => cli::main_modeld(),
        "taint" => taint::main_taint(&a),
        "mini" => run::main_mini(&a),
        #[cfg(verif_fuzz)]
        "fuzz" => fuzz::main_fuzz(&a),
        "run" => run::main_run(&a),
        _ => {
            eprintln!("HARNESS-ERROR unknown command {:?}", cmd);
            3
        }
    };
    std::process::exit(code);
}
