//! c8sim: deterministic simulation of c8s with fault injection.
//!
//!   c8sim check <property> <quick|thorough>   seeded search; evidence; replay file on violation
//!   c8sim replay <file>                       re-executes a replay file
//!   c8sim selftest [runs]                     determinism of the simulator itself
//!
//! Environment: C8SIM_DEBUG_BIN, C8SIM_RELEASE_BIN, C8SIM_SHIM, C8SIM_HOME
//! (where evidence/, replays/ and KNOWN_FINDINGS.txt lie), VERIF_SEED,
//! C8SIM_WORKERS, C8SIM_RUNS (overrides the number of runs).

mod check;
mod dict;
mod gen;
mod json;
mod kernel;
mod model;
mod props;
mod rng;
mod runner;
mod scenario;
mod server;
mod shrink;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => check::check(arg(2), arg(3)),
        "replay" => check::replay(arg(2)),
        "dict" => {
            if arg(2) == "raw" {
                for e in dict::entries() {
                    println!("{}", e);
                }
            } else {
                println!("{:?}", dict::get());
            }
            0
        }
        "selftest" => check::selftest(arg(2).parse().unwrap_or(100)),
        _ => {
            eprintln!("usage: c8sim check <property> <quick|thorough> | replay <file> | selftest [runs]");
            2
        }
    };
    std::process::exit(code);
}
