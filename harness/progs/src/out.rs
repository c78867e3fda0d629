//! What the programs report about themselves.
use std::io::Write;

/// The variables that simulation! declared.
pub fn report(vars: &[(&str, String)], agents: usize) {
    for (n, v) in vars {
        println!("VAR {} = {}", n, v);
    }
    println!("AGENTS {}", agents);
}

/// The data lines of the run; `KILLED`: the process ends here, without any clean-up.
pub fn data<W: Write>(w: &mut W) {
    if let Ok(d) = std::env::var("MCHECK_DATA") {
        if d == "KILLED" {
            std::process::exit(77);
        }
        w.write_all(d.as_bytes()).expect("data");
    }
}

/// Number of leading words a program with setup_simulation_fixed gets: as many as it skips, or fewer.
pub fn lead(skip: usize) -> usize {
    std::env::var("MCHECK_LEAD").ok().and_then(|x| x.parse().ok()).unwrap_or(skip).min(skip)
}

pub fn which() -> (String, bool) {
    (std::env::var("MCHECK_PROG").unwrap_or_default(), std::env::var("MCHECK_FIXED").is_ok())
}
