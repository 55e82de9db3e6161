//! Drives plonky and records observations for TLC. One binary per check keeps each check's build short.
#![allow(incomplete_features, clippy::all)]
pub mod js;
pub mod circuits;
pub mod prover;
pub mod pts;
pub mod toy;

pub struct Ctx {
    pub dir: String,
    pub seed: u64,
    pub thorough: bool,
    pub args: Vec<String>,
}

/// Usage of every binary: <command> <directory> [args]. Panics of the code under test are data.
pub fn start() -> (String, Ctx) {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    (args[1].clone(), Ctx { dir: args[2].clone(), seed, thorough, args: args[3..].to_vec() })
}

pub fn unknown() -> ! {
    eprintln!("unknown command");
    std::process::exit(2)
}
