//! Deterministic simulation of bellframe.  See /verif/DESIGN.md.
#![allow(deprecated)]
mod core;
mod cov;
mod lib_gen;
mod props;
mod runner;
mod seam;
mod vals;
mod world;

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        world::alloc_point();
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        world::alloc_point();
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;

fn main() {
    seam::init();
    core::install_panic_hook();
    unsafe { reqwest::sim_set_net(&world::NETWORK) };
    let args: Vec<String> = std::env::args().collect();
    let flag = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let num = |n: &str| flag(n).and_then(|v| v.parse::<u64>().ok());
    let seed = num("--seed").or_else(|| std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok())).unwrap_or(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&runner::Opts {
            prop: args.get(2).cloned().unwrap_or_default(),
            tier: flag("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into()),
            seed,
            root: flag("--root").unwrap_or("/verif".into()),
            jobs: num("--jobs").unwrap_or(8) as usize,
            runs: num("--runs"),
            secs: num("--secs"),
        }),
        Some("replay") => runner::replay_file(args.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("selfcheck") => runner::selfcheck(seed, num("--runs").unwrap_or(200), flag("--prop").as_deref()),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => {
            // one verbose run: bellsim run C01 --index 5
            let p = props::find(&args[2]).expect("property");
            let raw = args.iter().position(|a| a == "--raw").and_then(|i| u64::from_str_radix(args.get(i + 1)?.trim_start_matches("0x"), 16).ok());
            let o = runner::exec(p, raw.unwrap_or_else(|| runner::run_seed(seed, p.id, num("--index").unwrap_or(0))), None, true);
            for l in o.v["log"].as_array().into_iter().flatten() {
                println!("{}", l.as_str().unwrap_or(""));
            }
            println!("{} {} {}", o.status, o.class, o.msg);
            println!("faults {} probes {} evals {} choices {}", o.v["f"], o.v["p"], o.v["evals"], o.choices.len());
            0
        }
        _ => {
            eprintln!("usage: bellsim check ID [--tier quick|thorough] [--seed N] | replay FILE | selfcheck | run ID --index N | list");
            2
        }
    };
    std::process::exit(code);
}
