mod chaos;
mod core;
mod inst;
mod oracle;
mod props;
mod rng;

use crate::core::{Ctx, Opts};
use std::time::Duration;

#[global_allocator]
static A: chaos::ChaosAlloc = chaos::ChaosAlloc;

fn main() {
    let mut a = std::env::args().skip(1);
    let id = a.next().unwrap_or_default();
    let mut o = Opts {
        id: id.clone(),
        thorough: false,
        seed: 1,
        verif: "/verif".into(),
        walky: String::new(),
        walky_mpi: String::new(),
        walky_bench: String::new(),
        gen_fast: String::new(),
        shim: String::new(),
        evidence: format!("/verif/evidence/{id}.json"),
        only_phase: None,
        only_case: None,
        t0: core::now_epoch(),
        scale: 1.0,
        repo: "/repo".into(),
    };
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap_or_else(|| panic!("{k} needs a value"));
        match k.as_str() {
            "--tier" => o.thorough = v() == "thorough",
            "--seed" => o.seed = v().parse().unwrap_or(1),
            "--verif" => o.verif = v(),
            "--walky" => o.walky = v(),
            "--walky-mpi" => o.walky_mpi = v(),
            "--walky-bench" => o.walky_bench = v(),
            "--gen-fast" => o.gen_fast = v(),
            "--shim" => o.shim = v(),
            "--evidence" => o.evidence = v(),
            "--phase" => o.only_phase = Some(v()),
            "--case" => o.only_case = v().parse().ok(),
            "--t0" => o.t0 = v().parse().unwrap_or(o.t0),
            "--scale" => o.scale = v().parse().unwrap_or(1.0),
            _ => {
                eprintln!("unknown option {k}");
                std::process::exit(2);
            }
        }
    }
    if !o.thorough {
        // cheap checks look at more cases
        o.scale *= match o.id.as_str() {
            "C12" | "C17" => 12.0,
            "C10" => 6.0,
            "C24" | "C13" | "C28" => 10.0,
            "C18" | "C30" => 8.0,
            "C07" => 3.0,
            "C04" | "C05" | "C31" => 5.0,
            "C09" | "C15" | "C16" => 4.0,
            "C11" | "C14" => 3.0,
            "C06" | "C08" | "C22" => 2.0,
            _ => 1.0,
        };
    }
    core::install_panic_hook();
    getrandom::det_global_seed(o.seed);
    rayon::ThreadPoolBuilder::new().num_threads(8).build_global().expect("thread pool");
    let budget = Duration::from_secs(if o.thorough { 700 } else { 200 });
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(o, budget)));
    std::thread::spawn(|| ctx.watchdog());
    let (rule, ass) = props::run(&ctx.o.id, ctx);
    let code = ctx.finish(rule, &ass);
    props::parse::cleanup();
    std::process::exit(code);
}
