#[cfg(feature = "full")]
mod c_ctl;
#[cfg(feature = "full")]
mod ctl;
#[cfg(feature = "full")]
mod c_effect;
#[cfg(feature = "full")]
mod eff;
#[cfg(feature = "full")]
mod calls;
#[cfg(feature = "full")]
mod c_native;
#[cfg(feature = "full")]
mod c_clo;
#[cfg(feature = "full")]
mod c_ready;
#[cfg(feature = "full")]
mod clo;
#[cfg(feature = "full")]
mod c_det;
#[cfg(feature = "full")]
mod rcgen;
#[cfg(feature = "full")]
mod rcvm;
mod c_graph;
mod c_layout;
mod c_opt;
mod c_pass;
mod c_rewrite;
mod c_intern;
mod c_rt;
mod c_text;
mod c_valid;
#[cfg(feature = "full")]
mod c_wasm;
mod drv;
mod integrity;
mod interp;
mod irgen;
#[cfg(feature = "full")]
mod nat;
#[cfg(feature = "full")]
mod pipeline;
mod progen;
mod rng;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(feature = "full")]
    if a.len() > 4 && a[1] == "natcmp" {
        // natcmp FILE BITS MEM: compile FILE natively, run and compare with the reference
        let t = std::fs::read_to_string(&a[2]).unwrap();
        std::process::exit(c_native::natcmp(&t, a[3].parse().unwrap(), a[4] == "1"));
    }
    #[cfg(feature = "full")]
    if a.len() > 4 && a[1] == "rccount" {
        // rccount BITS INLINE FILE
        let t = std::fs::read_to_string(&a[4]).unwrap();
        std::process::exit(c_native::rccount(&t, a[2].parse().unwrap(), a[3] == "1"));
    }
    #[cfg(feature = "full")]
    if a.len() > 2 && a[1] == "wasmcmp" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        std::process::exit(c_wasm::wasmcmp(&t));
    }
    #[cfg(feature = "full")]
    if a.len() > 2 && a[1] == "effone" {
        std::process::exit(c_effect::effone(a[2].parse().unwrap()));
    }
    #[cfg(feature = "full")]
    if a.len() > 2 && a[1] == "efffile" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        std::process::exit(c_effect::efffile(&t));
    }
    #[cfg(feature = "full")]
    if a.len() > 2 && a[1] == "effcmp" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        std::process::exit(c_effect::effcmp(&t));
    }
    #[cfg(feature = "full")]
    if a.len() > 2 && a[1] == "ptwice" {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut c = trunk_ir::IrContext::new();
            let m = trunk_ir::parser::parse_module(&mut c, &t).unwrap();
            let x = trunk_ir::printer::print_module(&c, m);
            std::fs::write("/tmp/pt1", &x).unwrap();
            let mut c = trunk_ir::IrContext::new();
            let m = trunk_ir::parser::parse_module(&mut c, &x).unwrap();
            std::fs::write("/tmp/pt2", trunk_ir::printer::print_module(&c, m)).unwrap();
            return;
        }
    #[cfg(feature = "full")]
    if a.len() > 2 && a[1] == "ctlone" {
        std::process::exit(c_ctl::ctlone(a[2].parse().unwrap()));
    }
    #[cfg(feature = "full")]
    if a.len() > 2 && a[1] == "cloone" {
        std::process::exit(c_clo::cloone(a[2].parse().unwrap()));
    }
    #[cfg(feature = "full")]
    if a.len() > 5 && a[1] == "detone" {
        std::process::exit(c_det::detone(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()));
    }
    if a.len() < 4 || a[1] != "check" {
        eprintln!("usage: vharness check PROPERTY quick|thorough [case]");
        std::process::exit(2);
    }
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let work = format!("{}/run/{}", env("VH_WORK", "/verif/.work"), a[2]);
    let shard: Option<u64> = std::env::var("VH_SHARD").ok().and_then(|s| s.parse().ok());
    if shard.is_none() {
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(&work).unwrap();
    }
    let tier = a[3].clone();
    let cap = env("VH_CAP", if tier == "thorough" { "3000" } else { "420" }).parse().unwrap_or(420);
    let cfg = drv::Cfg {
        prop: a[2].clone(),
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        work,
        evidence: env("VH_EVIDENCE", "/verif/evidence"),
        only: a.get(4).and_then(|s| s.parse().ok()),
        cap: Duration::from_secs(cap),
        start: Instant::now(),
        tier,
        shard: shard.unwrap_or(0),
        shards: env("VH_SHARDS", "8").parse().unwrap_or(8),
    };
    std::fs::create_dir_all(&cfg.evidence).unwrap();
    if shard.is_none() {
        drv::orchestrate(&cfg);
    }
    drv::install_hook();
    drv::run_child(&cfg, run)
}

fn run(cfg: &drv::Cfg) -> drv::Stats {
    match cfg.prop.as_str() {
        "C01" => c_opt::check_opt(cfg),
        "C02" => c_opt::check_scf(cfg),
        #[cfg(feature = "full")]
        "C03" => c_native::check_native(cfg),
        #[cfg(feature = "full")]
        "C04" => c_native::check_memory(cfg),
        "C05" => c_text::check_round_trip(cfg),
        "C06" => c_text::check_parser(cfg),
        "C07" => c_graph::check_graph(cfg),
        "C08" => c_valid::check_valid(cfg),
        "C09" => c_rewrite::check_rewrite(cfg),
        #[cfg(feature = "full")]
        "C11" => c_wasm::check_wasm(cfg),
        #[cfg(feature = "full")]
        "C18" => c_clo::check_closures(cfg),
        #[cfg(feature = "full")]
        "C19" => c_ready::check_ready(cfg),
        #[cfg(feature = "full")]
        "C17" => c_det::check_det(cfg),
        #[cfg(feature = "full")]
        "C12" => c_effect::check_effect(cfg),
        #[cfg(feature = "full")]
        "C20" => c_ctl::check_control(cfg),
        "C13" => c_layout::check_layout(cfg),
        "C16" => c_intern::check_intern(cfg),
        "C14" => c_rt::check_runtime(cfg),
        "C15" => c_rt::check_bytes(cfg),
        "C10" => c_pass::check_pass(cfg),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(3);
        }
    }
}
