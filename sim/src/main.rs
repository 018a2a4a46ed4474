//! Deterministic simulation of rust-systre with fault injection.

#[cfg(systre_sim_without = "cgd")]
mod debugtext;
mod callers;
mod frac;
mod iosim;
mod netgen;
mod netmodel;
mod rng;
mod runner;
#[cfg(any(not(sim_part_only), sim_with = "cgd"))]
mod s_cgd;
#[cfg(any(not(sim_part_only), sim_with = "graph"))]
mod s_edges;
#[cfg(any(not(sim_part_only), sim_with = "graph"))]
mod s_graph;
#[cfg(any(not(sim_part_only), sim_with = "spaces"))]
mod s_group;
#[cfg(any(not(sim_part_only), sim_with = "spaces"))]
mod s_linalg;
#[cfg(any(not(sim_part_only), sim_with = "spaces"))]
mod s_maps;
#[cfg(any(not(sim_part_only), sim_with = "spaces"))]
mod s_mats;
#[cfg(not(sim_part_only))]
mod s_mix;
#[cfg(any(not(sim_part_only), sim_with = "part"))]
mod s_part;
#[cfg(any(not(sim_part_only), sim_with = "spaces"))]
mod s_settings;
#[cfg(any(not(sim_part_only), all(sim_with = "graph", sim_with = "table")))]
mod s_sink;
#[cfg(any(not(sim_part_only), sim_with = "table"))]
mod s_table;
mod sched;
mod seam;
mod shrink;

use std::path::PathBuf;

use runner::{Prop, Tier};

static TABLES: &[&[Prop]] = &[
    #[cfg(any(not(sim_part_only), sim_with = "cgd"))]
    &s_cgd::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "table"))]
    &s_table::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "graph"))]
    &s_graph::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "part"))]
    &s_part::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "spaces"))]
    &s_group::PROPS,
    #[cfg(any(not(sim_part_only), all(sim_with = "graph", sim_with = "table")))]
    &s_sink::PROPS,
    #[cfg(not(sim_part_only))]
    &s_mix::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "spaces"))]
    &s_linalg::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "spaces"))]
    &s_maps::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "spaces"))]
    &s_mats::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "spaces"))]
    &s_settings::PROPS,
    #[cfg(any(not(sim_part_only), sim_with = "graph"))]
    &s_edges::PROPS,
];

fn prop(id: &str) -> &'static Prop {
    TABLES.iter().flat_map(|t| t.iter()).find(|p| p.id == id)
        .unwrap_or_else(|| runner::harness_error(&format!("no property {}", id)))
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(default)
}

fn main() {
    seam::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| -> &str { args.get(i).map(|s| &s[..]).unwrap_or("") };
    let num = |i: usize| -> u64 { arg(i).parse().unwrap_or(0) };
    let seed = env_u64("VERIF_SEED", 1);
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let code = match arg(1) {
        "check" => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            runner::check(prop(arg(2)), tier, seed, &verif)
        }
        "worker" => runner::worker(prop(arg(2)), num(3), num(4), num(5), num(6), &PathBuf::from(arg(7))),
        "exec-one" => runner::exec_one(prop(arg(2)), arg(3)),
        "minimize" => runner::minimize_cmd(prop(arg(2)), arg(3), arg(4), arg(5)),
        "replay" => {
            let text = std::fs::read_to_string(arg(2)).expect("replay file");
            let rec: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            runner::replay(prop(rec["property"].as_str().unwrap_or("")), &rec, arg(2))
        }
        "dump" => {
            println!("{}", serde_json::to_string_pretty(&runner::generate(prop(arg(2)), seed, num(3))).unwrap());
            0
        }
        "determinism" => {
            // determinism RUNS [PROP...]: for many seeds, compare event logs
            let mut ok = true;
            for t in TABLES.iter().flat_map(|t| t.iter()) {
                if args.len() <= 3 || args[3..].iter().any(|a| a == t.id) {
                    for s in 0..env_u64("SIM_SEEDS", 3) {
                        ok &= runner::determinism(t, seed + s, num(2));
                    }
                }
            }
            if ok { 0 } else { 1 }
        }
        #[cfg(not(sim_part_only))]
        "transcript" => s_mix::transcript(),
        "list" => {
            for t in TABLES.iter().flat_map(|t| t.iter()) {
                println!("{}", t.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | dump PROP INDEX | determinism RUNS [PROP...] | list");
            2
        }
    };
    std::process::exit(code);
}
