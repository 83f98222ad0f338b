//! Harness for the crank: the real service and the real client commands against
//! a fake node in front of the real exchange program.
#![allow(dead_code)]
#[path = "../../common/rt.rs"] mod rt;
#[path = "../../common/stats.rs"] mod stats;
#[path = "../../common/drive.rs"] mod drive;
#[path = "../../common/guard.rs"] mod guard;
#[path = "../../dex/src/abs.rs"] mod abs;
#[path = "../../dex/src/model.rs"] mod model;
#[path = "../../dex/src/world.rs"] mod world;
#[path = "../../dex/src/mon.rs"] mod mon;
#[path = "../../dex/src/gen.rs"] mod gen;
mod chain;
mod child;
mod cmd;
mod svc;
mod virt;

fn run(name: &str, seed: u64, keep: bool, _prop: &str) -> drive::Run {
    match name {
        "service" | "faults" => svc::history(name, seed, keep),
        "commands" | "shebang" | "monitor" => cmd::history(name, seed, keep),
        _ => panic!("unknown workload {}", name),
    }
}
fn rate(n: &str) -> u64 { match n { "monitor" => 80, "shebang" => 40, "commands" => 12, _ => 8 } }
fn plan(p: &str) -> Vec<(&'static str, u64)> { if p == "K02" { vec![("commands", 20), ("monitor", 1), ("shebang", 1)] } else { vec![("service", 3), ("faults", 1)] } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "child") { child::main(&a[2..]) }
    rt::install();
    drive::main(drive::Harness { setup: chain::setup, run, rate, plan })
}
