//! Permissioned-market proxy: every proxied transaction is compared with the
//! equivalent direct one, and a recording middleware observes the pipeline.
#![allow(dead_code)]
#[path = "../../common/rt.rs"] mod rt;
#[path = "../../common/stats.rs"] mod stats;
#[path = "../../common/drive.rs"] mod drive;
#[path = "../../common/guard.rs"] mod guard;
#[path = "../../dex/src/abs.rs"] mod abs;
#[path = "../../dex/src/model.rs"] mod model;
#[path = "../../dex/src/world.rs"] mod world;
mod sim;

fn run(name: &str, seed: u64, log: bool, prop: &str) -> drive::Run { sim::history(name, seed, log, prop) }
fn rate(n: &str) -> u64 { match n { "relay" => 400, "attack" => 450, _ => 100 } }
fn plan(p: &str) -> Vec<(&'static str, u64)> {
    match p {
        "P01" => vec![("attack", 3), ("relay", 1)],
        _ => vec![("relay", 2), ("attack", 1)],
    }
}
fn setup() {
    world::setup_thread();
    rt::register(rt::GROW_MARK, world::evil_program);
    rt::register(sim::PROXY, sim::proxy_program);
    rt::register(sim::PROXY_PLAIN, sim::proxy_plain);
}
fn main() {
    rt::install();
    drive::main(drive::Harness { setup, run, rate, plan });
}
