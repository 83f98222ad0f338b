//! Pool programs (and the small owner-assertion program): every request is
//! judged against the pool rules, restated independently.
#![allow(dead_code)]
#[path = "../../common/rt.rs"] mod rt;
#[path = "../../common/stats.rs"] mod stats;
#[path = "../../common/drive.rs"] mod drive;
#[path = "../../common/guard.rs"] mod guard;
#[path = "../../dex/src/abs.rs"] mod abs;
mod abi;
mod pool;
#[cfg(feature = "owner")] mod owner;

fn run(name: &str, seed: u64, log: bool, prop: &str) -> drive::Run {
    match name {
        "fees" => pool::fees(seed),
        #[cfg(feature = "owner")] "owner" => owner::run(seed),
        _ => pool::history(name, seed, log, prop),
    }
}
fn rate(n: &str) -> u64 { match n { "fees" => 20000, "owner" => 4000, "init" => 3000, "admin" => 500, _ => 500 } }
fn plan(p: &str) -> Vec<(&'static str, u64)> {
    match p {
        "L01" => vec![("trade", 4), ("attack", 1)],
        "L02" => vec![("trade", 2), ("fees", 1), ("attack", 1)],
        "L03" => vec![("init", 2), ("attack", 3)],
        "L04" => vec![("admin", 1)],
        _ => vec![("owner", 1)],
    }
}
fn setup() {
    rt::register(spl_token::ID, pool::token_program);
    rt::register(pool::SIMPLE, pool::simple_program);
    rt::register(pool::PARAM, pool::param_program);
    rt::register(pool::RETBUF, pool::retbuf_program);
    #[cfg(feature = "admin")] rt::register(pool::ADMIN, pool::admin_program);
    #[cfg(feature = "owner")] rt::register(owner::OWNERP, owner::program);
}
fn main() {
    rt::install();
    drive::main(drive::Harness { setup, run, rate, plan });
}
