#[path = "../../common/rt.rs"] mod rt;
#[path = "../../common/stats.rs"] mod stats;
#[path = "../../common/drive.rs"] mod drive;
#[path = "../../common/guard.rs"] mod guard;
mod abs; mod model; mod world; mod mon; mod gen; mod special;
use drive::Run;

fn is_special(n: &str) -> bool { matches!(n, "init" | "codec" | "slab" | "ring" | "bigslab" | "bigring" | "chaos") }

fn run(name: &str, seed: u64, log: bool, prop: &str) -> Run {
    rt::take_ub();
    let mut r = run_(name, seed, log, prop);
    r.st.rel("C23", mon::hash(&(name, seed)), || format!("workload {} seed {}", name, seed));
    if let Some(m) = rt::take_ub() { r.viols.push(mon::Viol { props: vec!["C23", "C19"], msg: format!("undefined behaviour reached: {}", m) }) }
    r
}
fn run_(name: &str, seed: u64, log: bool, prop: &str) -> Run {
    if is_special(name) {
        let o = match name { "init" => special::init_market(seed), "codec" => special::codec(seed), "slab" | "bigslab" => special::slab(seed, name == "bigslab"), "ring" | "bigring" => special::ring(seed, name == "bigring"), _ => special::chaos(seed, 200) };
        return Run { st: o.st, viols: o.viols, log: o.log };
    }
    let m = gen::history(name, seed, log, &|m| m.viols.iter().any(|v| prop.is_empty() || v.props.contains(&prop)));
    Run { st: m.st, viols: m.viols, log: m.log }
}

/// histories per second and thread-pool on the reference machine
fn rate(n: &str) -> u64 {
    match n {
        "base" => 500, "self" => 590, "tamper" => 640, "evict" => 110, "full" => 300, "crank" => 530, "extreme" => 690, "admin" => 1100, "disabled" => 1300,
        "cancel" => 500, "replace" => 320, "fees" => 520, "take" => 480, "many" => 64, "slots" => 200, "crowd" => 40, "lifecycle" => 660,
        "init" => 4000, "codec" => 10000, "slab" => 40000, "ring" => 60000, "bigslab" => 180, "bigring" => 150, "chaos" => 700,
        _ => 100,
    }
}

/// the focused plan of a property plus a share of the workloads it does not name
fn plan(p: &str) -> Vec<(&'static str, u64)> {
    let mut v: Vec<(&'static str, u64)> = focus(p).into_iter().map(|(n, k)| (n, k * 6)).collect();
    if !matches!(p, "C15" | "C18" | "C19" | "C23") {
        for n in ["many", "crowd"] { if !v.iter().any(|x| x.0 == n) { v.push((n, 1)) } }
        for n in ["base", "self", "tamper", "evict", "full", "crank", "extreme", "admin", "disabled", "cancel", "replace", "fees", "take", "lifecycle", "slots"] {
            if !v.iter().any(|x| x.0 == n) { v.push((n, 2)) }
        }
    }
    v
}
fn focus(p: &str) -> Vec<(&'static str, u64)> {
    match p {
        "C01" => vec![("base", 3), ("fees", 2), ("extreme", 2), ("full", 1), ("take", 2), ("self", 1), ("tamper", 2), ("replace", 1)],
        "C02" => vec![("slots", 1), ("base", 3), ("crank", 2), ("self", 2), ("extreme", 2), ("full", 1), ("replace", 1), ("cancel", 1), ("evict", 1)],
        "C03" => vec![("tamper", 5), ("cancel", 2), ("base", 2), ("admin", 1), ("lifecycle", 1), ("chaos", 1)],
        "C04" => vec![("admin", 5), ("tamper", 4), ("lifecycle", 2), ("disabled", 1)],
        "C05" => vec![("base", 3), ("take", 2), ("full", 2), ("crank", 1), ("many", 1), ("crowd", 1), ("replace", 1), ("extreme", 1)],
        "C06" => vec![("take", 4), ("base", 3), ("extreme", 3), ("fees", 1), ("self", 1)],
        "C07" => vec![("slots", 1), ("base", 2), ("many", 2), ("evict", 2), ("full", 1), ("cancel", 2), ("self", 1), ("crank", 1)],
        "C08" => vec![("base", 4), ("replace", 2), ("full", 2), ("self", 1), ("extreme", 1)],
        "C09" => vec![("slots", 2), ("self", 8), ("base", 1), ("replace", 1)],
        "C10" => vec![("slots", 1), ("crowd", 1), ("crank", 4), ("full", 3), ("ring", 1), ("bigring", 1), ("tamper", 1), ("self", 1), ("disabled", 1)],
        "C11" => vec![("fees", 5), ("take", 2), ("admin", 2), ("crank", 1), ("extreme", 1), ("tamper", 1)],
        "C12" => vec![("slots", 1), ("cancel", 6), ("admin", 2), ("many", 1), ("tamper", 1), ("disabled", 1)],
        "C13" => vec![("replace", 8), ("cancel", 2)],
        "C14" => vec![("tamper", 8), ("chaos", 1), ("admin", 1)],
        "C15" => vec![("init", 6), ("admin", 1), ("base", 1)],
        "C16" => vec![("disabled", 6), ("admin", 4)],
        "C17" => vec![("lifecycle", 6), ("admin", 2), ("disabled", 1), ("tamper", 1)],
        "C18" => vec![("codec", 8), ("base", 2), ("replace", 1)],
        "C19" => vec![("slab", 7), ("bigslab", 2), ("evict", 1), ("many", 1)],
        "C20" => vec![("evict", 7), ("crowd", 1), ("slab", 1), ("bigslab", 1)],
        "C21" => vec![("disabled", 3), ("base", 3), ("cancel", 2), ("lifecycle", 2), ("crank", 1), ("extreme", 1)],
        "C22" => vec![("slots", 1), ("base", 3), ("self", 2), ("full", 2), ("crank", 1), ("evict", 1), ("cancel", 1), ("fees", 1), ("replace", 1)],
        "C23" => vec![("chaos", 6), ("slab", 1), ("ring", 1), ("codec", 1), ("extreme", 1), ("evict", 1), ("full", 1)],
        _ => panic!("unknown property {}", p),
    }
}

fn main() {
    rt::install();
    drive::main(drive::Harness { setup: world::setup_thread, run, rate, plan });
}
