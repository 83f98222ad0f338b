//! Driver shared by the harness binaries: runs seeded workloads on all cores,
//! stops at the first violation of the property asked about, writes a replay
//! file and a JSON summary of what the monitors observed.
use crate::stats::{take_noted, Stats, Viol};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Run { pub st: Stats, pub viols: Vec<Viol>, pub log: Vec<String> }
pub struct Harness {
    pub setup: fn(),
    pub run: fn(&str, u64, bool, &str) -> Run,
    pub rate: fn(&str) -> u64,
    pub plan: fn(&str) -> Vec<(&'static str, u64)>,
}

pub fn seed_for(base: u64, name: &str, i: u64) -> u64 {
    let mut r = crate::rt::Rng::new(base.wrapping_mul(0x1000_0001).wrapping_add(i));
    for b in name.bytes() { r.0 = r.0.rotate_left(7) ^ b as u64; r.u64(); }
    r.u64()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => { let _ = write!(o, "\\u{:04x}", (c as u32).min(0xffff)); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<&'static str, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")) }

fn opt(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }

pub fn main(h: Harness) {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&h, &a),
        Some("replay") => replay(&h, &a[2]),
        Some("probe") => probe(&h, &a),
        _ => { eprintln!("usage: check PROP --seed S --budget SECONDS --cap SECONDS --json OUT --replay FILE | replay FILE | probe WORKLOAD SECONDS [SEED]"); std::process::exit(2) }
    }
}

/// One history. If the monitors themselves cannot make sense of what they see,
/// the objections raised up to that point still count.
fn guarded(h: &Harness, name: &str, seed: u64, log: bool, prop: &str) -> Run {
    take_noted();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (h.run)(name, seed, log, prop))) {
        Ok(r) => { take_noted(); r }
        Err(_) => {
            let mut st = Stats::default();
            st.histories = 1;
            st.bump("histories cut short");
            Run { st, viols: take_noted(), log: vec![format!("history cut short: {}", crate::rt::last_panic())] }
        }
    }
}

fn check(h: &Harness, a: &[String]) {
    let prop: &'static str = Box::leak(a[2].clone().into_boxed_str());
    let seed: u64 = opt(a, "--seed").map_or(1, |s| s.parse().unwrap());
    let budget: u64 = opt(a, "--budget").map_or(20, |s| s.parse().unwrap());
    let cap: u64 = opt(a, "--cap").map_or(4 * budget, |s| s.parse().unwrap());
    let threads: usize = opt(a, "--threads").map_or(8, |s| s.parse().unwrap());
    let slow: u64 = opt(a, "--slowdown").map_or(1, |s| s.parse().unwrap());
    let plan = match opt(a, "--plan") {
        Some(s) => s.split(',').map(|x| { let (n, k) = x.split_once(':').unwrap(); (&*Box::leak(n.to_string().into_boxed_str()), k.parse().unwrap()) }).collect(),
        None => (h.plan)(prop),
    };
    let share: u64 = plan.iter().map(|p| p.1).sum();
    let counts: Vec<u64> = plan.iter().map(|(n, s)| ((h.rate)(n) * budget * s / share / slow).max(8)).collect();
    // an even interleaving of the workloads
    let total: u64 = counts.iter().sum();
    let mut sched: Vec<(usize, u64)> = Vec::with_capacity(total as usize);
    for (w, c) in counts.iter().enumerate() { for i in 0..*c { sched.push((w, i)) } }
    sched.sort_by(|x, y| ((x.1 as u128 + 1) * counts[y.0] as u128).cmp(&((y.1 as u128 + 1) * counts[x.0] as u128)).then(x.0.cmp(&y.0)));
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let all: Mutex<(Stats, Option<(u64, String, u64, Vec<Viol>)>)> = Mutex::new((Stats::default(), None));
    let per: Vec<AtomicU64> = plan.iter().map(|_| AtomicU64::new(0)).collect();
    let other = AtomicU64::new(0);
    let cut: Mutex<(u64, String)> = Mutex::new((0, String::new()));
    // development only: everything any monitor objects to, by property
    let seen: Mutex<BTreeMap<&'static str, (u64, String)>> = Mutex::new(BTreeMap::new());
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                (h.setup)();
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total || stop.load(Ordering::Relaxed) { break }
                    if t0.elapsed() > Duration::from_secs(cap) { capped.store(true, Ordering::Relaxed); break }
                    let (w, k) = sched[i as usize];
                    let sd = seed_for(seed, plan[w].0, k);
                    let r = guarded(h, plan[w].0, sd, false, prop);
                    if r.viols.is_empty() && !r.log.is_empty() && r.log[0].starts_with("history cut short") { let mut c = cut.lock().unwrap(); c.0 += 1; c.1 = format!("{} {}: {}", plan[w].0, sd, r.log[0]); }
                    per[w].fetch_add(1, Ordering::Relaxed);
                    st.merge(r.st);
                    if prop == "ANY" { let mut m = seen.lock().unwrap(); for v in &r.viols { for q in &v.props { m.entry(*q).or_insert((0, format!("{} {}: {}", plan[w].0, sd, v.msg))).0 += 1 } } }
                    let mine: Vec<Viol> = r.viols.iter().filter(|v| v.props.contains(&prop)).cloned().collect();
                    if mine.len() < r.viols.len() { other.fetch_add(1, Ordering::Relaxed); }
                    if !mine.is_empty() {
                        let mut g = all.lock().unwrap();
                        if g.1.as_ref().map_or(true, |x| i < x.0) { g.1 = Some((i, plan[w].0.to_string(), sd, mine)) }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                all.lock().unwrap().0.merge(st);
            });
        }
    });
    let (st, found) = all.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    if let Some((_, w, sd, v)) = &found {
        (h.setup)();
        let r = guarded(h, w, *sd, true, prop);
        let mut out = String::new();
        let _ = writeln!(out, "workload {}\nseed {}\nproperty {}", w, sd, prop);
        for x in v.iter().take(6) { let _ = writeln!(out, "violation {:?} {}", x.props, x.msg.replace('\n', " ")); }
        let _ = writeln!(out, "--- history (last 40 of {} entries)", r.log.len());
        for l in r.log.iter().take(1) { let _ = writeln!(out, "{}", l); }
        for l in r.log.iter().skip(1.max(r.log.len().saturating_sub(40))) { let _ = writeln!(out, "{}", l); }
        if let Some(f) = opt(a, "--replay") { std::fs::write(f, out).unwrap() }
        println!("first violation: {}", v[0].msg);
    }
    if let Some(f) = opt(a, "--json") {
        let ops = st.ops.iter().map(|(k, v)| format!("{}: [{}, {}]", js(k), v[0], v[1])).collect::<Vec<_>>().join(", ");
        let samples = st.samples.get(prop).cloned().unwrap_or_default();
        let j = format!(
            "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"transactions\": {}, \"histories\": {}, \"distinct_states\": {}, \"histories_by_workload\": {{{}}}, \"operations_attempted_succeeded\": {{{}}}, \"refusals_by_reason\": {}, \"observed\": {}, \"time_capped\": {}, \"histories_with_violations_of_other_properties\": {}, \"wall\": {:.2}, \"violated\": {}}}",
            st.relevant.get(prop).cloned().unwrap_or(0), st.distinct.get(prop).map_or(0, |s| s.len()), samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            st.steps, st.histories, st.states.len(),
            plan.iter().zip(&per).map(|(p, c)| format!("{}: {}", js(p.0), c.load(Ordering::Relaxed))).collect::<Vec<_>>().join(", "),
            ops, jmap(&st.why), jmap(&st.ev), capped.load(Ordering::Relaxed), other.load(Ordering::Relaxed), wall, found.is_some()
        );
        std::fs::write(f, j).unwrap();
    }
    for (p, (n, m)) in seen.into_inner().unwrap() { println!("ANY {} {} {}", p, n, m.replace('\n', " ")) }
    let cut = cut.into_inner().unwrap();
    if cut.0 > 0 { eprintln!("{} histories could not be judged to the end, last: {}", cut.0, cut.1) }
    std::process::exit(if found.is_some() { 1 } else if cut.0 > 0 { 3 } else { 0 });
}

fn replay(h: &Harness, f: &str) {
    let t = std::fs::read_to_string(f).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).expect("malformed replay file").trim().to_string();
    let (w, sd, p) = (get("workload "), get("seed ").parse::<u64>().unwrap(), get("property "));
    (h.setup)();
    let r = guarded(h, &w, sd, true, &p);
    for l in &r.log { println!("{}", l) }
    let mut n = 0;
    for v in r.viols.iter() { println!("{} {:?} {}", if v.props.contains(&p.as_str()) { n += 1; "VIOLATED" } else { "other" }, v.props, v.msg) }
    std::process::exit(if n > 0 { 1 } else { 0 });
}

fn probe(h: &Harness, a: &[String]) {
    let secs: u64 = a[3].parse().unwrap();
    let base: u64 = a.get(4).map_or(1, |x| x.parse().unwrap());
    let next = AtomicU64::new(0);
    let all = Mutex::new((Stats::default(), vec![]));
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| {
        (h.setup)();
        let mut st = Stats::default();
        while t0.elapsed() < Duration::from_secs(secs) && !stop.load(Ordering::Relaxed) {
            let i = next.fetch_add(1, Ordering::Relaxed);
            let seed = seed_for(base, &a[2], i);
            let m = guarded(h, &a[2], seed, false, "");
            if !m.log.is_empty() && m.log[0].starts_with("history cut short") { println!("seed {}: {}", seed, m.log[0]); stop.store(true, Ordering::Relaxed) }
            st.merge(m.st);
            if !m.viols.is_empty() { let mut g = all.lock().unwrap(); if g.1.len() < 10 { g.1.push((seed, m.viols)); } stop.store(g.1.len() >= 3, Ordering::Relaxed); }
        }
        all.lock().unwrap().0.merge(st);
    }); } });
    let g = all.lock().unwrap();
    println!("{} histories {} steps, {:?}, {} per s", g.0.histories, g.0.steps, t0.elapsed(), g.0.histories as f64 / t0.elapsed().as_secs_f64());
    println!("{:?}\n{:?}\n{:?}\n{:?} states {}", g.0.ops, g.0.why, g.0.ev, g.0.relevant, g.0.states.len());
    for (s, v) in &g.1 { println!("seed {}", s); for x in v.iter().take(4) { println!("   {:?} {}", x.props, x.msg) } }
}
