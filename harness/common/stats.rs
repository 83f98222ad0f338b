//! What the monitors observed, and what they objected to.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub struct Viol { pub props: Vec<&'static str>, pub msg: String }

thread_local! { static SEEN: std::cell::RefCell<Vec<Viol>> = std::cell::RefCell::new(vec![]); }
/// keeps a copy of every objection outside the history, so that none is lost should the history be cut short
pub fn note(v: &Viol) { SEEN.with(|s| { let mut s = s.borrow_mut(); if s.len() < 400 { s.push(v.clone()) } }) }
pub fn take_noted() -> Vec<Viol> { SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) }

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub histories: u64,
    pub ops: BTreeMap<&'static str, [u64; 2]>, // attempts, successes
    pub why: BTreeMap<&'static str, u64>,
    pub ev: BTreeMap<&'static str, u64>,
    pub relevant: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub distinct: HashMap<&'static str, HashSet<u64>>,
    pub samples: BTreeMap<&'static str, Vec<String>>,
}
pub const SET_CAP: usize = 400_000;
const MERGE_CAP: usize = 4_000_000; // counts beyond this are lower bounds
impl Stats {
    pub fn bump(&mut self, k: &'static str) { *self.ev.entry(k).or_insert(0) += 1 }
    pub fn add(&mut self, k: &'static str, n: u64) { *self.ev.entry(k).or_insert(0) += n }
    pub fn rel(&mut self, p: &'static str, h: u64, sample: impl FnOnce() -> String) {
        *self.relevant.entry(p).or_insert(0) += 1;
        let s = self.distinct.entry(p).or_default();
        if s.len() < SET_CAP { s.insert(h); }
        let v = self.samples.entry(p).or_default();
        if v.len() < 4 { let t = sample(); if !v.contains(&t) { v.push(t) } }
    }
    pub fn merge(&mut self, o: Stats) {
        self.steps += o.steps;
        self.histories += o.histories;
        for (k, v) in o.ops { let e = self.ops.entry(k).or_insert([0; 2]); e[0] += v[0]; e[1] += v[1]; }
        for (k, v) in o.why { *self.why.entry(k).or_insert(0) += v }
        for (k, v) in o.ev { *self.ev.entry(k).or_insert(0) += v }
        for (k, v) in o.relevant { *self.relevant.entry(k).or_insert(0) += v }
        if self.states.len() < MERGE_CAP { self.states.extend(o.states) }
        for (k, v) in o.distinct { let e = self.distinct.entry(k).or_default(); if e.len() < MERGE_CAP { e.extend(v) } }
        for (k, v) in o.samples { let e = self.samples.entry(k).or_default(); for s in v { if e.len() < 6 { e.push(s) } } }
    }
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

