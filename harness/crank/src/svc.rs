//! The crank service, run as its own process against the fake node while the
//! market trades; every round (from one look at the event queue to the next) is
//! judged by what the node saw.
use crate::chain::*;
use crate::gen;
use crate::mon::Mon;
use crate::rt::*;
use crate::stats::*;
use crate::virt::Shared;
use crate::world::*;
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use std::collections::{BTreeSet, HashSet};
use std::sync::{Arc, Mutex};

const SURE: usize = 24; // this many order accounts always fit into one packet

#[derive(Clone, Debug)]
pub struct Cfg { workers: usize, per: usize, accounts: Option<usize>, maxq: Option<u64>, wait: Option<u64>, faults: bool, rounds: u32 }

#[derive(Default)]
struct Round { slot: u64, len: usize, owners: Vec<Pubkey>, poll: u64, first: Option<u64>, last: u64, tries: usize, sends: usize, faults: u32, consumed: usize, dups: usize, disturbed: bool, max_ok: u64, accepted: bool }

pub struct Svc {
    g: gen::Gen, mon: Mon, r: Rng, c: Cfg, clock: i64, time: Shared,
    payer: Pubkey, slot: u64, hash: solana_sdk::hash::Hash, sigs: HashSet<solana_sdk::signature::Signature>,
    cur: Option<Round>, last_reply: Option<(Value, u64, usize, Vec<Pubkey>, u64)>,
    left: u32, max_ok: u64, lo: Option<u64>, hi: Option<u64>, dups: usize, chance: f64,
    pub done: bool, pub requests: u64, viols: Vec<Viol>, log: Vec<String>, st: Stats, keep: bool,
}

impl Svc {
    fn v(&mut self, m: String) { if self.viols.len() < 20 { self.viols.push(Viol { props: vec!["K01"], msg: m }) } }
    fn note(&mut self, s: String) { if self.keep && self.log.len() < 4000 { self.log.push(s) } }
    fn evq_key(&self) -> Pubkey { self.mon.w.mk[0].event_q }

    /// the market moves on: orders, cancellations and settlements by its users, now and then another crank
    fn trade(&mut self, n: u64) -> bool {
        let mut foreign = false;
        for _ in 0..n {
            let op = self.g.op(&mut self.mon);
            match op { Op::Close { .. } => continue, Op::Consume { .. } => if self.r.chance(19, 20) { continue }, _ => {} }
            let (ix, _) = self.mon.w.build(&op);
            let ok = exec(&mut self.mon.w.l, &[ix]).is_ok();
            if ok { self.st.bump("market operations"); if let Op::Consume { .. } = op { foreign = true } }
        }
        foreign
    }

    /// what a consumption of the oldest k events by an honest crank does
    fn honest(&self, l: &Ledger, k: usize) -> Result<Ledger, String> {
        let mk = &self.mon.w.mk[0];
        let q = evq(l, &mk.event_q)?;
        let owners: BTreeSet<[u64; 4]> = q.evs.iter().take(k).map(|e| aligned(&e.owner)).collect();
        let mut accounts: Vec<AccountMeta> = owners.iter().map(|o| AccountMeta::new(unaligned(o), false)).collect();
        for x in [mk.key, mk.event_q, mk.coin_vault, mk.pc_vault] { accounts.push(AccountMeta::new(x, false)) }
        let mut data = vec![0u8, 3, 0, 0, 0];
        data.extend_from_slice(&(k as u16).to_le_bytes());
        let mut l = l.clone();
        exec(&mut l, &[Instruction { program_id: DEX, accounts, data }]).map_err(|e| format!("{:?}", e))?;
        Ok(l)
    }

    fn close_round(&mut self, now: u64) {
        let Some(c) = self.cur.take() else { return };
        let wait = self.c.wait.unwrap_or(60) * 1_000_000_000;
        let maxq = self.c.maxq.unwrap_or(1);
        let t_hi = c.first.unwrap_or(now);
        let sure_wait = self.hi.map_or(true, |u| c.poll.saturating_sub(u) >= wait);
        let sure_early = self.lo.map_or(false, |l| t_hi.saturating_sub(l) < wait);
        let must = c.slot > c.max_ok && c.len > 0 && (c.len as u64 >= maxq || sure_wait);
        let why_not = if c.len == 0 { Some("the queue is empty") } else if c.slot <= c.max_ok { Some("this slot was cranked already") } else if (c.len as u64) < maxq && sure_early { Some("the queue is short and the last crank recent") } else { None };
        let d = format!("slot {} (cranked up to {}), {} events, {} tries, {} sent, {} consumed, faults {} [{:?}]", c.slot, c.max_ok, c.len, c.tries, c.sends, c.consumed, c.faults, self.c);
        self.note(d.clone());
        let h = hash(&(c.len, &c.owners, c.slot, c.max_ok, self.c.workers, self.c.per));
        self.st.rel("K01", h, || d.clone());
        self.st.states.insert(h);
        self.st.steps += 1;
        self.st.bump(if why_not.is_some() { "rounds that must not crank" } else if must { "rounds that must crank" } else { "rounds free to crank" });
        if c.tries > 0 { self.st.bump("rounds cranked") }
        if c.faults > 0 { self.st.bump("rounds with faults") }
        if let Some(w) = why_not { if c.sends > 0 { self.v(format!("cranked although {}: {}", w, d)) } }
        if must && c.tries == 0 && c.sends == 0 { self.v(format!("did not crank although events wait: {}", d)) }
        if c.sends > self.c.workers { self.v(format!("more transactions than workers: {}", d)) }
        if must && c.faults == 0 {
            let need = self.c.workers.min((c.len + self.c.per - 1) / self.c.per);
            if c.sends < need { self.v(format!("sends only {} transactions where {} are needed: {}", c.sends, need, d)) }
            let mut seen = HashSet::new();
            let cap = self.c.accounts.unwrap_or(32).min(SURE);
            let cover = c.owners.iter().take_while(|o| seen.contains(*o) || { if seen.len() < cap { seen.insert(**o) } else { false } }).count();
            let want = c.len.min((c.sends - c.dups.min(c.sends)) * self.c.per).min(cover);
            if !c.disturbed && c.consumed < want { self.v(format!("consumed fewer events than its transactions allow ({}): {}", want, d)) }
            if seen.len() >= 20 { self.st.bump("rounds with 20 or more order accounts") }
            if c.sends > 1 { self.st.bump("rounds with several transactions") }
        }
        // two workers may by chance (one in 10 000) send the same transaction; the chain takes it once
        self.chance += (c.sends * c.sends.saturating_sub(1) / 2) as f64 / 10_000.0;
        if c.dups > 0 {
            self.dups += c.dups;
            self.st.bump("rounds with identical transactions");
            if self.dups as f64 >= 6.0 + 5.0 * self.chance { self.v(format!("workers keep sending identical transactions, of which the chain takes one: {}", d)) }
        }
        if c.tries > 0 || c.sends > 0 {
            if c.accepted { self.lo = Some(c.last) }
            self.hi = Some(now);
        }
        if self.hi.is_some() && self.lo.is_none() { /* only failures so far: elapsed time unknown from below */ }
    }

    fn send(&mut self, p: &Value) -> Reply {
        let now = self.time.now();
        let text = p[0].as_str().unwrap_or("").to_string();
        let b64 = p[1]["encoding"].as_str() == Some("base64");
        if self.cur.is_none() { self.v("a transaction before the first look at the queue".into()); return Err((-32000, "no".into())) }
        { let c = self.cur.as_mut().unwrap(); c.sends += 1; c.first.get_or_insert(now); c.last = now; }
        let tx = match decode_tx(&text, b64) {
            Ok(t) => t,
            Err(e) => { self.v(format!("sends a transaction no node accepts: {} [{:?}]", e, self.c)); self.cur.as_mut().unwrap().disturbed = true; return Err((-32602, e)) }
        };
        if tx.verify().is_err() || tx.message.recent_blockhash != self.hash && !self.c.faults { self.v("badly signed or outdated transaction".into()) }
        let m = &tx.message;
        if m.header.num_required_signatures != 1 || m.account_keys[0] != self.payer { self.v(format!("signers {:?}", &m.account_keys[..m.header.num_required_signatures as usize])) }
        let fate = if self.c.faults { self.r.below(20) } else { 9 };
        if fate == 0 { self.cur.as_mut().unwrap().faults += 1; self.st.bump("sends refused"); return Err((-32005, "node is behind".into())) }
        let sig = tx.signatures[0];
        if fate == 1 { let c = self.cur.as_mut().unwrap(); c.faults += 1; c.accepted = true; let s = c.slot; self.max_ok = self.max_ok.max(s); self.st.bump("sends lost"); return Ok(json!(sig.to_string())) }
        if self.sigs.insert(sig) {
            let before = self.mon.w.l.clone();
            let res = exec(&mut self.mon.w.l, &tx_ixs(&tx));
            let k = self.evq_key();
            let (a, b) = (evq(&before, &k).map(|q| q.evs.len()), evq(&self.mon.w.l, &k).map(|q| q.evs.len()));
            match (&res, a, b) {
                (Ok(()), Ok(a), Ok(b)) if a >= b => {
                    let n = a - b;
                    self.cur.as_mut().unwrap().consumed += n;
                    self.st.add("events consumed", n as u64);
                    if n > self.c.per { self.v(format!("one transaction consumed {} events, {} allowed", n, self.c.per)) }
                    match if n > 0 { self.honest(&before, n) } else { Ok(before) } {
                        Ok(w) => if w != self.mon.w.l {
                            let ks: Vec<String> = w.keys().chain(self.mon.w.l.keys()).filter(|k| w.get(*k) != self.mon.w.l.get(*k)).map(|k| k.to_string()).collect();
                            self.v(format!("the transaction does more than consume {} events: {:?} differ", n, ks))
                        },
                        Err(e) => self.v(format!("an honest crank of {} events fails: {}", n, e)),
                    }
                }
                (Ok(()), a, b) => self.v(format!("event queue after a crank: {:?} -> {:?}", a, b)),
                (Err(_), ..) => self.st.bump("transactions failing on chain"),
            }
        } else {
            self.cur.as_mut().unwrap().dups += 1;
        }
        if fate == 2 { self.cur.as_mut().unwrap().faults += 1; self.st.bump("answers lost"); return Err((-32005, "timed out".into())) }
        let c = self.cur.as_mut().unwrap();
        c.accepted = true;
        let s = c.slot;
        self.max_ok = self.max_ok.max(s);
        c.last = self.time.now();
        Ok(json!(sig.to_string()))
    }
}

fn unaligned(o: &[u64; 4]) -> Pubkey {
    let mut b = [0u8; 32];
    for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&o[i].to_le_bytes()) }
    Pubkey::new_from_array(b)
}

impl Node for Svc {
    fn handle(&mut self, method: &str, p: &Value) -> Reply {
        set_clock(self.clock);
        self.requests += 1;
        let now = self.time.now();
        if let Some(r) = base_reply(method, p) { return r }
        match method {
            "getAccountInfo" => {
                let Some(k) = key_param(p) else { return Err((-32602, "bad key".into())) };
                if k != self.evq_key() { return Ok(json!({"context": {"slot": self.slot}, "value": acct_json(self.mon.w.l.get(&k))})) }
                self.close_round(now);
                if self.left == 0 || !self.viols.is_empty() { self.done = true; return Err((-32000, "the end".into())) }
                self.left -= 1;
                let mut foreign = false;
                let busy = self.left > self.c.rounds / 3;
                if busy { let m = *self.r.pick(&[2, 10, 40]); let n = self.r.below(m); foreign = self.trade(n) }
                let _ = foreign;
                let stale = self.r.chance(1, 6) && self.last_reply.is_some();
                if !stale {
                    if busy { self.slot += *self.r.pick(&[0, 1, 1, 2, 30]) } else { self.slot += 1 }
                    self.hash = solana_sdk::hash::hash(&self.slot.to_le_bytes());
                    let q = match evq(&self.mon.w.l, &k) { Ok(q) => q, Err(e) => { self.v(format!("event queue unreadable: {}", e)); self.done = true; return Err((-32000, "the end".into())) } };
                    let owners: Vec<Pubkey> = q.evs.iter().map(|e| e.owner).collect();
                    let v = json!({"context": {"slot": self.slot}, "value": acct_json(self.mon.w.l.get(&k))});
                    self.last_reply = Some((v, self.slot, owners.len(), owners, hash(&self.mon.w.l[&k].data)));
                }
                let (v, slot, len, owners, seen) = self.last_reply.clone().unwrap();
                // a look at an old state, or one that moves before the transactions arrive, says nothing on how many events they reach
                let live = hash(&self.mon.w.l[&k].data);
                self.cur = Some(Round { slot, len, owners, poll: now, disturbed: live != seen || stale && foreign, max_ok: self.max_ok, ..Default::default() });
                Ok(v)
            }
            "getLatestBlockhash" => {
                let fail = self.c.faults && self.r.chance(1, 25);
                if let Some(c) = self.cur.as_mut() { c.tries += 1; c.first.get_or_insert(now); c.last = now; if fail { c.faults += 1 } }
                if fail { self.st.bump("blockhash requests refused"); return Err((-32005, "node is behind".into())) }
                // the market may move while the crank is at work
                if self.r.chance(1, 4) && self.left > self.c.rounds / 3 { let n = self.r.below(5); if self.trade(n) { if let Some(c) = self.cur.as_mut() { c.disturbed = true } } }
                Ok(json!({"context": {"slot": self.slot}, "value": {"blockhash": self.hash.to_string(), "lastValidBlockHeight": self.slot + 150}}))
            }
            "sendTransaction" => self.send(p),
            "getSignatureStatuses" => Ok(json!({"context": {"slot": self.slot}, "value": [{"slot": self.slot, "confirmations": 1, "err": null, "status": {"Ok": null}, "confirmationStatus": "confirmed"}]})),
            m => { self.st.bump("other requests"); let _ = m; Err((-32601, "unknown method".into())) }
        }
    }
}

fn prof(r: &mut Rng) -> gen::Prof {
    let mut p = gen::profile("base", r);
    p.tamper = 0;
    p.crank = 3;
    p.admin = 2;
    p.disable = if r.chance(1, 4) { 3 } else { 0 };
    p.perm = *r.pick(&[0, 0, 1, 2]);
    p.users = match r.below(3) { 0 => r.range(2, 6), 1 => r.range(20, 40), _ => r.range(30, 60) } as usize;
    p.evq_len = *r.pick(&[128, 128, 128, 131, 131, 300, 300, 1000, 1000, 6000]);
    p.book_nodes = 600;
    p.neww = 90;
    p.lucky = 9;
    p.wealth = 1 << 40;
    p.max_oos = 1;
    p
}

pub fn history(name: &str, seed: u64, keep: bool) -> crate::drive::Run {
    setup();
    let mut r = Rng::new(seed);
    let p = prof(&mut r);
    let evq_len = p.evq_len as u64;
    let deep = r.chance(1, 4);
    let mut g = gen::Gen { r: Rng::new(r.u64()), p };
    let mut st = Stats::default();
    st.histories = 1;
    let mut mon = match gen::build(&mut g) { Ok(m) => m, Err(e) => return crate::drive::Run { st, viols: vec![], log: vec![e] } };
    // request queues of every size the exchange accepts
    let rq = mon.w.mk[0].req_q;
    if r.chance(1, 2) { let a = mon.w.l.get_mut(&rq).unwrap(); let extra = 80 * r.below(12) as usize; let n = a.data.len(); let tail = a.data.split_off(n - 7); a.data.extend(vec![0; extra]); a.data.extend(tail); }
    let small = r.chance(1, 3);
    let c = Cfg {
        workers: if r.chance(1, 5) { r.range(5, 30) } else { r.range(1, 4) } as usize,
        per: if small { r.range(1, 4) } else { *r.pick(&[5, 10, 20, 50, 200, 300, 1000]) } as usize,
        accounts: if r.chance(1, 2) { None } else { Some(*r.pick(&[1, 2, 5, 10, 20, 26, 32, 100])) },
        maxq: if r.chance(1, 3) { None } else { Some(*r.pick(&[1, 2, 5, 10, 40, 100, 120, 1000])) },
        wait: match r.below(4) { 0 => None, 1 => Some(0), 2 => Some(r.range(1, 5)), _ => Some(r.range(5, 40)) },
        faults: name == "faults",
        rounds: r.range(20, 70) as u32,
    };
    let dir = std::env::temp_dir().join(format!("vcrank.{}.{:x}", std::process::id(), seed ^ tid()));
    std::fs::create_dir_all(&dir).unwrap();
    let payer = Keypair::new();
    let pf = dir.join("payer.json");
    std::fs::write(&pf, serde_json::to_string(&payer.to_bytes().to_vec()).unwrap()).unwrap();
    mon.w.l.insert(payer.pubkey(), Acct { lamports: 1 << 40, ..Default::default() });
    let k = mon.w.mk[0].clone();
    let (cw, pw) = { let u = &mon.w.us[0]; (u.wallets[&k.coin_mint], u.wallets[&k.pc_mint]) };
    let tf = dir.join("time");
    let time = Shared::open(tf.to_str().unwrap());
    let svc = Svc {
        g, mon, r: Rng::new(r.u64()), clock: clock(), time, payer: payer.pubkey(), slot: r.range(1, 1000), hash: Default::default(), sigs: HashSet::new(), cur: None, last_reply: None,
        left: c.rounds, max_ok: 0, lo: None, hi: None, dups: 0, chance: 0.0, done: false, requests: 0, viols: vec![], log: vec![format!("{:?}", c)], st, keep, c: c.clone(),
    };
    let mut svc = svc;
    // a market whose queue nobody has cranked for long
    if deep { let n = svc.r.below(2 * evq_len); svc.trade(n) ; svc.st.bump("long neglected queues"); }
    // disabled markets still have to be wound up
    if svc.r.chance(1, 10) {
        if !deep { let n = svc.r.below(80); svc.trade(n); }
        let (ix, _) = svc.mon.w.build(&Op::Disable { m: 0, signer: disabler() });
        if exec(&mut svc.mon.w.l, &[ix]).is_ok() { svc.st.bump("disabled markets") }
    }
    let node = Arc::new(Mutex::new(svc));
    let server = Server::start(node.clone());
    let mut args: Vec<String> = vec!["crank".into(), server.url.clone(), "consume-events".into()];
    for (a, b) in [("--dex-program-id", DEX.to_string()), ("--payer", pf.to_str().unwrap().into()), ("--market", k.key.to_string()), ("--coin-wallet", cw.to_string()), ("--pc-wallet", pw.to_string()), ("--num-workers", c.workers.to_string()), ("--events-per-worker", c.per.to_string()), ("--log-directory", dir.join("log").join("crank.log").to_str().unwrap().into())] { args.push(a.into()); args.push(b) }
    if let Some(n) = c.accounts { args.push("--num-accounts".into()); args.push(n.to_string()) }
    if let Some(n) = c.maxq { args.push("--max-q-length".into()); args.push(n.to_string()) }
    if let Some(n) = c.wait { args.push("--max-wait-for-events-delay".into()); args.push(n.to_string()) }
    let end = crate::child::run(&args, tf.to_str().unwrap(), dir.join("err").to_str().unwrap(), &mut || node.lock().unwrap().requests);
    drop(server);
    let mut s = node.lock().unwrap();
    let now = s.time.now();
    s.close_round(now);
    let err = std::fs::read_to_string(dir.join("err")).unwrap_or_default();
    match end {
        crate::child::End::Hung => s.v("the service stopped making requests".into()),
        crate::child::End::Exit(Some(7)) if s.done => {}
        crate::child::End::Exit(x) => { let e: String = err.chars().take(600).collect(); s.v(format!("the service ended by itself with {:?}: {}", x, e)) }
    }
    if err.contains("panicked at") { let e: String = err.chars().take(600).collect(); s.v(format!("a part of the service panicked: {}", e)) }
    let _ = std::fs::remove_dir_all(&dir);
    for v in &s.viols { crate::stats::note(v) }
    crate::drive::Run { st: std::mem::take(&mut s.st), viols: std::mem::take(&mut s.viols), log: std::mem::take(&mut s.log) }
}
fn tid() -> u64 { hash(&std::thread::current().id()) }
