//! The monitors: per-transaction differential oracle, global invariants and
//! authority checks evaluated on the state the real program leaves behind.
use crate::abs::*;
use crate::model::*;
use crate::rt::*;
use crate::world::*;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

pub use crate::stats::*;

pub struct Mon {
    pub w: World,
    pub st: Stats,
    pub viols: Vec<Viol>,
    pub stranded: Vec<i128>, // rebates no longer claimable by any account, per market
    pub dead: bool,          // state no longer decodable
    pub oo_live_owner: HashMap<Pubkey, Pubkey>, // owner recorded when an account was initialised
    pub ids: HashMap<Pubkey, HashSet<u128>>,    // order ids ever issued, per market
    pub log: Vec<String>,
    pub keep_log: bool,
    pub fatal: bool,
}

fn why_props(why: Fail, op: &Op) -> Vec<&'static str> {
    match why {
        "would self trade" => vec!["C09"],
        "expired" => vec!["C08"],
        "market disabled" => vec!["C16"],
        "payer not authorised" => vec!["C03"],
        "wrong open orders account" => vec!["C03", "C14"],
        "order not yours" => vec!["C03", "C12"],
        "minimum not met" => vec!["C06"],
        "payer has the wrong mint" | "wrong wallet mint" | "payer is not a token account" => vec!["C14"],
        "open orders authority required" | "wrong open orders authority" => vec!["C04", "C17"],
        "crank authority" => vec!["C04"],
        "not the fee sweeper" => vec!["C04", "C11"],
        "not the disable authority" => vec!["C04", "C16"],
        "not the prune authority" => vec!["C04"],
        "fee account belongs to someone else" | "fee account is not a token account" => vec!["C11", "C14"],
        "insufficient funds" => vec!["C01", "C02"],
        "account still in use" => vec!["C17", "C02"],
        "not rent exempt" => vec!["C17"],
        "order not found" | "client id not found" | "zero client id" => vec!["C12"],
        "event queue full" => vec!["C10", "C22"],
        "too many open orders" => vec!["C07", "C02"],
        "retired instruction" => vec!["C18"],
        "overflow" | "underflow" | "free exceeds total" | "spent more than locked" | "vault short" => vec!["C01", "C02"],
        _ => match op {
            Op::Consume { .. } => vec!["C10"],
            _ => vec!["C02"],
        },
    }
}

fn refused_props(op: &Op, f: &Feat, disabled: bool, res: &Result<(), TxErr>) -> Vec<&'static str> {
    let mut v = match op {
        Op::New { p, .. } => {
            let mut v = vec![];
            if f.self_trades > 0 { v.push("C09") }
            if f.evicted.is_some() { v.push("C20") }
            if !f.fills.is_empty() { v.push("C05") }
            if f.oo_init { v.push("C17") }
            if p.max_ts != i64::MAX || p.otype != OType::Limit || f.limit_hit || v.is_empty() { v.push("C08") }
            v
        }
        Op::Replace { .. } => {
            let mut v = vec!["C13"];
            if f.self_trades > 0 { v.push("C09") }
            if f.evicted.is_some() { v.push("C20") }
            v
        }
        Op::Take { p, .. } => if p.min_coin != 0 || p.min_pc != 0 || f.fills.is_empty() { vec!["C06"] } else { vec!["C06", "C05"] },
        Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelCids { .. } => vec!["C12", "C21"],
        Op::Consume { .. } => vec!["C10", "C21"],
        Op::Settle { .. } => vec!["C21"],
        Op::Prune { .. } => vec!["C04", "C12"],
        Op::Close { .. } => vec!["C17", "C21"],
        Op::InitOO { .. } => vec!["C17", "C04"],
        Op::Sweep { .. } => vec!["C04", "C11"],
        Op::Disable { .. } => vec!["C04", "C16"],
        Op::Match { .. } | Op::Legacy { .. } => vec!["C18"],
    };
    if disabled { v.push("C16") }
    // the reason the program gives says which promise it breaks by refusing
    // (whether it had to succeed is decided without it)
    if let Op::New { oo, owner, .. } | Op::Replace { oo, owner, .. } | Op::Settle { oo, owner, .. } = op { if oo == owner { v.push("C03") } }
    if let Err(TxErr::Program(ProgramError::Custom(c))) = res {
        v.push(match c { 34 | 54 => "C02", 42 => "C07", 51 => "C10", 52 => "C16", 53 | 60 => "C03", 37 | 38 => "C11", 61 => "C09", 62 => "C04", 63 => "C08", 64 => "C06", 7..=9 | 45..=49 => "C14", _ => return v });
    }
    v
}

impl Mon {
    pub fn new(w: World) -> Mon {
        let n = w.mk.len();
        Mon { w, st: Stats::default(), viols: vec![], stranded: vec![0; n], dead: false, oo_live_owner: HashMap::new(), ids: HashMap::new(), log: vec![], keep_log: false, fatal: false }
    }
    pub fn viol(&mut self, props: Vec<&'static str>, msg: String) {
        if self.viols.len() < 400 && self.viols.iter().filter(|v| v.props == props).count() < 3 { { let v = Viol { props, msg }; note(&v); self.viols.push(v) } }
    }

    /// Execute one operation under all monitors. Returns whether it succeeded.
    pub fn step(&mut self, op: &Op) -> bool {
        self.st.steps += 1;
        let mi = op.m();
        let mkey = self.w.mk[mi].key;
        let pre = match MState::load(&self.w.l, &mkey) {
            Ok(s) => s,
            Err(e) => {
                self.viol(vec!["C07", "C19"], format!("state before {} does not decode: {}", op.name(), e));
                self.dead = true;
                return false;
            }
        };
        let (ix, _) = self.w.build(op);
        let pre_abs = self.w.abs(op, pre.clone());
        let mut want = pre_abs.clone();
        let (pred, feat) = self.w.predict(op, &mut want);
        let pre_accts: Vec<(Pubkey, Option<Acct>)> = {
            let mut seen = BTreeSet::new();
            ix.accounts.iter().filter(|m| seen.insert(m.pubkey)).map(|m| (m.pubkey, self.w.l.get(&m.pubkey).cloned())).collect()
        };
        let res = exec(&mut self.w.l, &[ix.clone()]);
        let ok = res.is_ok();
        let e = self.st.ops.entry(op.name()).or_insert([0; 2]);
        e[0] += 1;
        e[1] += ok as u64;
        if self.keep_log { self.log.push(format!("{:?} -> {:?} (expected {:?})", op, res, pred)) }
        let disabled = !pre.m.enabled();
        let h = {
            use std::collections::hash_map::DefaultHasher;
            let mut hs = DefaultHasher::new();
            (pre.req_seq, pre.evq.seq, pre.evq.head, pre.m.coin_dep, pre.m.pc_dep, pre.m.pc_fees, &ix.data, mkey.to_bytes()).hash(&mut hs);
            hs.finish()
        };
        if self.st.states.len() < SET_CAP { self.st.states.insert(hash(&(pre.req_seq, pre.evq.seq, pre.evq.head, pre.m.coin_dep, pre.m.pc_dep, pre.m.pc_fees, mkey.to_bytes()))); }

        if let Op::Prune { oo, oo_owner, auth, limit, .. } = op {
            return self.prune_step(&pre, &pre_abs, oo, oo_owner, auth, *limit, ok, op, h);
        }
        // an unordered account list may stop the crank early, never wrongly
        if let Op::Consume { oos, auth, limit, sorted: false, .. } = op {
            let allowed = !oos.is_empty() && *auth == self.w.mk[mi].crank_auth;
            if ok && !allowed { self.viol(vec!["C04", "C10"], "crank ran without the required authority".into()) }
            if ok {
                if let Ok(post) = MState::load(&self.w.l, &mkey) {
                    let k = pre.evq.evs.len() as i64 - post.evq.evs.len() as i64;
                    if k < 0 || k > *limit as i64 { self.viol(vec!["C10"], format!("crank consumed {} events with limit {}", k, limit)) }
                    let mut s = pre_abs.clone();
                    let mut md = Model { s: &mut s, feat: Feat::default(), allow: None };
                    let mut bad = None;
                    for _ in 0..k.max(0) { if let Err(e) = md.consume_one() { bad = Some(e); break } }
                    if let Some(e) = bad { self.viol(vec!["C10", "C14"], format!("crank consumed an event that cannot be applied: {}", e)) }
                    want = s;
                } else { self.dead = true }
                self.st.bump("crank with unsorted accounts");
                self.st.rel("C10", h, || "unsorted crank".into());
                self.diff(op, &pre_abs, &want, &pre_accts, &feat);
                self.invariants(mi);
            }
            return ok;
        }
        match (&pred, ok) {
            (Err(why), false) => {
                *self.st.why.entry(why).or_insert(0) += 1;
                for p in why_props(why, op) { self.st.rel(p, h, || format!("{} refused: {}", op.name(), why)) }
                if disabled { self.st.rel("C16", h, || format!("{} refused on a disabled market", op.name())) }
                false
            }
            (Err(why), true) => {
                let mut props = why_props(why, op);
                match op {
                    Op::Replace { .. } => props.push("C13"),
                    Op::CancelCid { .. } | Op::Cancel { .. } | Op::CancelCids { .. } if !props.contains(&"C12") => props.push("C12"),
                    Op::Settle { .. } if !props.contains(&"C21") => props.push("C21"),
                    _ => {}
                }
                self.viol(props, format!("{} succeeded but must fail ({}): {:?}", op.name(), why, op));
                self.after(op, &pre_abs, None, &feat, h);
                self.invariants(mi);
                true
            }
            (Ok(()), false) => {
                let props = refused_props(op, &feat, disabled, &res);
                self.viol(props, format!("{} failed ({:?}) but must succeed: {:?}", op.name(), res, op));
                false
            }
            (Ok(()), true) => {
                self.diff(op, &pre_abs, &want, &pre_accts, &feat);
                self.after(op, &pre_abs, Some(&want), &feat, h);
                self.invariants(mi);
                true
            }
        }
    }

    fn prune_step(&mut self, pre: &MState, pre_abs: &Abs, oo: &Pubkey, oo_owner: &Pubkey, auth: &Pubkey, limit: u16, ok: bool, op: &Op, h: u64) -> bool {
        let mkey = pre.m.own;
        let e = pre_abs.oos.get(oo);
        let mut why = None;
        if !pre.m.enabled() { why = Some("market disabled") }
        else if self.w.mk[op.m()].prune_auth != Some(*auth) { why = Some("not the prune authority") }
        else if e.map_or(true, |e| !e.live() || e.market != mkey || e.owner != *oo_owner) { why = Some("wrong open orders account") }
        let mine: Vec<(Side, u128)> = [Side::Bid, Side::Ask].iter().flat_map(|s| pre.book(*s).leaves.values().filter(|l| l.owner == *oo).map(move |l| (*s, l.key))).collect();
        if !ok {
            if let Some(wy) = why {
                *self.st.why.entry(wy).or_insert(0) += 1;
                for p in why_props(wy, op) { self.st.rel(p, h, || format!("prune refused: {}", wy)) }
            } else if pre.evq.evs.len() + mine.len() <= pre.evq.cap as usize {
                self.viol(vec!["C04", "C12"], format!("prune by the market's prune authority failed: {:?}", op));
            }
            return false;
        }
        if let Some(wy) = why {
            let mut p = why_props(wy, op);
            p.push("C12");
            self.viol(p, format!("prune succeeded but must fail ({}): {:?}", wy, op));
        }
        let post = match MState::load(&self.w.l, &mkey) { Ok(p) => p, Err(e) => { self.viol(vec!["C07", "C19"], format!("after prune: {}", e)); self.dead = true; return true } };
        let mut s = pre_abs.clone();
        let mut removed = 0;
        {
            let mut md = Model { s: &mut s, feat: Feat::default(), allow: None };
            let mut errs = vec![];
            for side in [Side::Bid, Side::Ask] {
                for (k, l) in &pre.book(side).leaves {
                    if !post.book(side).leaves.contains_key(k) {
                        removed += 1;
                        if l.owner != *oo { errs.push(format!("prune removed another account's order {:x}", k)); continue }
                        if let Err(x) = md.cancel_leaf(oo, side, *k) { errs.push(format!("prune effect impossible: {}", x)) }
                    }
                }
            }
            for x in errs { self.viol(vec!["C04", "C12", "C03"], x) }
        }
        let nodes: usize = [&pre.bids, &pre.asks].iter().map(|b| (2 * b.leaves.len()).saturating_sub(1)).sum();
        if limit as usize >= nodes && removed < mine.len() {
            self.viol(vec!["C04", "C12"], format!("prune with limit {} left {} of the account's {} orders", limit, mine.len() - removed, mine.len()));
        }
        if removed > limit as usize {
            self.viol(vec!["C12"], format!("prune with limit {} removed {} orders", limit, removed));
        }
        self.st.add("orders pruned", removed as u64);
        if removed > 0 { for p in ["C12", "C04"] { self.st.rel(p, h, || format!("prune removed {} orders", removed)) } }
        self.diff(op, pre_abs, &s, &[], &Feat::default());
        let mi = op.m();
        self.invariants(mi);
        true
    }

    /// Compare the state the program produced with the predicted one; what is wrong
    /// also counts against the guarantees about the kind of operation it was.
    fn diff(&mut self, op: &Op, pre: &Abs, want: &Abs, accts: &[(Pubkey, Option<Acct>)], f: &Feat) {
        let n = self.viols.len();
        self.diff_(op, pre, want, accts, f);
        if self.viols.len() == n { return }
        let mut add: Vec<&'static str> = vec![];
        if f.evicted.is_some() { add.push("C20") }
        if f.self_trades > 0 { add.push("C09") }
        match op {
            Op::Replace { .. } => add.push("C13"),
            Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelCids { .. } | Op::Prune { .. } => add.push("C12"),
            Op::Settle { .. } => add.push("C21"),
            Op::Close { .. } | Op::InitOO { .. } => add.push("C17"),
            Op::Consume { .. } => {
                add.push("C10");
                let k = pre.ms.evq.evs.len() - want.ms.evq.evs.len().min(pre.ms.evq.evs.len());
                for e in pre.ms.evq.evs.iter().take(k) {
                    if !e.fill && e.release { add.push("C20"); add.push("C09") } else if !e.fill { add.push("C12") } else { add.push("C11") }
                }
            }
            _ => {}
        }
        if !pre.ms.m.enabled() && matches!(op, Op::Settle { .. } | Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelCids { .. } | Op::Consume { .. } | Op::Close { .. }) { add.push("C16") }
        for v in self.viols[n..].iter_mut() {
            for a in &add { if !v.props.contains(a) { v.props.push(a) } }
            note(v);
        }
    }
    fn diff_(&mut self, op: &Op, pre: &Abs, want: &Abs, accts: &[(Pubkey, Option<Acct>)], f: &Feat) {
        let mkey = pre.ms.m.own;
        let got = match MState::load(&self.w.l, &mkey) {
            Ok(s) => s,
            Err(e) => {
                self.viol(vec!["C07", "C19", "C10"], format!("state after {} does not decode: {}", op.name(), e));
                self.dead = true;
                return;
            }
        };
        let nm = op.name();
        let trading = matches!(op, Op::New { .. } | Op::Take { .. } | Op::Replace { .. });
        let selft = f.self_trades > 0;
        let opname_prop: &'static str = match op {
            Op::New { .. } => "C08", Op::Take { .. } => "C06", Op::Replace { .. } => "C13",
            Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelCids { .. } | Op::Prune { .. } => "C12",
            Op::Consume { .. } => "C10", Op::Settle { .. } => "C21", Op::Close { .. } | Op::InitOO { .. } => "C17",
            Op::Sweep { .. } => "C11", Op::Disable { .. } => "C16", Op::Match { .. } | Op::Legacy { .. } => "C18",
        };
        // books
        for side in [Side::Bid, Side::Ask] {
            if got.book(side).leaves != want.ms.book(side).leaves {
                let (g, w, p) = (&got.book(side).leaves, &want.ms.book(side).leaves, &pre.ms.book(side).leaves);
                let mut props = vec![opname_prop];
                if trading {
                    // resting orders that existed before were matched differently?
                    let pre_diff = p.keys().any(|k| g.get(k) != w.get(k));
                    if pre_diff && !selft { props.push("C05") }
                    if selft { props.push("C09"); if !f.fills.is_empty() { props.push("C05") } }
                    if f.evicted.is_some() { props.push("C20") }
                    if !pre_diff {
                        // the new order itself rests differently (or not at all)
                        props.push("C08");
                        props.push("C06");
                        if f.oid.map_or(false, |id| !g.contains_key(&id)) { props.push("C05") }
                    } else if f.fills.is_empty() || f.limit_hit || f.crossed_unfilled { props.push("C08") }
                }
                let ks: BTreeSet<u128> = g.keys().chain(w.keys()).cloned().collect();
                let d: Vec<String> = ks.iter().filter(|k| g.get(k) != w.get(k)).take(3).map(|k| format!("{:x}: got {:?} want {:?}", k, g.get(k), w.get(k))).collect();
                self.viol(props, format!("{}: {:?} book differs: {}", nm, side, d.join("; ")));
            }
        }
        // events
        if got.evq.evs != want.ms.evq.evs || got.evq.seq != want.ms.evq.seq || got.evq.head != want.ms.evq.head {
            let n = pre.ms.evq.evs.len();
            let unordered = matches!(op, Op::CancelCids { .. } | Op::Replace { .. } | Op::Prune { .. });
            let key = |e: &Ev| (e.oid, e.fill, e.maker, e.release, e.a, e.b, e.slot);
            let same_set = unordered && got.evq.seq == want.ms.evq.seq && got.evq.head == want.ms.evq.head && got.evq.evs.len() == want.ms.evq.evs.len() && {
                let mut a: Vec<Ev> = got.evq.evs.iter().cloned().collect();
                let mut b: Vec<Ev> = want.ms.evq.evs.iter().cloned().collect();
                let pfx = a[..n] == b[..n];
                a[n..].sort_by_key(key);
                b[n..].sort_by_key(key);
                pfx && a == b
            };
            if !same_set {
                let mut props = vec!["C22"];
                if matches!(op, Op::Consume { .. }) || got.evq.evs.len() < n || got.evq.evs.iter().take(n).ne(pre.ms.evq.evs.iter()) { props.push("C10") }
                if trading && selft { props.push("C09") }
                if f.evicted.is_some() { props.push("C20") }
                if matches!(op, Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelCids { .. } | Op::Prune { .. }) { props.push("C12") }
                if trading {
                    // execution reports carry price, quantity and counterparty
                    let fl = |q: &EvQ| q.evs.iter().skip(n.min(q.evs.len())).filter(|e| e.fill).map(|e| (e.oid, e.a, e.b, e.maker)).collect::<Vec<_>>();
                    if fl(&got.evq) != fl(&want.ms.evq) { props.push("C05") }
                    let fe = |q: &EvQ| q.evs.iter().skip(n.min(q.evs.len())).filter(|e| e.fill).map(|e| (e.fee, e.tier)).collect::<Vec<_>>();
                    if fe(&got.evq) != fe(&want.ms.evq) { props.push("C11") }
                }
                let d = got.evq.evs.iter().zip(want.ms.evq.evs.iter()).enumerate().find(|(_, (a, b))| a != b);
                self.viol(props, format!("{}: events differ: len got {} want {}, seq {} / {}, head {} / {}; first difference {:?}", nm, got.evq.evs.len(), want.ms.evq.evs.len(), got.evq.seq, want.ms.evq.seq, got.evq.head, want.ms.evq.head, d));
            }
        }
        // market record
        let (g, w) = (&got.m, &want.ms.m);
        if (g.coin_dep, g.pc_dep) != (w.coin_dep, w.pc_dep) {
            let mut p = vec!["C01", "C02", opname_prop];
            if selft { p.push("C09") }
            self.viol(p, format!("{}: recorded deposits differ: got ({}, {}) want ({}, {})", nm, g.coin_dep, g.pc_dep, w.coin_dep, w.pc_dep));
        }
        if (g.pc_fees, g.coin_fees, g.reb) != (w.pc_fees, w.coin_fees, w.reb) {
            self.viol(vec!["C11", "C01"], format!("{}: recorded fees/rebates differ: got ({}, {}, {}) want ({}, {}, {})", nm, g.pc_fees, g.coin_fees, g.reb, w.pc_fees, w.coin_fees, w.reb));
        }
        if g.flags != w.flags { self.viol(vec!["C16"], format!("{}: market flags got {:x} want {:x}", nm, g.flags, w.flags)) }
        let cfg = |m: &Mkt| (m.own, m.nonce, m.coin_mint, m.pc_mint, m.coin_vault, m.pc_vault, m.req_q, m.event_q, m.bids, m.asks, (m.coin_lot, m.pc_lot, m.fee_bps, m.dust, m.auth));
        if cfg(g) != cfg(w) { self.viol(vec!["C15", "C14"], format!("{}: market configuration changed", nm)) }
        if got.req_seq != want.ms.req_seq || got.req_count != want.ms.req_count {
            self.viol(vec!["C05"], format!("{}: order sequence got {} want {}", nm, got.req_seq, want.ms.req_seq));
        }
        // open orders accounts
        let keys: BTreeSet<Pubkey> = pre.oos.keys().chain(want.oos.keys()).cloned().collect();
        for k in keys {
            let g = self.w.oo(&k);
            let wv = want.oos.get(&k);
            if g.as_ref() == wv { continue }
            let (gg, ww) = match (&g, wv) {
                (Some(a), Some(b)) => (a, b),
                _ => {
                    if g.is_some() && matches!(op, Op::Close { .. }) && g.as_ref().unwrap().flags & fl::CLOSED != 0 { continue }
                    self.viol(vec!["C17", "C02"], format!("{}: open orders account {} existence: got {} want {}", nm, k, g.is_some(), wv.is_some()));
                    continue;
                }
            };
            if (gg.coin_free, gg.coin_total, gg.pc_free, gg.pc_total) != (ww.coin_free, ww.coin_total, ww.pc_free, ww.pc_total) {
                let mut p = vec!["C02", opname_prop];
                if selft { p.push("C09") }
                if trading && !f.fills.is_empty() { p.push("C05"); p.push("C11"); p.push("C06") }
                if matches!(op, Op::Consume { .. }) { p.push("C22") }
                self.viol(p, format!("{}: balances of {}: got coin {}/{} pc {}/{}, want coin {}/{} pc {}/{}", nm, k, gg.coin_free, gg.coin_total, gg.pc_free, gg.pc_total, ww.coin_free, ww.coin_total, ww.pc_free, ww.pc_total));
            }
            if gg.slots != ww.slots {
                let mut p = vec!["C07", opname_prop];
                if selft { p.push("C09") }
                self.viol(p, format!("{}: order slots of {} differ: got {:?} want {:?}", nm, k, gg.slots.iter().filter(|(s, v)| ww.slots.get(s) != Some(v)).next(), ww.slots.iter().filter(|(s, v)| gg.slots.get(s) != Some(v)).next()));
            }
            if gg.reb != ww.reb { self.viol(vec!["C11", "C02"], format!("{}: referrer rebate of {} got {} want {}", nm, k, gg.reb, ww.reb)) }
            if (gg.owner, gg.market, gg.flags) != (ww.owner, ww.market, ww.flags) {
                self.viol(vec!["C17", "C03", "C14"], format!("{}: identity of {} got {:?} want {:?}", nm, k, (gg.flags, gg.market, gg.owner), (ww.flags, ww.market, ww.owner)));
            }
        }
        // tokens and every other account the transaction named
        for (k, wv) in &want.toks {
            let g = self.w.tok(k).map(|t| t.amount);
            if g != Some(*wv) {
                let mut p = vec!["C01", opname_prop];
                if matches!(op, Op::New { .. } | Op::Replace { .. }) { p.push("C02"); p.push("C06") }
                if matches!(op, Op::Settle { referrer: Some(_), .. }) || (matches!(op, Op::Take { .. }) && !f.fills.is_empty()) { p.push("C11") }
                self.viol(p, format!("{}: token account {} holds {:?}, expected {}", nm, k, g, wv));
            }
        }
        let mk = &self.w.mk[op.m()];
        let known = [mk.key, mk.req_q, mk.event_q, mk.bids, mk.asks];
        let mut extra = vec![];
        for (k, a) in accts {
            let now = self.w.l.get(k);
            let is_tok = want.toks.contains_key(k);
            let is_oo = pre.oos.contains_key(k) || want.oos.contains_key(k);
            let lam = (a.as_ref().map_or(0, |a| a.lamports), now.map_or(0, |a| a.lamports));
            let close = matches!(op, Op::Close { oo, dest, .. } if oo == k || dest == k);
            if lam.0 != lam.1 && !close { extra.push(format!("lamports of {} changed {:?}", k, lam)) }
            if is_tok {
                let (x, y) = (a.as_ref().and_then(Tok::parse), now.and_then(Tok::parse));
                if let (Some(x), Some(y)) = (x, y) {
                    if x.mint != y.mint || x.owner != y.owner { extra.push(format!("token account {} re-owned", k)) }
                }
            } else if !is_oo && !known.contains(k) && !close && a.as_ref().map(|a| &a.data) != now.map(|a| &a.data) {
                extra.push(format!("account {} modified", k));
            }
        }
        for x in extra { self.viol(vec!["C14", "C01", "C03"], format!("{}: {}", nm, x)) }
        if let Op::Close { oo, dest, .. } = op {
            let get = |k: &Pubkey| accts.iter().find(|x| x.0 == *k).and_then(|x| x.1.as_ref()).map_or(0, |a| a.lamports);
            let (b_oo, b_d) = (get(oo), get(dest));
            if self.w.l.get(oo).map_or(0, |a| a.lamports) != 0 || self.w.l.get(dest).map_or(0, |a| a.lamports) != b_oo + b_d {
                self.viol(vec!["C17"], "close did not move exactly the account's lamports to the destination".into());
            }
        }
    }

    /// direct checks, coverage accounting and ghost-state updates after a success
    fn after(&mut self, op: &Op, pre: &Abs, want: Option<&Abs>, f: &Feat, h: u64) {
        let mi = op.m();
        let mkey = pre.ms.m.own;
        let post = match MState::load(&self.w.l, &mkey) { Ok(p) => p, Err(_) => { self.dead = true; return } };
        let disabled = !pre.ms.m.enabled();
        if disabled {
            if matches!(op, Op::New { .. } | Op::Take { .. } | Op::Replace { .. } | Op::InitOO { .. } | Op::Prune { .. } | Op::Sweep { .. } | Op::Disable { .. }) {
                if !matches!(op, Op::Replace { .. }) || post.req_seq != pre.ms.req_seq {
                    self.viol(vec!["C16"], format!("{} took effect on a disabled market", op.name()));
                }
            } else { self.st.rel("C16", h, || format!("{} allowed on a disabled market", op.name())) }
        }
        // ghost state
        for (k, _) in &pre.oos {
            if let Some(o) = self.w.oo(k) {
                if o.flags & fl::INIT != 0 {
                    let rec = *self.oo_live_owner.entry(*k).or_insert(o.owner);
                    if rec != o.owner { self.viol(vec!["C03", "C17"], format!("owner of open orders {} changed from {} to {}", k, rec, o.owner)) }
                }
            } else { self.oo_live_owner.remove(k); }
        }
        match op {
            Op::Take { .. } => self.stranded[mi] += post.m.reb as i128 - pre.ms.m.reb as i128,
            Op::Close { oo, .. } => { if let Some(o) = pre.oos.get(oo) { self.stranded[mi] += o.reb as i128 } }
            _ => {}
        }
        let mk = self.w.mk[mi].clone();
        let vault_as_wallet = match op {
            Op::Settle { cw, pw, referrer, .. } => *cw == mk.coin_vault || *pw == mk.pc_vault || *referrer == Some(mk.pc_vault),
            Op::Sweep { dst, .. } => *dst == mk.pc_vault,
            Op::Take { cw, pw, .. } => *cw == mk.coin_vault || *pw == mk.pc_vault,
            _ => false,
        };
        if vault_as_wallet && want.is_some() { self.rebase_excess(mi) }
        // order ids: unique, strictly ordered in time
        if let (Some(id), true) = (f.oid, want.is_some()) {
            if !self.ids.entry(mkey).or_default().insert(id) { self.viol(vec!["C05"], format!("order id {:x} issued twice", id)) }
        }
        match op {
            Op::New { oo, payer, p, .. } => {
                self.taker_bounds(oo, payer, p, pre, &post);
                if !f.fills.is_empty() {
                    for q in ["C05", "C06", "C11", "C02", "C01", "C22"] { self.st.rel(q, h, || format!("{:?} {:?} {}@{}: {} fills", p.otype, p.side, p.qty, p.price, f.fills.len())) }
                    self.st.add("fills", f.fills.len() as u64);
                    if f.fills.len() > 1 { self.st.bump("multi-level takes") }
                }
                self.st.rel("C08", h, || format!("{:?} {:?} limit={} posted={:?} crossed_unfilled={}", p.otype, p.side, p.limit, f.posted, f.crossed_unfilled));
                if f.self_trades > 0 { self.st.rel("C09", h, || format!("{:?} self-trades={}", p.stb, f.self_trades)); self.st.add(match p.stb { Stb::Dec => "self-trade decrement-take", Stb::CancelProvide => "self-trade cancel-provide", Stb::Abort => "self-trade abort" }, f.self_trades as u64) }
                if f.posted.is_some() { self.st.bump("orders posted"); self.st.rel("C07", h, || "posted".into()); }
                if f.evicted.is_some() { self.st.bump("evictions"); self.st.rel("C20", h, || format!("{:?} eviction at {} leaves", p.side, pre.ms.book(p.side).leaves.len())) }
                if f.limit_hit { self.st.bump("match limit exhausted") }
                if f.oo_init { self.st.rel("C17", h, || "implicit open-orders creation".into()) }
                if p.max_ts != i64::MAX { self.st.bump("orders with expiry accepted") }
            }
            Op::Take { p, .. } => {
                self.take_bounds(op, p, pre, &post);
                self.st.rel("C06", h, || format!("send-take {:?} {} fills", p.side, f.fills.len()));
                if !f.fills.is_empty() { for q in ["C05", "C11", "C01"] { self.st.rel(q, h, || format!("send-take {:?}", p.side)) } self.st.add("send-take fills", f.fills.len() as u64) }
            }
            Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelCids { .. } => { self.st.rel("C12", h, || op.name().into()); self.st.rel("C03", h, || op.name().into()); }
            Op::Replace { ps, .. } => self.st.rel("C13", h, || format!("replace x{}", ps.len())),
            Op::Consume { .. } => {
                let n = pre.ms.evq.evs.len() - post.evq.evs.len();
                self.st.add("events consumed", n as u64);
                if n > 0 { for q in ["C10", "C02", "C22"] { self.st.rel(q, h, || format!("consumed {}", n)) } }
                if post.evq.head < pre.ms.evq.head { self.st.bump("event queue wrapped") }
            }
            Op::Settle { oo, .. } => {
                let o = &pre.oos[oo];
                if o.coin_free + o.pc_free > 0 { for q in ["C21", "C01", "C03"] { self.st.rel(q, h, || format!("settle {} coin {} pc", o.coin_free, o.pc_free)) } }
                if o.reb > 0 { self.st.bump("settle with referrer rebate") }
            }
            Op::Close { .. } | Op::InitOO { .. } => self.st.rel("C17", h, || op.name().into()),
            Op::Sweep { .. } => { self.st.rel("C11", h, || format!("sweep {}", pre.ms.m.pc_fees)); self.st.rel("C04", h, || "sweep".into()) }
            Op::Disable { .. } => self.st.rel("C16", h, || "disable".into()),
            _ => {}
        }
        if post.evq.evs.len() as u64 == post.evq.cap { self.st.bump("event queue full") }
    }

    pub fn rebase_excess(&mut self, mi: usize) {
        let mk = self.w.mk[mi].clone();
        if let (Ok(s), Some(c), Some(p)) = (MState::load(&self.w.l, &mk.key), self.w.tok(&mk.coin_vault), self.w.tok(&mk.pc_vault)) {
            let ec = c.amount as i128 - s.m.coin_dep as i128 - s.m.coin_fees as i128;
            let ep = p.amount as i128 - (s.m.pc_dep as i128 + s.m.pc_fees as i128 + s.m.reb as i128);
            if ec < *self.w.excess.get(&mk.coin_vault).unwrap_or(&0) || ep < *self.w.excess.get(&mk.pc_vault).unwrap_or(&0) {
                self.viol(vec!["C01"], "vault backing decreased by a payment into the vault".into());
            }
            self.w.excess.insert(mk.coin_vault, ec);
            self.w.excess.insert(mk.pc_vault, ep);
        }
    }

    /// C06 measured directly on balances, independently of the reference model
    fn taker_bounds(&mut self, oo: &Pubkey, payer: &Pubkey, p: &OrderP, pre: &Abs, post: &MState) {
        let m = &pre.ms.m;
        let o0 = pre.oos.get(oo).cloned().unwrap_or_else(|| OO::fresh(m.own, Pubkey::default()));
        let o1 = match self.w.oo(oo) { Some(o) => o, None => return };
        let pay0 = pre.toks.get(payer).cloned().unwrap_or(0) as i128;
        let pay1 = self.w.tok(payer).map_or(0, |t| t.amount) as i128;
        let (mut dc, mut dp) = (o1.coin_total as i128 - o0.coin_total as i128, o1.pc_total as i128 - o0.pc_total as i128);
        if p.side == Side::Bid { dp += pay1 - pay0 } else { dc += pay1 - pay0 }
        let fee = (post.m.pc_fees as i128 + post.m.reb as i128) - (m.pc_fees as i128 + m.reb as i128);
        let deposit = pay0 - pay1;
        let need = if p.side == Side::Bid { p.pc as i128 } else { p.qty as i128 * m.coin_lot as i128 };
        let mut bad = vec![];
        if deposit > need { bad.push(format!("took {} from the wallet, more than the order's {}", deposit, need)) }
        match p.side {
            Side::Bid => {
                if dc < 0 || dp > 0 { bad.push(format!("bid moved coin {} pc {}", dc, dp)) }
                if -dp > p.pc as i128 { bad.push(format!("bid spent {} of at most {}", -dp, p.pc)) }
                if dc > p.qty as i128 * m.coin_lot as i128 { bad.push(format!("bid bought {} lots of at most {}", dc / m.coin_lot as i128, p.qty)) }
                if dc % m.coin_lot as i128 != 0 { bad.push("bought a fraction of a lot".into()) }
                if -dp - fee > dc / m.coin_lot as i128 * p.price as i128 * m.pc_lot as i128 { bad.push(format!("bid paid {} (+fee {}) for {} lots, above its limit {}", -dp - fee, fee, dc / m.coin_lot as i128, p.price)) }
                // locked remainder also within what the owner offered
                let rest = post.bids.leaves.values().filter(|l| l.owner == *oo && !pre.ms.bids.leaves.contains_key(&l.key)).map(|l| l.qty as i128).sum::<i128>();
                if dc / m.coin_lot as i128 + rest > p.qty as i128 { bad.push("executed plus resting quantity exceeds the order".into()) }
                if -dp + rest * p.price as i128 * m.pc_lot as i128 > p.pc as i128 { bad.push("spent plus locked exceeds the order's maximum".into()) }
            }
            Side::Ask => {
                if dc > 0 || dp < 0 { bad.push(format!("ask moved coin {} pc {}", dc, dp)) }
                if -dc > p.qty as i128 * m.coin_lot as i128 { bad.push("ask sold more than its quantity".into()) }
                if -dc % m.coin_lot as i128 != 0 { bad.push("sold a fraction of a lot".into()) }
                if dp + fee < -dc / m.coin_lot as i128 * p.price as i128 * m.pc_lot as i128 { bad.push(format!("ask received {} (+fee {}) for {} lots, below its limit {}", dp, fee, -dc / m.coin_lot as i128, p.price)) }
                let rest = post.asks.leaves.values().filter(|l| l.owner == *oo && !pre.ms.asks.leaves.contains_key(&l.key)).map(|l| l.qty as i128).sum::<i128>();
                if -dc / m.coin_lot as i128 + rest > p.qty as i128 { bad.push("executed plus resting quantity exceeds the order".into()) }
            }
        }
        for b in bad { self.viol(vec!["C06", "C02"], format!("new order: {}", b)) }
    }
    fn take_bounds(&mut self, op: &Op, p: &TakeP, pre: &Abs, post: &MState) {
        if let Op::Take { cw, pw, .. } = op {
            let mk = &self.w.mk[op.m()];
            if *cw == mk.coin_vault || *pw == mk.pc_vault { return }
            let d = |k: &Pubkey| self.w.tok(k).map_or(0, |t| t.amount) as i128 - pre.toks.get(k).cloned().unwrap_or(0) as i128;
            let (dc, dp) = (d(cw), d(pw));
            let m = &pre.ms.m;
            let lot = m.coin_lot as i128;
            let fee = (post.m.pc_fees as i128 + post.m.reb as i128) - (m.pc_fees as i128 + m.reb as i128);
            let mut bad = vec![];
            match p.side {
                Side::Bid => {
                    if dc < 0 || dp > 0 { bad.push("wrong direction".to_string()) }
                    if -dp > p.pc as i128 { bad.push(format!("spent {} of at most {}", -dp, p.pc)) }
                    if dc > p.qty as i128 * lot { bad.push("bought more than asked".into()) }
                    if dc / lot < p.min_coin as i128 { bad.push(format!("received {} lots, minimum {}", dc / lot, p.min_coin)) }
                    if -dp - fee > dc / lot * p.price as i128 * m.pc_lot as i128 { bad.push("paid above the limit price".into()) }
                }
                Side::Ask => {
                    if dc > 0 || dp < 0 { bad.push("wrong direction".to_string()) }
                    if -dc > p.qty as i128 * lot { bad.push("sold more than asked".into()) }
                    if dp < p.min_pc as i128 { bad.push(format!("received {}, minimum {}", dp, p.min_pc)) }
                    if dp + fee < -dc / lot * p.price as i128 * m.pc_lot as i128 { bad.push("sold below the limit price".into()) }
                }
            }
            for b in bad { self.viol(vec!["C06"], format!("send-take: {}", b)) }
        }
    }

    /// invariants over the whole market, judged on real state only
    pub fn invariants(&mut self, mi: usize) {
        let mk = self.w.mk[mi].clone();
        let s = match MState::load(&self.w.l, &mk.key) {
            Ok(s) => s,
            Err(e) => { self.viol(vec!["C07", "C19"], format!("market state does not decode: {}", e)); self.dead = true; return }
        };
        let mut bad: Vec<Viol> = vec![];
        let mut v = |p: Vec<&'static str>, m: String| bad.push(Viol { props: p, msg: m });
        // vaults back every recorded obligation exactly
        let ex = |k: &Pubkey| *self.w.excess.get(k).unwrap_or(&0);
        let (cv, pv) = (self.w.tok(&mk.coin_vault).map_or(0, |t| t.amount) as i128, self.w.tok(&mk.pc_vault).map_or(0, |t| t.amount) as i128);
        let (co, po) = (s.m.coin_dep as i128 + s.m.coin_fees as i128, s.m.pc_dep as i128 + s.m.pc_fees as i128 + s.m.reb as i128);
        if cv != co + ex(&mk.coin_vault) { v(vec!["C01"], format!("base vault holds {} but {} is owed (+{} unowed)", cv, co, ex(&mk.coin_vault))) }
        if pv != po + ex(&mk.pc_vault) { v(vec!["C01", "C11"], format!("quote vault holds {} but {} is owed (+{} unowed)", pv, po, ex(&mk.pc_vault))) }
        // per-account balances
        let mut oos = BTreeMap::new();
        for k in &self.w.all_oos[mi] {
            if let Some(o) = self.w.oo(k) {
                if o.live() && o.market == mk.key {
                    if o.coin_free > o.coin_total || o.pc_free > o.pc_total { v(vec!["C02"], format!("free exceeds total in {}: {:?}", k, (o.coin_free, o.coin_total, o.pc_free, o.pc_total))) }
                    oos.insert(*k, o);
                }
            }
        }
        let (mut ct, mut pt, mut rt): (i128, i128, i128) = (0, 0, 0);
        for o in oos.values() { ct += o.coin_total as i128; pt += o.pc_total as i128; rt += o.reb as i128 }
        for e in &s.evq.evs {
            if e.fill && e.maker {
                if e.side == Side::Bid { pt -= e.b as i128; ct += e.a as i128 } else { ct -= e.b as i128; pt += e.a as i128 }
            }
            if e.fill && !e.maker { rt += (e.fee / 5) as i128 }
        }
        if ct != s.m.coin_dep as i128 || pt != s.m.pc_dep as i128 { v(vec!["C02", "C01"], format!("accounts are owed ({}, {}) but the market records ({}, {})", ct, pt, s.m.coin_dep, s.m.pc_dep)) }
        if rt + self.stranded[mi] != s.m.reb as i128 { v(vec!["C11"], format!("claimable rebates {} + unclaimable {} != recorded {}", rt, self.stranded[mi], s.m.reb)) }
        // books
        if let (Some(b), Some(a)) = (Model::best(&s.bids, Side::Bid), Model::best(&s.asks, Side::Ask)) {
            if b.price() >= a.price() { v(vec!["C07"], format!("book crossed: best bid {} best ask {}", b.price(), a.price())) }
        }
        let mut resting: HashMap<(Pubkey, u8), (Side, Leaf)> = HashMap::new();
        for side in [Side::Bid, Side::Ask] {
            for l in s.book(side).leaves.values() {
                if l.qty == 0 { v(vec!["C07"], format!("resting order {:x} has zero quantity", l.key)) }
                if resting.insert((l.owner, l.slot), (side, *l)).is_some() { v(vec!["C07"], "two resting orders share a slot".into()) }
                match oos.get(&l.owner).and_then(|o| o.slots.get(&l.slot)) {
                    Some(x) if x.side == side && x.id == l.key && x.cid == l.cid => {}
                    x => v(vec!["C07", "C12"], format!("resting order {:x} not matched by its owner's slot: {:?}", l.key, x)),
                }
            }
        }
        let mut fin: HashMap<(Pubkey, u8), u32> = HashMap::new();
        for e in &s.evq.evs { if !e.fill && e.b == 0 { *fin.entry((e.owner, e.slot)).or_insert(0) += 1 } }
        for (k, o) in &oos {
            for (sl, x) in &o.slots {
                let r = resting.contains_key(&(*k, *sl)) as u32 + fin.get(&(*k, *sl)).cloned().unwrap_or(0);
                if r != 1 { v(vec!["C07", "C10"], format!("slot {} of {} ({:x}): resting/pending count {}", sl, k, x.id, r)) }
            }
        }
        // applying every pending event succeeds and leaves exactly the resting orders locked
        let mut all = Abs { ms: s.clone(), oos, toks: BTreeMap::new() };
        let mut md = Model { s: &mut all, feat: Feat::default(), allow: None };
        let mut err = None;
        while !md.s.ms.evq.evs.is_empty() {
            if let Err(e) = md.consume_one() { err = Some(e); break }
        }
        if let Some(e) = err { v(vec!["C10", "C02"], format!("a queued event can never be consumed: {}", e)) } else {
            let mut lock: HashMap<Pubkey, (i128, i128)> = HashMap::new();
            for ((k, _), (side, l)) in &resting {
                let e = lock.entry(*k).or_insert((0, 0));
                if *side == Side::Bid { e.1 += l.qty as i128 * l.price() as i128 * s.m.pc_lot as i128 } else { e.0 += l.qty as i128 * s.m.coin_lot as i128 }
            }
            for (k, o) in &all.oos {
                let (c, p) = lock.get(k).cloned().unwrap_or((0, 0));
                if o.coin_total as i128 - o.coin_free as i128 != c || o.pc_total as i128 - o.pc_free as i128 != p {
                    v(vec!["C02"], format!("locked funds of {} are ({}, {}) but its resting orders need ({}, {})", k, o.coin_total as i128 - o.coin_free as i128, o.pc_total as i128 - o.pc_free as i128, c, p));
                }
                if o.slots.len() != resting.keys().filter(|x| x.0 == *k).count() { v(vec!["C07", "C10"], format!("slot of {} never freed", k)) }
            }
        }
        let _ = v;
        self.st.bump("whole-market invariant evaluations");
        let hh = hash(&(s.req_seq, s.evq.seq, s.evq.head, s.m.coin_dep, s.m.pc_dep, s.m.pc_fees, mk.key.to_bytes()));
        for p in ["C01", "C02", "C07"] { self.st.rel(p, hh, || format!("state: {} bids {} asks {} pending events", s.bids.leaves.len(), s.asks.leaves.len(), s.evq.evs.len())) }
        for b in bad { self.viol(b.props, b.msg) }
    }
}
