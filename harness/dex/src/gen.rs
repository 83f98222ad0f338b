//! Workload generation: hostile, boundary-seeking random histories.
use crate::abs::*;
use crate::model::*;
use crate::mon::*;
use crate::rt::*;
use crate::world::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Prof {
    pub name: &'static str,
    pub users: usize,
    pub markets: usize,
    pub steps: usize,
    pub perm: u8, // 0 open, 1 permissioned, 2 + prune authority, 3 + crank authority
    pub book_nodes: usize,
    pub evq_len: usize,
    pub center: u64,
    pub spread: u64,
    pub qmax: u64,
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub stable: bool,
    pub wealth: u64,
    pub tamper: u64,  // per mille of steps
    pub disable: u64, // per ten thousand
    pub crank: u64,   // weight of the crank
    pub cancel: u64,
    pub take: u64,
    pub replace: u64,
    pub settle: u64,
    pub admin: u64,
    pub post_heavy: bool,
    pub extreme: bool,
    pub self_heavy: bool,
    pub max_oos: usize,
    pub neww: u64,
    pub one_side: Option<Side>,
    pub lucky: u64, // share (of 10) of orders without deliberate defects
    pub wide_ids: bool, // client ids over the whole 64-bit range
    pub sweeps: u64, // per hundred: orders large enough to run through the book
}

pub fn base() -> Prof {
    Prof {
        name: "base", users: 4, markets: 1, steps: 220, perm: 0, book_nodes: 260, evq_len: 128, center: 100, spread: 12, qmax: 30, coin_lot: 10, pc_lot: 7,
        stable: false, wealth: 1 << 40, tamper: 40, disable: 3, crank: 14, cancel: 8, take: 8, replace: 4, settle: 8, admin: 4, post_heavy: false, extreme: false, self_heavy: false, max_oos: 2, neww: 40, one_side: None, lucky: 5, wide_ids: false, sweeps: 0,
    }
}
pub fn profile(name: &str, r: &mut Rng) -> Prof {
    let mut p = base();
    // every history varies its market parameters
    p.coin_lot = *r.pick(&[1, 1, 10, 100, 1_000_000]);
    p.pc_lot = *r.pick(&[1, 1, 7, 10, 100]);
    p.center = *r.pick(&[3, 20, 100, 5_000, 1_000_000]);
    p.spread = *r.pick(&[1, 3, 8, 40]);
    p.qmax = *r.pick(&[3, 20, 200, 10_000]);
    p.users = r.range(2, 6) as usize;
    p.evq_len = *r.pick(&[128, 128, 131, 200, 400]);
    p.stable = r.chance(1, 8);
    p.wide_ids = r.chance(1, 3);
    p.perm = if r.chance(1, 4) { r.range(1, 3) as u8 } else { 0 };
    match name {
        "base" => {}
        "self" => { p.name = "self"; p.self_heavy = true; p.users = 2; p.spread = *r.pick(&[1, 2, 4]); p.tamper = 0 }
        "tamper" => { p.name = "tamper"; p.markets = 2; p.tamper = 700; p.steps = 160; p.users = 3; p.perm = r.below(4) as u8; p.qmax = 20; p.disable = 1; p.admin = 14; p.stable = false }
        "evict" => { p.name = "evict"; p.post_heavy = true; p.book_nodes = r.range(201, 206) as usize; p.steps = 330; p.users = 3; p.neww = 200; p.lucky = 9; p.one_side = Some(if r.chance(1, 2) { Side::Bid } else { Side::Ask }); p.spread = *r.pick(&[3, 40, 120]); p.center = 5_000; p.crank = 22; p.cancel = 3; p.take = 1; p.settle = 2; p.replace = 1; p.tamper = 5; p.evq_len = 400; p.disable = 0; p.max_oos = 3; if r.chance(1, 3) { p.evq_len = 128; p.crank = 5; p.steps = 420 } if r.chance(1, 3) { p.sweeps = 2; p.qmax = 6 } p.admin = 1; p.qmax = 20 }
        "full" => { p.name = "full"; p.crank = 2; p.evq_len = 128; p.steps = 260; p.tamper = 10 }
        "crank" => { p.name = "crank"; p.crank = 40; p.steps = 260; p.spread = *r.pick(&[1, 3]); p.perm = *r.pick(&[0, 0, 3]); p.tamper = 20 }
        "extreme" => {
            p.name = "extreme"; p.extreme = true; p.wealth = *r.pick(&[1 << 62, 1 << 50, 1 << 63, 1000]); p.tamper = 5;
            p.coin_lot = *r.pick(&[1, 1 << 20, 1 << 32, 1 << 55, 1_000_000_007]);
            p.pc_lot = *r.pick(&[1, 1 << 16, 1 << 33, 3]);
            p.center = *r.pick(&[1, 2, 1 << 20, 1 << 40, u64::MAX - 50]);
        }
        "admin" => { p.name = "admin"; p.admin = 40; p.perm = r.below(4) as u8; p.disable = 40; p.markets = r.range(1, 2) as usize; p.tamper = 150; p.steps = 180 }
        "disabled" => { p.name = "disabled"; p.disable = 150; p.steps = 160; p.perm = r.below(4) as u8; p.tamper = 60; p.cancel = 16; p.settle = 12; p.admin = 10 }
        "cancel" => { p.name = "cancel"; p.cancel = 45; p.replace = 14; p.tamper = 40; p.post_heavy = r.chance(1, 2) ; p.perm = *r.pick(&[0, 0, 2]) }
        "replace" => { p.name = "replace"; p.replace = 40; p.tamper = 20 }
        "fees" => { p.name = "fees"; p.take = 16; p.spread = 2; p.admin = 6; p.settle = 12; p.stable = r.chance(1, 3); p.tamper = 40; p.qmax = *r.pick(&[1, 3, 50, 100_000]) ; p.disable = 0 }
        "take" => { p.name = "take"; p.take = 40; p.spread = *r.pick(&[1, 3, 8]); p.tamper = 40 }
        "many" => { p.name = "many"; p.post_heavy = true; p.users = r.range(1, 2) as usize; p.neww = 250; p.lucky = 10; p.admin = 1; p.settle = 2; p.max_oos = 1; p.steps = 420; p.book_nodes = 600; p.evq_len = 500; p.cancel = 2; p.replace = 1; p.spread = 40; p.center = 5000; p.take = 1; p.tamper = 0; p.crank = 20; p.disable = 0; p.perm = *r.pick(&[0, 2, 2, 3]); p.admin = 3; if r.chance(1, 2) { p.one_side = Some(if r.chance(1, 2) { Side::Bid } else { Side::Ask }) } }
        // accounts that hold a hundred orders all along, so that trading happens in slots of any number
        "slots" => { p.name = "slots"; p.users = 2; p.max_oos = 1; p.steps = 150; p.book_nodes = 600; p.evq_len = *r.pick(&[128, 200, 400]); p.spread = *r.pick(&[1, 2, 4]); p.neww = 60; p.lucky = 8; p.admin = 1; p.disable = 0; p.tamper = 0; p.crank = 16; p.self_heavy = r.chance(1, 2); p.perm = *r.pick(&[0, 0, 2]); p.qmax = 12 }
        // many traders, long queues, orders that run through dozens of others
        "crowd" => {
            p.name = "crowd"; p.users = *r.pick(&[8, 20, 45, 110]); p.max_oos = 1; p.steps = 380; p.qmax = *r.pick(&[1, 3]); p.spread = *r.pick(&[3, 20]); p.center = *r.pick(&[40, 5_000]);
            p.neww = 120; p.sweeps = 4; p.lucky = 9; p.take = 3; p.cancel = 2; p.replace = 1; p.settle = 4; p.admin = 1; p.tamper = 3; p.disable = 0; p.crank = *r.pick(&[0, 1, 3, 8]);
            p.evq_len = *r.pick(&[300, 700, 1500, 1500]); if p.evq_len == 1500 { p.steps = 600 } p.book_nodes = 700; p.perm = *r.pick(&[0, 0, 2, 3]); p.post_heavy = r.chance(1, 2);
        }
        "lifecycle" => { p.name = "lifecycle"; p.admin = 40; p.settle = 16; p.cancel = 14; p.crank = 20; p.steps = 200; p.disable = 1; p.max_oos = 3; p.tamper = 80; p.perm = r.below(4) as u8 }
        _ => panic!("unknown profile {}", name),
    }
    // some markets trade in amounts beyond 32 bits
    if name != "extreme" && r.chance(1, 5) {
        p.wealth = 1 << 61;
        match r.below(3) {
            0 => { p.center = 1 << 34; p.qmax = 1 << 12; p.pc_lot = *r.pick(&[1, 7]) }
            1 => { p.coin_lot = 1_000_000_000; p.qmax = 10_000; p.center = 10_000 }
            _ => { p.center = 1_000_000; p.pc_lot = 100_000; p.qmax = 1 << 16; p.coin_lot = 10 }
        }
    }
    p
}

pub struct Gen { pub r: Rng, pub p: Prof }

pub fn make_market(w: &mut World, r: &mut Rng, p: &Prof, coin: Pubkey, pc: Pubkey, stable: bool) -> MarketK {
    let mut used: Vec<Pubkey> = w.mk.iter().flat_map(|k| vec![k.key, k.req_q, k.event_q, k.bids, k.asks, k.coin_vault, k.pc_vault]).collect();
    let mut fresh = |r: &mut Rng| loop { let k = r.key_like(&used); if !used.contains(&k) { used.push(k); return k } };
    let key = if stable { STABLES[r.below(6) as usize].parse().unwrap() } else if r.chance(1, 30) { let s = STABLES[r.below(6) as usize].parse().unwrap(); r.near(&s) } else { fresh(r) };
    let (nonce, signer) = find_signer(r, &key);
    let k = MarketK {
        key, req_q: fresh(r), event_q: fresh(r), bids: fresh(r), asks: fresh(r), coin_vault: fresh(r), pc_vault: fresh(r), coin_mint: coin, pc_mint: pc,
        signer, nonce, coin_lot: p.coin_lot, pc_lot: p.pc_lot,
        oo_auth: if p.perm >= 1 { Some(fresh(r)) } else { None },
        prune_auth: if p.perm >= 2 { Some(fresh(r)) } else { None },
        crank_auth: if p.perm >= 3 { Some(fresh(r)) } else { None },
    };
    w.put_zeroed(k.key, if p.perm >= 1 { MKT2_LEN } else { MKT1_LEN });
    w.put_zeroed(k.req_q, 12 + 32 + 80 * 1);
    w.put_zeroed(k.event_q, 12 + 32 + 88 * p.evq_len);
    let pad = |n: usize| { let mut n = n; while n % 8 != 4 { n += 1 } n };
    w.put_zeroed(k.bids, pad(12 + 8 + 32 + 72 * p.book_nodes));
    w.put_zeroed(k.asks, pad(12 + 8 + 32 + 72 * p.book_nodes));
    w.l.insert(k.coin_vault, mk_tok(&coin, &signer, 0));
    w.l.insert(k.pc_vault, mk_tok(&pc, &signer, 0));
    for a in [k.oo_auth, k.prune_auth, k.crank_auth].iter().flatten() { w.l.insert(*a, Acct { lamports: 1_000_000, ..Default::default() }); }
    k
}

/// Returns None (with a violation recorded) if a well-formed market is refused.
pub fn build(g: &mut Gen) -> Result<Mon, String> {
    let p = g.p.clone();
    let r = &mut g.r;
    let mut w = World::empty();
    w.programs();
    let coin = r.key();
    let pc = r.key_like(&[coin]);
    for m in [coin, pc, srm_mint_addr(), msrm_mint_addr()] { w.l.insert(m, mk_mint(&r.key(), 1 << 40)); }
    for k in [sweeper(), disabler(), solana_program::sysvar::rent::ID] { w.l.insert(k, Acct { lamports: 1_000_000_000, ..Default::default() }); }
    for i in 0..p.markets {
        let k = make_market(&mut w, r, &p, coin, pc, p.stable && i == 0);
        exec(&mut w.l, &[init_market_ix(&k, 0, r.range(1, 500))]).map_err(|e| format!("a well-formed market was refused: {:?}", e))?;
        w.mk.push(k);
        w.all_oos.push(vec![]);
    }
    let mut people: Vec<Pubkey> = w.mk.iter().flat_map(|k| vec![k.oo_auth, k.prune_auth, k.crank_auth]).flatten().chain([sweeper(), disabler()].iter().cloned()).collect();
    for _ in 0..p.users {
        let mut key = r.key_like(&people);
        while w.l.contains_key(&key) { key = r.key() }
        people.push(key);
        w.l.insert(key, Acct { lamports: 1 << 40, ..Default::default() });
        let mut wallets = HashMap::new();
        for m in [coin, pc] {
            let a = r.key();
            let amt = if r.chance(1, 10) { r.below(2000) } else { p.wealth };
            // keep the total supply of a mint within u64, as the token program does
            let amt = amt.min(u64::MAX / (p.users as u64 + 1));
            w.l.insert(a, mk_tok(&m, &key, amt));
            wallets.insert(m, a);
        }
        let mut srm = vec![];
        if r.chance(1, 2) {
            let a = r.key();
            let one = 1_000_000u64;
            let t = *r.pick(&[0, 100 * one, 1_000 * one, 10_000 * one, 100_000 * one, 1_000_000 * one]);
            let amt = match r.below(3) { 0 => t, 1 => t.saturating_sub(1), _ => t + r.below(1000) };
            w.l.insert(a, mk_tok(&srm_mint_addr(), &key, amt));
            srm.push(a);
        }
        if r.chance(1, 3) {
            let a = r.key();
            w.l.insert(a, mk_tok(&msrm_mint_addr(), &key, r.below(3)));
            srm.push(a);
        }
        // a token that merely looks like SRM or MSRM
        if r.chance(1, 6) {
            let (a, m) = (r.key(), if r.chance(1, 2) { srm_mint_addr() } else { msrm_mint_addr() });
            let m = r.near(&m);
            w.l.insert(a, mk_tok(&m, &key, 2_000_000_000_000));
            srm.push(a);
        }
        w.us.push(User { key, wallets, oos: vec![vec![]; p.markets], srm });
    }
    // a few delegated wallets: the delegate may spend, within its allowance
    if r.chance(1, 3) && p.users >= 2 {
        let d = w.us[1].key;
        let k = *w.us[0].wallets.values().next().unwrap();
        let a = w.l.get_mut(&k).unwrap();
        a.data[72..76].copy_from_slice(&1u32.to_le_bytes());
        a.data[76..108].copy_from_slice(d.as_ref());
        a.data[121..129].copy_from_slice(&r.below(5000).to_le_bytes());
    }
    for u in 0..p.users { for m in 0..p.markets { w.new_oo(r, u, m); } }
    // an open-orders account that is its own owner, as programs holding one may choose
    if r.chance(1, 8) {
        let u = r.below(p.users as u64) as usize;
        let k = w.us[u].key;
        w.put_zeroed(k, OO_LEN);
        if r.chance(1, 2) { let old = w.us[u].oos[0].pop().unwrap(); w.l.remove(&old); w.all_oos[0].retain(|x| *x != old) }
        w.us[u].oos[0].push(k);
        w.all_oos[0].push(k);
    }
    // markets with a long past: many orders and events went through already
    if r.chance(1, 4) {
        for k in w.mk.clone() {
            let base = *r.pick(&[(1u64 << 32) - 20, 1 << 32, (1 << 31) - 20, (1 << 16) - 20, 1 << 40, (1 << 56) - 3, 1 << 62]);
            for (q, at) in [(k.req_q, 5 + 24), (k.event_q, 5 + 24)] {
                let n = if r.chance(1, 4) { 0 } else { base + r.below(30) };
                w.l.get_mut(&q).unwrap().data[at..at + 8].copy_from_slice(&n.to_le_bytes());
            }
        }
    }
    // the ring starts wherever the events so far have left it
    if r.chance(1, 2) {
        for k in w.mk.clone() {
            let cap = match MState::load(&w.l, &k.key) { Ok(s) if s.evq.evs.is_empty() => s.evq.cap, _ => continue };
            let d = &mut w.l.get_mut(&k.event_q).unwrap().data;
            if u64at(d, 5 + 24) == 0 { let n = if r.chance(1, 2) { cap - 1 - r.below(cap.min(40)) } else { r.below(2 * cap) }; d[5 + 24..5 + 32].copy_from_slice(&n.to_le_bytes()) }
            let head = u64at(d, 5 + 24) % cap;
            d[5 + 8..5 + 16].copy_from_slice(&head.to_le_bytes());
        }
    }
    Ok(Mon::new(w))
}

impl Gen {
    pub fn order(&mut self, mon: &Mon, u: usize, m: usize) -> OrderP {
        let p = &self.p;
        let r = &mut self.r;
        let mut side = if r.chance(1, 2) { Side::Bid } else { Side::Ask };
        if let Some(s) = p.one_side { if r.chance(17, 20) { side = s } }
        let lucky = r.below(10) < p.lucky;
        let mut price = {
            let off = r.below(2 * p.spread + 1) as i128 - p.spread as i128;
            let bias = if p.post_heavy { if side == Side::Bid { -(p.spread as i128) } else { p.spread as i128 } } else { 0 };
            (p.center as i128 + off + bias).clamp(1, u64::MAX as i128) as u64
        };
        let k = &mon.w.mk[m];
        // sometimes aim exactly at the touch
        if r.chance(1, 6) && !p.post_heavy {
            if let Ok(s) = MState::load(&mon.w.l, &k.key) {
                if let Some(b) = Model::best(s.book(side.opp()), side.opp()) { price = b.price() }
            }
        }
        let mut qty = r.range(1, p.qmax);
        if p.extreme {
            if r.chance(1, 4) { price = r.wide().max(1) }
            if r.chance(1, 3) { qty = r.wide().max(1) }
        }
        if r.chance(1, 60) { qty = *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, u64::MAX / k.coin_lot.max(1), (u64::MAX / k.coin_lot.max(1)).saturating_add(1), u32::MAX as u64, 1 << 32]) }
        let sweep = r.below(100) < p.sweeps;
        if sweep {
            qty = r.range(20, 400).saturating_mul(p.qmax.min(50));
            price = if side == Side::Bid { p.center.saturating_add(4 * p.spread) } else { p.center.saturating_sub(4 * p.spread).max(1) };
        }
        if r.chance(1, 150) { price = *r.pick(&[u64::MAX, 1, 1 << 32, u32::MAX as u64, u64::MAX / k.pc_lot.max(1)]) }
        let cost = ((qty as u128) * (price as u128)).saturating_mul(k.pc_lot as u128).min(1 << 100);
        let pc = match if lucky && r.chance(4, 5) { 7 } else { r.below(8) } {
            0 => r.wide().max(1),
            1 => (cost * r.range(1, 99) as u128 / 100).clamp(1, u64::MAX as u128) as u64,
            2 => cost.clamp(1, u64::MAX as u128) as u64,
            3 => (cost + r.below(k.pc_lot * 3 + 3) as u128).clamp(1, u64::MAX as u128) as u64,
            4 => (cost + taker_fee(0, cost.min(u64::MAX as u128) as u64) as u128).clamp(1, u64::MAX as u128) as u64,
            _ => (cost * 101 / 100 + 3).clamp(1, u64::MAX as u128) as u64,
        };
        let otype = match r.below(10) { 0 | 1 => OType::Ioc, 2 | 3 => OType::Post, _ => OType::Limit };
        let otype = if sweep { *r.pick(&[OType::Ioc, OType::Ioc, OType::Limit]) } else if p.post_heavy && r.chance(2, 3) { OType::Limit } else { otype };
        let stb = *r.pick(&[Stb::Dec, Stb::CancelProvide, Stb::Abort, Stb::Dec, Stb::CancelProvide]);
        let limit = match r.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 => r.below(8) as u16, 4 => 65535, _ if sweep => *r.pick(&[33, 100, 200, 65535]), _ => 50 };
        let now = clock();
        let max_ts = match r.below(40) { 0 => now - 1, 1 => now, 2 => now + 1, 3 => 0, 4 => i64::MAX - 1, 5 => -1, 6 => i64::MIN, 7 => now - 1, _ => i64::MAX };
        let max_ts = if lucky { i64::MAX } else { max_ts };
        let _ = u;
        let cid = self.cid();
        OrderP { side, price, qty, pc, stb, otype, cid, limit, max_ts }
    }

    /// one of nine client ids, so that they collide often
    fn cid(&mut self) -> u64 {
        let k = self.r.below(9);
        if !self.p.wide_ids { return k }
        [0, 1, 1 << 32 | 1, u64::MAX, 1 << 63, 1 << 63 | 1, u32::MAX as u64, 1 << 48 | 1, 1 << 32][k as usize]
    }

    fn pick_oo(&mut self, mon: &mut Mon, u: usize, m: usize) -> Pubkey {
        let live: Vec<Pubkey> = mon.w.us[u].oos[m].iter().filter(|k| mon.w.l.contains_key(k)).cloned().collect();
        if live.is_empty() || (live.len() < self.p.max_oos && self.r.chance(1, 40)) { return mon.w.new_oo(&mut self.r, u, m) }
        *self.r.pick(&live)
    }

    pub fn op(&mut self, mon: &mut Mon) -> Op {
        let m = if mon.w.mk.len() > 1 && self.r.chance(1, 3) { 1 } else { 0 };
        let nu = mon.w.us.len() as u64;
        let only = self.p.self_heavy && self.r.chance(3, 4);
        let u = self.r.below(if only { 1 } else { nu }) as usize;
        let k = mon.w.mk[m].clone();
        let oo = self.pick_oo(mon, u, m);
        let me = mon.w.us[u].key;
        let owner = if self.r.chance(1, 40) { mon.w.us[self.r.below(nu) as usize].key } else { me };
        let wallet = |mon: &Mon, r: &mut Rng, mint: &Pubkey| -> Pubkey {
            if r.chance(1, 50) { let v: Vec<&User> = mon.w.us.iter().collect(); *r.pick(&v).wallets.values().nth(r.below(2) as usize).unwrap() }
            else if r.chance(1, 60) { *mon.w.us[r.below(nu) as usize].wallets.get(mint).unwrap() }
            else { *mon.w.us[u].wallets.get(mint).unwrap() }
        };
        let srm = {
            let v = if self.r.chance(1, 60) { mon.w.us[self.r.below(nu) as usize].srm.clone() } else { mon.w.us[u].srm.clone() };
            if v.is_empty() || self.r.chance(1, 3) { if self.r.chance(1, 80) { Some(*mon.w.us[u].wallets.values().next().unwrap()) } else { None } } else { Some(*self.r.pick(&v)) }
        };
        let p = self.p.clone();
        // permissioned accounts are initialised explicitly before use, most of the time
        if k.oo_auth.is_some() && mon.w.oo(&oo).map_or(false, |o| o.flags == 0) && self.r.chance(9, 10) {
            let auth = match self.r.below(12) { 0 => None, 1 => Some(me), _ => k.oo_auth };
            return Op::InitOO { m, oo, owner: me, auth };
        }
        let ws: [(u64, u8); 9] = [(p.neww, 0), (p.take, 1), (p.cancel, 2), (p.replace, 3), (p.crank, 4), (p.settle, 5), (p.admin, 6), (1, 7), (1, 8)];
        let tot: u64 = ws.iter().map(|x| x.0).sum();
        let mut x = self.r.below(tot);
        let mut kind = 0;
        for (wt, kd) in ws.iter() { if x < *wt { kind = *kd; break } x -= wt }
        if self.r.below(10_000) < p.disable { return Op::Disable { m, signer: if self.r.chance(1, 5) { me } else { disabler() } } }
        match kind {
            0 => {
                let mut o = self.order(mon, u, m);
                let mint = if o.side == Side::Bid { k.pc_mint } else { k.coin_mint };
                let payer = wallet(mon, &mut self.r, &mint);
                // exactly what account and wallet hold together, or one more
                if self.r.chance(1, 50) {
                    let have = mon.w.tok(&payer).map_or(0, |t| t.amount);
                    let free = mon.w.oo(&oo).filter(|x| x.live()).map_or((0, 0), |x| (x.coin_free, x.pc_free));
                    let more = self.r.below(3) / 2;
                    if o.side == Side::Bid { o.pc = have.saturating_add(free.1).saturating_add(more).max(1) } else { o.qty = (have.saturating_add(free.0) / k.coin_lot.max(1)).saturating_add(more).max(1) }
                }
                let short = o.max_ts == i64::MAX && self.r.chance(1, 2);
                Op::New { m, oo, owner, payer, srm, p: o, short }
            }
            1 => {
                let o = self.order(mon, u, m);
                let (mut mc, mut mp) = (0, 0);
                if self.r.chance(1, 2) {
                    mc = if self.r.chance(1, 40) { *self.r.pick(&[u64::MAX, 1 << 63, 1 << 32]) } else { self.r.below(o.qty.saturating_add(2)) };
                    let c = (o.qty as u128 * o.price as u128).saturating_mul(k.pc_lot as u128).min(u64::MAX as u128) as u64;
                    mp = match self.r.below(3) { 0 => c, 1 => c - taker_fee(0, c).min(c), _ => self.r.below(c.max(1)) };
                }
                let cw = wallet(mon, &mut self.r, &k.coin_mint);
                let pw = wallet(mon, &mut self.r, &k.pc_mint);
                Op::Take { m, cw, pw, signer: me, srm, p: TakeP { side: o.side, price: o.price, qty: o.qty, pc: o.pc, min_coin: mc, min_pc: mp, limit: o.limit } }
            }
            2 => {
                let s = MState::load(&mon.w.l, &k.key).ok();
                let mut mine: Vec<(Side, Leaf)> = vec![];
                let mut others = vec![];
                if let Some(s) = &s {
                    for side in [Side::Bid, Side::Ask] { for l in s.book(side).leaves.values() { if l.owner == oo { mine.push((side, *l)) } else { others.push((side, *l)) } } }
                }
                match self.r.below(10) {
                    0..=4 => {
                        let src = if self.r.chance(1, 8) || mine.is_empty() { &others } else { &mine };
                        let (mut side, mut id) = if src.is_empty() { (Side::Bid, self.r.u64() as u128) } else { let x = self.r.pick(src); (x.0, x.1.key) };
                        if self.r.chance(1, 25) { side = side.opp() }
                        if self.r.chance(1, 30) { id ^= 1 << self.r.below(128) }
                        if self.r.chance(1, 80) { id = *self.r.pick(&[0, u128::MAX, 1]) }
                        // an order that is already gone but whose slot is still taken
                        if self.r.chance(1, 12) {
                            if let Some(o) = mon.w.oo(&oo) { if let Some(x) = o.slots.values().nth(self.r.below(o.slots.len().max(1) as u64) as usize) { side = x.side; id = x.id } }
                        }
                        Op::Cancel { m, oo, owner, side, id }
                    }
                    5 | 6 => {
                        let cid = if mine.is_empty() || self.r.chance(1, 4) { self.cid() } else { self.r.pick(&mine).1.cid };
                        Op::CancelCid { m, oo, owner, cid }
                    }
                    _ => {
                        let n = self.r.below(9) as usize;
                        let cids = (0..n).map(|_| if self.r.chance(1, 6) { 0 } else { self.cid() }).collect();
                        Op::CancelCids { m, oo, owner, cids }
                    }
                }
            }
            3 => {
                let n = if self.r.chance(1, 2) { 1 } else { self.r.below(9) as usize };
                let mut ps: Vec<OrderP> = (0..n).map(|_| self.order(mon, u, m)).collect();
                let side = if self.r.chance(1, 2) { Side::Bid } else { Side::Ask };
                for x in ps.iter_mut() { if !self.r.chance(1, 40) { x.side = side } if self.r.chance(3, 4) { x.max_ts = i64::MAX } if self.r.chance(1, 2) { x.stb = Stb::Dec } }
                let single = ps.len() == 1 && self.r.chance(1, 2);
                let mint = if side == Side::Bid { k.pc_mint } else { k.coin_mint };
                let payer = wallet(mon, &mut self.r, &mint);
                Op::Replace { m, oo, owner, payer, srm, ps, single }
            }
            4 => {
                let mut lim = match self.r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => 65535, _ => self.r.range(1, 40) as u16 };
                let mut v: Vec<Pubkey> = vec![];
                if let Ok(s) = MState::load(&mon.w.l, &k.key) {
                    for e in s.evq.evs.iter().take(self.r.range(1, 60) as usize) { if !v.contains(&e.owner) { v.push(e.owner) } }
                    // a nearly full queue gets drained
                    if s.evq.evs.len() as u64 + 20 > s.evq.cap && self.r.chance(1, 2) { v = mon.w.all_oos[m].clone(); lim = 65535 }
                }
                if self.r.chance(1, 6) { let i = self.r.below(mon.w.all_oos[m].len() as u64) as usize; v.push(mon.w.all_oos[m][i]) }
                if self.r.chance(1, 10) && !v.is_empty() { let i = self.r.below(v.len() as u64) as usize; v.remove(i); }
                if self.r.chance(1, 25) { v.push(self.r.key()) }
                if self.r.chance(1, 25) && mon.w.mk.len() > 1 { v.push(mon.w.all_oos[1 - m][0]) }
                v.sort_by_key(|x| aligned(x));
                let dup = self.r.chance(1, 40) && !v.is_empty();
                if dup { let x = v[0]; v.insert(0, x) }
                let mut sorted = true;
                if v.len() > 2 && self.r.chance(1, 12) { v.reverse(); sorted = false }
                let auth = if self.r.chance(1, 20) { if self.r.chance(1, 3) { None } else { Some(self.wrong_auth(&k, k.crank_auth, me)) } } else { k.crank_auth };
                Op::Consume { m, oos: v, limit: lim, auth, sorted }
            }
            5 => {
                let mut cw = wallet(mon, &mut self.r, &k.coin_mint);
                let mut pw = wallet(mon, &mut self.r, &k.pc_mint);
                if self.r.chance(1, 60) { cw = k.coin_vault }
                if self.r.chance(1, 60) { pw = k.pc_vault }
                let referrer = match self.r.below(6) { 0 | 1 => { let v = self.r.below(nu) as usize; Some(wallet(mon, &mut self.r, &k.pc_mint)).filter(|_| v != u) } 2 if self.r.chance(1, 10) => Some(k.pc_vault), _ => None };
                Op::Settle { m, oo, owner, cw, pw, referrer }
            }
            6 => match self.r.below(8) {
                0 | 1 => {
                    let auth = match k.prune_auth { Some(a) if !self.r.chance(1, 6) => a, _ => self.wrong_auth(&k, k.prune_auth, me) };
                    let (mut oo, mut oo_owner, mut n) = (oo, owner, 0);
                    if let Ok(s) = MState::load(&mon.w.l, &k.key) {
                        let held: Vec<Pubkey> = s.bids.leaves.values().chain(s.asks.leaves.values()).map(|l| l.owner).collect();
                        n = held.len() as u64;
                        // mostly someone who has orders
                        if !held.is_empty() && self.r.chance(2, 3) { oo = *self.r.pick(&held); if let Some(o) = mon.w.oo(&oo) { oo_owner = o.owner } }
                    }
                    let limit = match self.r.below(9) { 0 => 0, 1 => 1, 2 => 3, 3 => 10, 4 => 60, 5 => self.r.below(2 * n + 2) as u16, _ => 65535 };
                    Op::Prune { m, oo, oo_owner, auth, limit }
                }
                2 | 3 | 4 => Op::Close { m, oo, owner, dest: if self.r.chance(1, 4) { mon.w.us[self.r.below(nu) as usize].key } else { me } },
                5 => {
                    let oo = if self.r.chance(1, 2) { mon.w.new_oo(&mut self.r, u, m) } else { oo };
                    if self.r.chance(1, 10) { if let Some(a) = mon.w.l.get_mut(&oo) { if a.data.iter().all(|b| *b == 0) { a.lamports -= 1 } } }
                    let auth = match self.r.below(8) { 0 => None, 1 => Some(self.wrong_auth(&k, k.oo_auth, me)), _ => k.oo_auth };
                    Op::InitOO { m, oo, owner: me, auth }
                }
                6 => {
                    let mut dst = wallet(mon, &mut self.r, &k.pc_mint);
                    if self.r.chance(1, 15) { dst = k.pc_vault }
                    Op::Sweep { m, signer: if self.r.chance(1, 5) { *self.r.pick(&[me, disabler()]) } else { sweeper() }, dst }
                }
                _ => Op::Disable { m, signer: if self.r.below(100) < p.disable { disabler() } else { *self.r.pick(&[me, sweeper()]) } },
            },
            7 => Op::Match { m },
            _ => Op::Legacy { m, disc: *self.r.pick(&[1, 4, 6, 9]) },
        }
    }

    /// Somebody who signs as an authority without being it: the market's
    /// other authorities, the dex's own keys, a near miss, the user.
    fn wrong_auth(&mut self, k: &MarketK, right: Option<Pubkey>, me: Pubkey) -> Pubkey {
        let mut v = vec![me, me, sweeper(), disabler()];
        v.extend([k.oo_auth, k.prune_auth, k.crank_auth].iter().flatten().filter(|a| Some(**a) != right));
        if let Some(a) = right { let n = self.r.near(&a); v.push(n) }
        *self.r.pick(&v)
    }

    /// Try a hostile variant of an operation that would otherwise succeed.
    /// Every variant produced here must be refused.
    pub fn tamper(&mut self, mon: &mut Mon, op: &Op) {
        let k = mon.w.mk[op.m()].clone();
        let other = if mon.w.mk.len() > 1 { Some(mon.w.mk[1 - op.m()].clone()) } else { None };
        let (mut ix, roles) = mon.w.build(op);
        let pre = match MState::load(&mon.w.l, &k.key) { Ok(s) => s, Err(_) => return };
        let mut s = mon.w.abs(op, pre.clone());
        let (pred, feat) = if let Op::Prune { oo, oo_owner, auth, .. } = op {
            let ok = pre.m.enabled() && pre.m.auth.map(|a| a.1) == Some(*auth) && s.oos.get(oo).map_or(false, |e| e.live() && e.market == k.key && e.owner == *oo_owner);
            (if ok { Ok(()) } else { Err("no") }, Feat::default())
        } else { mon.w.predict(op, &mut s) };
        if pred.is_err() || matches!(op, Op::Match { .. } | Op::Legacy { .. }) { return }
        if let Op::Consume { .. } = op { if s.ms.evq.evs.len() == pre.evq.evs.len() { return } }
        let i = self.r.below(roles.len() as u64) as usize;
        let role = roles[i];
        let orig = ix.accounts[i].pubkey;
        let r = &mut self.r;
        let spoof = |mon: &mut Mon, r: &mut Rng, of: &Pubkey, owner: Pubkey| -> Pubkey {
            let mut key = r.key_like(&[*of]);
            while mon.w.l.contains_key(&key) { key = r.key() }
            if let Some(a) = mon.w.l.get(of).cloned() { mon.w.l.insert(key, Acct { owner, ..a }); }
            key
        };
        let mut junk: Vec<Pubkey> = vec![];
        let mut what: &'static str = "";
        let mut props: Vec<&'static str> = vec!["C14"];
        let nu = mon.w.us.len() as u64;
        let uninit_oo = match op { Op::New { oo, .. } | Op::InitOO { oo, .. } => mon.w.oo(oo).map_or(false, |o| o.flags == 0), _ => false };
        let replace0 = matches!(op, Op::Replace { ps, .. } if ps.is_empty());
        match role {
            Role::Ignored | Role::OOList | Role::Dest => return,
            Role::Market => match r.below(2) {
                0 if other.is_some() && !matches!(op, Op::Disable { .. }) && !(matches!(op, Op::InitOO { .. }) && uninit_oo) => { ix.accounts[i].pubkey = other.unwrap().key; what = "another market" }
                _ => { let e = if r.chance(1, 3) { r.near(&DEX) } else { EVIL }; let x = spoof(mon, r, &orig, e); junk.push(x); ix.accounts[i].pubkey = x; what = "a look-alike market owned by another program" }
            },
            Role::OO => {
                let c: Vec<Pubkey> = mon.w.us.iter().flat_map(|u| u.oos.iter().flatten()).filter(|x| {
                    **x != orig && mon.w.oo(x).map_or(false, |o| o.live() && (o.owner != mon.w.oo(&orig).map_or(Pubkey::default(), |y| y.owner) || o.market != k.key))
                }).cloned().collect();
                if !uninit_oo && !c.is_empty() && r.chance(2, 3) {
                    let x = *r.pick(&c);
                    let o = mon.w.oo(&x).unwrap();
                    ix.accounts[i].pubkey = x;
                    what = "someone else's open-orders account";
                    if o.market != k.key { what = "an open-orders account of another market" } else { props.push("C03"); if matches!(op, Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelCids { .. }) { props.push("C12") } }
                    // somebody else may legitimately be the signer of their own account
                    let signer = ix.accounts.iter().find(|a| a.is_signer).map(|a| a.pubkey);
                    if o.market == k.key && (Some(o.owner) == signer) { return }
                    if let Op::Prune { oo_owner, .. } = op { if o.owner == *oo_owner && o.market == k.key { return } }
                } else {
                    let e = if r.chance(1, 3) { r.near(&DEX) } else { EVIL };
                    let x = spoof(mon, r, &orig, e);
                    junk.push(x);
                    ix.accounts[i].pubkey = x;
                    what = "a look-alike open-orders account owned by another program";
                }
            }
            Role::ReqQ | Role::EvQ | Role::Bids | Role::Asks => {
                let swap: Vec<Pubkey> = [k.req_q, k.event_q, k.bids, k.asks].iter().filter(|x| **x != orig).cloned().collect();
                match r.below(3) {
                    0 => { ix.accounts[i].pubkey = *r.pick(&swap); what = "a different part of the market" }
                    1 if other.is_some() => { let o = other.unwrap(); ix.accounts[i].pubkey = match role { Role::ReqQ => o.req_q, Role::EvQ => o.event_q, Role::Bids => o.bids, _ => o.asks }; what = "another market's book or queue" }
                    _ => { let o = if r.chance(1, 2) { EVIL } else { DEX }; let x = spoof(mon, r, &orig, o); junk.push(x); ix.accounts[i].pubkey = x; what = "a look-alike book or queue" }
                }
                if replace0 && role == Role::ReqQ { return for_junk(mon, &junk) }
                // swapping both sides at once must not help either
                if role == Role::Bids && r.chance(1, 3) {
                    if let Some(j) = roles.iter().position(|x| *x == Role::Asks) { ix.accounts[i].pubkey = k.asks; ix.accounts[j].pubkey = k.bids; what = "bids and asks exchanged" }
                }
            }
            Role::Payer => {
                if replace0 { return }
                let w = &mon.w.us[r.below(nu) as usize];
                let (mint, mine) = (mon.w.tok(&orig).unwrap().mint, ());
                let _ = mine;
                let wrong = *w.wallets.iter().find(|x| *x.0 != mint).unwrap().1;
                match r.below(4) {
                    0 => { ix.accounts[i].pubkey = wrong; what = "a payer of the wrong mint" }
                    3 => {
                        let (m, x, who) = (r.near(&mint), r.key(), ix.accounts.iter().find(|a| a.is_signer).unwrap().pubkey);
                        if m == k.coin_mint || m == k.pc_mint { return }
                        junk.push(x); mon.w.l.insert(x, mk_tok(&m, &who, 1 << 60)); ix.accounts[i].pubkey = x; what = "a payer of a look-alike mint"
                    }
                    1 => { let e = if r.chance(1, 3) { r.near(&spl_token::ID) } else { EVIL }; let x = spoof(mon, r, &orig, e); junk.push(x); ix.accounts[i].pubkey = x; what = "a counterfeit payer account" }
                    _ => { ix.accounts[i].pubkey = if mint == k.coin_mint { k.pc_vault } else { k.coin_vault }; what = "the other vault as payer" }
                }
            }
            Role::Signer | Role::AuthSigner => {
                // re-initialising a live account is a no-op whoever asks for it
                if role == Role::AuthSigner && matches!(op, Op::InitOO { .. }) && !uninit_oo { return }
                let drop = r.chance(1, 2);
                if matches!(op, Op::Take { .. }) && feat.fills.is_empty() && !drop { return }
                if drop {
                    for a in ix.accounts.iter_mut().filter(|a| a.pubkey == orig) { a.is_signer = false }
                    what = "a required signature missing";
                } else {
                    let c: Vec<Pubkey> = mon.w.us.iter().map(|u| u.key).chain([sweeper(), disabler()].iter().cloned()).chain(k.oo_auth).chain(k.prune_auth).chain(k.crank_auth).filter(|x| *x != orig).collect();
                    let x = if r.chance(1, 4) { r.near(&orig) } else { *r.pick(&c) };
                    // delegated wallets may legitimately be spent by someone else
                    ix.accounts[i] = AccountMeta::new_readonly(x, true);
                    if let Op::Prune { .. } | Op::Consume { .. } | Op::Sweep { .. } | Op::Disable { .. } = op {} else if uninit_oo && matches!(op, Op::InitOO { .. }) && role == Role::Signer { return }
                    if uninit_oo && role == Role::Signer && matches!(op, Op::New { .. }) {
                        // the impostor would own the account; it still cannot spend the payer's tokens
                        if let Op::New { payer, .. } = op { if mon.w.tok(payer).unwrap().delegate.map_or(false, |d| d.0 == x) || mon.w.tok(payer).unwrap().owner == x { return } }
                    }
                    if let Op::Take { cw, pw, p, .. } = op { let pay = if p.side == Side::Bid { pw } else { cw }; let t = mon.w.tok(pay).unwrap(); if t.owner == x || t.delegate.map_or(false, |d| d.0 == x) { return } }
                    what = "the wrong signer";
                }
                props = if role == Role::AuthSigner { vec!["C04"] } else { vec!["C03"] };
                match op {
                    Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelCids { .. } => props.push("C12"),
                    Op::InitOO { .. } | Op::Close { .. } => props.push("C17"),
                    Op::Sweep { .. } => props.push("C11"),
                    Op::Disable { .. } => props.push("C16"),
                    _ => {}
                }
            }
            Role::CoinVault | Role::PcVault => {
                let mint = if role == Role::CoinVault { k.coin_mint } else { k.pc_mint };
                match r.below(4) {
                    0 => { ix.accounts[i].pubkey = if role == Role::CoinVault { k.pc_vault } else { k.coin_vault }; what = "the wrong vault" }
                    1 if other.is_some() => { let o = other.unwrap(); ix.accounts[i].pubkey = if role == Role::CoinVault { o.coin_vault } else { o.pc_vault }; what = "another market's vault" }
                    2 => { let mut x = r.key_like(&[orig]); while mon.w.l.contains_key(&x) { x = r.key() } junk.push(x); mon.w.l.insert(x, mk_tok(&mint, &k.signer, 1 << 40)); ix.accounts[i].pubkey = x; what = "a second token account owned by the vault signer" }
                    _ => { ix.accounts[i].pubkey = *mon.w.us[r.below(nu) as usize].wallets.get(&mint).unwrap(); what = "a user wallet as vault" }
                }
                props.push("C01");
                if replace0 { return for_junk(mon, &junk) }
            }
            Role::TokenProg => { ix.accounts[i].pubkey = if r.chance(1, 3) { r.near(&spl_token::ID) } else { EVIL }; what = "a counterfeit token program"; props.push("C01"); if replace0 { return } }
            Role::CoinWallet | Role::PcWallet => {
                let mint = if role == Role::CoinWallet { k.coin_mint } else { k.pc_mint };
                let w = &mon.w.us[r.below(nu) as usize];
                let wrong = *w.wallets.iter().find(|x| *x.0 != mint).unwrap().1;
                if r.chance(1, 3) {
                    let (m, x, who) = (r.near(&mint), r.key(), ix.accounts.iter().find(|a| a.is_signer).unwrap().pubkey);
                    junk.push(x); mon.w.l.insert(x, mk_tok(&m, &who, 1 << 60)); ix.accounts[i].pubkey = x; what = "a wallet of a look-alike mint";
                    if m == k.coin_mint || m == k.pc_mint { return for_junk(mon, &junk) }
                } else if r.chance(1, 2) { ix.accounts[i].pubkey = wrong; what = "a wallet of the wrong mint" } else { let e = if r.chance(1, 3) { r.near(&spl_token::ID) } else { EVIL }; let x = spoof(mon, r, &orig, e); junk.push(x); ix.accounts[i].pubkey = x; what = "a counterfeit wallet" }
            }
            Role::VaultSigner => {
                if matches!(op, Op::Take { .. }) && feat.fills.is_empty() { return }
                ix.accounts[i].pubkey = if r.chance(1, 3) { r.near(&orig) } else if r.chance(1, 2) || other.is_none() { mon.w.us[0].key } else { other.unwrap().signer };
                what = "the wrong vault signer"
            }
            Role::Srm => {
                if replace0 { return }
                if r.chance(1, 2) { let e = if r.chance(1, 3) { r.near(&spl_token::ID) } else { EVIL }; let x = spoof(mon, r, &orig, e); junk.push(x); ix.accounts[i].pubkey = x; what = "a counterfeit fee-discount account" }
                else {
                    let signer = ix.accounts.iter().find(|a| a.is_signer).unwrap().pubkey;
                    let c: Vec<Pubkey> = mon.w.us.iter().filter(|u| u.key != signer).flat_map(|u| u.srm.iter()).cloned().collect();
                    if c.is_empty() { return }
                    ix.accounts[i].pubkey = *r.pick(&c);
                    what = "someone else's fee-discount account"
                }
                props.push("C11");
            }
            Role::OOOwner => {
                let x = if r.chance(1, 3) { r.near(&orig) } else { mon.w.us[r.below(nu) as usize].key };
                if x == orig { return }
                ix.accounts[i].pubkey = x;
                what = "the wrong open-orders owner"
            }
        }
        if what.is_empty() { return for_junk(mon, &junk) }
        let backup = mon.w.l.clone();
        let res = exec(&mut mon.w.l, &[ix]);
        mon.st.bump("tampered transactions tried");
        let hh = hash(&(op.name(), what, i, pre.req_seq, pre.evq.seq));
        for p in &props { mon.st.rel(p, hh, || format!("{} with {} at account {}", op.name(), what, i)) }
        if mon.keep_log { mon.log.push(format!("tamper {} #{} {} -> {:?}", op.name(), i, what, res)) }
        if res.is_ok() {
            mon.viol(props, format!("{} accepted {} (account #{}): {:?}", op.name(), what, i, op));
            mon.w.l = backup;
        }
        for_junk(mon, &junk)
    }

    /// close + refund + reuse inside one transaction must not resurrect an account
    pub fn zombie(&mut self, mon: &mut Mon) {
        let nu = mon.w.us.len();
        for u in 0..nu {
            for oo in mon.w.us[u].oos[0].clone() {
                let o = match mon.w.oo(&oo) { Some(o) if o.live() => o, _ => continue };
                if !o.slots.is_empty() || o.coin_total + o.pc_total != 0 { continue }
                let me = mon.w.us[u].key;
                let k = mon.w.mk[0].clone();
                let (close, _) = mon.w.build(&Op::Close { m: 0, oo, owner: me, dest: if oo == me { sweeper() } else { me } });
                let mut p = self.order(mon, u, 0);
                p.max_ts = i64::MAX;
                let payer = *mon.w.us[u].wallets.get(&if p.side == Side::Bid { k.pc_mint } else { k.coin_mint }).unwrap();
                let second = match self.r.below(4) {
                    0 => Op::New { m: 0, oo, owner: me, payer, srm: None, p, short: true },
                    1 => Op::InitOO { m: 0, oo, owner: me, auth: k.oo_auth },
                    2 => Op::Close { m: 0, oo, owner: me, dest: me },
                    _ => Op::Settle { m: 0, oo, owner: me, cw: mon.w.us[u].wallets[&k.coin_mint], pw: mon.w.us[u].wallets[&k.pc_mint], referrer: None },
                };
                let (ix2, _) = mon.w.build(&second);
                let mut txs = vec![close];
                let refund = self.r.chance(3, 4);
                if refund {
                    let mut d = 2u32.to_le_bytes().to_vec();
                    d.extend_from_slice(&min_rent(OO_LEN).to_le_bytes());
                    txs.push(Instruction { program_id: solana_program::system_program::ID, accounts: vec![AccountMeta::new(me, true), AccountMeta::new(oo, false)], data: d });
                }
                txs.push(ix2);
                let backup = mon.w.l.clone();
                let res = exec(&mut mon.w.l, &txs);
                mon.st.bump("close-then-reuse transactions tried");
                mon.st.rel("C17", hash(&(oo.to_bytes(), second.name(), refund)), || format!("close, refund={}, {}", refund, second.name()));
                if res.is_ok() {
                    mon.viol(vec!["C17", "C02"], format!("a closed open-orders account was used again in the same transaction by {}", second.name()));
                }
                mon.w.l = backup;
                return;
            }
        }
    }

    /// everyone must be able to get everything out
    pub fn drain(&mut self, mon: &mut Mon) {
        let before = mon.viols.len();
        for m in 0..mon.w.mk.len() {
            let k = mon.w.mk[m].clone();
            let owner_of: HashMap<Pubkey, usize> = mon.w.all_oos[m].iter().filter_map(|o| mon.w.oo(o).and_then(|x| mon.w.us.iter().position(|u| u.key == x.owner)).map(|i| (*o, i))).collect();
            let mut all = mon.w.all_oos[m].clone();
            all.sort_by_key(|x| aligned(x));
            let all: Vec<Pubkey> = all.into_iter().filter(|x| mon.w.oo(x).map_or(false, |o| o.live())).collect();
            let crank_all = |mon: &mut Mon| {
                for _ in 0..200 {
                    let n = match MState::load(&mon.w.l, &k.key) { Ok(s) => s.evq.evs.len(), Err(_) => return };
                    if n == 0 || mon.dead || all.is_empty() { return }
                    if !mon.step(&Op::Consume { m, oos: all.clone(), limit: 65535, auth: k.crank_auth, sorted: true }) { return }
                }
            };
            crank_all(mon);
            let mut guard = 0;
            loop {
                guard += 1;
                let s = match MState::load(&mon.w.l, &k.key) { Ok(s) => s, Err(_) => return };
                let l = [Side::Bid, Side::Ask].iter().find_map(|sd| s.book(*sd).leaves.values().next().map(|l| (*sd, *l)));
                let (side, l) = match l { Some(x) => x, None => break };
                if s.evq.evs.len() as u64 + 1 >= s.evq.cap { crank_all(mon) }
                let u = match owner_of.get(&l.owner) { Some(u) => *u, None => break };
                let me = mon.w.us[u].key;
                if !mon.step(&Op::Cancel { m, oo: l.owner, owner: me, side, id: l.key }) || mon.dead || guard > 2000 {
                    mon.viol(vec!["C21", "C12"], "an owner could not cancel a resting order".into());
                    break;
                }
            }
            crank_all(mon);
            for oo in &all {
                let me = mon.w.us[owner_of[oo]].clone();
                let o = match mon.w.oo(oo) { Some(o) => o, None => continue };
                if o.coin_free != o.coin_total || o.pc_free != o.pc_total || !o.slots.is_empty() {
                    mon.viol(vec!["C21", "C02"], format!("with no resting orders and no pending events {} still has locked funds or slots: {:?}", oo, o));
                }
                let ok = mon.step(&Op::Settle { m, oo: *oo, owner: me.key, cw: me.wallets[&k.coin_mint], pw: me.wallets[&k.pc_mint], referrer: None });
                if !ok { mon.viol(vec!["C21"], "settlement refused".into()) }
                if !mon.step(&Op::Close { m, oo: *oo, owner: me.key, dest: if *oo == me.key { sweeper() } else { me.key } }) { mon.viol(vec!["C21", "C17"], "empty account could not be closed".into()) }
            }
            if mon.viols.len() > before { return }
            if let Ok(s) = MState::load(&mon.w.l, &k.key) {
                let c = mon.w.tok(&k.coin_vault).unwrap().amount as i128 - mon.w.excess.get(&k.coin_vault).unwrap_or(&0);
                let p = mon.w.tok(&k.pc_vault).unwrap().amount as i128 - mon.w.excess.get(&k.pc_vault).unwrap_or(&0);
                if c != 0 || p != s.m.pc_fees as i128 + s.m.reb as i128 {
                    mon.viol(vec!["C21", "C01"], format!("after everyone withdrew the vaults still hold {} base and {} quote (fees {}, rebates {})", c, p, s.m.pc_fees, s.m.reb));
                }
                mon.st.bump("markets fully drained");
                mon.st.rel("C21", hash(&(k.key.to_bytes(), s.req_seq, s.evq.seq)), || format!("drained {} accounts, enabled={}", all.len(), s.m.enabled()));
            }
        }
    }

    /// give accounts many far-away orders, then free some slots at random
    fn prefill(&mut self, mon: &mut Mon) {
        let m = 0;
        let k = mon.w.mk[m].clone();
        let far = 4 * self.p.spread + 5;
        for u in 0..mon.w.us.len().min(1 + self.r.below(2) as usize) {
            let oo = self.pick_oo(mon, u, m);
            let owner = mon.w.us[u].key;
            if k.oo_auth.is_some() { mon.step(&Op::InitOO { m, oo, owner, auth: k.oo_auth }); }
            let one = match self.r.below(3) { 0 => Some(Side::Bid), 1 => Some(Side::Ask), _ => None };
            for _ in 0..self.r.range(90, 128) {
                let mut p = self.order(mon, u, m);
                p.side = one.unwrap_or(if self.r.chance(1, 2) { Side::Bid } else { Side::Ask });
                p.otype = *self.r.pick(&[OType::Post, OType::Limit]);
                p.qty = self.r.range(1, 3);
                let off = far + self.r.below(60);
                p.price = if p.side == Side::Bid { self.p.center.saturating_sub(off).max(1) } else { self.p.center + off };
                p.pc = p.qty.saturating_mul(p.price).saturating_mul(k.pc_lot).saturating_add(1_000);
                p.max_ts = i64::MAX;
                let payer = mon.w.us[u].wallets[if p.side == Side::Bid { &k.pc_mint } else { &k.coin_mint }];
                mon.step(&Op::New { m, oo, owner, payer, srm: None, p, short: false });
                if mon.dead { return }
            }
            let held: Vec<(Side, u128)> = mon.w.oo(&oo).map_or(vec![], |o| o.slots.values().map(|s| (s.side, s.id)).collect());
            for (side, id) in held {
                if !self.r.chance(1, 5) { continue }
                mon.step(&Op::Cancel { m, oo, owner, side, id });
                if mon.dead { return }
            }
            for _ in 0..4 { mon.step(&Op::Consume { m, oos: vec![oo], limit: 65535, auth: k.crank_auth, sorted: true }); }
        }
    }

    /// prune accounts that may hold a hundred orders, without a practical limit
    fn prune_all(&mut self, mon: &mut Mon) {
        for m in 0..mon.w.mk.len() {
            let k = mon.w.mk[m].clone();
            let auth = match k.prune_auth { Some(a) => a, None => continue };
            for oo in mon.w.all_oos[m].clone() {
                if self.r.chance(1, 6) { continue }
                let oo_owner = match mon.w.oo(&oo) { Some(o) if o.live() => o.owner, _ => continue };
                let limit = *self.r.pick(&[65535, 65535, 256, 1000]);
                mon.step(&Op::Prune { m, oo, oo_owner, auth, limit });
                if mon.dead { return }
            }
        }
    }

    /// consuming in different batch sizes ends in the same place
    pub fn batching(&mut self, mon: &mut Mon) {
        let m = 0;
        let k = mon.w.mk[m].clone();
        let mut all = mon.w.all_oos[m].clone();
        all.sort_by_key(|x| aligned(x));
        let n = match MState::load(&mon.w.l, &k.key) { Ok(s) => s.evq.evs.len(), Err(_) => return };
        if n < 2 || all.is_empty() { return }
        let run = |mon: &Mon, sizes: &mut dyn FnMut() -> u16| -> Option<World> {
            let mut w = World { l: mon.w.l.clone(), mk: mon.w.mk.clone(), us: vec![], all_oos: vec![], excess: HashMap::new() };
            for _ in 0..2000 {
                let s = MState::load(&w.l, &k.key).ok()?;
                if s.evq.evs.is_empty() { return Some(w) }
                let (ix, _) = w.build(&Op::Consume { m, oos: all.clone(), limit: sizes(), auth: k.crank_auth, sorted: true });
                exec(&mut w.l, &[ix]).ok()?;
            }
            None
        };
        let mut r = Rng::new(self.r.u64());
        let a = run(mon, &mut || 65535);
        let b = run(mon, &mut || 1);
        let c = run(mon, &mut || r.range(1, 7) as u16);
        mon.st.bump("batch-split comparisons");
        mon.st.rel("C10", hash(&(k.key.to_bytes(), n)), || format!("batch split of {} events", n));
        match (a, b, c) {
            (Some(a), Some(b), Some(c)) => for o in &all {
                if a.oo(o) != b.oo(o) || a.oo(o) != c.oo(o) { mon.viol(vec!["C10", "C02"], format!("account {} depends on crank batch sizes", o)) }
            },
            _ => mon.viol(vec!["C10"], "the event queue could not be drained".into()),
        }
    }
}

fn for_junk(mon: &mut Mon, junk: &[Pubkey]) { for j in junk { mon.w.l.remove(j); } }

pub fn seed_for(base: u64, prof: &str, i: u64) -> u64 {
    let mut r = Rng::new(base.wrapping_mul(0x1000_0001).wrapping_add(i));
    for b in prof.bytes() { r.0 = r.0.rotate_left(7) ^ b as u64; r.u64(); }
    r.u64()
}

/// Run one history; `stop` decides when it has seen enough.
pub fn history(prof: &str, seed: u64, keep_log: bool, stop: &dyn Fn(&Mon) -> bool) -> Mon {
    let mut r = Rng::new(seed);
    let p = profile(prof, &mut r);
    let mut g = Gen { r, p };
    set_clock(if g.r.chance(1, 4) { *g.r.pick(&[1, i32::MAX as i64 - 1, i32::MAX as i64 + 7, u32::MAX as i64 - 1, (1 << 32) + 1_650_000_000, 1 << 40, 1_650_000_000_000]) } else { 1_650_000_000 });
    let mut mon = match build(&mut g) {
        Ok(m) => m,
        Err(e) => {
            let mut m = Mon::new(World::empty());
            m.viol(vec!["C15"], e);
            m.fatal = true;
            return m;
        }
    };
    mon.keep_log = keep_log;
    mon.st.histories = 1;
    if keep_log { mon.log.push(format!("{:?}", g.p)) }
    if g.p.name == "slots" { g.prefill(&mut mon) }
    for _ in 0..g.p.steps {
        if g.r.chance(1, 30) { set_clock(clock() + g.r.below(3) as i64) }
        let op = g.op(&mut mon);
        if g.r.below(1000) < g.p.tamper { g.tamper(&mut mon, &op) }
        mon.step(&op);
        if g.r.chance(1, 150) {
            // a stray deposit: tokens sent straight to a vault belong to nobody
            let k = mon.w.mk[0].clone();
            let v = if g.r.chance(1, 2) { k.coin_vault } else { k.pc_vault };
            let n = g.r.below(1000);
            let a = mon.w.l.get_mut(&v).unwrap();
            let cur = u64at(&a.data, 64);
            a.data[64..72].copy_from_slice(&(cur + n).to_le_bytes());
            *mon.w.excess.entry(v).or_insert(0) += n as i128;
            mon.st.bump("stray deposits");
        }
        if g.r.chance(1, 120) { g.batching(&mut mon) }
        if g.r.chance(1, 60) { g.zombie(&mut mon) }
        if mon.dead || stop(&mon) { return mon }
    }
    if g.p.name == "many" { g.prune_all(&mut mon) }
    g.drain(&mut mon);
    mon
}
