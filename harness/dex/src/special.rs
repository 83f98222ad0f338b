//! Focused workloads: market creation, wire encoding, the slab, the ring
//! buffer, and chaos transactions.
use crate::abs::*;
use crate::gen::*;
use crate::model::*;
use crate::mon::*;
use crate::rt::*;
use crate::world::*;
use serum_dex::critbit::{LeafNode, Slab, SlabView};
use serum_dex::instruction as si;
use serum_dex::instruction::MarketInstruction as MI;
use serum_dex::matching::{OrderType, Side as DSide};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, VecDeque};
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Out { pub st: Stats, pub viols: Vec<Viol>, pub log: Vec<String> }
impl Out {
    fn new() -> Out { let mut st = Stats::default(); st.histories = 1; Out { st, viols: vec![], log: vec![] } }
    fn v(&mut self, p: &[&'static str], m: String) { if self.viols.len() < 20 { let v = Viol { props: p.to_vec(), msg: m }; note(&v); self.viols.push(v) } }
}

// ---------------------------------------------------------------- market creation
pub fn init_market(seed: u64) -> Out {
    let mut o = Out::new();
    let mut r = Rng::new(seed);
    let mut p = profile("base", &mut r);
    p.perm = r.below(4) as u8;
    p.evq_len = *r.pick(&[128, 129, 200]);
    p.book_nodes = *r.pick(&[201, 202, 300]);
    let mut w = World::empty();
    w.programs();
    let coin = r.key();
    let pc = r.key_like(&[coin]);
    for m in [coin, pc] { w.l.insert(m, mk_mint(&r.key(), 1 << 40)); }
    w.l.insert(solana_program::sysvar::rent::ID, Acct { lamports: 1_000_000_000, ..Default::default() });
    // an existing market to borrow parts from
    let other = make_market(&mut w, &mut r, &p, coin, pc, false);
    if let Err(e) = exec(&mut w.l, &[init_market_ix(&other, 0, 100)]) { o.v(&["C15"], format!("well-formed market refused: {:?}", e)); return o }
    for _ in 0..30 {
        o.st.steps += 1;
        let mut p = p.clone();
        p.perm = r.below(4) as u8;
        p.coin_lot = r.wide().max(1);
        p.pc_lot = r.wide().max(1);
        let mut w = w.clone();
        let mut k = make_market(&mut w, &mut r, &p, coin, pc, false);
        let dust = r.wide();
        let bps = r.below(65536) as u16;
        let parts = [k.key, k.req_q, k.event_q, k.bids, k.asks];
        let mut fault: &'static str = "none";
        let mut ix = init_market_ix(&k, bps, dust);
        let i = r.below(5) as usize;
        let v = r.below(2) as usize;
        let vault = [k.coin_vault, k.pc_vault][v];
        match r.below(26) {
            0 => { fault = "part not owned by the exchange"; w.l.get_mut(&parts[i]).unwrap().owner = if r.chance(1, 3) { r.near(&DEX) } else { EVIL } }
            1 => { fault = "part not zeroed (flags)"; let n = 5 + r.below(8) as usize; w.l.get_mut(&parts[i]).unwrap().data[n] = 1 + r.below(255) as u8 }
            2 => { fault = "part not zeroed (head)"; let n = r.below(5) as usize; w.l.get_mut(&parts[i]).unwrap().data[n] = 1 + r.below(255) as u8 }
            3 => { fault = "part not zeroed (tail)"; let a = w.l.get_mut(&parts[i]).unwrap(); let n = a.data.len() - 1 - r.below(7) as usize; a.data[n] = 1 + r.below(255) as u8 }
            4 => { fault = "part of another market reused"; let q = [other.key, other.req_q, other.event_q, other.bids, other.asks]; ix.accounts[i].pubkey = q[i] }
            5 => { fault = "event queue too small"; w.put_zeroed(k.event_q, 12 + 32 + 88 * *r.pick(&[127, 126, 1, 0, 64])) }
            6 => { fault = "book too small"; let n = *r.pick(&[200, 199, 100, 1, 0]); let mut len = 12 + 8 + 32 + 72 * n; while len % 8 != 4 { len += 1 } w.put_zeroed(if r.chance(1, 2) { k.bids } else { k.asks }, len) }
            7 => { fault = "request queue too small"; w.put_zeroed(k.req_q, 12 + 32 + 72) }
            8 => { fault = "misaligned length"; let a = parts[i]; let n = w.l[&a].data.len() + r.range(1, 7) as usize; w.put_zeroed(a, n) }
            9 => { fault = "wrong market size"; let n = w.l[&k.key].data.len(); let n = if r.chance(1, 2) { n + 8 } else if n > 100 && r.chance(1, 2) { n - 8 } else { if p.perm >= 1 { MKT1_LEN } else { MKT2_LEN } }; w.put_zeroed(k.key, n) }
            10 => { fault = "vault not controlled by the market signer"; let x = match r.below(3) { 0 => r.key(), 1 => r.near(&k.signer), _ => other.signer }; w.l.get_mut(&vault).unwrap().data[32..64].copy_from_slice(x.as_ref()) }
            11 => { fault = "vault of the wrong mint"; let own = if v == 0 { coin } else { pc }; let x = if r.chance(1, 2) { r.near(&own) } else if v == 0 { pc } else { coin }; w.l.get_mut(&vault).unwrap().data[..32].copy_from_slice(x.as_ref()) }
            12 => { fault = "vault has a delegate"; let a = w.l.get_mut(&vault).unwrap(); a.data[72] = 1; a.data[76..108].copy_from_slice(r.key().as_ref()); a.data[121..129].copy_from_slice(&r.wide().to_le_bytes()) }
            13 => { fault = "vault has a close authority"; let a = w.l.get_mut(&vault).unwrap(); a.data[129] = 1; a.data[133..165].copy_from_slice(r.key().as_ref()) }
            14 => { fault = "vault not a token account"; w.l.get_mut(&vault).unwrap().owner = match r.below(3) { 0 => EVIL, 1 => DEX, _ => r.near(&spl_token::ID) } }
            15 => { fault = "vault uninitialised"; w.l.get_mut(&vault).unwrap().data[108] = 0 }
            16 => { fault = "mint not initialised"; w.l.get_mut(&[coin, pc][v]).unwrap().data[45] = 0 }
            17 => { fault = "counterfeit mint"; w.l.get_mut(&[coin, pc][v]).unwrap().owner = if r.chance(1, 3) { r.near(&spl_token::ID) } else { EVIL } }
            18 => { fault = "not rent exempt"; let q = [k.key, k.req_q, k.event_q, k.bids, k.asks, k.coin_vault, k.pc_vault]; let x = *r.pick(&q); let a = w.l.get_mut(&x).unwrap(); a.lamports = if r.chance(1, 2) { a.lamports - 1 } else { 1 } }
            19 => { fault = "wrong vault signer nonce"; k.nonce ^= 1 << r.below(64); ix = init_market_ix(&k, bps, dust) }
            20 => { fault = "too few accounts"; let n = r.range(0, 9) as usize; ix.accounts.truncate(n) }
            21 => { fault = "too many accounts"; while ix.accounts.len() < 14 { let x = r.key(); w.l.insert(x, Acct { lamports: 1, ..Default::default() }); ix.accounts.push(AccountMeta::new_readonly(x, false)) } }
            22 => { fault = "queues share an account"; ix.accounts[1].pubkey = k.event_q }
            _ => {}
        }
        let before = w.l.clone();
        let res = exec(&mut w.l, &[ix.clone()]);
        let hh = hash(&(seed, o.st.steps));
        o.st.rel("C15", hh, || format!("fault={} perm={}", fault, p.perm));
        o.st.bump(if fault == "none" { "well-formed markets created" } else { "malformed market requests" });
        if fault != "none" {
            if res.is_ok() { o.v(&["C15"], format!("market created despite: {}", fault)) }
            else if w.l != before { o.v(&["C15"], "refused creation changed state".into()) }
            continue;
        }
        if let Err(e) = res { o.v(&["C15"], format!("well-formed market refused: {:?}", e)); continue }
        match MState::load(&w.l, &k.key) {
            Err(e) => o.v(&["C15"], format!("new market does not decode: {}", e)),
            Ok(s) => {
                let auth = if p.perm >= 1 { Some((k.oo_auth.unwrap(), k.prune_auth.unwrap_or_default(), k.crank_auth.unwrap_or_default())) } else { None };
                let mut flags = fl::INIT | fl::MARKET;
                if p.perm >= 1 { flags |= fl::PERM }
                if p.perm >= 3 { flags |= fl::CRANK }
                let want = Mkt { flags, own: k.key, nonce: k.nonce, coin_mint: coin, pc_mint: pc, coin_vault: k.coin_vault, coin_dep: 0, coin_fees: 0, pc_vault: k.pc_vault, pc_dep: 0, pc_fees: 0, dust, req_q: k.req_q, event_q: k.event_q, bids: k.bids, asks: k.asks, coin_lot: k.coin_lot, pc_lot: k.pc_lot, fee_bps: bps as u64, reb: 0, auth };
                if s.m != want { o.v(&["C15"], format!("recorded configuration differs: got {:?} want {:?}", s.m, want)) }
                if !s.bids.leaves.is_empty() || !s.asks.leaves.is_empty() || !s.evq.evs.is_empty() || s.req_count != 0 || s.evq.seq != 0 || s.req_seq != 0 { o.v(&["C15"], "a new market is not empty".into()) }
            }
        }
        // it cannot be created again, whole or in part
        if exec(&mut w.l, &[ix.clone()]).is_ok() { o.v(&["C15"], "an existing market was initialised again".into()) }
        let mut k2 = make_market(&mut w, &mut r, &p, coin, pc, false);
        match r.below(5) { 0 => k2.req_q = k.req_q, 1 => k2.event_q = k.event_q, 2 => k2.bids = k.bids, 3 => k2.asks = k.asks, _ => k2.coin_vault = k.coin_vault }
        if exec(&mut w.l, &[init_market_ix(&k2, 0, 1)]).is_ok() { o.v(&["C15", "C14"], "two markets share a book, queue or vault".into()) }
    }
    o
}

// ---------------------------------------------------------------- wire encoding
fn dside(s: Side) -> DSide { if s == Side::Bid { DSide::Bid } else { DSide::Ask } }
fn dstb(s: Stb) -> si::SelfTradeBehavior { match s { Stb::Dec => si::SelfTradeBehavior::DecrementTake, Stb::CancelProvide => si::SelfTradeBehavior::CancelProvide, Stb::Abort => si::SelfTradeBehavior::AbortTransaction } }
fn dot(t: OType) -> OrderType { match t { OType::Limit => OrderType::Limit, OType::Ioc => OrderType::ImmediateOrCancel, OType::Post => OrderType::PostOnly } }
fn nz(x: u64) -> NonZeroU64 { NonZeroU64::new(x).unwrap() }
pub fn to_v3(p: &OrderP) -> si::NewOrderInstructionV3 {
    si::NewOrderInstructionV3 { side: dside(p.side), limit_price: nz(p.price), max_coin_qty: nz(p.qty), max_native_pc_qty_including_fees: nz(p.pc), self_trade_behavior: dstb(p.stb), order_type: dot(p.otype), client_order_id: p.cid, limit: p.limit, max_ts: p.max_ts }
}
fn rnd_order(r: &mut Rng) -> OrderP {
    OrderP { side: if r.chance(1, 2) { Side::Bid } else { Side::Ask }, price: r.wide().max(1), qty: r.wide().max(1), pc: r.wide().max(1), stb: *r.pick(&[Stb::Dec, Stb::CancelProvide, Stb::Abort]), otype: *r.pick(&[OType::Limit, OType::Ioc, OType::Post]), cid: r.wide(), limit: r.u64() as u16, max_ts: r.u64() as i64 }
}

/// independent decoder of the documented wire format
pub fn decode(b: &[u8]) -> Option<MI> {
    if b.len() < 5 || b.len() > 445 || b[0] != 0 { return None }
    let d = &b[5..];
    let u = |o: usize| u64at(d, o);
    let h = |o: usize| u16::from_le_bytes([d[o], d[o + 1]]);
    let side = |o: usize| match u32at(d, o) { 0 => Some(DSide::Bid), 1 => Some(DSide::Ask), _ => None };
    let ot = |o: usize| match u32at(d, o) { 0 => Some(OrderType::Limit), 1 => Some(OrderType::ImmediateOrCancel), 2 => Some(OrderType::PostOnly), _ => None };
    let sb = |o: usize| match u32at(d, o) { 0 => Some(si::SelfTradeBehavior::DecrementTake), 1 => Some(si::SelfTradeBehavior::CancelProvide), 2 => Some(si::SelfTradeBehavior::AbortTransaction), _ => None };
    let n = |o: usize| NonZeroU64::new(u(o));
    let v3 = |o: usize, ts: Option<i64>| -> Option<si::NewOrderInstructionV3> {
        Some(si::NewOrderInstructionV3 {
            side: side(o)?, limit_price: n(o + 4)?, max_coin_qty: n(o + 12)?, max_native_pc_qty_including_fees: n(o + 20)?, self_trade_behavior: sb(o + 28)?, order_type: ot(o + 32)?,
            client_order_id: u(o + 36), limit: h(o + 44), max_ts: match ts { Some(t) => t, None => u(o + 46) as i64 },
        })
    };
    Some(match (u32at(b, 1), d.len()) {
        (0, 34) => MI::InitializeMarket(si::InitializeMarketInstruction { coin_lot_size: u(0), pc_lot_size: u(8), fee_rate_bps: h(16), vault_signer_nonce: u(18), pc_dust_threshold: u(26) }),
        (1, 32) => MI::NewOrder(si::NewOrderInstructionV1 { side: side(0)?, limit_price: n(4)?, max_qty: n(12)?, order_type: ot(20)?, client_id: u(24) }),
        (2, 2) => MI::MatchOrders(h(0)),
        (3, 2) => MI::ConsumeEvents(h(0)),
        (4, 53) => MI::CancelOrder(si::CancelOrderInstruction { side: side(0)?, order_id: u128at(d, 4), owner: [u(20), u(28), u(36), u(44)], owner_slot: d[52] }),
        (5, 0) => MI::SettleFunds,
        (6, 8) => MI::CancelOrderByClientId(u(0)),
        (7, 0) => MI::DisableMarket,
        (8, 0) => MI::SweepFees,
        (9, 36) => MI::NewOrderV2(si::NewOrderInstructionV2 { side: side(0)?, limit_price: n(4)?, max_qty: n(12)?, order_type: ot(20)?, client_id: u(24), self_trade_behavior: sb(32)? }),
        (10, 46) => MI::NewOrderV3(v3(0, Some(i64::MAX))?),
        (10, 54) => MI::NewOrderV3(v3(0, None)?),
        (11, 20) => MI::CancelOrderV2(si::CancelOrderInstructionV2 { side: side(0)?, order_id: u128at(d, 4) }),
        (12, 8) => MI::CancelOrderByClientIdV2(u(0)),
        (13, 46) => MI::SendTake(si::SendTakeInstruction { side: side(0)?, limit_price: n(4)?, max_coin_qty: n(12)?, max_native_pc_qty_including_fees: n(20)?, min_coin_qty: u(28), min_native_pc_qty: u(36), limit: h(44) }),
        (14, 0) => MI::CloseOpenOrders,
        (15, 0) => MI::InitOpenOrders,
        (16, 2) => MI::Prune(h(0)),
        (17, 2) => MI::ConsumeEventsPermissioned(h(0)),
        (18, len) if len % 8 == 0 && len <= 64 => { let mut a = [0; 8]; for i in 0..len / 8 { a[i] = u(8 * i) } MI::CancelOrdersByClientIds(a) }
        (19, 54) => MI::ReplaceOrderByClientId(v3(0, None)?),
        (20, len) if len >= 8 && (len - 8) % 54 == 0 && len <= 8 + 8 * 54 => {
            if u(0) != (len as u64 - 8) / 54 { return None }
            let mut v = vec![];
            for i in 0..(len - 8) / 54 { v.push(v3(8 + 54 * i, None)?) }
            MI::ReplaceOrdersByClientIds(v)
        }
        _ => return None,
    })
}

fn rnd_instr(r: &mut Rng) -> (MI, Vec<u8>) {
    let hdr = |d: u32| { let mut v = vec![0u8]; v.extend_from_slice(&d.to_le_bytes()); v };
    let p = rnd_order(r);
    let d = r.below(21) as u32;
    let mut b = hdr(d);
    let lim = r.u64() as u16;
    let x = r.wide();
    let mi = match d {
        0 => { let i = si::InitializeMarketInstruction { coin_lot_size: r.wide(), pc_lot_size: r.wide(), fee_rate_bps: lim, vault_signer_nonce: r.wide(), pc_dust_threshold: r.wide() };
            b.extend(i.coin_lot_size.to_le_bytes()); b.extend(i.pc_lot_size.to_le_bytes()); b.extend(lim.to_le_bytes()); b.extend(i.vault_signer_nonce.to_le_bytes()); b.extend(i.pc_dust_threshold.to_le_bytes()); MI::InitializeMarket(i) }
        1 | 9 => {
            let e = enc_order(&p, true);
            b.extend(&e[0..20]); b.extend(&e[32..36]); b.extend(&e[36..44]);
            if d == 1 { MI::NewOrder(si::NewOrderInstructionV1 { side: dside(p.side), limit_price: nz(p.price), max_qty: nz(p.qty), order_type: dot(p.otype), client_id: p.cid }) }
            else { b.extend(&e[28..32]); MI::NewOrderV2(si::NewOrderInstructionV2 { side: dside(p.side), limit_price: nz(p.price), max_qty: nz(p.qty), order_type: dot(p.otype), client_id: p.cid, self_trade_behavior: dstb(p.stb) }) }
        }
        2 => { b.extend(lim.to_le_bytes()); MI::MatchOrders(lim) }
        3 => { b.extend(lim.to_le_bytes()); MI::ConsumeEvents(lim) }
        16 => { b.extend(lim.to_le_bytes()); MI::Prune(lim) }
        17 => { b.extend(lim.to_le_bytes()); MI::ConsumeEventsPermissioned(lim) }
        4 => { let id = (r.u64() as u128) << 64 | r.u64() as u128; let ow = [r.u64(), r.u64(), r.u64(), r.u64()]; let sl = r.u64() as u8;
            b.extend((if p.side == Side::Bid { 0u32 } else { 1 }).to_le_bytes()); b.extend(id.to_le_bytes()); for q in ow { b.extend(q.to_le_bytes()) } b.push(sl);
            MI::CancelOrder(si::CancelOrderInstruction { side: dside(p.side), order_id: id, owner: ow, owner_slot: sl }) }
        5 => MI::SettleFunds, 7 => MI::DisableMarket, 8 => MI::SweepFees, 14 => MI::CloseOpenOrders, 15 => MI::InitOpenOrders,
        6 => { b.extend(x.to_le_bytes()); MI::CancelOrderByClientId(x) }
        12 => { b.extend(x.to_le_bytes()); MI::CancelOrderByClientIdV2(x) }
        10 => { b.extend(enc_order(&p, true)); MI::NewOrderV3(to_v3(&p)) }
        19 => { b.extend(enc_order(&p, true)); MI::ReplaceOrderByClientId(to_v3(&p)) }
        11 => { let id = (r.u64() as u128) << 64 | r.u64() as u128; b.extend((if p.side == Side::Bid { 0u32 } else { 1 }).to_le_bytes()); b.extend(id.to_le_bytes()); MI::CancelOrderV2(si::CancelOrderInstructionV2 { side: dside(p.side), order_id: id }) }
        13 => { let t = TakeP { side: p.side, price: p.price, qty: p.qty, pc: p.pc, min_coin: r.wide(), min_pc: r.wide(), limit: p.limit }; b.extend(enc_take(&t));
            MI::SendTake(si::SendTakeInstruction { side: dside(t.side), limit_price: nz(t.price), max_coin_qty: nz(t.qty), max_native_pc_qty_including_fees: nz(t.pc), min_coin_qty: t.min_coin, min_native_pc_qty: t.min_pc, limit: t.limit }) }
        18 => { let mut a = [0u64; 8]; for q in a.iter_mut() { *q = r.wide() } for q in a { b.extend(q.to_le_bytes()) } MI::CancelOrdersByClientIds(a) }
        _ => { let n = r.below(9) as usize; let v: Vec<OrderP> = (0..n).map(|_| rnd_order(r)).collect(); b.extend((n as u64).to_le_bytes()); for q in &v { b.extend(enc_order(q, true)) } MI::ReplaceOrdersByClientIds(v.iter().map(to_v3).collect()) }
    };
    (mi, b)
}

pub fn codec(seed: u64) -> Out {
    let mut o = Out::new();
    let mut r = Rng::new(seed);
    for _ in 0..400 {
        o.st.steps += 1;
        let (mi, bytes) = rnd_instr(&mut r);
        o.st.rel("C18", hash(&bytes), || format!("{} bytes, kind {}", bytes.len(), bytes[1]));
        if mi.pack() != bytes { o.v(&["C18"], format!("encoding differs for {:?}: {:?} vs {:?}", mi, mi.pack(), bytes)) }
        match crate::guard::call(|| MI::unpack(&bytes)) {
            Ok(x) if x.as_ref() == Some(&mi) => {}
            x => o.v(&["C18"], format!("decoding {:?} gives {:?}, want {:?}", bytes, x.ok(), mi)),
        }
        // hostile bytes: same verdict and value as the documented format
        let mut b = bytes.clone();
        for _ in 0..r.range(1, 3) {
            match r.below(7) {
                0 => { let i = r.below(b.len() as u64) as usize; b[i] ^= 1 << r.below(8) }
                1 => { let n = r.below(b.len() as u64 + 1) as usize; b.truncate(n.max(1)) }
                2 => { for _ in 0..*r.pick(&[1, 2, 8, 46, 54]) { b.push(r.u64() as u8) } }
                3 if b.len() > 4 => { b[1] = r.below(24) as u8 }
                4 if b.len() > 9 => { let i = 5 + r.below(b.len() as u64 - 8) as usize; let e = (i + 8).min(b.len()); let i = i.min(e); for q in b[i..e].iter_mut() { *q = 0 } }
                5 => { let i = r.below(b.len() as u64) as usize; b[i] = *r.pick(&[0, 1, 2, 3, 255]) }
                _ => { let i = r.below(b.len() as u64) as usize; b.remove(i); if b.is_empty() { b.push(0) } }
            }
        }
        let want = decode(&b);
        match crate::guard::call(|| MI::unpack(&b)) {
            Ok(g) => if g != want { o.v(&["C18"], format!("decoding {:?} gives {:?}, documented format gives {:?}", b, g, want)) },
            Err(_) => o.v(&["C18", "C23"], format!("decoding {:?} panicked", b)),
        }
        o.st.bump(if want.is_some() { "mutated encodings accepted" } else { "mutated encodings rejected" });
        o.st.rel("C18", hash(&b), || format!("mutated, {} bytes", b.len()));
    }
    builders(&mut r, &mut o);
    o
}

/// Client-side builders must produce what the program expects, in the right place.
fn builders(r: &mut Rng, o: &mut Out) {
    let mut w = World::empty();
    let k: Vec<Pubkey> = (0..30).map(|_| r.key()).collect();
    let perm = r.below(4);
    let mk = MarketK { key: k[0], req_q: k[1], event_q: k[2], bids: k[3], asks: k[4], coin_vault: k[5], pc_vault: k[6], coin_mint: k[7], pc_mint: k[8], signer: k[9], nonce: r.wide(), coin_lot: r.wide(), pc_lot: r.wide(),
        oo_auth: if perm > 0 { Some(k[10]) } else { None }, prune_auth: if perm > 1 { Some(k[11]) } else { None }, crank_auth: if perm > 2 { Some(k[12]) } else { None } };
    w.mk.push(mk.clone());
    let (oo, owner, payer, cw, pw) = (k[13], k[14], k[15], k[16], k[17]);
    let srm = if r.chance(1, 2) { Some(k[18]) } else { None };
    let p = rnd_order(r);
    let t = TakeP { side: p.side, price: p.price, qty: p.qty, pc: p.pc, min_coin: r.wide(), min_pc: r.wide(), limit: p.limit };
    let id = (r.u64() as u128) << 64 | r.u64() as u128;
    let cid = r.wide();
    let mut cids = [0u64; 8];
    for c in cids.iter_mut() { *c = r.wide() }
    let tp = spl_token::ID;
    let rent = solana_program::sysvar::rent::ID;
    let lim = r.u64() as u16;
    let dust = r.wide();
    let ref0 = if r.chance(1, 2) { Some(k[19]) } else { None };
    let oos = vec![k[20], k[21], k[22]];
    let auth = if r.chance(1, 2) { Some(k[10]) } else { None };
    let mut chk = |name: &str, got: Result<Instruction, serum_dex::error::DexError>, want: Instruction| {
        o.st.bump("client builders compared");
        match got {
            Err(_) => o.viols.push(Viol { props: vec!["C18"], msg: format!("builder {} failed", name) }),
            Ok(g) => {
                if g.program_id != want.program_id || g.data != want.data { o.viols.push(Viol { props: vec!["C18"], msg: format!("builder {}: data {:?} want {:?}", name, g.data, want.data) }) }
                let f = |i: &Instruction| i.accounts.iter().map(|a| (a.pubkey, a.is_signer)).collect::<Vec<_>>();
                if f(&g) != f(&want) { o.viols.push(Viol { props: vec!["C18"], msg: format!("builder {}: accounts {:?} want {:?}", name, g.accounts, want.accounts) }) }
                // whatever the program must write has to be writable
                for (a, b) in g.accounts.iter().zip(&want.accounts) {
                    let needs = b.is_writable && !(name == "close_open_orders" && b.pubkey == mk.key) && !(name == "init_open_orders" && b.pubkey == mk.key);
                    if needs && !a.is_writable { o.viols.push(Viol { props: vec!["C18"], msg: format!("builder {}: account {} must be writable", name, a.pubkey) }) }
                }
            }
        }
    };
    let b = |op: Op| w.build(&op).0;
    chk("new_order", si::new_order(&mk.key, &oo, &mk.req_q, &mk.event_q, &mk.bids, &mk.asks, &payer, &owner, &mk.coin_vault, &mk.pc_vault, &tp, &rent, srm.as_ref(), &DEX, dside(p.side), nz(p.price), nz(p.qty), dot(p.otype), p.cid, dstb(p.stb), p.limit, nz(p.pc), p.max_ts),
        b(Op::New { m: 0, oo, owner, payer, srm, p, short: false }));
    chk("send_take", si::send_take(&mk.key, &mk.req_q, &mk.event_q, &mk.bids, &mk.asks, &cw, &pw, &owner, &mk.coin_vault, &mk.pc_vault, &tp, &mk.signer, srm.as_ref(), &DEX, dside(t.side), nz(t.price), nz(t.qty), nz(t.pc), t.min_coin, t.min_pc, t.limit),
        b(Op::Take { m: 0, cw, pw, signer: owner, srm, p: t }));
    chk("cancel_order", si::cancel_order(&DEX, &mk.key, &mk.bids, &mk.asks, &oo, &owner, &mk.event_q, dside(p.side), id), b(Op::Cancel { m: 0, oo, owner, side: p.side, id }));
    chk("cancel_by_client_id", si::cancel_order_by_client_order_id(&DEX, &mk.key, &mk.bids, &mk.asks, &oo, &owner, &mk.event_q, cid), b(Op::CancelCid { m: 0, oo, owner, cid }));
    chk("cancel_by_client_ids", si::cancel_orders_by_client_order_ids(&DEX, &mk.key, &mk.bids, &mk.asks, &oo, &owner, &mk.event_q, cids), b(Op::CancelCids { m: 0, oo, owner, cids: cids.to_vec() }));
    chk("consume_events", si::consume_events(&DEX, oos.iter().collect(), &mk.key, &mk.event_q, &mk.coin_vault, &mk.pc_vault, lim), b(Op::Consume { m: 0, oos: oos.clone(), limit: lim, auth: None, sorted: true }));
    chk("consume_events_permissioned", si::consume_events_permissioned(&DEX, oos.iter().collect(), &mk.key, &mk.event_q, &owner, lim), b(Op::Consume { m: 0, oos: oos.clone(), limit: lim, auth: Some(owner), sorted: true }));
    chk("settle_funds", si::settle_funds(&DEX, &mk.key, &tp, &oo, &owner, &mk.coin_vault, &cw, &mk.pc_vault, &pw, ref0.as_ref(), &mk.signer), b(Op::Settle { m: 0, oo, owner, cw, pw, referrer: ref0 }));
    chk("disable_market", si::disable_market(&DEX, &mk.key, &owner), b(Op::Disable { m: 0, signer: owner }));
    chk("sweep_fees", si::sweep_fees(&DEX, &mk.key, &mk.pc_vault, &owner, &pw, &mk.signer, &tp), b(Op::Sweep { m: 0, signer: owner, dst: pw }));
    chk("close_open_orders", si::close_open_orders(&DEX, &oo, &owner, &cw, &mk.key), b(Op::Close { m: 0, oo, owner, dest: cw }));
    chk("init_open_orders", si::init_open_orders(&DEX, &oo, &owner, &mk.key, auth.as_ref()), b(Op::InitOO { m: 0, oo, owner, auth }));
    chk("prune", si::prune(&DEX, &mk.key, &mk.bids, &mk.asks, &payer, &oo, &owner, &mk.event_q, lim), b(Op::Prune { m: 0, oo, oo_owner: owner, auth: payer, limit: lim }));
    {
        let mut data = vec![0, 2, 0, 0, 0];
        data.extend_from_slice(&lim.to_le_bytes());
        let accounts = [mk.key, mk.req_q, mk.event_q, mk.bids, mk.asks, cw, pw].iter().map(|k| AccountMeta::new(*k, false)).collect();
        chk("match_orders", si::match_orders(&DEX, &mk.key, &mk.req_q, &mk.bids, &mk.asks, &mk.event_q, &cw, &pw, lim), Instruction { program_id: DEX, accounts, data });
    }
    chk("initialize_market", si::initialize_market(&mk.key, &DEX, &mk.coin_mint, &mk.pc_mint, &mk.coin_vault, &mk.pc_vault, mk.oo_auth.as_ref(), mk.prune_auth.as_ref(), mk.crank_auth.as_ref(), &mk.bids, &mk.asks, &mk.req_q, &mk.event_q, mk.coin_lot, mk.pc_lot, mk.nonce, dust), init_market_ix(&mk, 0, dust));
}

// ---------------------------------------------------------------- slab
fn mk_leaf(l: &Leaf) -> LeafNode {
    let mut b = [0u8; 72];
    b[0..4].copy_from_slice(&2u32.to_le_bytes());
    b[4] = l.slot;
    b[5] = l.tier;
    b[8..24].copy_from_slice(&l.key.to_le_bytes());
    b[24..56].copy_from_slice(l.owner.as_ref());
    b[56..64].copy_from_slice(&l.qty.to_le_bytes());
    b[64..72].copy_from_slice(&l.cid.to_le_bytes());
    assert_eq!(std::mem::size_of::<LeafNode>(), 72);
    unsafe { std::ptr::read_unaligned(b.as_ptr() as *const LeafNode) }
}
fn same(l: &LeafNode, m: &Leaf) -> bool {
    let mut ow = [0u8; 32];
    for (i, x) in l.owner().iter().enumerate() { ow[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes()) }
    l.order_id() == m.key && l.quantity() == m.qty && l.client_order_id() == m.cid && l.owner_slot() == m.slot && ow == m.owner.to_bytes() && l.price().get() == m.price()
}
pub fn slab(seed: u64, big: bool) -> Out {
    let mut o = Out::new();
    let r0 = &mut Rng::new(seed);
    let res = crate::guard::call(|| {
        let mut o = Out::new();
        let mut r = r0.clone();
        // books of the sizes found on chain, and beyond what 16 bits can index
        let nodes = if big { match r.below(40) { 0 => r.range(65_000, 140_000), 1..=4 => r.range(3000, 20_000), 5..=20 => r.range(900, 3000), _ => r.range(200, 900) } }
            else { match r.below(4) { 0 => r.range(1, 6), 1 => r.range(1, 20), 2 => 31, _ => r.range(20, 200) } } as usize;
        let mut mem = vec![0u64; (32 + 72 * nodes + r.below(8) as usize * 8) / 8];
        let bytes: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut u8, mem.len() * 8) };
        let len = bytes.len();
        let ptr = bytes.as_ptr();
        let slab = Slab::new(bytes);
        let cap = ((len - 32) / 72) as u64;
        let mut map: BTreeMap<u128, Leaf> = BTreeMap::new();
        let base = (r.u64() as u128) << 64 | r.u64() as u128;
        let style = if big { 5 * r.below(2) } else { r.below(5) };
        let (steps, every) = if big { (nodes * 2, nodes / 10) } else { (160, 1) };
        let mut seq = 0u64;
        let mut key = |r: &mut Rng| -> u128 {
            let k = match style {
                5 => { seq += 1; (r.range(1000, 1040) as u128) << 64 | seq as u128 }
                0 => (r.u64() as u128) << 64 | r.u64() as u128,
                1 => base ^ (1u128 << r.below(128)),
                2 => ((r.range(1, 4) as u128) << 64) | (!(r.below(30))) as u128,
                3 => (r.range(1, 6) as u128) << 64 | r.below(12) as u128,
                _ => *r.pick(&[u128::MAX, 1u128 << 64, (1u128 << 127), u128::MAX - 1, u128::MAX >> 1]) ^ r.below(3) as u128,
            };
            if (k >> 64) == 0 { k | 1 << 64 } else { k }
        };
        for step in 0..steps {
            o.st.steps += 1;
            let k = if big && r.chance(1, if step < nodes { 20 } else { 2 }) && !map.is_empty() { let x = key(&mut r); *map.range(x..).next().or(map.iter().next()).unwrap().0 }
                else if !big && r.chance(1, 2) && !map.is_empty() { *map.keys().nth(r.below(map.len() as u64) as usize).unwrap() } else { key(&mut r) };
            let grow = map.len() < 3 || r.chance(3, 5);
            // fill up, churn, drain
            let what = if !big { r.below(10) } else if step < nodes { if r.chance(9, 10) { 0 } else { r.below(10) } } else if step < nodes * 3 / 2 { r.below(10) } else { r.range(4, 9) };
            match what {
                0..=4 if grow || big => {
                    let l = Leaf { slot: r.u64() as u8, tier: r.below(8) as u8, key: k, owner: r.key(), qty: r.wide(), cid: r.wide() };
                    let full = map.len() as u64 == (cap + 1) / 2;
                    let had = map.get(&k).cloned();
                    match slab.insert_leaf(&mk_leaf(&l)) {
                        Ok((h, old)) => {
                            if full && had.is_none() { o.v(&["C19"], "insert into a full book succeeded".into()) }
                            match (&old, &had) { (None, None) => {} (Some(a), Some(b)) if same(a, b) => {} _ => o.v(&["C19"], format!("insert of {:x} reported the wrong previous order", k)) }
                            match slab.get(h).and_then(|n| n.as_leaf()) { Some(n) if same(n, &l) => {} _ => o.v(&["C19"], "returned handle does not address the new order".into()) }
                            map.insert(k, l);
                        }
                        Err(_) => { o.st.bump("slab full"); if !full || had.is_some() { o.v(&["C19", "C20"], format!("insert refused with {} of {} leaves", map.len(), (cap + 1) / 2)) } }
                    }
                }
                5 => match (slab.remove_min(), map.keys().next().cloned()) { (None, None) => {} (Some(a), Some(b)) if same(&a, &map[&b]) => { map.remove(&b); } _ => o.v(&["C19"], "remove_min".into()) },
                6 => match (slab.remove_max(), map.keys().next_back().cloned()) { (None, None) => {} (Some(a), Some(b)) if same(&a, &map[&b]) => { map.remove(&b); } _ => o.v(&["C19"], "remove_max".into()) },
                7 if !map.is_empty() => {
                    let (h, want) = if r.chance(1, 2) { (slab.find_min(), *map.values().next().unwrap()) } else { (slab.find_max(), *map.values().next_back().unwrap()) };
                    match h.and_then(|h| slab.get_mut(h)).and_then(|n| n.as_leaf_mut()) {
                        Some(n) if same(n, &want) => { let q = r.wide(); n.set_quantity(q); map.get_mut(&want.key).unwrap().qty = q }
                        _ => o.v(&["C19"], "best order is wrong".into()),
                    }
                }
                _ => match (slab.remove_by_key(k), map.remove(&k)) { (None, None) => {} (Some(a), Some(b)) if same(&a, &b) => {} _ => o.v(&["C19"], format!("removal of {:x}", k)) },
            }
            if step % every == 0 || step + 1 == steps || !o.viols.is_empty() {
                let view: &[u8] = unsafe { std::slice::from_raw_parts(ptr, 32 + 72 * cap as usize) };
                match parse_slab(view) {
                    Err(e) => { o.v(&["C19"], format!("malformed tree: {}", e)); break }
                    Ok(b) => if b.leaves != map { o.v(&["C19"], format!("contents differ: {} orders stored, {} expected", b.leaves.len(), map.len())); break },
                }
            }
            if slab.find_min().and_then(|h| slab.get(h)).and_then(|n| n.as_leaf()).map(|n| n.order_id()) != map.keys().next().cloned() { o.v(&["C19"], "find_min".into()) }
            if slab.find_max().and_then(|h| slab.get(h)).and_then(|n| n.as_leaf()).map(|n| n.order_id()) != map.keys().next_back().cloned() { o.v(&["C19"], "find_max".into()) }
            let hh = if big { hash(&(map.len(), k, cap)) } else { hash(&(map.keys().cloned().collect::<Vec<_>>(), cap)) };
            o.st.rel("C19", hh, || format!("{} leaves of {} nodes, key style {}", map.len(), cap, style));
            if !o.viols.is_empty() { break }
        }
        o
    });
    match res { Ok(x) => o = x, Err(_) => o.v(&["C19", "C23"], format!("slab operation panicked: {}", last_panic())) }
    o
}

// ---------------------------------------------------------------- ring buffer
pub fn ring(seed: u64, big: bool) -> Out {
    use serum_dex::state::{Event, EventQueueHeader, Queue};
    use std::cell::RefCell;
    let mut o = Out::new();
    let mut r = Rng::new(seed);
    let cap = if big { match r.below(8) { 0 => r.range(65_000, 110_000), 1 => r.range(5000, 30_000), _ => r.range(128, 5000) } } else { r.range(1, 9) } as usize;
    // a big ring is filled and emptied in bursts, several times round
    let mut burst = (0usize, 0u64);
    let res = crate::guard::call(|| {
        let mut o = Out::new();
        let hdr = RefCell::new(unsafe { std::mem::zeroed::<EventQueueHeader>() });
        let buf = RefCell::new(vec![unsafe { std::mem::zeroed::<Event>() }; cap]);
        let mk = |r: &mut Rng| -> ([u8; 88], Event) { let mut b = [0u8; 88]; for x in b.chunks_mut(8) { x.copy_from_slice(&r.u64().to_le_bytes()) } assert_eq!(std::mem::size_of::<Event>(), 88); (b, unsafe { std::ptr::read_unaligned(b.as_ptr() as *const Event) }) };
        let raw = |e: &Event| -> [u8; 88] { unsafe { std::ptr::read_unaligned(e as *const Event as *const [u8; 88]) } };
        let mut m: VecDeque<[u8; 88]> = VecDeque::new();
        let mut seq = 0u64;
        let steps = if big { cap * 4 } else { 200 };
        for step in 0..steps {
            o.st.steps += 1;
            let full = !big || step % (cap / 3) == 0 || step + 1 == steps;
            if burst.0 == 0 { burst = (r.range(1, cap as u64) as usize, r.below(9)) }
            burst.0 -= 1;
            {
                let mut q = Queue::new(hdr.borrow_mut(), std::cell::RefMut::map(buf.borrow_mut(), |v| &mut v[..]));
                match if !big { r.below(9) } else if burst.1 < 7 { burst.1 } else if r.chance(1, 200) { r.range(7, 8) } else { 0 } {
                    0..=3 => {
                        let (b, e) = mk(&mut r);
                        match q.push_back(e) {
                            Ok(()) => { if m.len() == cap { o.v(&["C10"], "push into a full queue succeeded".into()) } m.push_back(b); seq += 1 }
                            Err(x) => { if m.len() < cap || raw(&x) != b { o.v(&["C10"], "push refused below capacity".into()) } o.st.bump("ring full") }
                        }
                    }
                    4..=6 => match (q.pop_front(), m.pop_front()) { (Err(()), None) => {} (Ok(a), Some(b)) if raw(&a) == b => {} _ => o.v(&["C10"], "pop_front returned the wrong event".into()) },
                    7 => { let n = r.below(m.len() as u64 + 1); let k = m.len() as u64 - n; if q.revert_pushes(n).is_err() { o.v(&["C10"], "revert refused".into()) } m.truncate(n as usize); seq -= k }
                    _ => if q.revert_pushes(m.len() as u64 + 1 + r.below(5)).is_ok() { o.v(&["C10"], "revert beyond the queue accepted".into()) },
                }
                if q.len() != m.len() as u64 || q.full() != (m.len() == cap) || q.empty() != m.is_empty() { o.v(&["C10"], "queue length".into()) }
                if q.peek_front().map(|e| raw(e)) != m.front().cloned() { o.v(&["C10"], "peek_front".into()) }
                if full && q.iter().map(|e| raw(e)).collect::<Vec<[u8; 88]>>() != m.iter().cloned().collect::<Vec<_>>() { o.v(&["C10"], "iteration order".into()) }
            }
            let h: [u8; 32] = unsafe { std::ptr::read_unaligned(&*hdr.borrow() as *const EventQueueHeader as *const [u8; 32]) };
            if u64at(&h, 24) != seq { o.v(&["C10"], format!("event sequence {} want {}", u64at(&h, 24), seq)) }
            o.st.rel("C10", hash(&(cap, u64at(&h, 8), u64at(&h, 16), seq)), || format!("ring cap {} len {}", cap, m.len()));
            if !o.viols.is_empty() { break }
        }
        o
    });
    match res { Ok(x) => o = x, Err(_) => o.v(&["C10", "C23"], format!("queue operation panicked: {}", last_panic())) }
    o
}

// ---------------------------------------------------------------- chaos
/// Arbitrary instruction bytes and account lists over a busy market: a
/// transaction either fails without effect or leaves every invariant intact.
pub fn chaos(seed: u64, steps: usize) -> Out {
    let mut r = Rng::new(seed);
    let name = *r.pick(&["base", "full", "extreme", "disabled", "many", "evict"]);
    let mut p = profile(name, &mut r);
    p.markets = 2;
    p.tamper = 0;
    p.steps = steps;
    let mut g = Gen { r, p };
    let mut mon = match build(&mut g) { Ok(m) => m, Err(e) => { let mut o = Out::new(); o.v(&["C15", "C23"], e); return o } };
    mon.st.histories = 1;
    // anyone can create zeroed accounts of any size and give them to any program
    for i in 0..14 {
        let len = match i { 0 => 0, 1 => 1, 2 => 11, 3 => 12, 4 => 13, 5 => 20, 6 => 44, 7 => OO_LEN, 8 => OO_LEN - 8, 9 => OO_LEN + 8, 10 => MKT1_LEN, 11 => MKT2_LEN, 12 => g.r.below(400) as usize, _ => 12 + 8 * g.r.below(4000) as usize };
        let owner = *g.r.pick(&[DEX, DEX, spl_token::ID, solana_program::system_program::ID]);
        let k = g.r.key();
        mon.w.l.insert(k, Acct { lamports: min_rent(len), owner, data: vec![0; len], ..Default::default() });
        if len == OO_LEN && owner == DEX { for m in 0..2 { mon.w.all_oos[m].push(k) } }
    }
    let signers: Vec<Pubkey> = mon.w.us.iter().map(|u| u.key).chain(vec![sweeper(), disabler()]).collect();
    for _ in 0..g.p.steps {
        let op = g.op(&mut mon);
        if g.r.chance(1, 2) {
            let (mut ix, _) = mon.w.build(&op);
            let pool: Vec<Pubkey> = { let mut v: Vec<Pubkey> = mon.w.l.keys().cloned().collect(); v.sort(); v };
            for _ in 0..g.r.range(1, 4) {
                let r = &mut g.r;
                match r.below(9) {
                    0 if !ix.accounts.is_empty() => { let i = r.below(ix.accounts.len() as u64) as usize; ix.accounts[i].pubkey = *r.pick(&pool) }
                    1 if !ix.accounts.is_empty() => { let i = r.below(ix.accounts.len() as u64) as usize; ix.accounts.remove(i); }
                    2 => { let i = r.below(ix.accounts.len() as u64 + 1) as usize; let k = *r.pick(&pool); ix.accounts.insert(i, AccountMeta::new(k, false)) }
                    3 if ix.accounts.len() > 1 => { let i = r.below(ix.accounts.len() as u64) as usize; let j = r.below(ix.accounts.len() as u64) as usize; ix.accounts.swap(i, j) }
                    4 => { let i = r.below(ix.data.len() as u64) as usize; ix.data[i] ^= 1 << r.below(8) }
                    5 => { let (_, b) = rnd_instr(r); ix.data = b }
                    6 => { let n = r.below(ix.data.len() as u64 + 20) as usize; ix.data.resize(n.max(1), r.u64() as u8) }
                    7 if !ix.accounts.is_empty() => { let i = r.below(ix.accounts.len() as u64) as usize; let j = r.below(ix.accounts.len() as u64) as usize; ix.accounts[i].pubkey = ix.accounts[j].pubkey }
                    _ => { let i = r.below(ix.data.len() as u64) as usize; for b in ix.data[i..].iter_mut().take(8) { *b = *r.pick(&[0, 255, 1, 128]) } }
                }
            }
            // only real keys can sign: nobody can sign for a vault or a market
            for a in ix.accounts.iter_mut() { if a.is_signer && !signers.contains(&a.pubkey) && Some(a.pubkey) != mon.w.mk[0].oo_auth { a.is_signer = false } }
            let before: BTreeMap<Pubkey, u64> = mon.w.l.iter().filter_map(|(k, a)| Tok::parse(a).map(|t| (*k, t.amount))).collect();
            let signed: Vec<Pubkey> = ix.accounts.iter().filter(|a| a.is_signer).map(|a| a.pubkey).collect();
            let b0: Vec<u64> = mon.w.mk.iter().map(|k| MState::load(&mon.w.l, &k.key).map_or(0, |s| s.m.reb)).collect();
            let oo0: u64 = (0..2).map(|m| mon.w.all_oos[m].iter().filter_map(|k| mon.w.oo(k)).map(|x| x.reb).sum::<u64>()).sum();
            let _ = oo0;
            let closing: Option<(usize, u64)> = if ix.data.get(1) == Some(&14) { ix.accounts.get(0).and_then(|a| mon.w.oo(&a.pubkey)).filter(|o| o.live()).and_then(|x| mon.w.mk.iter().position(|k| k.key == x.market).map(|m| (m, x.reb))) } else { None };
            let res = exec(&mut mon.w.l, &[ix.clone()]);
            mon.st.steps += 1;
            mon.st.bump(if res.is_ok() { "chaos transactions accepted" } else { "chaos transactions refused" });
            mon.st.rel("C23", hash(&(ix.data.clone(), ix.accounts.iter().map(|a| a.pubkey.to_bytes()).collect::<Vec<_>>())), || format!("chaos {} data={}B accounts={} ok={}", op.name(), ix.data.len(), ix.accounts.len(), res.is_ok()));
            if let Err(TxErr::Runtime(_)) = &res { mon.st.bump("chaos transactions stopped by the chain") }
            if res.is_ok() {
                // nobody's wallet shrinks without their signature
                for (k, v) in &before {
                    if let Some(t) = mon.w.tok(k) {
                        let vault = mon.w.mk.iter().any(|m| m.coin_vault == *k || m.pc_vault == *k);
                        if t.amount < *v && !vault && !signed.contains(&t.owner) && !t.delegate.map_or(false, |d| signed.contains(&d.0)) && !before_delegate(&ix, &t) {
                            mon.viol(vec!["C23", "C03"], format!("tokens left {} without its owner's signature", k));
                        }
                    }
                }
                // an unused account may have been adopted by the other market
                for m in 0..2 {
                    let all: Vec<Pubkey> = mon.w.all_oos[1 - m].clone();
                    for k in all { if mon.w.oo(&k).map_or(false, |x| x.live() && x.market == mon.w.mk[m].key) && !mon.w.all_oos[m].contains(&k) { mon.w.all_oos[m].push(k) } }
                }
                for m in 0..2 {
                    // SendTake strands rebates; payments into vaults create unowed excess
                    if ix.data.get(1) == Some(&13) { if let Ok(s) = MState::load(&mon.w.l, &mon.w.mk[m].key) { mon.stranded[m] += s.m.reb as i128 - b0[m] as i128 } }
                    if let Some((cm, reb)) = closing { if cm == m { mon.stranded[m] += reb as i128 } }
                    let vk = [mon.w.mk[m].coin_vault, mon.w.mk[m].pc_vault];
                    if ix.accounts.iter().filter(|a| vk.contains(&a.pubkey)).count() > 1 || (ix.accounts.iter().any(|a| vk.contains(&a.pubkey)) && !ix.accounts.iter().any(|a| a.pubkey == mon.w.mk[m].key)) { mon.rebase_excess(m) }
                    mon.invariants(m);
                }
            }
        } else {
            mon.step(&op);
        }
        if mon.dead || mon.viols.len() > 5 { break }
    }
    for v in mon.viols.iter_mut() { if !v.props.contains(&"C23") { v.props.push("C23") } }
    Out { st: mon.st, viols: mon.viols, log: vec![] }
}
fn before_delegate(_: &Instruction, _: &Tok) -> bool { false }
