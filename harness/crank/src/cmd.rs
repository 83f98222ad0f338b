//! The client commands (library functions and command line), run against the
//! fake node. What a command does to the chain is compared with the effect of
//! independently encoded instructions on a copy of the ledger.
use crate::abs::*;
use crate::chain::*;
use crate::gen;
use crate::model::*;
use crate::mon::Mon;
use crate::rt::*;
use crate::stats::*;
use crate::world::*;
use serde_json::{json, Value};
use serum_dex::instruction::{NewOrderInstructionV3, SelfTradeBehavior};
use solana_client::rpc_client::RpcClient;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::message::Message;
use solana_sdk::signature::{Keypair, Signer};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::num::NonZeroU64;
use std::sync::{Arc, Mutex};

const SURE: usize = 24;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault { None, Blockhash(u32), Refused(u32), Lost(u32), Silent(u32), Simulation, Rent(u32), Account }

/// the node; transactions that went in are kept for the judge
pub struct N { pub l: Ledger, pub clock: i64, slot: u64, hash: solana_sdk::hash::Hash, fault: Fault, nth: [u32; 4], sigs: HashMap<String, bool>, pub sent: u32, pub ran: u32, pub bad: Vec<String>, pub hit: bool }
impl N {
    fn run(&mut self, tx: &solana_sdk::transaction::Transaction) -> bool {
        if !self.l.contains_key(&tx.message.account_keys[0]) { return false }
        exec(&mut self.l, &tx_ixs(tx)).is_ok()
    }
}
fn txerr() -> Value { json!({"InstructionError": [0, {"Custom": 1}]}) }
impl Node for N {
    fn handle(&mut self, method: &str, p: &Value) -> Reply {
        set_clock(self.clock);
        let ctx = json!({"slot": self.slot});
        let down = || Err((-32005, "node is behind".to_string()));
        match method {
            "getMinimumBalanceForRentExemption" => { self.nth[0] += 1; if self.fault == Fault::Rent(self.nth[0]) { self.hit = true; return down() } }
            _ => {}
        }
        if let Some(r) = base_reply(method, p) { return r }
        match method {
            "getAccountInfo" => {
                if self.fault == Fault::Account { self.hit = true; return down() }
                let Some(k) = key_param(p) else { return Err((-32602, "bad key".into())) };
                Ok(json!({"context": ctx, "value": acct_json(self.l.get(&k))}))
            }
            "getLatestBlockhash" => {
                self.nth[1] += 1;
                if self.fault == Fault::Blockhash(self.nth[1]) { self.hit = true; return down() }
                self.slot += 1;
                self.hash = solana_sdk::hash::hash(&self.slot.to_le_bytes());
                Ok(json!({"context": ctx, "value": {"blockhash": self.hash.to_string(), "lastValidBlockHeight": self.slot + 150}}))
            }
            "isBlockhashValid" => Ok(json!({"context": ctx, "value": false})),
            "simulateTransaction" => {
                if self.fault == Fault::Simulation { self.hit = true; return Ok(json!({"context": ctx, "value": {"err": txerr(), "logs": [], "accounts": null, "unitsConsumed": 0}})) }
                let tx = match decode_tx(p[0].as_str().unwrap_or(""), p[1]["encoding"].as_str() == Some("base64")) { Ok(t) => t, Err(e) => return Err((-32602, e)) };
                let ok = tx.verify().is_ok() && { let keep = self.l.clone(); let r = self.run(&tx); self.l = keep; r };
                Ok(json!({"context": ctx, "value": {"err": if ok { Value::Null } else { txerr() }, "logs": [], "accounts": null, "unitsConsumed": 0}}))
            }
            "sendTransaction" => {
                self.nth[2] += 1;
                self.sent += 1;
                let n = self.nth[2];
                let tx = match decode_tx(p[0].as_str().unwrap_or(""), p[1]["encoding"].as_str() == Some("base64")) { Ok(t) => t, Err(e) => { self.bad.push(e.clone()); return Err((-32602, e)) } };
                if tx.verify().is_err() { self.bad.push("a signature is missing or wrong".into()); return Err((-32003, "signature verification failure".into())) }
                if tx.message.recent_blockhash != self.hash { self.bad.push("not a recent blockhash".into()) }
                let sig = tx.signatures[0].to_string();
                if self.fault == Fault::Refused(n) { self.hit = true; return down() }
                if self.fault == Fault::Lost(n) { self.hit = true; return Ok(json!(sig)) }
                if !self.sigs.contains_key(&sig) { let ok = self.run(&tx); self.ran += ok as u32; self.sigs.insert(sig.clone(), ok); }
                if self.fault == Fault::Silent(n) { self.hit = true; return down() }
                Ok(json!(sig))
            }
            "getSignatureStatuses" => {
                let sig = p[0][0].as_str().unwrap_or("");
                let v = match self.sigs.get(sig) {
                    None => Value::Null,
                    Some(true) => json!({"slot": self.slot, "confirmations": 1, "err": null, "status": {"Ok": null}, "confirmationStatus": "confirmed"}),
                    Some(false) => json!({"slot": self.slot, "confirmations": 1, "err": txerr(), "status": {"Err": txerr()}, "confirmationStatus": "confirmed"}),
                };
                Ok(json!({"context": ctx, "value": [v]}))
            }
            _ => Err((-32601, "unknown method".into())),
        }
    }
}

/// effect of the instructions as one transaction, if it goes through
fn effect(l: &Ledger, ixs: &[Instruction], payer: &Pubkey) -> Option<Ledger> {
    let m = Message::new(ixs, Some(payer));
    if 1 + 64 * m.header.num_required_signatures as usize + m.serialize().len() > PACKET { return None }
    if !l.contains_key(payer) { return None }
    let mut l = l.clone();
    exec(&mut l, &msg_ixs(&m)).ok()?;
    Some(l)
}
fn create(from: &Pubkey, k: &Pubkey, len: usize, owner: &Pubkey) -> Instruction {
    let mut d = vec![0u8; 4];
    d.extend_from_slice(&min_rent(len).to_le_bytes());
    d.extend_from_slice(&(len as u64).to_le_bytes());
    d.extend_from_slice(owner.as_ref());
    Instruction { program_id: solana_program::system_program::ID, accounts: vec![AccountMeta::new(*from, true), AccountMeta::new(*k, true)], data: d }
}
fn token(data: Vec<u8>, accounts: Vec<AccountMeta>) -> Instruction { Instruction { program_id: spl_token::ID, accounts, data } }
fn init_acct(k: &Pubkey, mint: &Pubkey, owner: &Pubkey) -> Instruction {
    token(vec![1], vec![AccountMeta::new(*k, false), AccountMeta::new_readonly(*mint, false), AccountMeta::new_readonly(*owner, false), AccountMeta::new_readonly(solana_program::sysvar::rent::ID, false)])
}
fn init_mint(k: &Pubkey, auth: &Pubkey, dec: u8) -> Instruction {
    let mut d = vec![0u8, dec];
    d.extend_from_slice(auth.as_ref());
    d.push(0);
    token(d, vec![AccountMeta::new(*k, false), AccountMeta::new_readonly(solana_program::sysvar::rent::ID, false)])
}
fn amount(tag: u8, n: u64) -> Vec<u8> { let mut d = vec![tag]; d.extend_from_slice(&n.to_le_bytes()); d }
fn mint_to(mint: &Pubkey, to: &Pubkey, auth: &Pubkey, n: u64) -> Instruction { token(amount(7, n), vec![AccountMeta::new(*mint, false), AccountMeta::new(*to, false), AccountMeta::new_readonly(*auth, true)]) }
fn fresh(a: &Ledger, b: &Ledger) -> Vec<Pubkey> { let mut v: Vec<Pubkey> = b.keys().filter(|k| !a.contains_key(*k)).cloned().collect(); v.sort(); v }

struct H { g: gen::Gen, mon: Mon, r: Rng, node: Arc<Mutex<N>>, url: String, client: RpcClient, kps: Vec<Keypair>, files: Vec<String>, dir: std::path::PathBuf, mints: Vec<(Pubkey, usize)>, toks: Vec<(Pubkey, Pubkey)>, viols: Vec<Viol>, log: Vec<String>, st: Stats, keep: bool }

enum Want { Is(Option<Ledger>), No, Free }

impl H {
    fn v(&mut self, m: String) { if self.viols.len() < 10 { let v = Viol { props: vec!["K02"], msg: m }; note(&v); self.viols.push(v) } }
    fn lg(&self) -> Ledger { self.node.lock().unwrap().l.clone() }
    fn keys(&self) -> crank::MarketPubkeys {
        let k = &self.mon.w.mk[0];
        crank::MarketPubkeys { market: Box::new(k.key), req_q: Box::new(k.req_q), event_q: Box::new(k.event_q), bids: Box::new(k.bids), asks: Box::new(k.asks), coin_vault: Box::new(k.coin_vault), pc_vault: Box::new(k.pc_vault), vault_signer_key: Box::new(k.signer) }
    }
    fn cli(&self, args: &[String]) -> anyhow::Result<()> {
        use clap::Parser;
        let mut a = vec!["crank".to_string(), self.url.clone()];
        a.extend_from_slice(args);
        crank::start(crank::Opts::try_parse_from(&a)?)
    }
    fn trade(&mut self, n: u64) {
        self.mon.w.l = self.lg();
        for _ in 0..n {
            let op = self.g.op(&mut self.mon);
            if let Op::Close { .. } = op { continue }
            let (ix, _) = self.mon.w.build(&op);
            let _ = exec(&mut self.mon.w.l, &[ix]);
        }
        self.node.lock().unwrap().l = self.mon.w.l.clone();
    }

    /// runs a command and holds its effect against the expectation, which may depend on what the command returned
    fn run<T>(&mut self, name: &'static str, what: String, fault: Fault, cmd: impl FnOnce(&mut H) -> anyhow::Result<T>, want: impl FnOnce(&mut H, &Ledger, &Ledger, Option<&T>) -> Want) {
        let before = self.lg();
        { let mut n = self.node.lock().unwrap(); n.fault = fault; n.nth = [0; 4]; n.sent = 0; n.ran = 0; n.bad.clear(); n.hit = false; }
        let r = crate::guard::call(|| cmd(self));
        let (after, bad, hit, ran) = { let mut n = self.node.lock().unwrap(); n.fault = Fault::None; (n.l.clone(), n.bad.clone(), n.hit, n.ran) };
        self.mon.w.l = after.clone();
        self.st.steps += 1;
        let d = format!("{} {} {:?} -> {}", name, what, fault, match &r { Err(_) => format!("panic {}", last_panic()), Ok(Ok(_)) => "ok".into(), Ok(Err(e)) => format!("error {}", e).chars().take(160).collect() });
        if self.keep { self.log.push(d.clone()) }
        let ok = matches!(r, Ok(Ok(_)));
        let e = self.st.ops.entry(name).or_insert([0; 2]);
        e[0] += 1;
        e[1] += ok as u64;
        if hit { self.st.bump("commands hit by a fault") }
        if ok { self.st.add("transactions confirmed", ran as u64) }
        let h = hash(&(&what, self.st.steps, before.len(), after.len()));
        self.st.rel("K02", h, || d.clone());
        self.st.states.insert(h);
        let res = match r { Err(_) => { self.v(format!("panicked: {}", d)); return } Ok(x) => x.ok() };
        for b in bad { self.v(format!("sent what no node accepts ({}): {}", b, d)) }
        let want = want(self, &before, &after, res.as_ref());
        match want {
            Want::Free => {}
            Want::No => if ok { self.v(format!("succeeded although it cannot: {}", d)) } else if after != before { self.v(format!("failed but changed the chain: {}", d)) },
            Want::Is(w) => match (ok, w) {
                (true, None) => self.v(format!("reported success for something the chain refuses: {}", d)),
                (true, Some(w)) => {
                    if w != after { let ks: Vec<String> = w.keys().chain(after.keys()).filter(|k| w.get(*k) != after.get(*k)).map(|k| k.to_string()).collect(); self.v(format!("did something else ({:?} differ): {}", ks, d)) }
                    if hit && matches!(fault, Fault::Lost(_) | Fault::Refused(_) | Fault::Silent(_) | Fault::Blockhash(_) | Fault::Rent(_) | Fault::Simulation | Fault::Account) { self.v(format!("reported success although its request failed: {}", d)) }
                }
                (false, w) => {
                    if !hit && w.is_some() { self.v(format!("failed although the chain would do it: {}", d)) }
                    let silent = matches!(fault, Fault::Silent(_)) && hit;
                    if after != before && !(silent && w.as_ref() == Some(&after)) { self.v(format!("failed but changed the chain: {}", d)) }
                }
            },
        }
    }

    fn fault(&mut self, sims: bool) -> Fault {
        if !self.r.chance(1, 5) { return Fault::None }
        match self.r.below(6) { 0 => Fault::Blockhash(1), 1 => Fault::Refused(1), 2 => Fault::Lost(1), 3 => Fault::Silent(1), 4 if sims => Fault::Simulation, 5 => Fault::Rent(1), _ => Fault::Account }
    }

    fn step(&mut self) {
        let u = self.r.below(self.kps.len() as u64) as usize;
        let kp = Keypair::from_bytes(&self.kps[u].to_bytes()).unwrap();
        let me = kp.pubkey();
        let idx = self.mon.w.us.iter().position(|x| x.key == me).unwrap();
        let mk = self.mon.w.mk[0].clone();
        let oos = self.mon.w.us[idx].oos[0].clone();
        // mostly one's own account, sometimes somebody else's
        let some_oo = if oos.is_empty() || self.r.chance(1, 12) { *self.r.pick(&self.mon.w.all_oos[0]) } else { *self.r.pick(&oos) };
        let sims = self.fault(true);
        let plain = match sims { Fault::Simulation => Fault::None, f => f };
        match self.r.below(24) {
            0 | 1 => {
                let given = if self.r.chance(1, 3) { Some(some_oo) } else { None };
                let k = self.keys();
                self.run("init_open_orders", format!("{:?}", given), plain, |h| { let mut o = given; crank::init_open_orders(&h.client, &DEX, &kp, &k, &mut o)?; Ok(o.unwrap()) }, |h, a, b, r| {
                    let oo = match (given, r) { (Some(g), _) => Some(g), (None, Some(k)) => Some(*k), (None, None) => fresh(a, b).first().cloned() };
                    let Some(oo) = oo else {
                        let dummy = Keypair::new().pubkey();
                        let w = effect(a, &[create(&me, &dummy, OO_LEN, &DEX), h.mon.w.build(&Op::InitOO { m: 0, oo: dummy, owner: me, auth: None }).0], &me);
                        return if w.is_some() { Want::Is(w) } else { Want::Is(None) };
                    };
                    let mut ixs = vec![];
                    if given.is_none() { ixs.push(create(&me, &oo, OO_LEN, &DEX)) }
                    ixs.push(h.mon.w.build(&Op::InitOO { m: 0, oo, owner: me, auth: None }).0);
                    let w = effect(a, &ixs, &me);
                    if r.is_some() && given.is_none() { h.mon.w.us[idx].oos[0].push(oo); h.mon.w.all_oos[0].push(oo) }
                    Want::Is(w)
                })
            }
            2..=7 => {
                let mut p = self.g.order(&self.mon, idx, 0);
                p.price = p.price.max(1);
                p.qty = p.qty.max(1);
                p.pc = p.pc.max(1);
                let given = if oos.is_empty() && self.r.chance(1, 2) || self.r.chance(1, 25) { None } else { Some(some_oo) };
                let wallet = { let m = if (p.side == Side::Bid) != self.r.chance(1, 15) { mk.pc_mint } else { mk.coin_mint }; let w = if self.r.chance(1, 15) { 0 } else { idx }; self.mon.w.us[w].wallets[&m] };
                let k = self.keys();
                let o = NewOrderInstructionV3 {
                    side: if p.side == Side::Bid { serum_dex::matching::Side::Bid } else { serum_dex::matching::Side::Ask },
                    limit_price: NonZeroU64::new(p.price).unwrap(), max_coin_qty: NonZeroU64::new(p.qty).unwrap(), max_native_pc_qty_including_fees: NonZeroU64::new(p.pc).unwrap(),
                    self_trade_behavior: match p.stb { Stb::Dec => SelfTradeBehavior::DecrementTake, Stb::CancelProvide => SelfTradeBehavior::CancelProvide, Stb::Abort => SelfTradeBehavior::AbortTransaction },
                    order_type: match p.otype { OType::Limit => serum_dex::matching::OrderType::Limit, OType::Ioc => serum_dex::matching::OrderType::ImmediateOrCancel, OType::Post => serum_dex::matching::OrderType::PostOnly },
                    client_order_id: p.cid, limit: p.limit, max_ts: p.max_ts,
                };
                self.run("place_order", format!("{:?} {:?}", given, p), plain, |h| { let mut x = given; crank::place_order(&h.client, &DEX, &kp, &wallet, &k, &mut x, o)?; Ok(x.unwrap()) }, |h, a, b, r| {
                    let oo = match (given, r) { (Some(g), _) => g, (None, Some(k)) => *k, (None, None) => fresh(a, b).first().cloned().unwrap_or(Keypair::new().pubkey()) };
                    let mut ixs = vec![];
                    if given.is_none() { ixs.push(create(&me, &oo, OO_LEN, &DEX)) }
                    ixs.push(h.mon.w.build(&Op::New { m: 0, oo, owner: me, payer: wallet, srm: None, p, short: false }).0);
                    let w = effect(a, &ixs, &me);
                    if r.is_some() && given.is_none() { h.mon.w.us[idx].oos[0].push(oo); h.mon.w.all_oos[0].push(oo) }
                    Want::Is(w)
                })
            }
            8 | 9 => {
                let cid = self.cid(&some_oo);
                let k = self.keys();
                self.run("cancel_order_by_client_order_id", format!("{} {}", some_oo, cid), sims, |h| crank::cancel_order_by_client_order_id(&h.client, &DEX, &kp, &k, &some_oo, cid), |h, a, _, _| Want::Is(effect(a, &[h.mon.w.build(&Op::CancelCid { m: 0, oo: some_oo, owner: me, cid }).0], &me)))
            }
            10 => {
                let mut c = [0u64; 8];
                for x in c.iter_mut() { if self.r.chance(3, 4) { *x = self.cid(&some_oo) } }
                let k = self.keys();
                self.run("cancel_orders_by_client_order_ids", format!("{} {:?}", some_oo, c), sims, |h| crank::cancel_orders_by_client_order_ids(&h.client, &DEX, &kp, &k, &some_oo, c), |h, a, _, _| Want::Is(effect(a, &[h.mon.w.build(&Op::CancelCids { m: 0, oo: some_oo, owner: me, cids: c.to_vec() }).0], &me)))
            }
            11 => {
                let k = self.keys();
                self.run("close_open_orders", format!("{}", some_oo), sims, |h| crank::close_open_orders(&h.client, &DEX, &kp, &k, &some_oo), |h, a, _, r| {
                    let w = effect(a, &[h.mon.w.build(&Op::Close { m: 0, oo: some_oo, owner: me, dest: me }).0], &me);
                    if r.is_some() { for u in h.mon.w.us.iter_mut() { u.oos[0].retain(|x| *x != some_oo) } h.mon.w.all_oos[0].retain(|x| *x != some_oo) }
                    Want::Is(w)
                })
            }
            12 | 13 => { // settle, from the command line: reads the market's addresses from the chain
                let (cw, pw) = { let w = if self.r.chance(1, 10) { 0 } else { idx }; (self.mon.w.us[w].wallets[&mk.coin_mint], self.mon.w.us[w].wallets[&mk.pc_mint]) };
                let other = self.r.chance(1, 2);
                let payer = if other { (u + 1) % self.kps.len() } else { u };
                let mut a: Vec<String> = vec!["settle-funds".into(), self.files[payer].clone(), DEX.to_string(), mk.key.to_string(), some_oo.to_string(), cw.to_string(), pw.to_string()];
                if other { a.push("--signer".into()); a.push(self.files[u].clone()) }
                let pk = self.kps[payer].pubkey();
                self.run("settle-funds", format!("{} payer {} signer {}", some_oo, pk, me), sims, |h| h.cli(&a), |h, l, _, _| Want::Is(effect(l, &[h.mon.w.build(&Op::Settle { m: 0, oo: some_oo, owner: me, cw, pw, referrer: None }).0], &pk)))
            }
            14 => {
                let (cw, pw) = (self.mon.w.us[idx].wallets[&mk.coin_mint], self.mon.w.us[idx].wallets[&mk.pc_mint]);
                let k = self.keys();
                let ix = Instruction { program_id: DEX, accounts: [mk.key, mk.req_q, mk.event_q, mk.bids, mk.asks, cw, pw].iter().map(|x| AccountMeta::new(*x, false)).collect(), data: vec![0, 2, 0, 0, 0, 2, 0] };
                let line = self.r.chance(1, 2);
                let f = self.files[u].clone();
                let fl = if !line && sims == Fault::Account { Fault::None } else { sims };
                self.run("match_orders", format!("cli {}", line), fl, |h| if line { h.cli(&["match-orders", "--dex-program-id", &DEX.to_string(), "--payer", &f, "--market", &mk.key.to_string(), "--coin-wallet", &cw.to_string(), "--pc-wallet", &pw.to_string()].map(|s| s.to_string())) } else { crank::match_orders(&h.client, &DEX, &kp, &k, &cw, &pw) }, |_, l, _, _| Want::Is(effect(l, &[ix], &me)))
            }
            15 | 16 | 17 if mk.crank_auth.is_some() => {} // cranked by its authority only
            15 | 16 => self.consume_ix(&kp, idx, plain),
            17 => self.consume_once(&kp, idx, plain),
            18 => { // genesis
                let mint = Keypair::new();
                let f = self.dir.join(format!("m{}.json", self.st.steps)).to_str().unwrap().to_string();
                std::fs::write(&f, serde_json::to_string(&mint.to_bytes().to_vec()).unwrap()).unwrap();
                let auth = self.r.below(self.kps.len() as u64) as usize;
                let ak = self.kps[auth].pubkey();
                let dec = self.r.below(10) as u8;
                let (fp, mp) = (self.files[u].clone(), mint.pubkey());
                let variant = self.r.below(3);
                self.run("genesis", format!("{} authority {} decimals {} way {}", mp, ak, dec, variant), plain, |h| match variant {
                    0 => { h.cli(&["genesis", "--payer", &fp, "--mint", &f, "--owner-pubkey", &ak.to_string(), "--decimals", &dec.to_string()].map(|s| s.to_string()))?; Ok(mp) }
                    1 => { serum_common::client::rpc::create_and_init_mint(&h.client, &kp, &mint, &ak, dec)?; Ok(mp) }
                    _ => Ok(serum_common::client::rpc::new_mint(&h.client, &kp, &ak, dec)?.0.pubkey()),
                }, |h, a, b, r| {
                    let m = match r { Some(m) => *m, None => fresh(a, b).first().cloned().unwrap_or(mp) };
                    if r.is_some() { h.mints.push((m, auth)) }
                    Want::Is(effect(a, &[create(&me, &m, 82, &spl_token::ID), init_mint(&m, &ak, dec)], &me))
                });
                let _ = std::fs::remove_file(&f);
            }
            19 | 20 => { // mint
                if self.mints.is_empty() { return }
                let (m, auth) = *self.r.pick(&self.mints);
                let auth = if self.r.chance(1, 10) { (auth + 1) % self.kps.len() } else { auth };
                let ak = self.kps[auth].pubkey();
                let n = self.r.wide();
                let to = if self.r.chance(1, 2) { self.toks.iter().filter(|t| t.1 == m).map(|t| t.0).next() } else { None };
                let (fp, fa) = (self.files[u].clone(), self.files[auth].clone());
                let line = self.r.chance(1, 2) || to.is_some();
                let akp = Keypair::from_bytes(&self.kps[auth].to_bytes()).unwrap();
                self.run("mint", format!("{} of {} to {:?} cli {}", n, m, to, line), plain, |h| {
                    if line {
                        let mut a: Vec<String> = ["mint", "--payer", &fp, "--signer", &fa, "--mint-pubkey", &m.to_string(), "--quantity", &n.to_string()].map(|s| s.to_string()).to_vec();
                        if let Some(t) = to { a.push("--recipient".into()); a.push(t.to_string()) }
                        h.cli(&a)?;
                        Ok(to)
                    } else { Ok(Some(serum_common::client::rpc::mint_to_new_account(&h.client, &kp, &akp, &m, n)?.pubkey())) }
                }, |h, a, b, r| {
                    let t = to.or(r.cloned().flatten()).or(fresh(a, b).first().cloned()).unwrap_or(Keypair::new().pubkey());
                    let mut ixs = vec![];
                    if to.is_none() { ixs.push(create(&me, &t, 165, &spl_token::ID)); ixs.push(init_acct(&t, &m, &me)); if r.is_some() { h.toks.push((t, m)) } }
                    ixs.push(mint_to(&m, &t, &ak, n));
                    Want::Is(effect(a, &ixs, &me))
                })
            }
            21 => { // token accounts
                let mint = if self.mints.is_empty() || self.r.chance(1, 2) { mk.coin_mint } else { self.r.pick(&self.mints).0 };
                let mint = if self.r.chance(1, 10) { me } else { mint };
                let way = self.r.below(4);
                let f = self.files[u].clone();
                let owner = if way == 0 { me } else { self.r.key() };
                let len = self.r.below(300) as usize;
                let f2 = if plain == Fault::Account { Fault::None } else { plain };
                self.run("token account", format!("{} for {} way {}", mint, owner, way), f2, |h| match way {
                    0 => { h.cli(&["initialize-token-account", &mint.to_string(), &f].map(|s| s.to_string()))?; Ok(None) }
                    3 => { h.cli(&["create-account", &mint.to_string(), &owner.to_string(), &f].map(|s| s.to_string()))?; Ok(None) }
                    1 => Ok(Some(serum_common::client::rpc::create_token_account(&h.client, &mint, &owner, &kp)?.pubkey())),
                    _ => Ok(Some(serum_common::client::rpc::create_account_rent_exempt(&h.client, &kp, len, &owner)?.pubkey())),
                }, |h, a, b, r| {
                    let t = r.cloned().flatten().or(fresh(a, b).first().cloned()).unwrap_or(Keypair::new().pubkey());
                    if way == 2 { return Want::Is(effect(a, &[create(&me, &t, len, &owner)], &me)) }
                    if r.is_some() { h.toks.push((t, mint)) }
                    Want::Is(effect(a, &[create(&me, &t, 165, &spl_token::ID), init_acct(&t, &mint, &owner)], &me))
                })
            }
            22 => { // token transfers and balances
                if self.r.chance(1, 2) {
                    let (a, b) = (self.mon.w.us[idx].wallets[&mk.pc_mint], self.mon.w.us[self.r.below(self.mon.w.us.len() as u64) as usize].wallets[if self.r.chance(1, 8) { &mk.coin_mint } else { &mk.pc_mint }]);
                    let have = self.mon.w.tok(&a).map_or(0, |t| t.amount);
                    let n = match self.r.below(4) { 0 => have, 1 => have.saturating_add(1), _ => self.r.below(have.max(1)) / 100 };
                    let payer = (u + 1) % self.kps.len();
                    let pkp = Keypair::from_bytes(&self.kps[payer].to_bytes()).unwrap();
                    let pk = pkp.pubkey();
                    let f = if let Fault::Account | Fault::Rent(_) = plain { Fault::None } else { plain };
                    self.run("transfer", format!("{} from {} to {}", n, a, b), f, |h| serum_common::client::rpc::transfer(&h.client, &a, &b, n, &kp, &pkp), |_, l, _, _| Want::Is(effect(l, &[token(amount(3, n), vec![AccountMeta::new(a, false), AccountMeta::new(b, false), AccountMeta::new_readonly(me, true)])], &pk)))
                } else {
                    let k = if self.r.chance(1, 5) { self.r.key() } else { *self.mon.w.us[idx].wallets.values().min().unwrap() };
                    let l = self.lg();
                    let want = self.mon.w.tok(&k);
                    self.run("get_token_account", format!("{}", k), Fault::None, |h| serum_common::client::rpc::get_token_account::<spl_token::state::Account>(&h.client, &k), |h, _, _, r| {
                        match (r, want) {
                            (Some(t), Some(w)) => if t.amount != w.amount || t.mint != w.mint || t.owner != w.owner { h.v(format!("token account read wrongly: {:?}", t)) },
                            (None, None) => {}
                            _ => h.v("token account read differs in existence".into()),
                        }
                        Want::Free
                    });
                    if self.lg() != l { self.v("a read changed the chain".into()) }
                }
            }
            _ => { // a look at the queue; refuses what is not a market
                let good = !self.r.chance(1, 2);
                let m = if good { mk.key } else if self.r.chance(1, 3) { *self.r.pick(&[mk.bids, mk.coin_vault, me, mk.event_q]) } else { self.impostor(&mk) };
                let f = if plain == Fault::Account { plain } else { Fault::None };
                self.run("print-event-queue", format!("{}", m), f, |h| h.cli(&["print-event-queue", &DEX.to_string(), &m.to_string()].map(|s| s.to_string())), |_, a, _, _| if good { Want::Is(Some(a.clone())) } else { Want::No })
            }
        }
    }

    /// an account that resembles the market but is none
    fn impostor(&mut self, mk: &MarketK) -> Pubkey {
        let mut a = self.lg()[&mk.key].clone();
        let k = self.r.key();
        a.data[13..45].copy_from_slice(k.as_ref());
        match self.r.below(8) {
            6 => { let n = *self.r.pick(&[0usize, 1, 4, 5, 6, 7, 8, 11, 12, 13, 20]); a.data.truncate(n) }
            7 => { let mut d = b"serum".to_vec(); let n = self.r.below(30); for _ in 0..n { d.push(self.r.below(8) as u8) } d.extend_from_slice(b"padding"); if self.r.chance(1, 3) { d.pop(); } a.data = d }
            0 => a.data[13..45].copy_from_slice(mk.key.as_ref()),
            1 => { let n = self.r.below(4) as usize; a.data[13 + 8 * n] ^= 1 << self.r.below(8) }
            2 => a.data[5] &= !1,
            3 => { let f = *self.r.pick(&[4u8, 8, 16, 32, 64]); a.data[5] = a.data[5] & !2 | f }
            4 => { let n = a.data.len(); if self.r.chance(1, 2) { a.data.truncate(n - 8) } else { let t = a.data.split_off(n - 7); a.data.extend(vec![0; 8]); a.data.extend(t) } }
            _ => {
                a.owner = if self.r.chance(1, 2) { spl_token::ID } else { Pubkey::default() };
                // with a queue of its maker's design
                if self.r.chance(2, 3) {
                    let q = self.r.key();
                    let n = self.r.below(200) as usize;
                    let mut d = b"serum".to_vec();
                    for _ in 0..n { d.push(self.r.u64() as u8) }
                    d.extend_from_slice(b"padding");
                    self.mon.w.l = self.lg();
                    self.mon.w.l.insert(q, Acct { lamports: 1 << 30, owner: a.owner, data: d, executable: false });
                    self.node.lock().unwrap().l = self.mon.w.l.clone();
                    let old = mk.event_q.to_bytes();
                    if let Some(i) = (0..a.data.len() - 32).find(|i| a.data[*i..*i + 32] == old) { a.data[i..i + 32].copy_from_slice(q.as_ref()) }
                }
            }
        }
        let mut l = self.lg();
        l.insert(k, a);
        self.mon.w.l = l.clone();
        self.node.lock().unwrap().l = l;
        k
    }

    fn cid(&mut self, oo: &Pubkey) -> u64 {
        let ids: Vec<u64> = self.mon.w.oo(oo).map_or(vec![], |o| o.slots.values().map(|s| s.cid).collect());
        if ids.is_empty() || self.r.chance(1, 10) { self.r.below(50) } else { *self.r.pick(&ids) }
    }

    /// consumption of the oldest k events by an honest crank
    fn honest(&self, l: &Ledger, k: usize) -> Option<Ledger> {
        let q = evq(l, &self.mon.w.mk[0].event_q).ok()?;
        let oos: BTreeSet<[u64; 4]> = q.evs.iter().take(k).map(|e| aligned(&e.owner)).collect();
        let oos = oos.iter().map(|o| { let mut b = [0u8; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&o[i].to_le_bytes()) } Pubkey::new_from_array(b) }).collect();
        let mut l = l.clone();
        exec(&mut l, &[self.mon.w.build(&Op::Consume { m: 0, oos, limit: k as u16, auth: None, sorted: true }).0]).ok()?;
        Some(l)
    }
    fn consume_ix(&mut self, kp: &Keypair, idx: usize, fault: Fault) {
        let mk = self.mon.w.mk[0].clone();
        let (cw, pw) = (self.mon.w.us[idx].wallets[&mk.coin_mint], self.mon.w.us[idx].wallets[&mk.pc_mint]);
        let k = self.keys();
        let before = self.lg();
        let Ok(q) = evq(&before, &mk.event_q) else { return };
        let fault = if fault == Fault::Account { fault } else { Fault::None };
        let payer = kp.pubkey();
        self.run("consume_events_instruction", format!("{} events", q.evs.len()), fault, |h| crank::consume_events_instruction(&h.client, &DEX, &k, &cw, &pw), |h, a, _, r| {
            match r {
                None => return Want::Is(Some(a.clone())),
                Some(None) => if !q.evs.is_empty() { h.v("no instruction although events wait".into()) },
                Some(Some(ix)) => {
                    let mut seen = HashSet::new();
                    let cover = q.evs.iter().take_while(|e| seen.contains(&e.owner) || { if seen.len() < SURE { seen.insert(e.owner) } else { false } }).count();
                    match effect(a, &[ix.clone()], &payer) {
                        None => h.v(format!("the instruction for {} events and {} accounts cannot be sent or fails", q.evs.len(), ix.accounts.len())),
                        Some(l) => {
                            let left = evq(&l, &mk.event_q).map_or(usize::MAX, |x| x.evs.len());
                            let n = q.evs.len().wrapping_sub(left);
                            let least = q.evs.len().min(cover).min(5);
                            if n > q.evs.len() || n < least { h.v(format!("the instruction consumes {} of {} events, {} at least expected", n as i64, q.evs.len(), least)) }
                            else if n > 0 && h.honest(a, n).as_ref() != Some(&l) { h.v(format!("the instruction does something else than consume {} events", n)) }
                            h.st.bump("crank instructions run");
                            if seen.len() >= 20 { h.st.bump("crank instructions for 20 or more accounts") }
                            // let it happen, so that the market moves on
                            h.node.lock().unwrap().l = l.clone();
                            h.mon.w.l = l;
                        }
                    }
                }
            }
            Want::Free
        })
    }
    fn consume_once(&mut self, kp: &Keypair, idx: usize, fault: Fault) {
        let mk = self.mon.w.mk[0].clone();
        let (cw, pw) = (self.mon.w.us[idx].wallets[&mk.coin_mint], self.mon.w.us[idx].wallets[&mk.pc_mint]);
        let before = self.lg();
        let Ok(q) = evq(&before, &mk.event_q) else { return };
        let n = if self.r.chance(1, 8) { *self.r.pick(&[255, 256, 300, 1000, 65535]) } else { self.r.range(1, 30) } as usize;
        let oos: BTreeSet<[u64; 4]> = q.evs.iter().take(n.min(20)).map(|e| aligned(&e.owner)).collect();
        let mut metas: Vec<AccountMeta> = oos.iter().map(|o| { let mut b = [0u8; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&o[i].to_le_bytes()) } AccountMeta::new(Pubkey::new_from_array(b), false) }).collect();
        for x in [mk.key, mk.event_q, cw, pw] { metas.push(AccountMeta::new(x, false)) }
        let mut data = vec![0u8, 3, 0, 0, 0];
        data.extend_from_slice(&(n as u16).to_le_bytes());
        let ix = Instruction { program_id: DEX, accounts: metas.clone(), data };
        let me = kp.pubkey();
        let fault = match fault { Fault::Blockhash(_) | Fault::Refused(_) | Fault::Silent(_) => fault, _ => Fault::None };
        // this one does not wait for the outcome: a failure on chain goes unreported
        self.run("consume_events_once", format!("{} of {} events", n, q.evs.len()), fault, |h| crank::consume_events_once(&h.client, &DEX, kp, metas, n, 0, mk.event_q), |h, a, b, r| {
            let w = effect(a, &[ix], &me);
            let _ = h;
            match (r, w) { (Some(_), None) => if a == b { Want::Free } else { Want::Is(None) }, (_, w) => Want::Is(w) }
        })
    }

    fn list(&mut self, way: u64) {
        let u = self.r.below(self.kps.len() as u64) as usize;
        let kp = Keypair::from_bytes(&self.kps[u].to_bytes()).unwrap();
        let me = kp.pubkey();
        let k0 = self.mon.w.mk[0].clone();
        let (cm, pm) = if self.r.chance(1, 8) { (k0.coin_mint, me) } else if self.mints.len() > 1 { (self.mints[0].0, self.mints[1].0) } else { (k0.coin_mint, k0.pc_mint) };
        let (cl, pl) = if way == 2 { (None, None) } else { (Some(self.r.range(1, 1 << 20)), Some(self.r.range(1, 1 << 20))) };
        let f = if self.r.chance(1, 3) { match self.r.below(5) { 0 => Fault::Blockhash(self.r.range(1, 3) as u32), 1 => Fault::Refused(self.r.range(1, 3) as u32), 2 => Fault::Lost(self.r.range(1, 3) as u32), 3 => Fault::Simulation, _ => Fault::Rent(self.r.range(1, 7) as u32) } } else { Fault::None };
        let file = self.files[u].clone();
        self.run("list_market", format!("{} {} lots {:?} {:?} way {}", cm, pm, cl, pl, way), f, |h| {
            if way == 0 { return Ok(Some(crank::list_market(&h.client, &DEX, &kp, &cm, &pm, cl.unwrap(), pl.unwrap())?)) }
            let mut a: Vec<String> = ["list-market", &file, &DEX.to_string(), "--coin-mint", &cm.to_string(), "--pc-mint", &pm.to_string()].map(|s| s.to_string()).to_vec();
            if let Some(c) = cl { a.push("--coin-lot-size".into()); a.push(c.to_string()) }
            if let Some(c) = pl { a.push("--pc-lot-size".into()); a.push(c.to_string()) }
            h.cli(&a)?;
            Ok(None)
        }, |h, a, b, r| {
            let new = fresh(a, b);
            let dex: Vec<Pubkey> = new.iter().filter(|k| b[*k].owner == DEX).cloned().collect();
            let Some(r) = r else {
                if !dex.is_empty() { h.v(format!("a failed listing left exchange accounts: {:?}", dex)) }
                for k in &new { if b[k].data.len() != 165 { h.v(format!("a failed listing left {}", k)) } }
                if f == Fault::None && cm == k0.coin_mint && pm == k0.pc_mint { h.v("a listing with good mints failed".into()) }
                return Want::Free;
            };
            let Some(mkey) = dex.iter().find(|k| Mkt::parse(&b[*k].data).is_some()).cloned() else { h.v("no market was created".into()); return Want::Free };
            let m = Mkt::parse(&b[&mkey].data).unwrap();
            let mut want = m.clone();
            let _ = &mut want;
            if new.len() != 7 || dex.len() != 5 { h.v(format!("a listing created {} accounts, {} of the exchange", new.len(), dex.len())) }
            let nk = MarketK { key: mkey, req_q: m.req_q, event_q: m.event_q, bids: m.bids, asks: m.asks, coin_vault: m.coin_vault, pc_vault: m.pc_vault, coin_mint: cm, pc_mint: pm, signer: Pubkey::create_program_address(&[mkey.as_ref(), &m.nonce.to_le_bytes()], &DEX).unwrap_or_default(), nonce: m.nonce, coin_lot: cl.unwrap_or(1_000_000), pc_lot: pl.unwrap_or(10_000), oo_auth: None, prune_auth: None, crank_auth: None };
            // every account created at its size with rent, then the market initialised as asked for
            let mut ok = true;
            for k in [nk.req_q, nk.event_q, nk.bids, nk.asks, nk.coin_vault, nk.pc_vault] { ok &= new.contains(&k) }
            if !ok { h.v("the market refers to accounts that were not created for it".into()); return Want::Free }
            let mut l = a.clone();
            for k in &dex { let Some(x) = effect(&l, &[create(&me, k, b[k].data.len(), &DEX)], &me) else { h.v("an exchange account cannot be created like this".into()); return Want::Free }; l = x }
            for (k, mint) in [(nk.coin_vault, cm), (nk.pc_vault, pm)] { let Some(x) = effect(&l, &[create(&me, &k, 165, &spl_token::ID), init_acct(&k, &mint, &nk.signer)], &me) else { h.v("a vault cannot be created like this".into()); return Want::Free }; l = x }
            if exec(&mut l, &[init_market_ix(&nk, 0, 100)]).is_err() { h.v("the listing does not correspond to a valid market".into()); return Want::Free }
            if b[&nk.event_q].data.len() < 12 + 32 + 88 * 1000 { h.v("event queue smaller than documented".into()) }
            if let Some(p) = r {
                let got = [*p.market, *p.req_q, *p.event_q, *p.bids, *p.asks, *p.coin_vault, *p.pc_vault, *p.vault_signer_key];
                if got != [nk.key, nk.req_q, nk.event_q, nk.bids, nk.asks, nk.coin_vault, nk.pc_vault, nk.signer] { h.v(format!("returned addresses differ: {:?}", p)) }
            }
            // a listed market is used from here on
            Want::Is(Some(l))
        });
        // drop the large accounts again
        let mut n = self.node.lock().unwrap();
        n.l.retain(|_, a| a.data.len() < 1 << 16);
        drop(n);
        self.mon.w.l = self.lg();
    }

    fn shebang(&mut self) {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let keep = { let mut n = self.node.lock().unwrap(); let k = n.clock; n.clock = now; k };
        let file = self.files[0].clone();
        self.run("whole-shebang", String::new(), Fault::None, |h| { crate::virt::no_naps(); h.cli(&["whole-shebang", &file, &DEX.to_string()].map(|s| s.to_string())) }, |h, a, b, r| {
            if r.is_none() { h.v("the demonstration run failed".into()); return Want::Free }
            let new = fresh(a, b);
            let Some(mkey) = new.iter().find(|k| b[*k].owner == DEX && Mkt::parse(&b[*k].data).is_some()) else { h.v("no market".into()); return Want::Free };
            match MState::load(b, mkey) {
                Err(e) => h.v(format!("market state: {}", e)),
                Ok(s) => {
                    let oo = new.iter().filter(|k| b[*k].owner == DEX && b[*k].data.len() == OO_LEN).count();
                    if !s.bids.leaves.is_empty() || !s.asks.leaves.is_empty() || !s.evq.evs.is_empty() || oo != 1 { h.v(format!("after the demonstration: {} bids, {} asks, {} events, {} open orders accounts", s.bids.leaves.len(), s.asks.leaves.len(), s.evq.evs.len(), oo)) }
                }
            }
            Want::Free
        });
        let mut n = self.node.lock().unwrap();
        n.clock = keep;
        n.l.retain(|_, a| a.data.len() < 1 << 16);
        drop(n);
        self.mon.w.l = self.lg();
    }

    fn monitor(&mut self) {
        let m = self.mon.w.mk[0].clone();
        let port = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().port() };
        let tf = self.dir.join("time").to_str().unwrap().to_string();
        let args: Vec<String> = ["crank", &self.url, "monitor-queue", "--dex-program-id", &DEX.to_string(), "--market", &m.key.to_string(), "--port", &port.to_string()].map(|s| s.to_string()).to_vec();
        let mut c = crate::child::spawn(&args, &tf, self.dir.join("err").to_str().unwrap());
        let mut up = false;
        for _ in 0..3000 { if std::net::TcpStream::connect(("127.0.0.1", port)).is_ok() { up = true; break } if c.try_wait().map_or(true, |x| x.is_some()) { break } std::thread::sleep(std::time::Duration::from_millis(10)) }
        if up {
            for _ in 0..self.r.range(3, 12) {
                let n = self.r.below(25);
                self.trade(n);
                if self.r.chance(1, 6) {
                    { let mut n = self.node.lock().unwrap(); n.fault = Fault::Account; n.nth = [0; 4]; n.hit = false; }
                    let got = http_get(port, "/length");
                    { let mut n = self.node.lock().unwrap(); n.fault = Fault::None; }
                    self.st.bump("queue length queries the node refuses");
                    let body = got.as_ref().ok().and_then(|g| serde_json::from_str::<Value>(g).ok());
                    if body.map_or(false, |v| v["length"].is_u64()) { self.v(format!("the queue monitor answers {:?} although it cannot read the queue", got)) }
                    let e = std::fs::read_to_string(self.dir.join("err")).unwrap_or_default();
                    if e.contains("panicked at") { self.v(format!("the queue monitor panicked when the node refused a request: {}", e.chars().take(300).collect::<String>())); break }
                    continue
                }
                let want = evq(&self.mon.w.l, &m.event_q).map_or(0, |q| q.evs.len());
                let got = http_get(port, "/length");
                self.st.bump("queue length queries");
                self.st.rel("K02", hash(&(want, &m.event_q, self.st.steps)), || format!("monitor reports {} events", want));
                let num = got.as_ref().ok().and_then(|g| serde_json::from_str::<Value>(g).ok()).and_then(|v| v["length"].as_u64());
                if num != Some(want as u64) { self.v(format!("the queue monitor answers {:?}, {} events wait", got, want)); break }
            }
        } else { self.v("the queue monitor does not come up".into()) }
        let _ = c.kill();
        let _ = c.wait();
    }
}

fn http_get(port: u16, path: &str) -> Result<String, String> {
    use std::io::{Read, Write};
    let mut s = std::net::TcpStream::connect(("127.0.0.1", port)).map_err(|e| e.to_string())?;
    s.set_read_timeout(Some(std::time::Duration::from_secs(60))).unwrap();
    write!(s, "GET {} HTTP/1.1\r\nhost: x\r\nconnection: close\r\n\r\n", path).map_err(|e| e.to_string())?;
    let mut o = String::new();
    s.read_to_string(&mut o).map_err(|e| e.to_string())?;
    o.split_once("\r\n\r\n").map(|x| x.1.to_string()).ok_or(o)
}

pub fn history(name: &str, seed: u64, keep: bool) -> crate::drive::Run {
    setup();
    let mut r = Rng::new(seed);
    let mut p = gen::profile("base", &mut r);
    p.tamper = 0;
    p.disable = if r.chance(1, 5) { 5 } else { 0 };
    p.perm = *r.pick(&[0, 0, 0, 1, 2, 3]);
    p.users = if r.chance(1, 4) { r.range(25, 45) } else { r.range(2, 5) } as usize;
    p.book_nodes = 400;
    p.crank = if p.users > 10 { 2 } else { 8 };
    p.lucky = 9;
    let users = p.users;
    let mut g = gen::Gen { r: Rng::new(r.u64()), p };
    let mut st = Stats::default();
    st.histories = 1;
    let mut mon = match gen::build(&mut g) { Ok(m) => m, Err(e) => return crate::drive::Run { st, viols: vec![], log: vec![e] } };
    let dir = std::env::temp_dir().join(format!("vcrank.{}.{:x}.{:x}", std::process::id(), seed, hash(&std::thread::current().id())));
    std::fs::create_dir_all(&dir).unwrap();
    let k = mon.w.mk[0].clone();
    let (mut kps, mut files) = (vec![], vec![]);
    for i in 0..3 {
        let kp = Keypair::from_bytes(&keypair_bytes(&mut r)).unwrap();
        let f = dir.join(format!("k{}.json", i)).to_str().unwrap().to_string();
        std::fs::write(&f, serde_json::to_string(&kp.to_bytes().to_vec()).unwrap()).unwrap();
        mon.w.l.insert(kp.pubkey(), Acct { lamports: 1 << 42, ..Default::default() });
        let mut wallets = HashMap::new();
        for m in [k.coin_mint, k.pc_mint] { let a = r.key(); mon.w.l.insert(a, mk_tok(&m, &kp.pubkey(), 1 << 38)); wallets.insert(m, a); }
        mon.w.us.push(User { key: kp.pubkey(), wallets, oos: vec![vec![]], srm: vec![] });
        if k.oo_auth.is_some() || r.chance(1, 2) { let u = mon.w.us.len() - 1; mon.w.new_oo(&mut r, u, 0); }
        kps.push(kp);
        files.push(f);
    }
    let mut data = vec![];
    data.extend_from_slice(&3480u64.to_le_bytes());
    data.extend_from_slice(&2.0f64.to_le_bytes());
    data.push(50);
    mon.w.l.insert(solana_program::sysvar::rent::ID, Acct { lamports: 1_009_200, owner: solana_program::sysvar::ID, data, executable: false });
    let l = mon.w.l.clone();
    let node = Arc::new(Mutex::new(N { l, clock: clock(), slot: 5, hash: Default::default(), fault: Fault::None, nth: [0; 4], sigs: HashMap::new(), sent: 0, ran: 0, bad: vec![], hit: false }));
    let server = Server::start(node.clone());
    let url = server.url.clone();
    let client = RpcClient::new(url.clone());
    let mut h = H { g, mon, r, node, url, client, kps, files, dir: dir.clone(), mints: vec![], toks: vec![], viols: vec![], log: vec![], st, keep };
    if name != "shebang" && h.r.chance(1, 8) {
        let n = h.r.below(60);
        h.trade(n);
        let (ix, _) = h.mon.w.build(&Op::Disable { m: 0, signer: disabler() });
        if exec(&mut h.mon.w.l, &[ix]).is_ok() { h.st.bump("disabled markets") }
        let l = h.mon.w.l.clone();
        h.node.lock().unwrap().l = l;
    }
    match name {
        "shebang" => h.shebang(),
        "monitor" => h.monitor(),
        _ => {
            for _ in 0..h.r.range(30, 90) {
                if h.r.chance(1, 2) { let n = h.r.below(if users > 10 { 20 } else { 6 }); h.trade(n) }
                if h.r.chance(1, 60) { let w = h.r.below(3); h.list(w) } else { h.step() }
                if !h.viols.is_empty() { break }
            }
        }
    }
    drop(h.client);
    drop(server);
    let _ = std::fs::remove_dir_all(&dir);
    crate::drive::Run { st: h.st, viols: h.viols, log: h.log }
}
fn keypair_bytes(r: &mut Rng) -> [u8; 64] {
    let mut s = [0u8; 32];
    for i in 0..4 { s[8 * i..8 * i + 8].copy_from_slice(&r.u64().to_le_bytes()) }
    solana_sdk::signature::keypair_from_seed(&s).unwrap().to_bytes()
}
