use crate::abs::*;
use crate::drive::Run;
use crate::model::*;
use crate::rt::*;
use crate::stats::*;
use crate::world::*;
use serum_dex::instruction as si;
use serum_dex_permissioned::{Context, Logger, MarketMiddleware, MarketProxy, OpenOrdersPda, ReferralFees};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::HashMap;

pub const PROXY: Pubkey = Pubkey::new_from_array([0x51; 32]);
pub const PROXY_PLAIN: Pubkey = Pubkey::new_from_array([0x52; 32]);
pub const REFERRAL: Pubkey = Pubkey::new_from_array([0x77; 32]);
use solana_program::system_program::ID as SYS;
use solana_program::sysvar::rent::ID as RENT;

// ---------------------------------------------------------------- observing middleware
#[derive(Clone, Default, Debug)]
pub struct Cfg {
    reject: Option<(u8, &'static str)>, // probe, method ("instruction", "order" ...)
    strip: [usize; 2],                  // bytes each probe takes off the front of the data
    rewrite: bool,                      // second probe rewrites the request
    pre: u8,                            // extra instructions the first probe schedules
    post: u8,
    sigs: u8,                           // derived addresses each of them is signed by
    callbacks: u8,
    callback_fails: bool,
}
thread_local! {
    static CFG: RefCell<Cfg> = RefCell::new(Cfg::default());
    static TRACE: RefCell<Vec<String>> = RefCell::new(vec![]);
}
fn tr(s: String) { TRACE.with(|t| t.borrow_mut().push(s)) }
fn mark_pda(i: u8) -> (Pubkey, u8) { Pubkey::find_program_address(&[b"mark", &[i]], &PROXY) }
fn mark<'i>(n: u8, signers: &[AccountInfo<'i>]) -> (Instruction, Vec<AccountInfo<'i>>, Vec<Vec<Vec<u8>>>) {
    let metas = signers.iter().map(|a| AccountMeta::new_readonly(*a.key, true)).collect();
    let seeds = (0..signers.len() as u8).map(|i| vec![b"mark".to_vec(), vec![i], vec![mark_pda(i).1]]).collect();
    (Instruction { program_id: EVIL, accounts: metas, data: vec![n] }, signers.to_vec(), seeds)
}
fn cb<'a, 'info>(_: &'a Pubkey, _: Vec<AccountInfo<'info>>, ix: Vec<u8>, args: Vec<u8>) -> ProgramResult {
    tr(format!("callback {:?} {:?}", args, ix));
    if CFG.with(|c| c.borrow().callback_fails) && args == vec![1] { return Err(ProgramError::Custom(77)) }
    Ok(())
}

pub struct Probe(u8);
impl Probe {
    fn hit(&self, ctx: &mut Context, m: &'static str, arg: String) -> ProgramResult {
        tr(format!("probe{} {} {}", self.0, m, arg));
        let c = CFG.with(|c| c.borrow().clone());
        if c.reject == Some((self.0, "any")) { return Err(ProgramError::Custom(66)) }
        // the accounts only this middleware needs
        let mut sig = vec![];
        if self.0 == 0 && c.pre + c.post > 0 {
            for _ in 0..c.sigs { if let Some(a) = ctx.accounts.pop() { sig.insert(0, a) } }
            ctx.accounts.pop();
        }
        if self.0 == 0 && m != "fallback" {
            for i in 0..c.pre { ctx.pre_instructions.push(mark(10 + i, &sig)) }
            for i in 0..c.post { ctx.post_instructions.push(mark(20 + i, &sig)) }
            for i in 0..c.callbacks { ctx.post_callbacks.push((cb, vec![], vec![i + 1])) }
        }
        Ok(())
    }
    fn rw(&self) -> bool { self.0 == 1 && CFG.with(|c| c.borrow().rewrite) }
}
impl MarketMiddleware for Probe {
    fn instruction(&mut self, data: &mut &[u8]) -> ProgramResult {
        tr(format!("probe{} instruction {}", self.0, data.len()));
        let c = CFG.with(|c| c.borrow().clone());
        if c.reject == Some((self.0, "instruction")) { return Err(ProgramError::Custom(66)) }
        *data = &data[c.strip[self.0 as usize].min(data.len())..];
        Ok(())
    }
    fn init_open_orders(&self, ctx: &mut Context) -> ProgramResult { self.hit(ctx, "init", String::new()) }
    fn new_order_v3(&self, ctx: &mut Context, ix: &mut si::NewOrderInstructionV3) -> ProgramResult {
        self.hit(ctx, "order", format!("{:?}", ix))?;
        if self.rw() { ix.client_order_id ^= 0x55 }
        Ok(())
    }
    fn cancel_order_v2(&self, ctx: &mut Context, ix: &mut si::CancelOrderInstructionV2) -> ProgramResult {
        self.hit(ctx, "cancel", format!("{:?}", ix))?;
        if self.rw() { ix.order_id ^= 0x55 }
        Ok(())
    }
    fn cancel_order_by_client_id_v2(&self, ctx: &mut Context, id: &mut u64) -> ProgramResult {
        self.hit(ctx, "cancel_cid", format!("{}", id))?;
        if self.rw() { *id ^= 0x55 }
        Ok(())
    }
    fn settle_funds(&self, ctx: &mut Context) -> ProgramResult { self.hit(ctx, "settle", String::new()) }
    fn close_open_orders(&self, ctx: &mut Context) -> ProgramResult { self.hit(ctx, "close", String::new()) }
    fn consume_events(&self, ctx: &mut Context, l: &mut u16) -> ProgramResult {
        self.hit(ctx, "consume", format!("{}", l))?;
        if self.rw() { *l ^= 0x55 }
        Ok(())
    }
    fn consume_events_permissioned(&self, ctx: &mut Context, l: &mut u16) -> ProgramResult {
        self.hit(ctx, "consume_perm", format!("{}", l))?;
        if self.rw() { *l ^= 0x55 }
        Ok(())
    }
    fn prune(&self, ctx: &mut Context, l: &mut u16) -> ProgramResult {
        self.hit(ctx, "prune", format!("{}", l))?;
        if self.rw() { *l ^= 0x55 }
        Ok(())
    }
    fn fallback(&self, ctx: &mut Context) -> ProgramResult { self.hit(ctx, "fallback", String::new()) }
}

pub fn proxy_program(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let (mut p0, mut p1) = (Probe(0), Probe(1));
    let (mut lg, mut rf, mut pda) = (Logger, ReferralFees::new(REFERRAL), OpenOrdersPda::new());
    MarketProxy::new().middleware(&mut p0).middleware(&mut lg).middleware(&mut rf).middleware(&mut pda).middleware(&mut p1).run(p, a, d)
}
/// a proxy without any middleware: a plain relay
pub fn proxy_plain(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { MarketProxy::new().run(p, a, d) }

// ---------------------------------------------------------------- the world
pub struct Sim { w: World, r: Rng, proxy: Pubkey, st: Stats, viols: Vec<Viol>, log: Vec<String>, keep: bool, refw: Pubkey, center: u64, plain_oos: Vec<Vec<Pubkey>>, inits: Vec<Pubkey> }

fn pda(proxy: &Pubkey, market: &Pubkey, user: &Pubkey) -> (Pubkey, u8) { Pubkey::find_program_address(&[b"open-orders", DEX.as_ref(), market.as_ref(), user.as_ref()], proxy) }
fn init_pda(proxy: &Pubkey, market: &Pubkey) -> (Pubkey, u8) { Pubkey::find_program_address(&[b"open-orders-init", DEX.as_ref(), market.as_ref()], proxy) }

impl Sim {
    fn v(&mut self, p: &[&'static str], m: String) { if self.viols.len() < 20 { let v = Viol { props: p.to_vec(), msg: m }; crate::stats::note(&v); self.viols.push(v) } }

    fn new(seed: u64, keep: bool) -> Sim {
        let mut r = Rng::new(seed);
        let proxy = PROXY;
        let mut w = World::empty();
        w.programs();
        for k in [PROXY, PROXY_PLAIN] { w.l.insert(k, Acct { lamports: 1, owner: Pubkey::default(), data: vec![], executable: true }); }
        let (coin, pc) = (r.key(), r.key());
        for m in [coin, pc, srm_mint_addr(), msrm_mint_addr()] { w.l.insert(m, mk_mint(&r.key(), 1 << 40)); }
        for k in [sweeper(), disabler(), REFERRAL] { w.l.insert(k, Acct { lamports: 1_000_000_000, ..Default::default() }); }
        let mut rent = vec![];
        rent.extend_from_slice(&3480u64.to_le_bytes());
        rent.extend_from_slice(&2.0f64.to_le_bytes());
        rent.push(50);
        w.l.insert(RENT, Acct { lamports: 1_000_000_000, owner: solana_program::sysvar::ID, data: rent, executable: false });
        let (coin_lot, pc_lot) = (*r.pick(&[1, 10, 100, 1_000_000]), *r.pick(&[1, 7, 100]));
        let center = *r.pick(&[3, 20, 100, 5_000]);
        let full = r.below(4);
        for m in 0..3 {
            let like: Vec<Pubkey> = w.mk.iter().map(|k| k.key).collect();
            let key = r.key_like(&like);
            let (nonce, signer) = find_signer(&mut r, &key);
            // market 0 and 1 accept accounts only from the proxy, market 2 is open
            let perm = m < 2;
            let k = MarketK {
                key, req_q: r.key(), event_q: r.key(), bids: r.key(), asks: r.key(), coin_vault: r.key(), pc_vault: r.key(), coin_mint: coin, pc_mint: pc, signer, nonce,
                coin_lot: coin_lot + m, pc_lot,
                oo_auth: if perm { Some(init_pda(&proxy, &key).0) } else { None },
                prune_auth: if perm && (m == 0 || full > 0) { Some(r.key()) } else { None },
                crank_auth: if perm && m == 0 && full > 1 { Some(r.key()) } else { None },
            };
            w.put_zeroed(k.key, if perm { MKT2_LEN } else { MKT1_LEN });
            w.put_zeroed(k.req_q, 12 + 32 + 80);
            w.put_zeroed(k.event_q, 12 + 32 + 88 * 200);
            w.put_zeroed(k.bids, 12 + 8 + 32 + 72 * 202);
            w.put_zeroed(k.asks, 12 + 8 + 32 + 72 * 202);
            w.l.insert(k.coin_vault, mk_tok(&coin, &signer, 0));
            w.l.insert(k.pc_vault, mk_tok(&pc, &signer, 0));
            for a in [k.prune_auth, k.crank_auth].iter().flatten() { w.l.insert(*a, Acct { lamports: 1_000_000, ..Default::default() }); }
            if let Err(e) = exec(&mut w.l, &[init_market_ix(&k, 0, 100)]) { panic!("market setup refused: {:?} {}", e, last_panic()) }
            w.mk.push(k);
            w.all_oos.push(vec![]);
        }
        for _ in 0..3 {
            let like: Vec<Pubkey> = w.us.iter().map(|u| u.key).collect();
            let key = r.key_like(&like);
            w.l.insert(key, Acct { lamports: if r.chance(1, 40) { r.below(10_000_000) } else { 1 << 40 }, ..Default::default() });
            let mut wallets = HashMap::new();
            for m in [coin, pc] {
                let a = r.key();
                let amt = if r.chance(1, 6) { r.below(5000) } else { 1 << 40 };
                w.l.insert(a, mk_tok(&m, &key, amt));
                wallets.insert(m, a);
            }
            w.us.push(User { key, wallets, oos: vec![vec![]; 3], srm: vec![] });
        }
        // an existing approval on a wallet: it must not survive, nor be used
        if r.chance(1, 3) {
            let d = w.us[1].key;
            let k = w.us[0].wallets[&pc];
            set_delegate(w.l.get_mut(&k).unwrap(), &d, 500);
        }
        let refw = r.key();
        w.l.insert(refw, mk_tok(&pc, &REFERRAL, 0));
        // wallets of someone whose address almost equals the referral account's
        for _ in 0..2 { let (a, o) = (r.key_like(&[refw]), r.near(&REFERRAL)); w.l.insert(a, mk_tok(&pc, &o, 0)); }
        let mut plain_oos = vec![];
        for u in 0..3 {
            for m in 0..3 {
                let p = pda(&proxy, &w.mk[m].key, &w.us[u].key).0;
                w.us[u].oos[m].push(p);
                w.all_oos[m].push(p);
                // discount tokens held by the account that owns the orders
                if r.chance(1, 3) { let a = r.key(); w.l.insert(a, mk_tok(&srm_mint_addr(), &p, *r.pick(&[0, 100_000_000, 1_000_000_000_000]))); w.us[u].srm.push(a) }
            }
            // ordinary open-orders account owned directly by the user on the open market
            let k = r.key();
            w.put_zeroed(k, OO_LEN);
            plain_oos.push(vec![k]);
        }
        let inits = w.mk.iter().map(|k| init_pda(&proxy, &k.key).0).collect();
        Sim { inits, w, r, proxy, st: Stats { histories: 1, ..Default::default() }, viols: vec![], log: vec![], keep, refw, center, plain_oos }
    }

    fn order(&mut self, m: usize) -> OrderP {
        let now = 1_650_000_000 + self.st.steps as i64;
        let r = &mut self.r;
        let k = &self.w.mk[m];
        let side = if r.chance(1, 2) { Side::Bid } else { Side::Ask };
        let price = (self.center + r.below(7)).saturating_sub(3).max(1);
        let qty = r.range(1, 30);
        let cost = qty as u128 * price as u128 * k.pc_lot as u128;
        let pc = match r.below(4) { 0 => cost, 1 => cost + cost / 400 + 1, 2 => cost * 2, _ => cost / 2 + 1 } as u64;
        let price = if r.chance(1, 60) { r.wide().max(1) } else { price };
        let (qty, pc) = if r.chance(1, 40) { (r.wide().max(1), r.wide().max(1)) } else { (qty, pc.max(1)) };
        OrderP { side, price, qty, pc, stb: *r.pick(&[Stb::Dec, Stb::CancelProvide, Stb::Abort]), otype: *r.pick(&[OType::Limit, OType::Limit, OType::Limit, OType::Ioc, OType::Post]), cid: match r.below(8) { 0 => r.wide(), 1 => u64::MAX - r.below(2), _ => r.below(6) }, limit: *r.pick(&[50, 50, 1, 0, 65535, 2, 7, 128, 1000]), max_ts: match r.below(30) { 0 => 5, 1 => -1, 2 => i64::MIN, 3 => i64::MAX - 1, 4..=6 => now + r.below(3) as i64 - 1, _ => i64::MAX } }
    }

    /// a request as the user would address it directly to the exchange, with the
    /// user in the owner's position
    fn op(&mut self, m: usize, u: usize) -> Op {
        let k = self.w.mk[m].clone();
        let oo = self.w.us[u].oos[m][0];
        let me = self.w.us[u].key;
        let wal = |s: &Sim, mint: &Pubkey| s.w.us[u].wallets[mint];
        match self.r.below(22) {
            0..=8 => {
                let p = self.order(m);
                let payer = wal(self, if p.side == Side::Bid { &k.pc_mint } else { &k.coin_mint });
                let srm = if self.r.chance(1, 4) && !self.w.us[u].srm.is_empty() { let v = self.w.us[u].srm.clone(); Some(*self.r.pick(&v)) } else { None };
                let short = p.max_ts == i64::MAX && self.r.chance(1, 3);
                Op::New { m, oo, owner: me, payer, srm, p, short }
            }
            9 | 10 => {
                let o = self.w.oo(&oo);
                let (side, id) = o.as_ref().and_then(|o| { let n = o.slots.len() as u64; if n == 0 { None } else { o.slots.values().nth(self.r.below(n) as usize).map(|x| (x.side, x.id)) } }).unwrap_or((Side::Bid, 7));
                Op::Cancel { m, oo, owner: me, side, id }
            }
            11 => { let cids: Vec<u64> = self.w.oo(&oo).map_or(vec![], |o| o.slots.values().map(|x| x.cid).filter(|c| *c != 0).collect()); Op::CancelCid { m, oo, owner: me, cid: if cids.is_empty() || self.r.chance(1, 3) { *self.r.pick(&[0, 1, 2, 3, 4, 5, u64::MAX]) } else { *self.r.pick(&cids) } } },
            12..=14 => Op::Settle { m, oo, owner: me, cw: wal(self, &k.coin_mint), pw: wal(self, &k.pc_mint), referrer: if self.r.chance(1, 12) { None } else { Some(self.refw) } },
            15 | 16 => {
                let mut v: Vec<Pubkey> = self.w.all_oos[m].clone();
                v.retain(|x| self.w.l.contains_key(x));
                if v.is_empty() { v.push(oo) }
                if self.r.chance(1, 6) { for _ in 0..*self.r.pick(&[3, 14, 30, 56]) { v.push(self.r.key()) } }
                v.sort_by_key(|x| aligned(x));
                Op::Consume { m, oos: v, limit: *self.r.pick(&[0, 1, 3, 200, 256, 65535]), auth: if self.r.chance(1, 8) { Some(me) } else { k.crank_auth }, sorted: true }
            }
            17 => { let auth = if self.r.chance(1, 4) { me } else { k.prune_auth.unwrap_or(me) }; Op::Prune { m, oo, oo_owner: if self.r.chance(1, 2) { me } else { oo }, auth, limit: *self.r.pick(&[0, 1, 5, 65535, 255, 300]) } }
            18 => Op::Close { m, oo, owner: me, dest: if self.r.chance(1, 2) { me } else { REFERRAL } },
            19 | 20 => Op::InitOO { m, oo, owner: me, auth: Some(init_pda(&self.proxy, &k.key).0) },
            _ => match self.r.below(5) {
                0 => { let p = self.order(m); Op::Take { m, cw: wal(self, &k.coin_mint), pw: wal(self, &k.pc_mint), signer: me, srm: None, p: TakeP { side: p.side, price: p.price, qty: p.qty, pc: p.pc, min_coin: 0, min_pc: 0, limit: 5 } } }
                1 => Op::Sweep { m, signer: sweeper(), dst: wal(self, &k.pc_mint) },
                2 => Op::Disable { m, signer: disabler() },
                3 => Op::CancelCids { m, oo, owner: me, cids: vec![1, 2, 3] },
                _ => { let p = self.order(m); Op::Replace { m, oo, owner: me, payer: wal(self, if p.side == Side::Bid { &k.pc_mint } else { &k.coin_mint }), srm: None, ps: vec![p], single: true } }
            },
        }
    }

    fn step(&mut self, attack: bool) {
        self.st.steps += 1;
        set_clock(1_650_000_000 + self.st.steps as i64);
        let m = if self.r.chance(1, 20) { 2 } else { *self.r.pick(&[0, 0, 1]) };
        let u = self.r.below(3) as usize;
        let mut op = self.op(m, u);
        // keep most accounts alive
        if self.w.oo(&self.w.us[u].oos[m][0]).is_none() && self.r.chance(4, 5) { op = Op::InitOO { m, oo: self.w.us[u].oos[m][0], owner: self.w.us[u].key, auth: Some(init_pda(&self.proxy, &self.w.mk[m].key).0) } }
        if let Op::Close { .. } = op { if !self.r.chance(1, 3) { op = self.op(m, u) } }
        // somebody pays lamports into an account that does not exist yet
        if matches!(op, Op::InitOO { .. }) && self.r.chance(1, 8) {
            let k = self.w.us[u].oos[m][0];
            if !self.w.l.contains_key(&k) { let n = *self.r.pick(&[1, 890_880, 1 << 30]); self.w.l.insert(k, Acct { lamports: n, ..Default::default() }); }
        }
        let plain = self.r.chance(1, 20);
        let (dix, _) = self.w.build(&op);
        let init = matches!(op, Op::InitOO { .. });
        let mut bumps = [0u8; 2];
        let mut acc: Vec<AccountMeta> = vec![AccountMeta::new_readonly(DEX, false)];
        if init {
            let Op::InitOO { oo, owner, .. } = &op else { unreachable!() };
            let k = &self.w.mk[m];
            bumps = [pda(&self.proxy, &k.key, owner).1, init_pda(&self.proxy, &k.key).1];
            acc.extend(vec![AccountMeta::new_readonly(DEX, false), AccountMeta::new_readonly(SYS, false), AccountMeta::new(*oo, false), AccountMeta::new(*owner, true), AccountMeta::new_readonly(k.key, false), AccountMeta::new_readonly(RENT, false), AccountMeta::new_readonly(init_pda(&self.proxy, &k.key).0, false)]);
        } else { acc.extend(dix.accounts.clone()) }
        let mut data = dix.data.clone();
        let off = if init { 3 } else { 1 };
        let mut what = String::new();
        if attack && self.r.chance(3, 5) {
            what = self.tamper(&mut acc, &mut data, &mut bumps, &op, off);
        }
        // derived addresses have no key pair: nobody can sign for them
        for a in acc.iter_mut() {
            if self.w.all_oos.iter().flatten().any(|o| *o == a.pubkey) || self.w.mk.iter().any(|k| k.signer == a.pubkey) || self.inits.contains(&a.pubkey) { a.is_signer = false }
        }
        // configuration of the observing middleware
        let mut c = Cfg::default();
        if self.r.chance(1, 3) { c.strip = [self.r.below(4) as usize, self.r.below(4) as usize] }
        if self.r.chance(1, 5) { c.rewrite = true }
        if self.r.chance(1, 4) { c.pre = self.r.below(3) as u8; c.post = self.r.below(3) as u8; c.callbacks = self.r.below(3) as u8; c.callback_fails = self.r.chance(1, 6); c.sigs = self.r.below(4) as u8 }
        if self.r.chance(1, 12) { c.reject = Some((self.r.below(2) as u8, *self.r.pick(&["instruction", "any"]))) }
        if plain { c = Cfg::default() }
        if c.pre + c.post > 0 {
            acc.push(AccountMeta::new_readonly(EVIL, false));
            for i in 0..c.sigs { acc.push(AccountMeta::new_readonly(mark_pda(i).0, false)) }
        }
        // bytes: [probe0 prefix][discriminant (and bumps)][probe1 prefix][exchange instruction]
        let mut full = vec![];
        if !plain {
            for _ in 0..c.strip[0] { full.push(self.r.u64() as u8) }
            if init && self.r.chance(1, 40) { bumps = [0, 0]; full.push(self.r.range(1, 255) as u8) }
            else if init { full.extend_from_slice(&[0, bumps[0], bumps[1]]) }
            // the bumps may come along with any request; only the creation of an account uses them
            else if self.r.chance(1, 8) { full.extend_from_slice(&[0, self.r.u64() as u8, self.r.u64() as u8]) }
            else { full.push(self.r.range(1, 255) as u8) }
            for _ in 0..c.strip[1] { full.push(self.r.u64() as u8) }
        }
        full.extend_from_slice(&data);
        let program = if plain { PROXY_PLAIN } else { PROXY };
        let ix = Instruction { program_id: program, accounts: acc.clone(), data: full.clone() };
        CFG.with(|x| *x.borrow_mut() = c.clone());
        TRACE.with(|t| t.borrow_mut().clear());
        let before = self.w.l.clone();
        let mut after = before.clone();
        let res = exec(&mut after, &[ix]);
        let cpis = last_cpis();
        let trace = TRACE.with(|t| t.borrow().clone());
        let (exp, reason) = self.expect(&before, program, &acc, &data, &bumps, &c, plain);
        let ok = res.is_ok();
        let e = self.st.ops.entry(op.name()).or_insert([0; 2]);
        e[0] += 1;
        if ok { e[1] += 1 }
        *self.st.why.entry(reason).or_insert(0) += 1;
        let tag = format!("{} market {} user {} {} plain={} cfg={:?} -> {} [{}]", op.name(), m, u, what, plain, c, if ok { "ok".to_string() } else { format!("{:?}", res) }, reason);
        if self.keep { self.log.push(format!("{} {:?}", tag, op)) }
        let h = hash(&(&full, acc.iter().map(|a| a.pubkey).collect::<Vec<_>>(), self.st.steps, before.get(&self.w.mk[m].key).map(|a| a.data.clone())));
        let t2 = tag.clone();
        self.st.states.insert(h);
        self.st.rel("P01", h, || t2.clone());
        self.st.rel("P02", h, || t2.clone());
        if ok && self.st.ops.len() > 0 { self.st.add("exchange calls relayed", cpis.iter().filter(|(p, i)| *p == program && i.program_id == DEX).count() as u64) }
        // --- outcome
        match &exp {
            Some(exp_l) => {
                if !ok { self.v(&["P02"], format!("refused although the equivalent direct request is accepted: {}", tag)) }
                else if *exp_l != after {
                    let mut diff: Vec<String> = vec![];
                    let mut deleg = false;
                    for k in exp_l.keys().chain(after.keys()) { if exp_l.get(k) != after.get(k) { diff.push(k.to_string()); let d = after.get(k).and_then(Tok::parse).and_then(|t| t.delegate); let d2 = exp_l.get(k).and_then(Tok::parse).and_then(|t| t.delegate); if d != d2 { deleg = true } } }
                    diff.sort(); diff.dedup();
                    let ps: &[&'static str] = if deleg { &["P01", "P02"] } else { &["P02"] };
                    self.v(ps, format!("the effect differs from the equivalent direct request in {:?}: {}", diff, tag))
                }
            }
            None => if ok && after != before {
                let ps: &[&'static str] = if AUTH.contains(&reason) { &["P01"] } else if reason == "not for the proxy" || reason == "exchange refuses" || reason == "middleware refuses" { &["P02"] } else { &["P01", "P02"] };
                self.v(ps, format!("took effect although it must not ({}): {}", reason, tag))
            } else if ok && reason != "not for the proxy" {
                let ps: &[&'static str] = if AUTH.contains(&reason) { &["P01"] } else { &["P02"] };
                self.v(ps, format!("reported success although it must fail ({}): {}", reason, tag))
            },
        }
        // --- what the proxy called, in which order, and what the middlewares saw
        if !plain { self.pipeline(&cpis, &trace, &c, ok, reason, &data, &acc, &tag, &full) }
        else if ok && reason == "" {
            let n = cpis.iter().filter(|(p, _)| *p == program).count();
            if n != 1 { self.v(&["P02"], format!("a plain relay made {} calls: {}", n, tag)) }
        }
        if !ok { if after != before { self.v(&["P02"], format!("a failed transaction had an effect: {}", tag)) } }
        // the order accounts' approval never outlives the transaction
        if ok {
            for us in &self.w.us { for wk in us.wallets.values() {
                if let Some(t) = after.get(wk).and_then(Tok::parse) { if let Some((d, n)) = t.delegate { if self.w.all_oos.iter().flatten().any(|o| *o == d) && before.get(wk).and_then(Tok::parse).and_then(|t| t.delegate) != Some((d, n)) { 
                    let msg = format!("wallet {} is still spendable by {} after the transaction: {}", wk, d, tag);
                    self.viols.push(Viol { props: vec!["P01"], msg })
                } } }
            } }
        }
        self.w.l = after;
        // direct activity on the open market, so that users' own accounts exist too
        if self.r.chance(1, 12) {
            let u = self.r.below(3) as usize;
            let o = self.order(2);
            let mint = if o.side == Side::Bid { self.w.mk[2].pc_mint } else { self.w.mk[2].coin_mint };
            let op = Op::New { m: 2, oo: self.plain_oos[u][0], owner: self.w.us[u].key, payer: self.w.us[u].wallets[&mint], srm: None, p: o, short: false };
            let (ix, _) = self.w.build(&op);
            let _ = exec(&mut self.w.l, &[ix]);
        }
    }

    fn tamper(&mut self, acc: &mut Vec<AccountMeta>, data: &mut Vec<u8>, bumps: &mut [u8; 2], op: &Op, _off: usize) -> String {
        let n = acc.len() as u64;
        match self.r.below(14) {
            0 | 1 => { // the signature is missing
                let s: Vec<usize> = (0..acc.len()).filter(|i| acc[*i].is_signer).collect();
                if s.is_empty() { return "".into() }
                let i = *self.r.pick(&s);
                acc[i].is_signer = false;
                format!("unsigned {}", i)
            }
            2 | 3 => { // another user signs, everything else the victim's
                let other = self.w.us[self.r.below(3) as usize].key;
                let s: Vec<usize> = (0..acc.len()).filter(|i| acc[*i].is_signer).collect();
                if s.is_empty() { return "".into() }
                let i = *self.r.pick(&s);
                acc[i].pubkey = other;
                format!("signer {} replaced", i)
            }
            4 | 5 => { // somebody else's open-orders account
                let pos = match op { Op::New { .. } => 2, Op::Settle { .. } => 2, Op::Cancel { .. } | Op::CancelCid { .. } => 4, Op::Close { .. } => 1, Op::InitOO { .. } => 3, Op::Prune { .. } => 5, _ => 1 };
                let mut c: Vec<Pubkey> = self.w.all_oos.iter().flatten().cloned().collect();
                for u in 0..3 { c.push(self.plain_oos[u][0]) }
                acc[pos].pubkey = *self.r.pick(&c);
                // and possibly the payer of the victim too
                format!("open orders {} replaced", pos)
            }
            6 => { let nd = self.r.near(&DEX); acc[0].pubkey = *self.r.pick(&[EVIL, spl_token::ID, SYS, PROXY, nd]); if self.r.chance(1, 2) && acc.len() > 1 && matches!(op, Op::InitOO { .. }) { acc[1].pubkey = acc[0].pubkey } "exchange program replaced".into() }
            7 => { bumps[self.r.below(2) as usize] = self.r.u64() as u8; "bump".into() }
            8 => { let keys = self.pool(); let i = self.r.below(n) as usize; acc[i].pubkey = *self.r.pick(&keys); format!("account {} replaced", i) }
            9 => { // referrer
                if let Op::Settle { .. } = op {
                    if acc.len() > 10 {
                        let mine: Vec<Pubkey> = self.w.us.iter().flat_map(|u| u.wallets.values().cloned()).collect();
                        let mut mine = mine;
                        for (k, x) in &self.w.l { if let Some(tk) = Tok::parse(x) { if tk.owner != REFERRAL && !self.w.us.iter().any(|u| u.key == tk.owner) { mine.push(*k) } } }
                        mine.sort();
                        acc[10].pubkey = *self.r.pick(&mine);
                        return "referrer replaced".into();
                    }
                }
                let i = self.r.below(n) as usize;
                acc[i].is_writable = false;
                format!("account {} read-only", i)
            }
            12 | 13 => { // a copy, or an empty account, at almost the same address
                let i = self.r.below(n) as usize;
                let k = self.r.near(&acc[i].pubkey);
                let mut x = self.w.l.get(&acc[i].pubkey).cloned().unwrap_or_default();
                if x.lamports == 0 || x.owner == DEX || x.executable || self.r.chance(1, 4) { x = Acct { lamports: 1 << 30, ..Default::default() } }
                self.w.l.entry(k).or_insert(x);
                acc[i].pubkey = k;
                format!("account {} near miss", i)
            }
            10 => { let k = self.r.range(1, 3).min(n - 1) as usize; let l = acc.len() - k; acc.truncate(l); format!("{} accounts missing", k) }
            _ => {
                if self.r.chance(1, 2) { let i = self.r.below(data.len() as u64) as usize; data[i] ^= 1 << self.r.below(8); "data bit".into() }
                else if self.r.chance(1, 2) { let l = self.r.below(data.len() as u64 + 1) as usize; data.truncate(l); "data cut".into() }
                else { let k = self.w.us[self.r.below(3) as usize].key; acc.push(AccountMeta::new_readonly(k, self.r.chance(1, 2))); "extra account".into() }
            }
        }
    }
    fn pool(&self) -> Vec<Pubkey> { let mut v: Vec<Pubkey> = self.w.l.keys().cloned().collect(); v.sort(); v }

    /// What must come of this transaction, from the rules: the resulting ledger, or None.
    fn expect(&mut self, l: &Ledger, program: Pubkey, acc: &[AccountMeta], data: &[u8], bumps: &[u8; 2], c: &Cfg, plain: bool) -> (Option<Ledger>, &'static str) {
        // flags as the chain sees them
        let mut fl: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for a in acc { let e = fl.entry(a.pubkey).or_insert((false, false)); e.0 |= a.is_signer; e.1 |= a.is_writable }
        if acc.is_empty() || acc[0].pubkey != DEX { return (None, "wrong exchange program") }
        if !plain && c.reject.map_or(false, |x| x.1 == "instruction") { return (None, "middleware refuses") }
        let ix = crate::sim::unpack(data);
        let extra = if c.pre + c.post > 0 { 1 + c.sigs as usize } else { 0 };
        let mut a: Vec<AccountMeta> = acc[1..].iter().map(|m| AccountMeta { pubkey: m.pubkey, is_signer: fl[&m.pubkey].0, is_writable: fl[&m.pubkey].1 }).collect();
        let Some(kind) = kind_of(&ix) else {
            if !plain && c.reject.map_or(false, |x| x.1 == "any") { return (None, "middleware refuses") }
            return (None, "not for the proxy");
        };
        let need = match kind { "init" => 4, "order" => 12, "cancel" | "cancel_cid" => 6, "settle" => 10, "close" => 4, "consume" => 4, "consume_perm" => 3, _ => 7 };
        if a.len() < need + extra { return (None, "too few accounts") }
        a.truncate(a.len() - extra);
        if !plain && c.reject.map_or(false, |x| x.1 == "any") { return (None, "middleware refuses") }
        let mut l = l.clone();
        let mut data = si::MarketInstruction::pack(&ix.clone().unwrap());
        if !plain && c.rewrite { data = si::MarketInstruction::pack(&rewrite(ix.clone().unwrap())) }
        let run1 = |l: &mut Ledger, ix: Instruction| exec(l, &[ix]).is_ok();
        if plain {
            // no middleware: relayed as is, the relay itself can sign for nothing
            let ok = run1(&mut l, Instruction { program_id: DEX, accounts: a, data });
            return if ok { (Some(l), "") } else { (None, "exchange refuses") };
        }
        let _ = program;
        let mut pre = vec![];
        let mut post = vec![];
        match kind {
            "init" => {
                if a.len() < 7 { return (None, "too few accounts") }
                if a[0].pubkey != DEX || a[1].pubkey != SYS { return (None, "wrong exchange program") }
                if a[5].pubkey != RENT { return (None, "account refused") }
                let (user, market, oo) = (a[3].clone(), a[4].pubkey, a[2].clone());
                if !user.is_signer { return (None, "user did not sign") }
                let (want, b) = pda(&PROXY, &market, &user.pubkey);
                let (wi, bi) = init_pda(&PROXY, &market);
                if oo.pubkey != want || bumps[0] != b { return (None, "not the user's account") }
                if a[6].pubkey != wi || bumps[1] != bi { return (None, "not the market's init authority") }
                let d = Acct::default();
                let cur = l.get(&oo.pubkey).unwrap_or(&d).clone();
                if cur.owner != SYS || !cur.data.is_empty() { return (None, "already exists") }
                let needl = min_rent(OO_LEN).saturating_sub(cur.lamports);
                if !oo.is_writable || (needl > 0 && !user.is_writable) { return (None, "account refused") }
                if needl > 0 {
                    let Some(ua) = l.get_mut(&user.pubkey) else { return (None, "cannot pay") };
                    if ua.lamports < needl || ua.owner != SYS || !ua.data.is_empty() { return (None, "cannot pay") }
                    if user.pubkey == oo.pubkey { return (None, "cannot pay") }
                    ua.lamports -= needl;
                    if ua.lamports == 0 { l.remove(&user.pubkey); }
                }
                l.insert(oo.pubkey, Acct { lamports: cur.lamports + needl, owner: DEX, data: vec![0; OO_LEN], executable: false });
                a.drain(0..2);
                a[1] = a[0].clone();
                a[0].is_signer = true;
                a[1].is_signer = true;
                a[4].is_signer = true;
            }
            "prune" => { a[5] = a[4].clone() }
            "consume" | "consume_perm" => {}
            _ => {
                let (mi, oi, ui) = match kind { "order" => (0, 1, 7), "cancel" | "cancel_cid" => (0, 3, 4), "settle" => (0, 1, 2), _ => (3, 0, 1) };
                if kind == "settle" {
                    let ok = l.get(&a[9].pubkey).map_or(false, |x| x.data.len() >= 64 && keyat(&x.data, 32) == REFERRAL);
                    if !ok { return (None, "referral not respected") }
                }
                if !a[ui].is_signer { return (None, "user did not sign") }
                let (market, oo, user) = (a[mi].pubkey, a[oi].pubkey, a[ui].pubkey);
                if oo != pda(&PROXY, &market, &user).0 { return (None, "not the user's account") }
                if kind == "order" {
                    let Some(si::MarketInstruction::NewOrderV3(o)) = &ix else { unreachable!() };
                    let amount = if o.side == serum_dex::matching::Side::Bid { Some(o.max_native_pc_qty_including_fees.get()) } else {
                        match l.get(&market).and_then(|x| Mkt::parse(&x.data)) { Some(mk) => o.max_coin_qty.get().checked_mul(mk.coin_lot), None => None }
                    };
                    let Some(amount) = amount else { return (None, "exchange refuses") };
                    let payer = a[6].pubkey;
                    if !fl.contains_key(&spl_token::ID) || !fl[&payer].1 { return (None, "exchange refuses") }
                    pre.push(spl_token::instruction::approve(&spl_token::ID, &payer, &oo, &user, &[], amount).unwrap());
                    post.push(spl_token::instruction::revoke(&spl_token::ID, &payer, &user, &[]).unwrap());
                }
                a[ui] = a[oi].clone();
                a[ui].is_signer = true;
                let k = a[oi].pubkey;
                for x in a.iter_mut() { if x.pubkey == k { x.is_signer = true } }
            }
        }
        for i in pre { if !run1(&mut l, i) { return (None, "exchange refuses") } }
        if !run1(&mut l, Instruction { program_id: DEX, accounts: a, data }) { return (None, "exchange refuses") }
        for i in post { if !run1(&mut l, i) { return (None, "exchange refuses") } }
        if c.callbacks > 0 && c.callback_fails { return (None, "middleware refuses") }
        (Some(l), "")
    }

    fn pipeline(&mut self, cpis: &[(Pubkey, Instruction)], trace: &[String], c: &Cfg, ok: bool, reason: &'static str, data: &[u8], acc: &[AccountMeta], tag: &str, full: &[u8]) {
        let calls: Vec<&Instruction> = cpis.iter().filter(|(p, _)| *p == PROXY).map(|x| &x.1).collect();
        let dex_at: Vec<usize> = (0..calls.len()).filter(|i| calls[*i].program_id == DEX).collect();
        if dex_at.len() > 1 { self.v(&["P02"], format!("{} exchange calls for one request: {}", dex_at.len(), tag)) }
        if calls.iter().any(|i| ![DEX, EVIL, spl_token::ID, SYS].contains(&i.program_id)) { self.v(&["P02", "P01"], format!("called a foreign program: {}", tag)) }
        if (reason == "middleware refuses" || reason == "not for the proxy") && !dex_at.is_empty() && !(c.callbacks > 0 && c.callback_fails) {
            self.v(&["P02"], format!("relayed although {}: {}", reason, tag))
        }
        // spending rights: never more than the order may use, never given to anyone else
        let ix = unpack(data);
        for (i, x) in calls.iter().enumerate() {
            if x.program_id != spl_token::ID { continue }
            match x.data.first() {
                Some(4) if ok => {
                    let amt = u64at(&x.data, 1);
                    let market = acc.get(1).map(|a| a.pubkey).unwrap_or_default();
                    let max = match &ix { Some(si::MarketInstruction::NewOrderV3(o)) => if o.side == serum_dex::matching::Side::Bid { o.max_native_pc_qty_including_fees.get() } else { self.w.l.get(&market).and_then(|m| Mkt::parse(&m.data)).and_then(|m| m.coin_lot.checked_mul(o.max_coin_qty.get())).unwrap_or(0) }, _ => 0 };
                    if amt > max { self.v(&["P01"], format!("approved spending of {} for an order that may use {}: {}", amt, max, tag)) }
                    if x.accounts.get(1).map(|a| a.pubkey) != acc.get(2).map(|a| a.pubkey) { self.v(&["P01"], format!("spending rights given to {:?}: {}", x.accounts.get(1), tag)) }
                    if dex_at.first().map_or(false, |d| *d < i) { self.v(&["P02"], format!("approval after the exchange call: {}", tag)) }
                }
                Some(4) => {}
                Some(5) => if ok && dex_at.first().map_or(true, |d| *d > i) { self.v(&["P02"], format!("approval revoked before the exchange call: {}", tag)) },
                _ => self.v(&["P01"], format!("unexpected token instruction {:?}: {}", x.data, tag)),
            }
        }
        // scheduled instructions: all, once, in order, around the relay
        if ok && reason == "" {
            let marks: Vec<(usize, u8)> = calls.iter().enumerate().filter(|(_, i)| i.program_id == EVIL).map(|(i, x)| (i, x.data[0])).collect();
            let want: Vec<u8> = (0..c.pre).map(|i| 10 + i).chain((0..c.post).map(|i| 20 + i)).collect();
            if marks.iter().map(|x| x.1).collect::<Vec<_>>() != want { self.v(&["P02"], format!("scheduled instructions {:?} executed as {:?}: {}", want, marks, tag)) }
            if let Some(d) = dex_at.first() { for (i, n) in &marks { if (*n < 20) != (i < d) { self.v(&["P02"], format!("instruction {} on the wrong side of the relay: {}", n, tag)) } } }
            if want.len() > 0 { self.st.bump("transactions with scheduled instructions") }
        }
        // middlewares: each one, in order, with the data the earlier ones left
        let acc0 = acc.first().map(|a| a.pubkey) == Some(DEX);
        let mut want: Vec<String> = vec![];
        if acc0 {
            want.push(format!("probe0 instruction {}", full.len()));
            let rej = |p: u8, m: &str| c.reject == Some((p, m));
            let mid = if full.len() > c.strip[0] && full[c.strip[0]] == 0 { 3 } else { 1 };
            let mut alive = !rej(0, "instruction") && full.len() >= c.strip[0] + mid;
            if alive { want.push(format!("probe1 instruction {}", full.len() - c.strip[0] - mid)); alive = !rej(1, "instruction") }
            if alive {
                let kind = kind_of(&ix);
                let enough = reason != "too few accounts";
                let k = kind.unwrap_or("fallback");
                let arg = match &ix { Some(i) => argstr(i), None => String::new() };
                let early = ["referral not respected", "user did not sign", "not the market's init authority", "account refused", "already exists", "cannot pay"];
                if enough {
                    want.push(format!("probe0 {} {}", k, if kind.is_some() { arg.clone() } else { String::new() }));
                    let go = !rej(0, "any") && !early.contains(&reason);
                    // where the built-in middlewares refuse on their own account the second probe is not reached
                    if go && !(AUTH.contains(&reason) || reason == "exchange refuses") { want.push(format!("probe1 {} {}", k, if kind.is_some() { arg } else { String::new() })) }
                    if ok && kind.is_some() && reason == "" {
                        let mut d = si::MarketInstruction::pack(&ix.clone().unwrap());
                        if c.rewrite { d = si::MarketInstruction::pack(&rewrite(ix.clone().unwrap())) }
                        for i in 0..c.callbacks { want.push(format!("callback {:?} {:?}", vec![i + 1], d)) }
                    }
                }
            }
        }
        let partial = AUTH.contains(&reason) || ["exchange refuses", "too few accounts", "wrong exchange program", "already exists", "cannot pay", "account refused", "middleware refuses", "referral not respected"].contains(&reason);
        let good = if partial { trace.len() >= want.len().min(if acc0 { 1 } else { 0 }) && want.iter().zip(trace).all(|(a, b)| a == b) } else { want == trace };
        if !good { self.v(&["P02"], format!("the middlewares saw {:?}, expected {:?}: {}", trace, want, tag)) }
        if reason == "middleware refuses" { if let Some((p, "any")) = c.reject { if p == 0 && trace.iter().any(|t| t.starts_with("probe1") && !t.starts_with("probe1 instruction")) { self.v(&["P02"], format!("a later middleware ran after a refusal: {}", tag)) } } }
    }
}

const AUTH: [&str; 5] = ["wrong exchange program", "user did not sign", "not the user's account", "not the market's init authority", "referral not respected"];

fn set_delegate(a: &mut Acct, d: &Pubkey, n: u64) {
    a.data[72..76].copy_from_slice(&1u32.to_le_bytes());
    a.data[76..108].copy_from_slice(d.as_ref());
    a.data[121..129].copy_from_slice(&n.to_le_bytes());
}
pub fn unpack(d: &[u8]) -> Option<si::MarketInstruction> { crate::guard::call(|| si::MarketInstruction::unpack(d)).ok().flatten() }
fn kind_of(i: &Option<si::MarketInstruction>) -> Option<&'static str> {
    use si::MarketInstruction as M;
    Some(match i.as_ref()? {
        M::InitOpenOrders => "init", M::NewOrderV3(_) => "order", M::CancelOrderV2(_) => "cancel", M::CancelOrderByClientIdV2(_) => "cancel_cid", M::SettleFunds => "settle",
        M::CloseOpenOrders => "close", M::ConsumeEvents(_) => "consume", M::ConsumeEventsPermissioned(_) => "consume_perm", M::Prune(_) => "prune", _ => return None,
    })
}
fn argstr(i: &si::MarketInstruction) -> String {
    use si::MarketInstruction as M;
    match i { M::NewOrderV3(o) => format!("{:?}", o), M::CancelOrderV2(o) => format!("{:?}", o), M::CancelOrderByClientIdV2(x) => format!("{}", x), M::ConsumeEvents(x) | M::ConsumeEventsPermissioned(x) | M::Prune(x) => format!("{}", x), _ => String::new() }
}
fn rewrite(mut i: si::MarketInstruction) -> si::MarketInstruction {
    use si::MarketInstruction as M;
    match &mut i { M::NewOrderV3(o) => o.client_order_id ^= 0x55, M::CancelOrderV2(o) => o.order_id ^= 0x55, M::CancelOrderByClientIdV2(x) => *x ^= 0x55, M::ConsumeEvents(x) | M::ConsumeEventsPermissioned(x) | M::Prune(x) => *x ^= 0x55, _ => {} }
    i
}

pub fn history(name: &str, seed: u64, keep: bool, prop: &str) -> Run {
    let mut s = Sim::new(seed, keep);
    for _ in 0..120 {
        s.step(name == "attack");
        if s.viols.iter().any(|v| prop.is_empty() || v.props.contains(&prop)) { break }
    }
    Run { st: s.st, viols: s.viols, log: s.log }
}
