//! A market behind a proxy, in a small in-memory chain that runs the real programs.
use crate::abs::*;
use crate::model::*;
use crate::rt::*;
use crate::world::*;
use serum_dex_permissioned::{Context, Logger, MarketMiddleware, MarketProxy, OpenOrdersPda, ReferralFees};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::system_program::ID as SYS;
use solana_program::sysvar::rent::ID as RENT;
use std::cell::RefCell;
use std::collections::HashMap;

pub const PROXY: Pubkey = Pubkey::new_from_array([0x51; 32]);
pub const REFERRAL: Pubkey = Pubkey::new_from_array([0x77; 32]);
thread_local! { pub static LIMIT: std::cell::Cell<Option<u16>> = std::cell::Cell::new(None); pub static SEEN: RefCell<Vec<&'static str>> = RefCell::new(vec![]); }
pub fn seen() -> Vec<&'static str> { SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) }
fn cb<'a, 'info>(_: &'a Pubkey, _: Vec<AccountInfo<'info>>, _: Vec<u8>, _: Vec<u8>) -> ProgramResult { SEEN.with(|s| s.borrow_mut().push("callback")); Ok(()) }
/// notes which requests it is asked about
struct Witness;
fn hit(n: &'static str, ctx: &mut Context) -> ProgramResult { SEEN.with(|s| s.borrow_mut().push(n)); ctx.post_callbacks.push((cb, vec![], vec![])); Ok(()) }
impl MarketMiddleware for Witness {
    fn init_open_orders(&self, c: &mut Context) -> ProgramResult { hit("init", c) }
    fn new_order_v3(&self, c: &mut Context, _: &mut serum_dex::instruction::NewOrderInstructionV3) -> ProgramResult { hit("order", c) }
    fn cancel_order_v2(&self, c: &mut Context, _: &mut serum_dex::instruction::CancelOrderInstructionV2) -> ProgramResult { hit("cancel", c) }
    fn cancel_order_by_client_id_v2(&self, c: &mut Context, _: &mut u64) -> ProgramResult { hit("cancel id", c) }
    fn settle_funds(&self, c: &mut Context) -> ProgramResult { hit("settle", c) }
    fn close_open_orders(&self, c: &mut Context) -> ProgramResult { hit("close", c) }
    fn consume_events(&self, c: &mut Context, l: &mut u16) -> ProgramResult { if let Some(n) = LIMIT.with(|x| x.get()) { *l = n } hit("consume", c) }
    fn consume_events_permissioned(&self, c: &mut Context, l: &mut u16) -> ProgramResult { if let Some(n) = LIMIT.with(|x| x.get()) { *l = n } hit("consume permissioned", c) }
    fn prune(&self, c: &mut Context, l: &mut u16) -> ProgramResult { if let Some(n) = LIMIT.with(|x| x.get()) { *l = n } hit("prune", c) }
    fn fallback(&self, c: &mut Context) -> ProgramResult { hit("fallback", c) }
}
pub fn program(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let (mut w, mut lg, mut rf, mut pda) = (Witness, Logger, ReferralFees::new(REFERRAL), OpenOrdersPda::new());
    MarketProxy::new().middleware(&mut lg).middleware(&mut w).middleware(&mut rf).middleware(&mut pda).run(p, a, d)
}
pub fn pda(market: &Pubkey, user: &Pubkey) -> (Pubkey, u8) { Pubkey::find_program_address(&[b"open-orders", DEX.as_ref(), market.as_ref(), user.as_ref()], &PROXY) }
pub fn init_pda(market: &Pubkey) -> (Pubkey, u8) { Pubkey::find_program_address(&[b"open-orders-init", DEX.as_ref(), market.as_ref()], &PROXY) }
pub fn check(ok: bool, what: &str) { if !ok { println!("BROKEN: {}", what); std::process::exit(1) } }
pub fn ord(side: Side, price: u64, qty: u64) -> OrderP {
    OrderP { side, price, qty, pc: price * qty * 2, stb: Stb::Dec, otype: OType::Limit, cid: 0, limit: 1000, max_ts: i64::MAX }
}

pub struct Lab { pub w: World, pub r: Rng, pub refw: Pubkey }
impl Lab {
    /// two users with open-orders accounts on one market that only the proxy may open accounts on
    pub fn new() -> Lab {
        setup_thread();
        register(GROW_MARK, evil_program);
        register(PROXY, program);
        let mut r = Rng::new(42);
        let mut w = World::empty();
        w.programs();
        w.l.insert(PROXY, Acct { lamports: 1, owner: Pubkey::default(), data: vec![], executable: true });
        let (coin, pc) = (r.key(), r.key());
        for m in [coin, pc, srm_mint_addr(), msrm_mint_addr()] { w.l.insert(m, mk_mint(&r.key(), 1 << 40)); }
        for k in [sweeper(), disabler(), REFERRAL] { w.l.insert(k, Acct { lamports: 1_000_000_000, ..Default::default() }); }
        let mut rent = vec![];
        rent.extend_from_slice(&3480u64.to_le_bytes());
        rent.extend_from_slice(&2.0f64.to_le_bytes());
        rent.push(50);
        w.l.insert(RENT, Acct { lamports: 1_000_000_000, owner: solana_program::sysvar::ID, data: rent, executable: false });
        let key = r.key();
        let (nonce, signer) = find_signer(&mut r, &key);
        let k = MarketK { key, req_q: r.key(), event_q: r.key(), bids: r.key(), asks: r.key(), coin_vault: r.key(), pc_vault: r.key(), coin_mint: coin, pc_mint: pc, signer, nonce, coin_lot: 10, pc_lot: 1, oo_auth: Some(init_pda(&key).0), prune_auth: Some(r.key()), crank_auth: None };
        w.put_zeroed(k.key, MKT2_LEN);
        w.put_zeroed(k.req_q, 12 + 32 + 80);
        w.put_zeroed(k.event_q, 12 + 32 + 88 * 200);
        w.put_zeroed(k.bids, 12 + 8 + 32 + 72 * 202);
        w.put_zeroed(k.asks, 12 + 8 + 32 + 72 * 202);
        w.l.insert(k.coin_vault, mk_tok(&coin, &signer, 0));
        w.l.insert(k.pc_vault, mk_tok(&pc, &signer, 0));
        w.l.insert(k.prune_auth.unwrap(), Acct { lamports: 1_000_000, ..Default::default() });
        exec(&mut w.l, &[init_market_ix(&k, 0, 100)]).expect("market");
        w.mk.push(k);
        w.all_oos.push(vec![]);
        for _ in 0..2 {
            let key = r.key();
            w.l.insert(key, Acct { lamports: 1 << 40, ..Default::default() });
            let mut wallets = HashMap::new();
            for m in [coin, pc] { let a = r.key(); w.l.insert(a, mk_tok(&m, &key, 1 << 40)); wallets.insert(m, a); }
            w.us.push(User { key, wallets, oos: vec![vec![pda(&w.mk[0].key, &key).0]], srm: vec![] });
        }
        let refw = r.key();
        w.l.insert(refw, mk_tok(&pc, &REFERRAL, 0));
        let mut l = Lab { w, r, refw };
        for u in 0..2 { check(l.init(u), "open an account") }
        seen();
        l
    }
    pub fn key(&self, u: usize) -> Pubkey { self.w.us[u].key }
    pub fn oo(&self, u: usize) -> Pubkey { self.w.us[u].oos[0][0] }
    pub fn wallet(&self, u: usize, pc: bool) -> Pubkey { let k = &self.w.mk[0]; self.w.us[u].wallets[if pc { &k.pc_mint } else { &k.coin_mint }] }
    pub fn tx(&mut self, ix: Instruction) -> bool { exec(&mut self.w.l, &[ix]).is_ok() }
    pub fn init(&mut self, u: usize) -> bool {
        let (k, me, oo) = (self.w.mk[0].clone(), self.key(u), self.oo(u));
        let (dix, _) = self.w.build(&Op::InitOO { m: 0, oo, owner: me, auth: k.oo_auth });
        let accounts = vec![AccountMeta::new_readonly(DEX, false), AccountMeta::new_readonly(DEX, false), AccountMeta::new_readonly(SYS, false), AccountMeta::new(oo, false), AccountMeta::new(me, true), AccountMeta::new_readonly(k.key, false), AccountMeta::new_readonly(RENT, false), AccountMeta::new_readonly(init_pda(&k.key).0, false)];
        let mut data = vec![0, pda(&k.key, &me).1, init_pda(&k.key).1];
        data.extend(dix.data);
        self.tx(Instruction { program_id: PROXY, accounts, data })
    }
    /// the request, addressed to the proxy
    pub fn ix(&mut self, op: &Op) -> Instruction {
        let (dix, _) = self.w.build(op);
        let mut accounts = vec![AccountMeta::new_readonly(DEX, false)];
        accounts.extend(dix.accounts);
        let mut data = vec![1];
        data.extend(dix.data);
        Instruction { program_id: PROXY, accounts, data }
    }
    pub fn go(&mut self, op: &Op) -> bool { let ix = self.ix(op); self.tx(ix) }
    pub fn order(&self, u: usize, p: OrderP) -> Op { Op::New { m: 0, oo: self.oo(u), owner: self.key(u), payer: self.wallet(u, p.side == Side::Bid), srm: None, p, short: false } }
    pub fn settle(&self, u: usize, referrer: Option<Pubkey>) -> Op { Op::Settle { m: 0, oo: self.oo(u), owner: self.key(u), cw: self.wallet(u, false), pw: self.wallet(u, true), referrer } }
    pub fn crank(&mut self) -> bool {
        let mut oos = vec![self.oo(0), self.oo(1)];
        oos.sort_by_key(|x| aligned(x));
        self.go(&Op::Consume { m: 0, oos, limit: 100, auth: None, sorted: true })
    }
    pub fn delegate(&self, k: &Pubkey) -> Option<(Pubkey, u64)> { self.w.l.get(k).and_then(Tok::parse).and_then(|t| t.delegate) }
    pub fn revoke(&mut self, k: &Pubkey) { let a = self.w.l.get_mut(k).unwrap(); for x in &mut a.data[72..108] { *x = 0 } for x in &mut a.data[121..129] { *x = 0 } }
    pub fn bal(&self, k: &Pubkey) -> u64 { self.w.l.get(k).and_then(Tok::parse).map_or(0, |t| t.amount) }
    pub fn data(&self, k: &Pubkey) -> Vec<u8> { self.w.l[k].data.clone() }
}
