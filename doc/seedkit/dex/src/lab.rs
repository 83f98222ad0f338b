//! A small market in a small in-memory chain that runs the real programs.
#![allow(dead_code)]
use crate::abs::*;
use crate::model::*;
use crate::rt::*;
use crate::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

pub struct Lab { pub w: World, pub r: Rng }
#[derive(Clone)]
pub struct Cfg { pub users: usize, pub perm: u8, pub coin_lot: u64, pub pc_lot: u64, pub evq: usize, pub nodes: usize }
pub fn cfg() -> Cfg { Cfg { users: 3, perm: 0, coin_lot: 10, pc_lot: 1, evq: 128, nodes: 210 } }
pub fn ord(side: Side, price: u64, qty: u64) -> OrderP {
    OrderP { side, price, qty, pc: if side == Side::Bid { price * qty * 2 } else { u64::MAX }, stb: Stb::Dec, otype: OType::Limit, cid: 0, limit: 1000, max_ts: i64::MAX }
}

impl Lab {
    pub fn new(c: Cfg) -> Lab {
        install();
        setup_thread();
        let mut r = Rng::new(42);
        let mut w = World::empty();
        w.programs();
        let (coin, pc) = (r.key(), r.key());
        for m in [coin, pc, srm_mint_addr(), msrm_mint_addr()] { w.l.insert(m, mk_mint(&r.key(), 1 << 40)); }
        for k in [sweeper(), disabler(), solana_program::sysvar::rent::ID] { w.l.insert(k, Acct { lamports: 1_000_000_000, ..Default::default() }); }
        let key = r.key();
        let (nonce, signer) = find_signer(&mut r, &key);
        let k = MarketK {
            key, req_q: r.key(), event_q: r.key(), bids: r.key(), asks: r.key(), coin_vault: r.key(), pc_vault: r.key(), coin_mint: coin, pc_mint: pc, signer, nonce, coin_lot: c.coin_lot, pc_lot: c.pc_lot,
            oo_auth: if c.perm >= 1 { Some(r.key()) } else { None }, prune_auth: if c.perm >= 2 { Some(r.key()) } else { None }, crank_auth: if c.perm >= 3 { Some(r.key()) } else { None },
        };
        let mut lab = Lab { w, r };
        lab.parts(&k, &c);
        exec(&mut lab.w.l, &[init_market_ix(&k, 0, 100)]).expect("market");
        lab.w.mk.push(k.clone());
        lab.w.all_oos.push(vec![]);
        for _ in 0..c.users {
            let key = lab.r.key();
            lab.w.l.insert(key, Acct { lamports: 1 << 40, ..Default::default() });
            let mut wallets = HashMap::new();
            for m in [coin, pc] { let a = lab.r.key(); lab.w.l.insert(a, mk_tok(&m, &key, 1 << 60)); wallets.insert(m, a); }
            lab.w.us.push(User { key, wallets, oos: vec![vec![]], srm: vec![] });
        }
        for u in 0..c.users {
            let oo = lab.w.new_oo(&mut lab.r, u, 0);
            let owner = lab.w.us[u].key;
            assert!(lab.go(&Op::InitOO { m: 0, oo, owner, auth: k.oo_auth }));
        }
        lab
    }
    /// zeroed accounts for a market
    pub fn parts(&mut self, k: &MarketK, c: &Cfg) {
        self.w.put_zeroed(k.key, if c.perm >= 1 { MKT2_LEN } else { MKT1_LEN });
        self.w.put_zeroed(k.req_q, 12 + 32 + 80);
        self.w.put_zeroed(k.event_q, 12 + 32 + 88 * c.evq);
        let mut n = 12 + 8 + 32 + 72 * c.nodes;
        while n % 8 != 4 { n += 1 }
        self.w.put_zeroed(k.bids, n);
        self.w.put_zeroed(k.asks, n);
        self.w.l.insert(k.coin_vault, mk_tok(&k.coin_mint, &k.signer, 0));
        self.w.l.insert(k.pc_vault, mk_tok(&k.pc_mint, &k.signer, 0));
        for a in [k.oo_auth, k.prune_auth, k.crank_auth].iter().flatten() { self.w.l.insert(*a, Acct { lamports: 1_000_000, ..Default::default() }); }
    }
    pub fn go(&mut self, op: &Op) -> bool { let (ix, _) = self.w.build(op); self.tx(&[ix]) }
    pub fn tx(&mut self, ix: &[Instruction]) -> bool { exec(&mut self.w.l, ix).is_ok() }
    pub fn k(&self) -> MarketK { self.w.mk[0].clone() }
    pub fn key(&self, u: usize) -> Pubkey { self.w.us[u].key }
    pub fn ook(&self, u: usize) -> Pubkey { self.w.us[u].oos[0][0] }
    pub fn oo(&self, u: usize) -> OO { self.w.oo(&self.ook(u)).expect("open orders") }
    pub fn wallet(&self, u: usize, pc: bool) -> Pubkey { let k = self.k(); self.w.us[u].wallets[&if pc { k.pc_mint } else { k.coin_mint }] }
    pub fn bal(&self, k: &Pubkey) -> u64 { self.w.tok(k).expect("token account").amount }
    pub fn st(&self) -> MState { MState::load(&self.w.l, &self.k().key).expect("market state") }
    pub fn order_op(&self, u: usize, p: OrderP) -> Op {
        Op::New { m: 0, oo: self.ook(u), owner: self.key(u), payer: self.wallet(u, p.side == Side::Bid), srm: None, p, short: false }
    }
    pub fn order(&mut self, u: usize, p: OrderP) -> bool { let op = self.order_op(u, p); self.go(&op) }
    pub fn crank_with(&mut self, us: &[usize], limit: u16) -> bool {
        let mut oos: Vec<Pubkey> = us.iter().map(|u| self.ook(*u)).collect();
        oos.sort_by_key(|x| aligned(x));
        let auth = self.k().crank_auth;
        self.go(&Op::Consume { m: 0, oos, limit, auth, sorted: true })
    }
    pub fn crank(&mut self) -> bool { let us: Vec<usize> = (0..self.w.us.len()).collect(); self.crank_with(&us, 65535) }
    pub fn settle(&mut self, u: usize, referrer: Option<Pubkey>) -> bool {
        let op = Op::Settle { m: 0, oo: self.ook(u), owner: self.key(u), cw: self.wallet(u, false), pw: self.wallet(u, true), referrer };
        self.go(&op)
    }
}
pub fn check(ok: bool, what: &str) { if !ok { println!("BROKEN: {}", what); std::process::exit(1) } }
