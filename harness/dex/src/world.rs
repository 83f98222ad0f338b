//! World state, operations, instruction encoding and per-operation prediction.
use crate::abs::*;
use crate::model::*;
use crate::rt::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap};

// 9xQeWvG816bUx9EPjHmaT23yvVM2ZWbrrpZb9PusVFin
pub const DEX: Pubkey = Pubkey::new_from_array([133, 15, 45, 110, 2, 164, 122, 248, 36, 208, 154, 182, 157, 196, 45, 112, 203, 40, 203, 250, 36, 159, 183, 238, 87, 185, 210, 86, 193, 39, 98, 239]);
pub const EVIL: Pubkey = Pubkey::new_from_array([0xE1; 32]);

pub fn srm_mint() -> Pubkey { serum_dex::instruction::srm_token::ID }
pub fn msrm_mint() -> Pubkey { serum_dex::instruction::msrm_token::ID }
// the authorities are part of the deployment: fixed addresses, restated here on purpose
pub fn sweeper() -> Pubkey { "DeqYsmBd9BnrbgUwQjVH4sQWK71dEgE6eoZFw3Rp4ftE".parse().unwrap() }
pub fn disabler() -> Pubkey { "5ZVJgwWxMsqXxRMYHXqMwH2hd4myX5Ef4Au2iUsuNQ7V".parse().unwrap() }
pub const STABLES: [&str; 6] = [
    "77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS", "5cLrMai1DsLRYc1Nio9qMTicsWtvzjzZfJPXyAoF4t1Z",
    "EERNEEnBqdGzBS8dd46wwNY5F2kwnaCQ3vsq2fNKGogZ", "8sFf9TW3KzxLiBXcDcjAxqabEsRroo4EiRr3UG1xbJ9m",
    "2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD62", "CaFjigEgJdtGPxQxRjneA1hzNcY5MsHoAAL6Et67QrC5",
];
pub fn srm_mint_addr() -> Pubkey { "SRMuApVNdxXokk5GT7XD5cUUgXMBCoAz2LHeuAoKWRt".parse().unwrap() }
pub fn msrm_mint_addr() -> Pubkey { "MSRMcoVyrFxnSgo5uXwone5SKcGhT1KEJMFEkMEWf9L".parse().unwrap() }

#[derive(Clone, Debug)]
pub struct MarketK {
    pub key: Pubkey,
    pub req_q: Pubkey,
    pub event_q: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub coin_vault: Pubkey,
    pub pc_vault: Pubkey,
    pub coin_mint: Pubkey,
    pub pc_mint: Pubkey,
    pub signer: Pubkey,
    pub nonce: u64,
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub oo_auth: Option<Pubkey>,
    pub prune_auth: Option<Pubkey>,
    pub crank_auth: Option<Pubkey>,
}

#[derive(Clone, Debug)]
pub struct User {
    pub key: Pubkey,
    pub wallets: HashMap<Pubkey, Pubkey>, // mint -> token account
    pub oos: Vec<Vec<Pubkey>>,            // per market
    pub srm: Vec<Pubkey>,
}

#[derive(Clone)]
pub struct World {
    pub l: Ledger,
    pub mk: Vec<MarketK>,
    pub us: Vec<User>,
    pub all_oos: Vec<Vec<Pubkey>>, // per market, every open-orders key ever created
    pub excess: HashMap<Pubkey, i128>, // tokens in a vault that nobody is owed (donations)
}

#[derive(Clone, Debug)]
pub enum Op {
    New { m: usize, oo: Pubkey, owner: Pubkey, payer: Pubkey, srm: Option<Pubkey>, p: OrderP, short: bool },
    Take { m: usize, cw: Pubkey, pw: Pubkey, signer: Pubkey, srm: Option<Pubkey>, p: TakeP },
    Cancel { m: usize, oo: Pubkey, owner: Pubkey, side: Side, id: u128 },
    CancelCid { m: usize, oo: Pubkey, owner: Pubkey, cid: u64 },
    CancelCids { m: usize, oo: Pubkey, owner: Pubkey, cids: Vec<u64> },
    Replace { m: usize, oo: Pubkey, owner: Pubkey, payer: Pubkey, srm: Option<Pubkey>, ps: Vec<OrderP>, single: bool },
    Consume { m: usize, oos: Vec<Pubkey>, limit: u16, auth: Option<Pubkey>, sorted: bool },
    Settle { m: usize, oo: Pubkey, owner: Pubkey, cw: Pubkey, pw: Pubkey, referrer: Option<Pubkey> },
    Prune { m: usize, oo: Pubkey, oo_owner: Pubkey, auth: Pubkey, limit: u16 },
    Close { m: usize, oo: Pubkey, owner: Pubkey, dest: Pubkey },
    InitOO { m: usize, oo: Pubkey, owner: Pubkey, auth: Option<Pubkey> },
    Sweep { m: usize, signer: Pubkey, dst: Pubkey },
    Disable { m: usize, signer: Pubkey },
    Match { m: usize },
    Legacy { m: usize, disc: u32 },
}

impl Op {
    pub fn m(&self) -> usize {
        use Op::*;
        match self {
            New { m, .. } | Take { m, .. } | Cancel { m, .. } | CancelCid { m, .. } | CancelCids { m, .. } | Replace { m, .. }
            | Consume { m, .. } | Settle { m, .. } | Prune { m, .. } | Close { m, .. } | InitOO { m, .. } | Sweep { m, .. }
            | Disable { m, .. } | Match { m } | Legacy { m, .. } => *m,
        }
    }
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            New { .. } => "new_order", Take { .. } => "send_take", Cancel { .. } => "cancel", CancelCid { .. } => "cancel_client_id",
            CancelCids { .. } => "cancel_client_ids", Replace { .. } => "replace", Consume { .. } => "consume", Settle { .. } => "settle",
            Prune { .. } => "prune", Close { .. } => "close", InitOO { .. } => "init_open_orders", Sweep { .. } => "sweep",
            Disable { .. } => "disable", Match { .. } => "match", Legacy { .. } => "legacy",
        }
    }
}

// ------------------------------------------------------------ wire format
fn hdr(d: u32) -> Vec<u8> { let mut v = vec![0u8]; v.extend_from_slice(&d.to_le_bytes()); v }
pub fn enc_order(p: &OrderP, with_ts: bool) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&(if p.side == Side::Bid { 0u32 } else { 1 }).to_le_bytes());
    v.extend_from_slice(&p.price.to_le_bytes());
    v.extend_from_slice(&p.qty.to_le_bytes());
    v.extend_from_slice(&p.pc.to_le_bytes());
    v.extend_from_slice(&(match p.stb { Stb::Dec => 0u32, Stb::CancelProvide => 1, Stb::Abort => 2 }).to_le_bytes());
    v.extend_from_slice(&(match p.otype { OType::Limit => 0u32, OType::Ioc => 1, OType::Post => 2 }).to_le_bytes());
    v.extend_from_slice(&p.cid.to_le_bytes());
    v.extend_from_slice(&p.limit.to_le_bytes());
    if with_ts { v.extend_from_slice(&p.max_ts.to_le_bytes()) }
    v
}
pub fn enc_take(p: &TakeP) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&(if p.side == Side::Bid { 0u32 } else { 1 }).to_le_bytes());
    for x in [p.price, p.qty, p.pc, p.min_coin, p.min_pc] { v.extend_from_slice(&x.to_le_bytes()) }
    v.extend_from_slice(&p.limit.to_le_bytes());
    v
}

/// What a position in an instruction's account list stands for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role { Market, OO, ReqQ, EvQ, Bids, Asks, Payer, Signer, CoinVault, PcVault, TokenProg, Ignored, CoinWallet, PcWallet, VaultSigner, Srm, OOList, OOOwner, Dest, AuthSigner }

fn w(k: Pubkey) -> AccountMeta { AccountMeta::new(k, false) }
fn ro(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, false) }
fn sg(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, true) }

pub fn aligned(k: &Pubkey) -> [u64; 4] {
    let b = k.to_bytes();
    let mut o = [0u64; 4];
    for i in 0..4 { o[i] = u64at(&b, i * 8) }
    o
}

impl World {
    pub fn build(&self, op: &Op) -> (Instruction, Vec<Role>) {
        use Role as R;
        let k = &self.mk[op.m()];
        let rent = solana_program::sysvar::rent::ID;
        let tp = spl_token::ID;
        let mut a: Vec<(AccountMeta, Role)> = vec![];
        let data;
        macro_rules! acc { ($($e:expr => $r:expr),* $(,)?) => { $( a.push(($e, $r)); )* } }
        let neworder = |a: &mut Vec<(AccountMeta, Role)>, oo: &Pubkey, owner: &Pubkey, payer: &Pubkey, srm: &Option<Pubkey>| {
            a.extend(vec![
                (w(k.key), R::Market), (w(*oo), R::OO), (w(k.req_q), R::ReqQ), (w(k.event_q), R::EvQ), (w(k.bids), R::Bids), (w(k.asks), R::Asks),
                (w(*payer), R::Payer), (sg(*owner), R::Signer), (w(k.coin_vault), R::CoinVault), (w(k.pc_vault), R::PcVault), (ro(tp), R::TokenProg), (ro(rent), R::Ignored),
            ]);
            if let Some(s) = srm { a.push((ro(*s), R::Srm)) }
        };
        let cancel = |a: &mut Vec<(AccountMeta, Role)>, oo: &Pubkey, owner: &Pubkey| {
            a.extend(vec![(w(k.key), R::Market), (w(k.bids), R::Bids), (w(k.asks), R::Asks), (w(*oo), R::OO), (sg(*owner), R::Signer), (w(k.event_q), R::EvQ)]);
        };
        match op {
            Op::New { oo, owner, payer, srm, p, short, .. } => {
                neworder(&mut a, oo, owner, payer, srm);
                let mut d = hdr(10);
                d.extend(enc_order(p, !*short));
                data = d;
            }
            Op::Replace { oo, owner, payer, srm, ps, single, .. } => {
                neworder(&mut a, oo, owner, payer, srm);
                if *single {
                    let mut d = hdr(19);
                    d.extend(enc_order(&ps[0], true));
                    data = d;
                } else {
                    let mut d = hdr(20);
                    d.extend_from_slice(&(ps.len() as u64).to_le_bytes());
                    for p in ps { d.extend(enc_order(p, true)) }
                    data = d;
                }
            }
            Op::Take { cw, pw, signer, srm, p, .. } => {
                acc!(w(k.key) => R::Market, w(k.req_q) => R::ReqQ, w(k.event_q) => R::EvQ, w(k.bids) => R::Bids, w(k.asks) => R::Asks,
                    w(*cw) => R::CoinWallet, w(*pw) => R::PcWallet, sg(*signer) => R::Signer, w(k.coin_vault) => R::CoinVault, w(k.pc_vault) => R::PcVault,
                    ro(tp) => R::TokenProg, ro(k.signer) => R::VaultSigner);
                if let Some(s) = srm { a.push((ro(*s), R::Srm)) }
                let mut d = hdr(13);
                d.extend(enc_take(p));
                data = d;
            }
            Op::Cancel { oo, owner, side, id, .. } => {
                cancel(&mut a, oo, owner);
                let mut d = hdr(11);
                d.extend_from_slice(&(if *side == Side::Bid { 0u32 } else { 1 }).to_le_bytes());
                d.extend_from_slice(&id.to_le_bytes());
                data = d;
            }
            Op::CancelCid { oo, owner, cid, .. } => {
                cancel(&mut a, oo, owner);
                let mut d = hdr(12);
                d.extend_from_slice(&cid.to_le_bytes());
                data = d;
            }
            Op::CancelCids { oo, owner, cids, .. } => {
                cancel(&mut a, oo, owner);
                let mut d = hdr(18);
                for c in cids { d.extend_from_slice(&c.to_le_bytes()) }
                data = d;
            }
            Op::Consume { oos, limit, auth, .. } => {
                for o in oos { a.push((w(*o), R::OOList)) }
                acc!(w(k.key) => R::Market, w(k.event_q) => R::EvQ);
                let mut d = match auth {
                    Some(s) => { acc!(sg(*s) => R::AuthSigner); hdr(17) }
                    None => { acc!(w(k.coin_vault) => R::Ignored, w(k.pc_vault) => R::Ignored); hdr(3) }
                };
                d.extend_from_slice(&limit.to_le_bytes());
                data = d;
            }
            Op::Settle { oo, owner, cw, pw, referrer, .. } => {
                acc!(w(k.key) => R::Market, w(*oo) => R::OO, sg(*owner) => R::Signer, w(k.coin_vault) => R::CoinVault, w(k.pc_vault) => R::PcVault,
                    w(*cw) => R::CoinWallet, w(*pw) => R::PcWallet, ro(k.signer) => R::VaultSigner, ro(tp) => R::TokenProg);
                if let Some(r) = referrer { a.push((w(*r), R::PcWallet)) }
                data = hdr(5);
            }
            Op::Prune { oo, oo_owner, auth, limit, .. } => {
                acc!(w(k.key) => R::Market, w(k.bids) => R::Bids, w(k.asks) => R::Asks, sg(*auth) => R::AuthSigner, w(*oo) => R::OO, ro(*oo_owner) => R::OOOwner, w(k.event_q) => R::EvQ);
                let mut d = hdr(16);
                d.extend_from_slice(&limit.to_le_bytes());
                data = d;
            }
            Op::Close { oo, owner, dest, .. } => {
                acc!(w(*oo) => R::OO, sg(*owner) => R::Signer, w(*dest) => R::Dest, w(k.key) => R::Market);
                data = hdr(14);
            }
            Op::InitOO { oo, owner, auth, .. } => {
                acc!(w(*oo) => R::OO, sg(*owner) => R::Signer, w(k.key) => R::Market, ro(rent) => R::Ignored);
                if let Some(s) = auth { a.push((sg(*s), R::AuthSigner)) }
                data = hdr(15);
            }
            Op::Sweep { signer, dst, .. } => {
                acc!(w(k.key) => R::Market, w(k.pc_vault) => R::PcVault, sg(*signer) => R::AuthSigner, w(*dst) => R::PcWallet, ro(k.signer) => R::VaultSigner, ro(tp) => R::TokenProg);
                data = hdr(8);
            }
            Op::Disable { signer, .. } => {
                acc!(w(k.key) => R::Market, sg(*signer) => R::AuthSigner);
                data = hdr(7);
            }
            Op::Match { .. } => {
                acc!(w(k.key) => R::Ignored, w(k.req_q) => R::Ignored, w(k.event_q) => R::Ignored, w(k.bids) => R::Ignored, w(k.asks) => R::Ignored);
                data = vec![0, 2, 0, 0, 0, 5, 0];
            }
            Op::Legacy { disc, .. } => {
                acc!(w(k.key) => R::Market, w(k.req_q) => R::ReqQ, w(k.event_q) => R::EvQ, w(k.bids) => R::Bids, w(k.asks) => R::Asks, w(k.coin_vault) => R::CoinVault, w(k.pc_vault) => R::PcVault);
                let mut d = hdr(*disc);
                let n = match disc { 1 => 32, 4 => 53, 6 => 8, _ => 36 };
                let mut body = vec![0u8; n];
                if n >= 32 && *disc != 4 { body[4] = 1; body[12] = 1; }
                d.extend(body);
                data = d;
            }
        }
        let roles = a.iter().map(|x| x.1).collect();
        (Instruction { program_id: DEX, accounts: a.into_iter().map(|x| x.0).collect(), data }, roles)
    }

    pub fn oo(&self, k: &Pubkey) -> Option<OO> {
        let a = self.l.get(k)?;
        if a.owner != DEX { return None }
        OO::parse(&a.data)
    }
    pub fn tok(&self, k: &Pubkey) -> Option<Tok> { self.l.get(k).and_then(Tok::parse) }

    /// fee tier the documented schedule assigns to this signer on this market
    pub fn tier(&self, market: &Pubkey, signer: &Pubkey, srm: &Option<Pubkey>) -> Result<u8, Fail> {
        let stable = STABLES.iter().any(|s| s.parse::<Pubkey>().unwrap() == *market);
        let k = match srm { None => return Ok(if stable { 7 } else { 0 }), Some(k) => k };
        let t = self.tok(k).ok_or("fee account is not a token account")?;
        if t.owner != *signer { return Err("fee account belongs to someone else") }
        if stable { return Ok(7) }
        Ok(if t.mint == msrm_mint_addr() && t.amount >= 1 { 6 } else if t.mint == srm_mint_addr() {
            let one = 1_000_000u64;
            match t.amount / one { 0..=99 => 0, 100..=999 => 1, 1_000..=9_999 => 2, 10_000..=99_999 => 3, 100_000..=999_999 => 4, _ => 5 }
        } else { 0 })
    }

    fn allowance(&self, wallet: &Pubkey, signer: &Pubkey) -> Option<u64> {
        match self.tok(wallet) {
            Some(t) if t.owner == *signer => None,
            Some(t) => match t.delegate { Some((d, n)) if d == *signer => Some(n), _ => Some(0) },
            None => Some(0),
        }
    }

    pub fn abs(&self, op: &Op, ms: MState) -> Abs {
        let mut oos = BTreeMap::new();
        let mut toks = BTreeMap::new();
        let (ix, _) = self.build(op);
        for m in &ix.accounts {
            if let Some(o) = self.oo(&m.pubkey) { oos.insert(m.pubkey, o); }
            if let Some(t) = self.tok(&m.pubkey) { toks.insert(m.pubkey, t.amount); }
        }
        Abs { ms, oos, toks }
    }

    /// Predict the outcome of an untampered operation. Mutates `s` to the predicted
    /// post-state (only meaningful on Ok).
    pub fn predict(&self, op: &Op, s: &mut Abs) -> (Result<(), Fail>, Feat) {
        let now = clock();
        let k = &self.mk[op.m()];
        let mut md = Model { s, feat: Feat::default(), allow: None };
        let mint = |x: &Pubkey| self.tok(x).map(|t| t.mint);
        let rent_ok = |x: &Pubkey| self.l.get(x).map_or(false, |a| a.lamports >= min_rent(a.data.len()));
        let r = (|| -> Result<(), Fail> {
            match op {
                Op::New { oo, owner, payer, srm, p, short, .. } => {
                    let mut p = *p;
                    if *short { p.max_ts = i64::MAX }
                    let tier = self.tier(&k.key, owner, srm)?;
                    md.allow = self.allowance(payer, owner);
                    let pm = mint(payer).ok_or("payer is not a token account")?;
                    if md.s.oos.get(oo).map_or(false, |o| o.flags == 0) && !rent_ok(oo) { return Err("not rent exempt") }
                    md.new_order(oo, owner, payer, &pm, tier, now, &p)
                }
                Op::Replace { oo, owner, payer, srm, ps, .. } => {
                    let tier = self.tier(&k.key, owner, srm);
                    let tier = if ps.is_empty() { tier.unwrap_or(0) } else { tier? };
                    md.allow = self.allowance(payer, owner);
                    let pm = mint(payer).ok_or("payer is not a token account")?;
                    md.replace(oo, owner, payer, &pm, tier, now, ps)
                }
                Op::Take { cw, pw, signer, srm, p, .. } => {
                    let tier = self.tier(&k.key, signer, srm)?;
                    if mint(cw) != Some(k.coin_mint) || mint(pw) != Some(k.pc_mint) { return Err("wrong wallet mint") }
                    md.allow = self.allowance(if p.side == Side::Bid { pw } else { cw }, signer);
                    md.send_take(cw, pw, tier, p)
                }
                Op::Cancel { oo, owner, side, id, .. } => md.cancel(oo, owner, *side, *id),
                Op::CancelCid { oo, owner, cid, .. } => md.cancel_cid(oo, owner, *cid),
                Op::CancelCids { oo, owner, cids, .. } => md.cancel_cids(oo, owner, cids),
                Op::Consume { oos, limit, auth, .. } => {
                    if oos.is_empty() { return Err("too few accounts") }
                    if *auth != k.crank_auth { return Err("crank authority") }
                    md.consume(oos, *limit).map(|_| ())
                }
                Op::Settle { oo, owner, cw, pw, referrer, .. } => {
                    if mint(cw) != Some(k.coin_mint) || mint(pw) != Some(k.pc_mint) { return Err("wrong wallet mint") }
                    if let Some(r) = referrer { if mint(r) != Some(k.pc_mint) { return Err("wrong wallet mint") } }
                    md.settle(oo, owner, cw, pw, referrer.as_ref())
                }
                Op::Prune { .. } => Err("handled separately"),
                Op::Close { oo, owner, dest, .. } => {
                    if oo == dest { return Err("cannot close into itself") }
                    md.close(oo, owner)
                }
                Op::InitOO { oo, owner, auth, .. } => {
                    if md.s.oos.get(oo).map_or(false, |o| o.flags == 0) && !rent_ok(oo) { return Err("not rent exempt") }
                    md.init_oo(oo, owner, auth.as_ref(), k.oo_auth)
                }
                Op::Sweep { signer, dst, .. } => {
                    if *signer != sweeper() { return Err("not the fee sweeper") }
                    if mint(dst) != Some(k.pc_mint) { return Err("wrong wallet mint") }
                    md.sweep(dst)
                }
                Op::Disable { signer, .. } => {
                    if *signer != disabler() { return Err("not the disable authority") }
                    md.disable()
                }
                Op::Match { .. } => Ok(()),
                Op::Legacy { .. } => Err("retired instruction"),
            }
        })();
        let mut f = md.feat;
        f.why = r.err();
        (r, f)
    }
}

/// creation of accounts and markets
impl World {
    pub fn empty() -> World { World { l: HashMap::new(), mk: vec![], us: vec![], all_oos: vec![], excess: HashMap::new() } }
    pub fn put_zeroed(&mut self, k: Pubkey, len: usize) {
        self.l.insert(k, Acct { lamports: min_rent(len), owner: DEX, data: vec![0; len], executable: false });
    }
    pub fn new_oo(&mut self, r: &mut Rng, u: usize, m: usize) -> Pubkey {
        let like: Vec<Pubkey> = self.all_oos.iter().flatten().cloned().collect();
        let mut k = r.key_like(&like);
        while self.l.contains_key(&k) { k = r.key() }
        self.put_zeroed(k, OO_LEN);
        self.us[u].oos[m].push(k);
        self.all_oos[m].push(k);
        k
    }
    pub fn programs(&mut self) {
        for k in [DEX, EVIL, spl_token::ID, solana_program::system_program::ID] {
            self.l.insert(k, Acct { lamports: 1, owner: Pubkey::default(), data: vec![], executable: true });
        }
    }
}

pub fn init_market_ix(k: &MarketK, fee_bps: u16, dust: u64) -> Instruction {
    let mut d = hdr(0);
    d.extend_from_slice(&k.coin_lot.to_le_bytes());
    d.extend_from_slice(&k.pc_lot.to_le_bytes());
    d.extend_from_slice(&fee_bps.to_le_bytes());
    d.extend_from_slice(&k.nonce.to_le_bytes());
    d.extend_from_slice(&dust.to_le_bytes());
    let mut accounts = vec![w(k.key), w(k.req_q), w(k.event_q), w(k.bids), w(k.asks), w(k.coin_vault), w(k.pc_vault), ro(k.coin_mint), ro(k.pc_mint), ro(solana_program::sysvar::rent::ID)];
    for x in [k.oo_auth, k.prune_auth, k.crank_auth].iter().flatten() { accounts.push(ro(*x)) }
    Instruction { program_id: DEX, accounts, data: d }
}

/// smallest nonce giving a valid vault signer
pub fn find_signer(r: &mut Rng, market: &Pubkey) -> (u64, Pubkey) {
    loop {
        let n = if r.chance(1, 2) { r.below(16) } else { r.u64() };
        if let Ok(k) = Pubkey::create_program_address(&[market.as_ref(), &n.to_le_bytes()], &DEX) { return (n, k) }
    }
}

pub fn evil_program(_: &Pubkey, _: &[solana_program::account_info::AccountInfo], _: &[u8]) -> solana_program::entrypoint::ProgramResult { Ok(()) }
pub fn dex_program(p: &Pubkey, a: &[solana_program::account_info::AccountInfo], d: &[u8]) -> solana_program::entrypoint::ProgramResult {
    Ok(serum_dex::state::State::process(p, a, d)?)
}
pub fn token_program(p: &Pubkey, a: &[solana_program::account_info::AccountInfo], d: &[u8]) -> solana_program::entrypoint::ProgramResult {
    spl_token::processor::Processor::process(p, a, d)
}
pub fn setup_thread() {
    register(DEX, dex_program);
    register(spl_token::ID, token_program);
    register(EVIL, evil_program);
    set_clock(1_650_000_000);
}
