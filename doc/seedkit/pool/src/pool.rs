use crate::abs::{keyat, mk_mint, mk_tok, u32at, u64at};
use crate::drive::Run;
use crate::rt::*;
use crate::stats::*;
use serum_pool::context::Fees;
use serum_pool::{Pool, PoolContext};
use serum_pool_schema::{Basket, ParamDesc, PoolState};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::sysvar::rent::ID as RENT;
use std::collections::{HashMap, HashSet};

pub const SIMPLE: Pubkey = Pubkey::new_from_array([0x71; 32]);
pub const PARAM: Pubkey = Pubkey::new_from_array([0x72; 32]);
pub const ADMIN: Pubkey = Pubkey::new_from_array([0x73; 32]);
pub const RETBUF: Pubkey = Pubkey::new_from_array([0x74; 32]);
const STATE_TAG: u64 = 0x16a7874c7fb2301b;
const REQ_TAG: u64 = 0x220a6cbdcd1cc4cf;
const ADMIN_TAG: u64 = 0x31e6452361a17878;
const ADMIN_STATE: u64 = 0x4a3ab7f76f93f94e;
fn fee_owner() -> Pubkey { "3LTvJCPiPSMjX1kBJ6ZfEhn4G2hM46aJ1yEZsk8i12TK".parse().unwrap() }

// ---------------------------------------------------------------- programs
pub fn token_program(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { spl_token::processor::Processor::process(p, a, d) }
struct SimplePool;
impl Pool for SimplePool {}
pub fn simple_program(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { serum_pool::pool_entrypoint::<SimplePool>(p, a, d) }
/// A pool with extra parameters, its own state and swaps.
struct ParamPool;
impl Pool for ParamPool {
    fn initialize_pool(c: &PoolContext, s: &mut PoolState) -> Result<(), ProgramError> {
        for a in c.custom_accounts { s.account_params.push(ParamDesc { address: a.key.into(), writable: a.is_writable }) }
        s.admin_key = c.custom_accounts.first().map(|a| a.key.into());
        s.custom_state = vec![c.custom_accounts.len() as u8];
        Ok(())
    }
    fn get_swap_basket(_: &PoolContext, _: &PoolState, q: &[u64]) -> Result<Basket, ProgramError> { Ok(Basket { quantities: q.iter().map(|x| *x as i64).collect() }) }
    fn process_swap(c: &PoolContext, s: &mut PoolState, q: &[u64]) -> Result<(), ProgramError> {
        let n = s.assets.len();
        if q.len() != 2 * n { return Err(ProgramError::InvalidArgument) }
        c.transfer_basket_from_user(&Basket { quantities: q[..n].iter().map(|x| *x as i64).collect() })?;
        c.transfer_basket_to_user(s, &Basket { quantities: q[n..].iter().map(|x| *x as i64).collect() })?;
        s.custom_state.push(1);
        if c.account_params.map_or(true, |p| p.len() != s.account_params.len()) { return Err(ProgramError::InvalidArgument) }
        Ok(())
    }
}
pub fn param_program(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { serum_pool::pool_entrypoint::<ParamPool>(p, a, d) }
#[cfg(feature = "admin")]
unsafe fn admin_ep(p: *mut u8) -> u64 { serum_pool_examples_admin_controlled::entrypoint(p) }
#[cfg(feature = "admin")]
pub fn admin_program(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { crate::abi::call(admin_ep, p, a, d) }
pub fn retbuf_program(_: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let off = u64::from_le_bytes(d[..8].try_into().unwrap()) as usize;
    let mut b = a[0].try_borrow_mut_data()?;
    let n = d.len() - 8;
    if off.checked_add(n).map_or(true, |e| e > b.len()) { return Err(ProgramError::AccountDataTooSmall) }
    b[off..off + n].copy_from_slice(&d[8..]);
    Ok(())
}

// ---------------------------------------------------------------- formats, restated
#[derive(Clone, Debug, PartialEq)]
struct PS { mint: Pubkey, assets: Vec<(Pubkey, Pubkey)>, signer: Pubkey, nonce: u8, params: Vec<(Pubkey, bool)>, name: Vec<u8>, lqd: Pubkey, init: Pubkey, rate: u32, admin: Option<Pubkey>, custom: Vec<u8> }
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> { if self.0.len() < n { return None } let (a, b) = self.0.split_at(n); self.0 = b; Some(a) }
    fn u8(&mut self) -> Option<u8> { Some(self.take(1)?[0]) }
    fn u32(&mut self) -> Option<u32> { Some(u32at(self.take(4)?, 0)) }
    fn u64(&mut self) -> Option<u64> { Some(u64at(self.take(8)?, 0)) }
    fn key(&mut self) -> Option<Pubkey> { Some(keyat(self.take(32)?, 0)) }
    fn bool(&mut self) -> Option<bool> { match self.u8()? { 0 => Some(false), 1 => Some(true), _ => None } }
    fn bytes(&mut self) -> Option<Vec<u8>> { let n = self.u32()? as usize; Some(self.take(n)?.to_vec()) }
    fn end(&self) -> Option<()> { if self.0.is_empty() { Some(()) } else { None } }
}
impl PS {
    fn parse(d: &[u8]) -> Option<PS> {
        let mut r = Rd(d);
        if r.u64()? != STATE_TAG { return None }
        let mint = r.key()?;
        let n = r.u32()?;
        let mut assets = vec![];
        for _ in 0..n { assets.push((r.key()?, r.key()?)) }
        let signer = r.key()?;
        let nonce = r.u8()?;
        let n = r.u32()?;
        let mut params = vec![];
        for _ in 0..n { params.push((r.key()?, r.bool()?)) }
        let name = r.bytes()?;
        std::str::from_utf8(&name).ok()?;
        let lqd = r.key()?;
        let init = r.key()?;
        let rate = r.u32()?;
        let admin = if r.bool()? { Some(r.key()?) } else { None };
        let custom = r.bytes()?;
        Some(PS { mint, assets, signer, nonce, params, name, lqd, init, rate, admin, custom })
    }
    fn enc(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&STATE_TAG.to_le_bytes());
        v.extend_from_slice(self.mint.as_ref());
        v.extend_from_slice(&(self.assets.len() as u32).to_le_bytes());
        for (a, b) in &self.assets { v.extend_from_slice(a.as_ref()); v.extend_from_slice(b.as_ref()) }
        v.extend_from_slice(self.signer.as_ref());
        v.push(self.nonce);
        v.extend_from_slice(&(self.params.len() as u32).to_le_bytes());
        for (a, b) in &self.params { v.extend_from_slice(a.as_ref()); v.push(*b as u8) }
        v.extend_from_slice(&(self.name.len() as u32).to_le_bytes());
        v.extend_from_slice(&self.name);
        v.extend_from_slice(self.lqd.as_ref());
        v.extend_from_slice(self.init.as_ref());
        v.extend_from_slice(&self.rate.to_le_bytes());
        match self.admin { Some(k) => { v.push(1); v.extend_from_slice(k.as_ref()) } None => v.push(0) }
        v.extend_from_slice(&(self.custom.len() as u32).to_le_bytes());
        v.extend_from_slice(&self.custom);
        v
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Act { Create(u64), Redeem(u64), Swap(Vec<u64>) }
#[derive(Clone, Debug, PartialEq)]
enum Rq { Init { nonce: u8, n: u8, name: Vec<u8>, rate: u32, custom: Vec<u8> }, Basket(Act), Exec(Act) }
fn enc_act(v: &mut Vec<u8>, a: &Act) {
    match a {
        Act::Create(n) => { v.push(0); v.extend_from_slice(&n.to_le_bytes()) }
        Act::Redeem(n) => { v.push(1); v.extend_from_slice(&n.to_le_bytes()) }
        Act::Swap(q) => { v.push(2); v.extend_from_slice(&(q.len() as u32).to_le_bytes()); for x in q { v.extend_from_slice(&x.to_le_bytes()) } }
    }
}
impl Rq {
    fn enc(&self) -> Vec<u8> {
        let mut v = REQ_TAG.to_le_bytes().to_vec();
        match self {
            Rq::Init { nonce, n, name, rate, custom } => {
                v.extend_from_slice(&[0, *nonce, *n]);
                v.extend_from_slice(&(name.len() as u32).to_le_bytes());
                v.extend_from_slice(name);
                v.extend_from_slice(&rate.to_le_bytes());
                v.extend_from_slice(&(custom.len() as u32).to_le_bytes());
                v.extend_from_slice(custom);
            }
            Rq::Basket(a) => { v.push(1); enc_act(&mut v, a) }
            Rq::Exec(a) => { v.push(2); enc_act(&mut v, a) }
        }
        v
    }
    fn dec(d: &[u8]) -> Option<Rq> {
        let mut r = Rd(d);
        if r.u64()? != REQ_TAG { return None }
        let act = |r: &mut Rd| -> Option<Act> { Some(match r.u8()? { 0 => Act::Create(r.u64()?), 1 => Act::Redeem(r.u64()?), 2 => { let n = r.u32()?; let mut q = vec![]; for _ in 0..n { q.push(r.u64()?) } Act::Swap(q) } _ => return None }) };
        let x = match r.u8()? {
            0 => { let (nonce, n) = (r.u8()?, r.u8()?); let name = r.bytes()?; std::str::from_utf8(&name).ok()?; Rq::Init { nonce, n, name, rate: r.u32()?, custom: r.bytes()? } }
            1 => Rq::Basket(act(&mut r)?),
            2 => Rq::Exec(act(&mut r)?),
            _ => return None,
        };
        r.end()?;
        Some(x)
    }
}

struct T { mint: Pubkey, owner: Pubkey, amount: u64, delegate: Option<(Pubkey, u64)>, close: Option<Pubkey> }
fn tok(l: &Ledger, k: &Pubkey) -> Option<T> {
    let a = l.get(k)?;
    if a.owner != spl_token::ID || a.data.len() != 165 || a.data[108] == 0 { return None }
    let d = &a.data;
    Some(T { mint: keyat(d, 0), owner: keyat(d, 32), amount: u64at(d, 64), delegate: if u32at(d, 72) == 1 { Some((keyat(d, 76), u64at(d, 121))) } else { None }, close: if u32at(d, 129) == 1 { Some(keyat(d, 133)) } else { None } })
}
fn mint(l: &Ledger, k: &Pubkey) -> Option<(Option<Pubkey>, u64)> {
    let a = l.get(k)?;
    if a.owner != spl_token::ID || a.data.len() != 82 || a.data[45] == 0 { return None }
    Some((if a.data[0] == 1 { Some(keyat(&a.data, 4)) } else { None }, u64at(&a.data, 36)))
}
/// The documented fee: the rate on the pool tokens, rounded up; two fifths but at least
/// one basis point of the tokens to LQD, half of that to the referrer as far as the
/// rest allows, the remainder to the initializer.
fn fee(rate: u32, tokens: u64) -> Option<(u64, u64, u64)> {
    if rate < 150 || rate >= 1_000_000 { return None }
    if tokens == 0 { return Some((0, 0, 0)) }
    let t = tokens as u128;
    let total = (t * rate as u128 + 999_999) / 1_000_000;
    let lqd = (total * 2 / 5).max((t + 9999) / 10000);
    let rf = (lqd / 2).min(total - lqd);
    Some((lqd as u64, (total - lqd - rf) as u64, rf as u64))
}

pub fn fees(seed: u64) -> Run {
    let mut r = Rng::new(seed);
    let mut st = Stats { histories: 1, ..Default::default() };
    let mut viols = vec![];
    for _ in 0..60 {
        st.steps += 1;
        let rate = match r.below(8) { 0 => 149, 1 => 150, 2 => 999_999, 3 => 1_000_000, 4 => r.u64() as u32, 5 => 2500, _ => r.range(150, 999_999) as u32 };
        let tokens = match r.below(6) { 0 => r.below(20), 1 => { let b = r.below(1000); (b * 10000 + r.below(3)).saturating_sub(1) } 2 => r.below(1_000_000), 3 => u64::MAX - r.below(3), _ => r.wide() };
        let got = std::panic::catch_unwind(|| Fees::from_fee_rate_and_tokens(rate, tokens));
        let want = fee(rate, tokens);
        let h = hash(&(rate, tokens));
        let msg = format!("rate {} tokens {} -> {:?}, expected (lqd, initializer, referrer) {:?}", rate, tokens, got.as_ref().ok(), want);
        st.rel("L02", h, || msg.clone());
        let e = st.ops.entry("fee").or_insert([0; 2]);
        e[0] += 1;
        let bad = match (&got, want) {
            (Ok(Ok(f)), Some(w)) => { e[1] += 1; (f.lqd_fee, f.initializer_fee, f.referrer_fee) != w || f.total_fee() != w.0 + w.1 + w.2 }
            (Ok(Ok(_)), None) => true,
            (Ok(Err(_)), Some(_)) => true,
            // amounts beyond the token program's practical range may be refused
            (Err(_), Some(w)) => (w.0 + w.1 + w.2) < 1 << 63,
            _ => false,
        };
        if bad { viols.push(Viol { props: vec!["L02"], msg }) }
    }
    Run { st, viols, log: vec![] }
}

// ---------------------------------------------------------------- world
#[derive(Clone, Debug)]
struct PoolK { prog: Pubkey, key: Pubkey, mint: Pubkey, vaults: Vec<Pubkey>, signer: Pubkey, nonce: u8, lqd: Pubkey, init: Pubkey, rate: u32, custom: Vec<(Pubkey, bool)>, name: Vec<u8>, admin: Pubkey }
#[derive(Clone)]
struct U { key: Pubkey, assets: HashMap<Pubkey, Pubkey>, pool: Vec<Pubkey> }
struct Sim { l: Ledger, r: Rng, pools: Vec<PoolK>, us: Vec<U>, mints: Vec<Pubkey>, ret: Pubkey, st: Stats, viols: Vec<Viol>, log: Vec<String>, keep: bool, pdas: HashSet<Pubkey> }

fn w(k: Pubkey) -> AccountMeta { AccountMeta::new(k, false) }
fn ro(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, false) }

fn pda(pool: &Pubkey, nonce: u8, prog: &Pubkey) -> Option<Pubkey> { Pubkey::create_program_address(&[pool.as_ref(), &[nonce]], prog).ok() }

impl Sim {
    fn v(&mut self, p: &[&'static str], m: String) { if self.viols.len() < 20 { let v = Viol { props: p.to_vec(), msg: m }; crate::stats::note(&v); self.viols.push(v) } }
    fn new(seed: u64, keep: bool) -> Sim {
        let mut r = Rng::new(seed);
        let mut l = Ledger::new();
        for k in [SIMPLE, PARAM, ADMIN, RETBUF, spl_token::ID] { l.insert(k, Acct { lamports: 1, owner: Pubkey::default(), data: vec![], executable: true }); }
        let mut rent = vec![];
        rent.extend_from_slice(&3480u64.to_le_bytes());
        rent.extend_from_slice(&2.0f64.to_le_bytes());
        rent.push(50);
        l.insert(RENT, Acct { lamports: 1_000_000_000, owner: solana_program::sysvar::ID, data: rent, executable: false });
        let ret = r.key();
        l.insert(ret, Acct { lamports: 1 << 30, owner: RETBUF, data: vec![0; *r.pick(&[4, 20, 64])], executable: false });
        let mut mints: Vec<Pubkey> = vec![];
        for _ in 0..4 { let k = r.key_like(&mints); mints.push(k) }
        for m in &mints { l.insert(*m, mk_mint(&r.key(), 1 << 60)); }
        let mut ks: Vec<Pubkey> = vec![];
        let us = (0..3).map(|_| {
            let key = r.key_like(&ks);
            ks.push(key);
            l.insert(key, Acct { lamports: 1 << 40, ..Default::default() });
            let mut assets = HashMap::new();
            for m in &mints { let a = r.key(); let amt = match r.below(5) { 0 => r.below(1000), 1 => 1 << 61, _ => 1 << 50 }; l.insert(a, mk_tok(m, &key, amt)); assets.insert(*m, a); }
            U { key, assets, pool: vec![] }
        }).collect();
        Sim { l, r, pools: vec![], us, mints, ret, st: Stats { histories: 1, ..Default::default() }, viols: vec![], log: vec![], keep, pdas: HashSet::new() }
    }
    /// accounts for a pool about to be initialised
    fn prepare(&mut self, prog: Pubkey) -> (PoolK, usize) {
        let like: Vec<Pubkey> = self.pools.iter().map(|p| p.key).collect();
        let r = &mut self.r;
        let key = r.key_like(&like);
        let (nonce, signer) = loop { let n = r.u64() as u8; if let Some(k) = pda(&key, n, &prog) { break (n, k) } };
        self.pdas.insert(signer);
        let mk = r.key();
        let scale = *r.pick(&[10u64, 1000, 1 << 30, 1 << 55, 1 << 62]);
        let supply = match r.below(8) { 0 => 0, 1 => 1, 2 => r.below(100), _ => r.range(1, scale) };
        self.l.insert(mk, mk_mint(&signer, supply));
        let n = r.below(4) as usize;
        let mut vaults = vec![];
        for i in 0..n {
            let v = r.key();
            let amt = match r.below(8) { 0 => 0, 1 => supply, 2 => r.wide(), _ => r.below(scale) };
            self.l.insert(v, mk_tok(&self.mints[i], &signer, amt));
            vaults.push(v);
        }
        let (lqd, init) = (r.key(), r.key());
        self.l.insert(lqd, mk_tok(&mk, &fee_owner(), 0));
        let io = if r.chance(1, 2) { self.us[0].key } else { r.key() };
        self.l.insert(init, mk_tok(&mk, &io, 0));
        // the existing pool tokens are in the users' hands
        let k = self.us.len() as u64;
        for u in 0..self.us.len() {
            let a = r.key();
            let amt = supply / k + if u == 0 { supply % k } else { 0 };
            self.l.insert(a, mk_tok(&mk, &self.us[u].key, amt));
            self.us[u].pool.push(a);
        }
        let space = 8 + 32 + 4 + 64 * n + 32 + 1 + 4 + 33 * 3 + 4 + 20 + 64 + 4 + 33 + 4 + 40 + if prog == ADMIN { 200 } else { 0 };
        self.l.insert(key, Acct { lamports: min_rent(space), owner: prog, data: vec![0; space], executable: false });
        let admin = self.us[1].key;
        let custom = match prog { PARAM => (0..r.below(3)).map(|_| (r.key(), r.chance(1, 2))).collect(), ADMIN => vec![(admin, false)], _ => vec![] };
        for (c, _) in &custom { self.l.entry(*c).or_insert(Acct { lamports: 5_000_000, ..Default::default() }); }
        let rate = match r.below(6) { 0 => 150, 1 => 999_999, 2 => 2500, _ => r.range(150, 999_999) as u32 };
        let name: Vec<u8> = (0..r.below(10)).map(|_| b'a' + r.below(26) as u8).collect();
        (PoolK { prog, key, mint: mk, vaults, signer, nonce, lqd, init, rate, custom, name, admin }, space)
    }
    fn init_ix(&self, p: &PoolK) -> (Vec<AccountMeta>, Vec<u8>) {
        let mut a = vec![w(p.key), w(p.mint)];
        for v in &p.vaults { a.push(w(*v)) }
        a.extend(vec![ro(p.signer), ro(p.lqd), ro(p.init), ro(RENT)]);
        for (c, wr) in &p.custom { a.push(AccountMeta { pubkey: *c, is_signer: false, is_writable: *wr }) }
        (a, Rq::Init { nonce: p.nonce, n: p.vaults.len() as u8, name: p.name.clone(), rate: p.rate, custom: vec![] }.enc())
    }
    fn assets_of(&self, p: &PoolK) -> Vec<(Pubkey, Pubkey)> { self.l.get(&p.key).and_then(|a| PS::parse(&a.data)).map_or(vec![], |s| s.assets) }
    fn exec_ix(&mut self, pi: usize, u: usize, rq: &Rq) -> (Vec<AccountMeta>, Vec<u8>) {
        let p = self.pools[pi].clone();
        let us = self.us[u].clone();
        let assets = self.assets_of(&p);
        let mut a = vec![w(p.key), w(p.mint)];
        for (_, v) in &assets { a.push(w(*v)) }
        a.push(ro(p.signer));
        if let Rq::Basket(_) = rq {
            a.extend(vec![w(self.ret), ro(RETBUF)]);
        } else {
            // paying from or into one of the fee accounts themselves
            let mut pt = us.pool[pi];
            let mut auth = us.key;
            match self.r.below(20) { 0 => { pt = p.init; auth = tok(&self.l, &pt).map_or(auth, |t| t.owner) } 1 => { pt = p.lqd; auth = fee_owner() } _ => {} }
            let mut rf = self.us[self.r.below(3) as usize].pool[pi];
            match self.r.below(12) { 0 => rf = p.lqd, 1 => rf = p.init, 2 => rf = pt, _ => {} }
            a.push(w(pt));
            for (m, _) in &assets { a.push(w(*us.assets.get(m).unwrap())) }
            a.push(AccountMeta::new_readonly(auth, true));
            a.extend(vec![w(p.lqd), w(p.init), w(rf), ro(spl_token::ID)]);
        }
        for (c, wr) in &p.custom { if p.prog == PARAM { a.push(AccountMeta { pubkey: *c, is_signer: false, is_writable: *wr }) } }
        (a, rq.enc())
    }

    // ------------------------------------------------------------ the rules
    /// resulting ledger or refusal reason; the flag says that a refusal is acceptable too
    fn expect(&self, prog: &Pubkey, acc: &[AccountMeta], data: &[u8]) -> Result<(Ledger, bool), &'static str> {
        let mut fl: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for a in acc { let e = fl.entry(a.pubkey).or_insert((false, false)); e.0 |= a.is_signer; e.1 |= a.is_writable }
        let mut l = self.l.clone();
        let is_req = data.len() >= 8 && u64at(data, 0) == REQ_TAG;
        if !is_req { return if *prog == ADMIN { self.expect_admin(acc, data, &fl).map(|l| (l, false)) } else { Err("unknown instruction") } }
        let rq = Rq::dec(data).ok_or("malformed request")?;
        let k = |i: usize| -> Result<Pubkey, &'static str> { acc.get(i).map(|a| a.pubkey).ok_or("too few accounts") };
        let pk = k(0)?;
        let pa = l.get(&pk).cloned().unwrap_or_default();
        if pa.owner != *prog { return Err("not this program's pool") }
        let old = if pa.data.iter().all(|b| *b == 0) { None } else { Some(PS::parse(&pa.data).ok_or("state does not decode")?) };
        let initing = matches!(rq, Rq::Init { .. });
        let mut ps = match (&old, &rq) {
            (None, Rq::Init { nonce, n, name, rate, .. }) => {
                let n = *n as usize;
                let mut assets = vec![];
                for i in 0..n { let v = k(2 + i)?; assets.push((tok(&l, &v).ok_or("vault is not a token account")?.mint, v)) }
                PS { mint: k(1)?, assets, signer: k(2 + n)?, nonce: *nonce, params: vec![], name: name.clone(), lqd: k(3 + n)?, init: k(4 + n)?, rate: *rate, admin: None, custom: vec![] }
            }
            (None, _) => return Err("not initialised"),
            (Some(_), Rq::Init { .. }) => return Err("already initialised"),
            (Some(s), _) => s.clone(),
        };
        let n = ps.assets.len();
        if k(1)? != ps.mint { return Err("not the pool's mint") }
        let (auth, supply) = mint(&l, &ps.mint).ok_or("not a mint")?;
        if auth != Some(ps.signer) { return Err("pool does not control the mint") }
        let controlled = |t: &T, by: &Pubkey| t.owner == *by || t.delegate.map_or(false, |d| d.0 == *by);
        for (i, (m, v)) in ps.assets.iter().enumerate() {
            if k(2 + i)? != *v { return Err("not the pool's vault") }
            let t = tok(&l, v).ok_or("not a token account")?;
            if t.mint != *m || !controlled(&t, &ps.signer) { return Err("pool does not control the vault") }
        }
        if k(2 + n)? != ps.signer { return Err("not the pool's authority") }
        let fee_accounts = |l: &Ledger, a: Pubkey, b: Pubkey, c: Pubkey| -> Result<(), &'static str> {
            if a != ps.lqd || b != ps.init { return Err("not the pool's fee account") }
            let t = tok(l, &a).ok_or("not a token account")?;
            if t.mint != ps.mint || !controlled(&t, &fee_owner()) { return Err("fee account not controlled by LQD") }
            for x in [b, c] { if tok(l, &x).map(|t| t.mint) != Some(ps.mint) { return Err("fee account of another mint") } }
            Ok(())
        };
        let sized = |l: &Ledger, tokens: u64, up: bool| -> Result<Vec<u64>, &'static str> {
            if supply == 0 { return Err("pool is empty") }
            let mut q = vec![];
            for (_, v) in &ps.assets {
                let x = tok(l, v).unwrap().amount as u128 * tokens as u128;
                let x = if up { (x + supply as u128 - 1) / supply as u128 } else { x / supply as u128 };
                if x > i64::MAX as u128 { return Err("quantity too large") }
                q.push(x as u64);
            }
            Ok(q)
        };
        let paused = *prog == ADMIN && ps.custom.get(8) == Some(&1);
        match &rq {
            Rq::Init { .. } => {
                fee_accounts(&l, k(3 + n)?, k(4 + n)?, k(3 + n)?)?;
                if k(5 + n)? != RENT { return Err("not the rent account") }
                for x in [pk, ps.mint, ps.lqd, ps.init].iter().chain(ps.assets.iter().map(|a| &a.1)) {
                    let a = l.get(x).unwrap();
                    if a.lamports < min_rent(a.data.len()) { return Err("not rent exempt") }
                }
                let t = tok(&l, &ps.lqd).unwrap();
                if t.owner != fee_owner() || t.delegate.is_some() || t.close.map_or(false, |c| c != ps.signer) { return Err("fee account not controlled by LQD") }
                let extra: Vec<Pubkey> = acc[6 + n..].iter().map(|a| a.pubkey).collect();
                if *prog == PARAM {
                    ps.params = extra.iter().map(|e| (*e, fl[e].1)).collect();
                    ps.admin = extra.first().cloned();
                    ps.custom = vec![extra.len() as u8];
                }
                if *prog == ADMIN {
                    ps.admin = Some(*extra.first().ok_or("too few accounts")?);
                    ps.custom = ADMIN_STATE.to_le_bytes().to_vec();
                    ps.custom.push(0);
                }
                if pda(&pk, ps.nonce, prog) != Some(ps.signer) { return Err("authority is not the pool's derived address") }
                if ps.rate < 150 || ps.rate >= 1_000_000 { return Err("fee rate out of range") }
            }
            Rq::Basket(act) => {
                let (ra, rp) = (k(3 + n)?, k(4 + n)?);
                let raa = l.get(&ra).cloned().unwrap_or_default();
                if raa.owner != rp { return Err("return buffer") }
                for (i, (p, _)) in ps.params.iter().enumerate() { if k(5 + n + i)? != *p { return Err("not the pool's parameter account") } }
                if paused && !matches!(act, Act::Swap(_)) { return Err("paused") }
                let q = match act { Act::Create(x) => sized(&l, *x, true)?, Act::Redeem(x) => sized(&l, *x, false)?, Act::Swap(v) => if *prog == PARAM { v.clone() } else { return Err("swaps not offered") } };
                let mut out = (q.len() as u32).to_le_bytes().to_vec();
                for x in q { out.extend_from_slice(&x.to_le_bytes()) }
                if rp != RETBUF || !fl[&ra].1 || raa.data.len() < out.len() { return Err("return buffer") }
                l.get_mut(&ra).unwrap().data[..out.len()].copy_from_slice(&out);
                return Ok((l, false));
            }
            Rq::Exec(act) => {
                let o = 3 + n;
                let pt = k(o)?;
                let ua: Vec<Pubkey> = (0..n).map(|i| k(o + 1 + i)).collect::<Result<_, _>>()?;
                let b = o + 1 + n;
                let (user, lqd, ini, rf) = (k(b)?, k(b + 1)?, k(b + 2)?, k(b + 3)?);
                if tok(&l, &pt).map(|t| t.mint) != Some(ps.mint) { return Err("user pool account of another mint") }
                for (i, (m, _)) in ps.assets.iter().enumerate() { if tok(&l, &ua[i]).map(|t| t.mint) != Some(*m) { return Err("user asset account of another mint") } }
                fee_accounts(&l, lqd, ini, rf)?;
                if k(b + 4)? != spl_token::ID { return Err("not the token program") }
                for (i, (p, _)) in ps.params.iter().enumerate() { if k(b + 5 + i)? != *p { return Err("not the pool's parameter account") } }
                let mut may = false;
                let mut ixs: Vec<(Instruction, bool)> = vec![]; // token instruction, signed by the pool
                let ti = |s: Pubkey, d: Pubkey, a: Pubkey, x: u64| spl_token::instruction::transfer(&spl_token::ID, &s, &d, &a, &[], x).unwrap();
                let get_fees = |x: u64| -> Result<[u64; 3], &'static str> {
                    let f = fee(ps.rate, x).ok_or("fee rate out of range")?;
                    let mut f = [f.0, f.1, f.2];
                    if pt == lqd { f = [0; 3] }
                    if pt == ini { f[1] = 0 }
                    if pt == rf { f[2] = 0 }
                    Ok(f)
                };
                match act {
                    Act::Create(x) => {
                        if paused { return Err("paused") }
                        let q = sized(&l, *x, true)?;
                        for i in 0..n { ixs.push((ti(ua[i], ps.assets[i].1, user, q[i]), false)) }
                        let f = get_fees(*x)?;
                        let full = fee(ps.rate, *x).unwrap();
                        if (full.0 as u128 + full.1 as u128 + full.2 as u128) >= 1 << 63 { may = true }
                        for (to, amt) in [(lqd, f[0]), (ini, f[1]), (rf, f[2]), (pt, x - f[0] - f[1] - f[2])] {
                            if amt > 0 { ixs.push((spl_token::instruction::mint_to(&spl_token::ID, &ps.mint, &to, &ps.signer, &[], amt).unwrap(), true)) }
                        }
                    }
                    Act::Redeem(x) => {
                        let f = get_fees(*x)?;
                        let full = fee(ps.rate, *x).unwrap();
                        if (full.0 as u128 + full.1 as u128 + full.2 as u128) >= 1 << 63 { may = true }
                        let net = x - f[0] - f[1] - f[2];
                        if paused { return Err("paused") }
                        let q = sized(&l, net, false)?;
                        for (to, amt) in [(lqd, f[0]), (ini, f[1]), (rf, f[2])] { if amt > 0 { ixs.push((ti(pt, to, user, amt), false)) } }
                        ixs.push((spl_token::instruction::burn(&spl_token::ID, &pt, &ps.mint, &user, &[], net).unwrap(), false));
                        for i in 0..n { ixs.push((ti(ps.assets[i].1, ua[i], ps.signer, q[i]), true)) }
                    }
                    Act::Swap(q) => {
                        if *prog != PARAM { return Err("swaps not offered") }
                        if q.len() != 2 * n || q.iter().any(|x| *x > i64::MAX as u64) { return Err("malformed request") }
                        for i in 0..n { ixs.push((ti(ua[i], ps.assets[i].1, user, q[i]), false)) }
                        for i in 0..n { ixs.push((ti(ps.assets[i].1, ua[i], ps.signer, q[n + i]), true)) }
                        ps.custom.push(1);
                    }
                }
                for (ix, by_pool) in ixs {
                    for m in &ix.accounts {
                        if m.is_writable && !fl.get(&m.pubkey).map_or(false, |f| f.1) { return Err("account not writable") }
                        if m.is_signer && !fl.get(&m.pubkey).map_or(false, |f| f.0) && !(by_pool && pda(&pk, ps.nonce, prog) == Some(m.pubkey)) { return Err("user did not sign") }
                    }
                    if exec(&mut l, &[ix]).is_err() { return Err("token program refuses") }
                }
                let enc = ps.enc();
                let cur = l.get_mut(&pk).unwrap();
                if enc.len() > cur.data.len() { return Err("state does not fit") }
                if cur.data[..enc.len()] != enc[..] && !fl[&pk].1 { return Err("account not writable") }
                cur.data[..enc.len()].copy_from_slice(&enc);
                return Ok((l, may));
            }
        }
        let _ = initing;
        let enc = ps.enc();
        let cur = l.get_mut(&pk).unwrap();
        if enc.len() > cur.data.len() { return Err("state does not fit") }
        if !fl[&pk].1 { return Err("account not writable") }
        cur.data[..enc.len()].copy_from_slice(&enc);
        Ok((l, false))
    }

    fn expect_admin(&self, acc: &[AccountMeta], data: &[u8], fl: &HashMap<Pubkey, (bool, bool)>) -> Result<Ledger, &'static str> {
        let mut l = self.l.clone();
        let k = |i: usize| -> Result<Pubkey, &'static str> { acc.get(i).map(|a| a.pubkey).ok_or("too few accounts") };
        let pk = k(0)?;
        let pa = l.get(&pk).cloned().unwrap_or_default();
        if pa.owner != ADMIN { return Err("not this program's pool") }
        let mut ps = PS::parse(&pa.data).ok_or("not initialised")?;
        if ps.admin != Some(k(1)?) { return Err("not the admin") }
        if !fl[&k(1)?].0 { return Err("admin did not sign") }
        let mut r = Rd(data);
        let dec = (|| -> Option<(u8, u64)> {
            if r.u64()? != ADMIN_TAG { return None }
            let v = r.u8()?;
            let x = match v { 2 => r.u64()?, 5 => r.u32()? as u64, 0..=6 => 0, _ => return None };
            r.end()?;
            Some((v, x))
        })();
        let (v, x) = dec.ok_or("malformed request")?;
        if ps.custom.len() != 9 || u64at(&ps.custom, 0) != ADMIN_STATE || ps.custom[8] > 1 { return Err("state does not decode") }
        match v {
            0 => ps.custom[8] = 1,
            1 => {
                for (i, (_, va)) in ps.assets.iter().enumerate() {
                    if k(2 + i)? != *va { return Err("not the pool's vault") }
                    let t = tok(&l, va).ok_or("not a token account")?;
                    if t.delegate.map_or(false, |d| d.1 > 0) { return Err("delegated assets") }
                }
                ps.custom[8] = 0;
            }
            2 => {
                let (va, d, s, tp) = (k(2)?, k(3)?, k(4)?, k(5)?);
                if !ps.assets.iter().any(|a| a.1 == va) { return Err("not the pool's vault") }
                if s != ps.signer { return Err("not the pool's authority") }
                if tp != spl_token::ID { return Err("not the token program") }
                ps.custom[8] = 1;
                if !fl[&va].1 { return Err("account not writable") }
                let ix = spl_token::instruction::approve(&spl_token::ID, &va, &d, &s, &[], x).unwrap();
                if exec(&mut l, &[ix]).is_err() { return Err("token program refuses") }
            }
            3 => {
                let va = k(2)?;
                let t = tok(&l, &va).ok_or("not a token account")?;
                if ps.assets.iter().any(|a| a.1 == va || a.0 == t.mint) { return Err("already in the pool") }
                if t.owner != ps.signer { return Err("pool does not control the vault") }
                ps.assets.push((t.mint, va));
            }
            4 => {
                let va = k(2)?;
                let t = tok(&l, &va).ok_or("not a token account")?;
                if t.amount > 0 { return Err("vault not empty") }
                if !ps.assets.iter().any(|a| a.1 == va) { return Err("not the pool's vault") }
                ps.assets.retain(|a| a.1 != va);
            }
            5 => { if x < 150 || x >= 1_000_000 { return Err("fee rate out of range") } ps.rate = x as u32 }
            _ => { let na = k(2)?; if !fl[&na].0 { return Err("new admin did not sign") } ps.admin = Some(na) }
        }
        let enc = ps.enc();
        let cur = l.get_mut(&pk).unwrap();
        if enc.len() > cur.data.len() { return Err("state does not fit") }
        if cur.data[..enc.len()] != enc[..] && !fl[&pk].1 { return Err("account not writable") }
        cur.data[..enc.len()].copy_from_slice(&enc);
        Ok(l)
    }

    // ------------------------------------------------------------ one transaction
    fn judge(&mut self, prog: Pubkey, mut acc: Vec<AccountMeta>, data: Vec<u8>, what: String, op: &'static str) -> bool {
        self.st.steps += 1;
        for a in acc.iter_mut() { if self.pdas.contains(&a.pubkey) { a.is_signer = false } }
        let before = self.l.clone();
        let exp = self.expect(&prog, &acc, &data);
        let res = exec(&mut self.l, &[Instruction { program_id: prog, accounts: acc.clone(), data: data.clone() }]);
        let ok = res.is_ok();
        let e = self.st.ops.entry(op).or_insert([0; 2]);
        e[0] += 1;
        if ok { e[1] += 1 }
        let reason = match &exp { Ok(_) => "accepted", Err(r) => r };
        *self.st.why.entry(reason).or_insert(0) += 1;
        let tag = format!("{} {} -> {}, rules say {}", op, what, if ok { "ok".into() } else { format!("{:?}", res) }, reason);
        if self.keep { self.log.push(format!("{} accounts {:?} data {:?}", tag, acc.iter().map(|a| a.pubkey).collect::<Vec<_>>(), data)) }
        let h = hash(&(&data, acc.iter().map(|a| (a.pubkey, a.is_signer, a.is_writable)).collect::<Vec<_>>(), self.st.steps));
        self.st.states.insert(h);
        let t = tag.clone();
        if op == "create" || op == "redeem" || op == "swap" || op == "basket" { self.st.rel("L01", h, || t.clone()) }
        if (op == "create" || op == "redeem") && ok { self.st.rel("L02", h, || t.clone()) }
        self.st.rel("L03", h, || t.clone());
        if prog == ADMIN { self.st.rel("L04", h, || t.clone()) }
        let all: &[&'static str] = &["L01", "L02", "L03", "L04"];
        let bind: &[&'static str] = if prog == ADMIN { &["L03", "L04"] } else { &["L03"] };
        match exp {
            Ok((want, may)) => {
                if !ok { if !may { self.v(if op == "initialize" { bind } else if op == "admin" { &["L04"] } else { all }, format!("refused: {}", tag)) } }
                else if want != self.l {
                    let mut ks: Vec<Pubkey> = want.keys().chain(self.l.keys()).filter(|k| want.get(*k) != self.l.get(*k)).cloned().collect();
                    ks.sort();
                    ks.dedup();
                    let mut ps: Vec<&'static str> = vec![];
                    for k in &ks {
                        let t = self.l.get(k).or(want.get(k)).map(|a| a.data.len());
                        let ismint = t == Some(82);
                        let poolmint = tok(&want, k).map_or(false, |t| self.pools.iter().any(|p| p.mint == t.mint));
                        if self.pools.iter().any(|p| p.key == *k) || op == "initialize" { ps.extend_from_slice(&["L03", "L04"]) } else if poolmint { ps.extend_from_slice(&["L02", "L01"]) } else if ismint { ps.extend_from_slice(&["L01", "L02"]) } else { ps.push("L01") }
                    }
                    if op == "admin" { ps.push("L04") }
                    let detail: Vec<String> = ks.iter().map(|k| format!("{}: {:?} instead of {:?}", k, tok(&self.l, k).map(|t| t.amount), tok(&want, k).map(|t| t.amount))).collect();
                    self.v(&ps, format!("effect differs in {:?}: {}", detail, tag));
                }
            }
            Err(r) => if ok {
                let ps: &[&'static str] = match r { "user did not sign" | "token program refuses" | "quantity too large" | "pool is empty" | "account not writable" => &["L01"], "not the admin" | "admin did not sign" | "new admin did not sign" | "paused" | "delegated assets" | "vault not empty" | "already in the pool" => &["L04"], "fee rate out of range" => &["L02", "L03", "L04"], _ => bind };
                self.v(ps, format!("accepted: {}", tag));
            },
        }
        if !ok && self.l != before { self.v(all, format!("a failed request had an effect: {}", tag)) }
        // backing per pool token never falls, whatever was requested
        if ok && (op == "create" || op == "redeem") {
            if let Some(p) = self.pools.iter().find(|p| p.key == acc[0].pubkey) {
                let (s0, s1) = (mint(&before, &p.mint).map_or(0, |m| m.1) as u128, mint(&self.l, &p.mint).map_or(0, |m| m.1) as u128);
                let assets = before.get(&p.key).and_then(|a| PS::parse(&a.data)).map_or(vec![], |s| s.assets);
                for (_, va) in assets {
                    let (v0, v1) = (tok(&before, &va).map_or(0, |t| t.amount) as u128, tok(&self.l, &va).map_or(0, |t| t.amount) as u128);
                    if v1 * s0 < v0 * s1 { let m = format!("assets per pool token fell: {}/{} -> {}/{}: {}", v0, s0, v1, s1, tag); self.v(&["L01"], m); break }
                    self.st.bump("backing comparisons");
                }
            }
        }
        ok
    }

    fn amount(&mut self, pi: usize, u: usize) -> u64 {
        let p = &self.pools[pi];
        let supply = mint(&self.l, &p.mint).map_or(0, |m| m.1);
        let have = tok(&self.l, &self.us[u].pool[pi]).map_or(0, |t| t.amount);
        match self.r.below(10) { 0 => 0, 1 => 1, 2 => self.r.below(50), 3 => have, 4 => have.saturating_add(1), 5 => supply, 6 => self.r.wide(), 7 => self.r.below(supply / 4 + 2), _ => self.r.below(have + 2) }
    }

    fn step(&mut self, name: &str) {
        if self.pools.is_empty() { return }
        let pi = self.r.below(self.pools.len() as u64) as usize;
        let u = self.r.below(3) as usize;
        let prog = self.pools[pi].prog;
        // somebody donates to a vault
        if self.r.chance(1, 25) { if let Some((_, v)) = self.assets_of(&self.pools[pi].clone()).first() { let n = self.r.below(1 << 20); let a = self.l.get_mut(v).unwrap(); let x = u64at(&a.data, 64).saturating_add(n); a.data[64..72].copy_from_slice(&x.to_le_bytes()); } }
        if name == "admin" && self.r.chance(1, 2) { return self.admin_step(pi) }
        let n = self.amount(pi, u);
        let nassets = self.assets_of(&self.pools[pi].clone()).len();
        let act = match self.r.below(9) {
            0..=3 => Act::Create(n),
            4..=7 => Act::Redeem(n),
            _ => { let c = if self.r.chance(1, 8) { self.r.below(9) as usize } else { 2 * nassets }; Act::Swap((0..c).map(|_| if self.r.chance(1, 12) { self.r.wide() } else { self.r.below(1000) }).collect()) }
        };
        let basket = self.r.chance(1, 5);
        let op = if basket { "basket" } else { match act { Act::Create(_) => "create", Act::Redeem(_) => "redeem", _ => "swap" } };
        let rq = if basket { Rq::Basket(act) } else { Rq::Exec(act) };
        let (mut acc, mut data) = self.exec_ix(pi, u, &rq);
        let mut what = format!("{:?}", rq);
        let mut prog = prog;
        if (name == "attack" && self.r.chance(3, 5)) || (name == "admin" && self.r.chance(1, 10)) { what += &self.tamper(&mut acc, &mut data, &mut prog) }
        if self.r.chance(1, 60) { let p = self.pools[pi].clone(); let x = self.init_ix(&p); acc = x.0; data = x.1; what = "initialise again".into() }
        self.judge(prog, acc, data, what, op);
    }

    fn tamper(&mut self, acc: &mut Vec<AccountMeta>, data: &mut Vec<u8>, prog: &mut Pubkey) -> String {
        let n = acc.len() as u64;
        let i = self.r.below(n) as usize;
        match self.r.below(13) {
            0 | 1 => { let s: Vec<usize> = (0..acc.len()).filter(|i| acc[*i].is_signer).collect(); for i in &s { acc[*i].is_signer = false } " unsigned".into() }
            2 => { let s: Vec<usize> = (0..acc.len()).filter(|i| acc[*i].is_signer).collect(); for i in &s { acc[*i].pubkey = self.us[self.r.below(3) as usize].key } " other signer".into() }
            3 | 4 | 5 => { let mut ks: Vec<Pubkey> = self.l.keys().cloned().collect(); ks.sort(); acc[i].pubkey = *self.r.pick(&ks); format!(" account {} replaced", i) }
            6 => { // the same role in another pool or of another user
                let mut ks: Vec<Pubkey> = vec![];
                for p in &self.pools { ks.extend(vec![p.key, p.mint, p.signer, p.lqd, p.init]); ks.extend(p.vaults.clone()) }
                for u in &self.us { ks.extend(u.pool.clone()); ks.extend(u.assets.values()) }
                ks.sort();
                acc[i].pubkey = *self.r.pick(&ks);
                format!(" account {} from elsewhere", i)
            }
            11 | 12 => { // a copy, or an empty account, at almost the same address
                let k = self.r.near(&acc[i].pubkey);
                let mut x = self.l.get(&acc[i].pubkey).cloned().unwrap_or_default();
                if x.lamports == 0 || [SIMPLE, PARAM, ADMIN].contains(&x.owner) || x.executable || self.r.chance(1, 4) { x = Acct { lamports: 1 << 30, ..Default::default() } }
                else if self.r.chance(1, 4) && x.data.len() == 165 { let o = keyat(&x.data, 32); let o = self.r.near(&o); x.data[32..64].copy_from_slice(o.as_ref()) }
                self.l.entry(k).or_insert(x);
                acc[i].pubkey = k;
                format!(" account {} near miss", i)
            }
            7 => { acc[i].is_writable = false; format!(" account {} read-only", i) }
            8 => { let k = self.r.range(1, 3).min(n) as usize; acc.truncate(n as usize - k); format!(" {} accounts missing", k) }
            9 => { match self.r.below(4) { 0 => { let j = self.r.below(data.len() as u64) as usize; data[j] ^= 1 << self.r.below(8) } 1 => { let j = self.r.below(data.len() as u64) as usize; data.truncate(j) } 2 => data.push(self.r.u64() as u8), _ => { let j = self.r.range(8, 9).min(data.len() as u64 - 1) as usize; data[j] = self.r.below(4) as u8 } } " data changed".into() }
            _ => { let progs = if *prog == ADMIN { vec![SIMPLE, ADMIN] } else { vec![SIMPLE, PARAM] }; *prog = *self.r.pick(&progs); format!(" program {}", prog) }
        }
    }

    fn admin_step(&mut self, pi: usize) {
        let p = self.pools[pi].clone();
        let cur_admin = self.l.get(&p.key).and_then(|a| PS::parse(&a.data)).and_then(|s| s.admin).unwrap_or(p.admin);
        let assets = self.assets_of(&p);
        let mut acc = vec![w(p.key), AccountMeta::new_readonly(cur_admin, true)];
        let mut data = ADMIN_TAG.to_le_bytes().to_vec();
        let v = *self.r.pick(&[0u8, 1, 1, 1, 2, 3, 3, 4, 4, 5, 6]);
        data.push(v);
        match v {
            1 => for (_, x) in &assets { acc.push(ro(*x)) },
            2 => {
                let va = assets.first().map_or(p.lqd, |x| x.1);
                acc.extend(vec![w(va), ro(self.us[0].key), ro(p.signer), ro(spl_token::ID)]);
                data.extend_from_slice(&(if self.r.chance(1, 2) { 0 } else { self.r.below(100) }).to_le_bytes());
            }
            3 => {
                let m = *self.r.pick(&self.mints);
                let own = if self.r.chance(1, 5) { self.us[0].key } else { p.signer };
                let k = self.r.key();
                let amt = if self.r.chance(1, 2) { 0 } else { self.r.below(1000) };
                let mut t = mk_tok(&m, &own, amt);
                if self.r.chance(1, 12) { t.owner = RETBUF }
                if self.r.chance(1, 12) { t.data[108] = 0 }
                self.l.insert(k, t);
                acc.push(ro(k));
                if self.r.chance(1, 8) && !assets.is_empty() { acc[2].pubkey = assets[0].1 }
            }
            4 => { let c: Vec<Pubkey> = assets.iter().map(|a| a.1).chain([p.lqd]).collect(); acc.push(ro(*self.r.pick(&c))) }
            5 => { let x: u32 = match self.r.below(6) { 0 => 149, 1 => 150, 2 => 999_999, 3 => 1_000_000, 4 => self.r.u64() as u32, _ => self.r.range(150, 999_999) as u32 }; data.extend_from_slice(&x.to_le_bytes()) }
            6 => { let k = self.us[self.r.below(3) as usize].key; acc.push(AccountMeta::new_readonly(k, !self.r.chance(1, 4))) }
            _ => {}
        }
        let mut what = format!("admin action {}", v);
        let mut prog = p.prog;
        if self.r.chance(1, 3) { what += &self.tamper(&mut acc, &mut data, &mut prog) }
        self.judge(prog, acc, data, what, "admin");
    }

    /// pool creation with at most two defects
    fn init_case(&mut self, prog: Pubkey) {
        let (mut p, _) = self.prepare(prog);
        let faults = if self.r.chance(1, 3) { 0 } else { self.r.range(1, 2) };
        let mut what = String::new();
        let (mut acc, mut data) = self.init_ix(&p);
        let other = self.r.key();
        let u0 = self.us[0].key;
        let setk = |d: &mut Vec<u8>, off: usize, k: &Pubkey| d[off..off + 32].copy_from_slice(k.as_ref());
        for _ in 0..faults {
            let f = self.r.below(24);
            what += &format!(" fault {}", f);
            let mut upd = |l: &mut Ledger, k: &Pubkey, g: &dyn Fn(&mut Acct)| if let Some(a) = l.get_mut(k) { g(a) };
            let v0 = p.vaults.first().cloned().unwrap_or(p.lqd);
            match f {
                0 => p.rate = *self.r.pick(&[0, 149, 1_000_000, u32::MAX]),
                1 => p.nonce = p.nonce.wrapping_add(1),
                2 => upd(&mut self.l, &p.key, &|a| a.owner = SIMPLE),
                3 => { let n = self.l[&p.key].data.len(); let i = self.r.below(n as u64) as usize; upd(&mut self.l, &p.key, &|a| a.data[i] = 1) }
                4 => upd(&mut self.l, &p.key, &|a| a.lamports -= 1),
                5 => upd(&mut self.l, &p.mint, &|a| a.lamports -= 1),
                6 => upd(&mut self.l, &v0, &|a| a.lamports -= 1),
                7 => upd(&mut self.l, &p.lqd, &|a| a.lamports -= 1),
                8 => upd(&mut self.l, &p.init, &|a| a.lamports -= 1),
                9 => upd(&mut self.l, &p.mint, &|a| setk(&mut a.data, 4, &u0)),
                10 => upd(&mut self.l, &p.mint, &|a| a.data[0] = 0),
                11 => upd(&mut self.l, &v0, &|a| setk(&mut a.data, 32, &u0)),
                12 => { let s = p.signer; upd(&mut self.l, &v0, &|a| { setk(&mut a.data, 32, &u0); a.data[72] = 1; setk(&mut a.data, 76, &s) }) }
                13 => upd(&mut self.l, &p.lqd, &|a| setk(&mut a.data, 32, &u0)),
                14 => upd(&mut self.l, &p.lqd, &|a| { a.data[72] = 1; setk(&mut a.data, 76, &u0) }),
                15 => { let k = if self.r.chance(1, 2) { p.signer } else { u0 }; upd(&mut self.l, &p.lqd, &|a| { a.data[129] = 1; setk(&mut a.data, 133, &k) }) }
                16 => { let m = self.mints[0]; upd(&mut self.l, &p.lqd, &|a| setk(&mut a.data, 0, &m)) }
                17 => { let m = self.mints[0]; upd(&mut self.l, &p.init, &|a| setk(&mut a.data, 0, &m)) }
                18 => { let k = *self.r.pick(&[p.mint, v0, p.lqd, p.init]); upd(&mut self.l, &k, &|a| a.owner = RETBUF) }
                19 => { let k = *self.r.pick(&[v0, p.lqd, p.init]); upd(&mut self.l, &k, &|a| a.data[108] = 0) }
                20 => { let n = self.r.range(1, 60) as usize; upd(&mut self.l, &p.key, &|a| { let m = a.data.len() - n.min(a.data.len()); a.data.truncate(m) }) }
                21 => { let s = fee_owner(); upd(&mut self.l, &p.lqd, &|a| { setk(&mut a.data, 32, &u0); a.data[72] = 1; setk(&mut a.data, 76, &s) }) }
                _ => {}
            }
            if f < 2 { let x = self.init_ix(&p); acc = x.0; data = x.1 }
            if f >= 22 { let mut pr = prog; what += &self.tamper(&mut acc, &mut data, &mut pr) }
        }
        let _ = other;
        if self.judge(prog, acc.clone(), data.clone(), what.clone(), "initialize") {
            self.pools.push(p.clone());
            let l = self.pools.len() - 1;
            // users' pool token accounts line up with the pools
            for u in self.us.iter_mut() { let k = u.pool.pop().unwrap(); while u.pool.len() < l { u.pool.push(k) } u.pool.push(k) }
            if self.r.chance(1, 3) { self.judge(prog, acc, data, "initialise again".into(), "initialize"); }
        } else { for u in self.us.iter_mut() { u.pool.pop(); } }
    }
}

pub fn history(name: &str, seed: u64, keep: bool, prop: &str) -> Run {
    let mut s = Sim::new(seed, keep);
    let stop = |s: &Sim| s.viols.iter().any(|v| prop.is_empty() || v.props.contains(&prop));
    if name == "init" {
        for _ in 0..12 { let prog = *s.r.pick(&[SIMPLE, PARAM]); s.init_case(prog); if stop(&s) { break } }
        return Run { st: s.st, viols: s.viols, log: s.log };
    }
    for _ in 0..2 {
        let prog = if name == "admin" { ADMIN } else { *s.r.pick(&[SIMPLE, SIMPLE, PARAM]) };
        let (p, _) = s.prepare(prog);
        let (acc, data) = s.init_ix(&p);
        if s.judge(prog, acc, data, "well-formed".into(), "initialize") { s.pools.push(p) } else { for u in s.us.iter_mut() { u.pool.pop(); } }
    }
    for _ in 0..120 { s.step(name); if stop(&s) { break } }
    Run { st: s.st, viols: s.viols, log: s.log }
}

pub mod lab {
    use super::*;
    pub fn check(ok: bool, what: &str) { if !ok { println!("BROKEN: {}", what); std::process::exit(1) } }
    /// One pool, built by hand: `supply` pool tokens held by user 0, vaults with the given amounts.
    struct Lab { s: Sim, p: PoolK }
    impl Lab {
        fn prepared(prog: Pubkey, supply: u64, vaults: &[u64], rate: u32, custom: Vec<(Pubkey, bool)>) -> Lab {
            let mut s = Sim::new(7, false);
            for u in 0..3 { for (m, a) in s.us[u].assets.clone() { let k = s.us[u].key; s.l.insert(a, mk_tok(&m, &k, 1 << 50)); } }
            let key = s.r.key();
            let (nonce, signer) = (0..=255).find_map(|n| pda(&key, n, &prog).map(|k| (n, k))).unwrap();
            let mint = s.r.key();
            s.l.insert(mint, mk_mint(&signer, supply));
            let mut vs = vec![];
            for (i, a) in vaults.iter().enumerate() { let v = s.r.key(); s.l.insert(v, mk_tok(&s.mints[i], &signer, *a)); vs.push(v) }
            let (lqd, init) = (s.r.key(), s.r.key());
            s.l.insert(lqd, mk_tok(&mint, &fee_owner(), 0));
            let io = s.r.key();
            s.l.insert(init, mk_tok(&mint, &io, 0));
            for u in 0..3 { let a = s.r.key(); s.l.insert(a, mk_tok(&mint, &s.us[u].key, if u == 0 { supply } else { 0 })); s.us[u].pool.push(a) }
            s.l.insert(key, Acct { lamports: min_rent(1000), owner: prog, data: vec![0; 1000], executable: false });
            for (c, _) in &custom { s.l.entry(*c).or_insert(Acct { lamports: 5_000_000, ..Default::default() }); }
            let admin = s.us[1].key;
            let custom = if prog == ADMIN { vec![(admin, false)] } else { custom };
            Lab { p: PoolK { prog, key, mint, vaults: vs, signer, nonce, lqd, init, rate, custom, name: b"p".to_vec(), admin }, s }
        }
        fn new(prog: Pubkey, supply: u64, vaults: &[u64], rate: u32, custom: Vec<(Pubkey, bool)>) -> Lab {
            let mut l = Lab::prepared(prog, supply, vaults, rate, custom);
            let (a, d) = l.s.init_ix(&l.p);
            check(l.run(a, d), "initialise");
            l.s.pools.push(l.p.clone());
            l
        }
        fn run(&mut self, accounts: Vec<AccountMeta>, data: Vec<u8>) -> bool { exec(&mut self.s.l, &[Instruction { program_id: self.p.prog, accounts, data }]).is_ok() }
        /// accounts of an Execute request by user u with referrer account of user r
        fn accs(&self, u: usize, r: usize) -> Vec<AccountMeta> {
            let (p, s) = (&self.p, &self.s);
            let assets = s.assets_of(p);
            let mut a = vec![w(p.key), w(p.mint)];
            for (_, v) in &assets { a.push(w(*v)) }
            a.push(ro(p.signer));
            a.push(w(s.us[u].pool[0]));
            for (m, _) in &assets { a.push(w(s.us[u].assets[m])) }
            a.push(AccountMeta::new_readonly(s.us[u].key, true));
            a.extend(vec![w(p.lqd), w(p.init), w(s.us[r].pool[0]), ro(spl_token::ID)]);
            if p.prog == PARAM { for (c, wr) in &p.custom { a.push(AccountMeta { pubkey: *c, is_signer: false, is_writable: *wr }) } }
            a
        }
        fn create(&mut self, u: usize, r: usize, n: u64) -> bool { let a = self.accs(u, r); self.run(a, Rq::Exec(Act::Create(n)).enc()) }
        fn redeem(&mut self, u: usize, r: usize, n: u64) -> bool { let a = self.accs(u, r); self.run(a, Rq::Exec(Act::Redeem(n)).enc()) }
        fn amount(&self, k: &Pubkey) -> u64 { tok(&self.s.l, k).unwrap().amount }
        fn admin(&mut self, v: u8, arg: &[u8], extra: Vec<AccountMeta>) -> bool {
            let mut d = ADMIN_TAG.to_le_bytes().to_vec();
            d.push(v);
            d.extend_from_slice(arg);
            let mut a = vec![w(self.p.key), AccountMeta::new_readonly(self.p.admin, true)];
            a.extend(extra);
            self.run(a, d)
        }
    }
    include!("scenario.rs");
}
