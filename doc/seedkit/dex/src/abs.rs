//! Independent decoding of the on-chain account layouts into abstract state.
use crate::rt::{Acct, Ledger};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Side { Bid, Ask }
impl Side { pub fn opp(self) -> Side { if self == Side::Bid { Side::Ask } else { Side::Bid } } }

pub fn u64at(d: &[u8], o: usize) -> u64 { u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) }
pub fn u32at(d: &[u8], o: usize) -> u32 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }
pub fn u128at(d: &[u8], o: usize) -> u128 { u128::from_le_bytes(d[o..o + 16].try_into().unwrap()) }
pub fn keyat(d: &[u8], o: usize) -> Pubkey { Pubkey::new(&d[o..o + 32]) }

pub mod fl {
    pub const INIT: u64 = 1;
    pub const MARKET: u64 = 2;
    pub const OO: u64 = 4;
    pub const REQQ: u64 = 8;
    pub const EVQ: u64 = 16;
    pub const BIDS: u64 = 32;
    pub const ASKS: u64 = 64;
    pub const DISABLED: u64 = 128;
    pub const CLOSED: u64 = 256;
    pub const PERM: u64 = 512;
    pub const CRANK: u64 = 1024;
}

pub const OO_LEN: usize = 5 + 3216 + 7;
pub const MKT1_LEN: usize = 5 + 376 + 7;
pub const MKT2_LEN: usize = 5 + 376 + 96 + 992 + 7;

/// strip the 5/7 byte markers
pub fn inner(d: &[u8]) -> Option<&[u8]> {
    if d.len() < 12 || &d[..5] != b"serum" || &d[d.len() - 7..] != b"padding" { return None }
    Some(&d[5..d.len() - 7])
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Mkt {
    pub flags: u64,
    pub own: Pubkey,
    pub nonce: u64,
    pub coin_mint: Pubkey,
    pub pc_mint: Pubkey,
    pub coin_vault: Pubkey,
    pub coin_dep: u64,
    pub coin_fees: u64,
    pub pc_vault: Pubkey,
    pub pc_dep: u64,
    pub pc_fees: u64,
    pub dust: u64,
    pub req_q: Pubkey,
    pub event_q: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub fee_bps: u64,
    pub reb: u64,
    pub auth: Option<(Pubkey, Pubkey, Pubkey)>,
}
impl Mkt {
    pub fn parse(d: &[u8]) -> Option<Mkt> {
        let d = inner(d)?;
        if d.len() < 376 { return None }
        let w = |i: usize| u64at(d, i * 8);
        let k = |i: usize| keyat(d, i * 8);
        let flags = w(0);
        if flags & (fl::INIT | fl::MARKET) != fl::INIT | fl::MARKET { return None }
        let auth = if flags & fl::PERM != 0 {
            if d.len() < 376 + 96 { return None }
            Some((keyat(d, 376), keyat(d, 408), keyat(d, 440)))
        } else { None };
        Some(Mkt {
            flags, own: k(1), nonce: w(5), coin_mint: k(6), pc_mint: k(10), coin_vault: k(14), coin_dep: w(18),
            coin_fees: w(19), pc_vault: k(20), pc_dep: w(24), pc_fees: w(25), dust: w(26), req_q: k(27), event_q: k(31),
            bids: k(35), asks: k(39), coin_lot: w(43), pc_lot: w(44), fee_bps: w(45), reb: w(46), auth,
        })
    }
    pub fn enabled(&self) -> bool { self.flags & fl::DISABLED == 0 }
    pub fn crank_auth(&self) -> Option<Pubkey> {
        if self.flags & fl::CRANK != 0 { self.auth.map(|a| a.2) } else { None }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SlotO { pub side: Side, pub id: u128, pub cid: u64 }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct OO {
    pub flags: u64,
    pub market: Pubkey,
    pub owner: Pubkey,
    pub coin_free: u64,
    pub coin_total: u64,
    pub pc_free: u64,
    pub pc_total: u64,
    pub slots: BTreeMap<u8, SlotO>,
    pub reb: u64,
}
impl OO {
    /// None if not laid out as an open-orders account; zeroed accounts parse with flags 0
    pub fn parse(d: &[u8]) -> Option<OO> {
        if d.len() != OO_LEN { return None }
        let d = if d[..5] == [0u8; 5] { &d[5..d.len() - 7] } else { inner(d)? };
        let free = u128at(d, 104);
        let isbid = u128at(d, 120);
        let flags = u64at(d, 0);
        let mut slots = BTreeMap::new();
        if flags != 0 {
            for s in 0..128u8 {
                if free >> s & 1 == 0 {
                    slots.insert(s, SlotO {
                        side: if isbid >> s & 1 == 1 { Side::Bid } else { Side::Ask },
                        id: u128at(d, 136 + 16 * s as usize),
                        cid: u64at(d, 136 + 2048 + 8 * s as usize),
                    });
                }
            }
        }
        Some(OO {
            flags, market: keyat(d, 8), owner: keyat(d, 40), coin_free: u64at(d, 72), coin_total: u64at(d, 80),
            pc_free: u64at(d, 88), pc_total: u64at(d, 96), slots, reb: u64at(d, 3208),
        })
    }
    pub fn fresh(market: Pubkey, owner: Pubkey) -> OO {
        OO { flags: fl::INIT | fl::OO, market, owner, coin_free: 0, coin_total: 0, pc_free: 0, pc_total: 0, slots: BTreeMap::new(), reb: 0 }
    }
    pub fn live(&self) -> bool { self.flags == fl::INIT | fl::OO }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Leaf { pub slot: u8, pub tier: u8, pub key: u128, pub owner: Pubkey, pub qty: u64, pub cid: u64 }
impl Leaf { pub fn price(&self) -> u64 { (self.key >> 64) as u64 } }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Book { pub leaves: BTreeMap<u128, Leaf>, pub cap: u64 }

impl Book {
    /// structural decoding of the slab; Err describes a malformed tree
    pub fn parse(d: &[u8], want: u64) -> Result<Book, String> {
        let d = inner(d).ok_or("bad padding")?;
        if u64at(d, 0) != fl::INIT | want { return Err(format!("book flags {}", u64at(d, 0))) }
        parse_slab(&d[8..])
    }
}

pub fn parse_slab(d: &[u8]) -> Result<Book, String> {
    if d.len() < 32 { return Err("slab too short".into()) }
    let cap = (d.len() - 32) / 72;
    let node = |i: u32| -> Result<&[u8], String> {
        if i as usize >= cap { return Err(format!("node handle {} out of range", i)) }
        Ok(&d[32 + 72 * i as usize..32 + 72 * (i as usize + 1)])
    };
    let bump = u64at(d, 0);
    let free_len = u64at(d, 8);
    let free_head = u32at(d, 16);
    let root = u32at(d, 20);
    let count = u64at(d, 24);
    if bump > cap as u64 { return Err("bump index out of range".into()) }
    let mut leaves = BTreeMap::new();
    let mut used = vec![false; cap];
    let mut nodes = 0u64;
    if count > 0 {
        // (handle, required prefix bits, key prefix, lower bound on prefix_len)
        let mut stack: Vec<(u32, u32, u128)> = vec![(root, 0, 0)];
        let mut last: Option<u128> = None;
        while let Some((h, plen, pfx)) = stack.pop() {
            let n = node(h)?;
            if used[h as usize] { return Err("node reachable twice".into()) }
            used[h as usize] = true;
            nodes += 1;
            let key = u128at(n, 8);
            let mask = |l: u32| -> u128 { if l == 0 { 0 } else { !0u128 << (128 - l) } };
            match u32at(n, 0) {
                1 => {
                    let pl = u32at(n, 4);
                    if pl >= 128 || pl < plen { return Err("inner prefix length".into()) }
                    if (key ^ pfx) & mask(plen) != 0 { return Err("inner key outside subtree".into()) }
                    let bit = 1u128 << (127 - pl);
                    let base = key & mask(pl);
                    stack.push((u32at(n, 28), pl + 1, base | bit));
                    stack.push((u32at(n, 24), pl + 1, base));
                }
                2 => {
                    if (key ^ pfx) & mask(plen) != 0 { return Err("leaf key outside subtree".into()) }
                    if let Some(l) = last { if l >= key { return Err("leaves not in key order".into()) } }
                    last = Some(key);
                    leaves.insert(key, Leaf { slot: n[4], tier: n[5], key, owner: keyat(n, 24), qty: u64at(n, 56), cid: u64at(n, 64) });
                }
                t => return Err(format!("reachable node with tag {}", t)),
            }
        }
    }
    if leaves.len() as u64 != count { return Err(format!("leaf count {} but {} reachable", count, leaves.len())) }
    // every allocated slot is either in the tree or on the free list
    let mut h = free_head;
    for i in 0..free_len {
        let n = node(h).map_err(|e| format!("free list: {}", e))?;
        if used[h as usize] { return Err("free-list node is live or repeated".into()) }
        used[h as usize] = true;
        let want = if i + 1 == free_len { 4 } else { 3 };
        if u32at(n, 0) != want { return Err(format!("free-list tag {}", u32at(n, 0))) }
        h = u32at(n, 4);
    }
    if nodes + free_len != bump { return Err(format!("leaked nodes: {} live + {} free != {} allocated", nodes, free_len, bump)) }
    Ok(Book { leaves, cap: cap as u64 })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ev {
    pub fill: bool,
    pub side: Side,
    pub maker: bool,
    pub release: bool,
    pub slot: u8,
    pub tier: u8,
    pub a: u64,   // fill: qty received / out: qty unlocked
    pub b: u64,   // fill: qty paid     / out: qty still locked
    pub fee: u64, // fill only
    pub oid: u128,
    pub owner: Pubkey,
    pub cid: u64,
}
impl Ev {
    pub fn parse(d: &[u8]) -> Option<Ev> {
        let f = d[0];
        let fill = f & 1 != 0;
        let out = f & 2 != 0;
        if fill == out || f & !0x1f != 0 { return None }
        if fill && f & 0x10 != 0 || out && f & 8 != 0 { return None }
        Some(Ev {
            fill, side: if f & 4 != 0 { Side::Bid } else { Side::Ask }, maker: f & 8 != 0, release: f & 0x10 != 0,
            slot: d[1], tier: if fill { d[2] } else { 0 }, a: u64at(d, 8), b: u64at(d, 16), fee: if fill { u64at(d, 24) } else { 0 },
            oid: u128at(d, 32), owner: keyat(d, 48), cid: u64at(d, 80),
        })
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct EvQ { pub head: u64, pub seq: u64, pub cap: u64, pub evs: VecDeque<Ev> }
impl EvQ {
    pub fn parse(d: &[u8]) -> Result<EvQ, String> {
        let d = inner(d).ok_or("bad padding")?;
        if u64at(d, 0) != fl::INIT | fl::EVQ { return Err("event queue flags".into()) }
        let head = u64at(d, 8);
        let count = u64at(d, 16);
        let seq = u64at(d, 24);
        let cap = (d.len() - 32) / 88;
        if head >= cap as u64 || count > cap as u64 { return Err(format!("event queue header head={} count={} cap={}", head, count, cap)) }
        let mut evs = VecDeque::new();
        for i in 0..count {
            let s = ((head + i) % cap as u64) as usize;
            evs.push_back(Ev::parse(&d[32 + 88 * s..32 + 88 * (s + 1)]).ok_or_else(|| format!("undecodable event at {}", i))?);
        }
        Ok(EvQ { head, seq, cap: cap as u64, evs })
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MState {
    pub m: Mkt,
    pub bids: Book,
    pub asks: Book,
    pub evq: EvQ,
    pub req_count: u64,
    pub req_seq: u64,
}
impl MState {
    pub fn book(&self, s: Side) -> &Book { if s == Side::Bid { &self.bids } else { &self.asks } }
    pub fn book_mut(&mut self, s: Side) -> &mut Book { if s == Side::Bid { &mut self.bids } else { &mut self.asks } }
    pub fn load(l: &Ledger, market: &Pubkey) -> Result<MState, String> {
        let g = |k: &Pubkey| -> Result<&Acct, String> { l.get(k).ok_or_else(|| format!("missing account {}", k)) };
        let m = Mkt::parse(&g(market)?.data).ok_or("market account does not decode")?;
        let bids = Book::parse(&g(&m.bids)?.data, fl::BIDS).map_err(|e| format!("bids: {}", e))?;
        let asks = Book::parse(&g(&m.asks)?.data, fl::ASKS).map_err(|e| format!("asks: {}", e))?;
        let evq = EvQ::parse(&g(&m.event_q)?.data)?;
        let rq = inner(&g(&m.req_q)?.data).ok_or("request queue padding")?;
        if u64at(rq, 0) != fl::INIT | fl::REQQ { return Err("request queue flags".into()) }
        Ok(MState { m, bids, asks, evq, req_count: u64at(rq, 16), req_seq: u64at(rq, 24) })
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tok { pub mint: Pubkey, pub owner: Pubkey, pub amount: u64, pub delegate: Option<(Pubkey, u64)>, pub state: u8 }
impl Tok {
    pub fn parse(a: &Acct) -> Option<Tok> {
        if a.owner != spl_token::ID || a.data.len() != 165 { return None }
        let d = &a.data;
        let del = if u32at(d, 72) == 1 { Some((keyat(d, 76), u64at(d, 121))) } else { None };
        Some(Tok { mint: keyat(d, 0), owner: keyat(d, 32), amount: u64at(d, 64), delegate: del, state: d[108] })
    }
}

pub fn mk_tok(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    Acct { lamports: crate::rt::min_rent(165), owner: spl_token::ID, data: d, executable: false }
}
pub fn mk_mint(authority: &Pubkey, supply: u64) -> Acct {
    let mut d = vec![0u8; 82];
    d[0] = 1;
    d[4..36].copy_from_slice(authority.as_ref());
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = 6;
    d[45] = 1;
    Acct { lamports: crate::rt::min_rent(82), owner: spl_token::ID, data: d, executable: false }
}
