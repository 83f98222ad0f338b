//! Executable reference model of the exchange, written from the documented
//! rules (price-time priority, fee schedule, order types, self-trade rules,
//! settlement), over abstract state only.  All arithmetic is exact.
use crate::abs::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

/// Why the model says a transaction must fail (for reports only).
pub type Fail = &'static str;

pub const RATES: [u128; 8] = [40, 39, 38, 36, 34, 32, 30, 10]; // tenths of a basis point, by tier

pub fn rate(t: u8) -> u128 { (RATES[t as usize] << 64) / 100_000 }
pub fn taker_fee(t: u8, q: u64) -> u64 {
    let x = rate(t) * q as u128;
    ((x >> 64) + (x & ((1u128 << 64) - 1) != 0) as u128) as u64
}
pub fn spendable(t: u8, q: u64) -> u64 { (((q as u128) << 64) / ((1u128 << 64) + rate(t))) as u64 }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum OType { Limit, Ioc, Post }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Stb { Dec, CancelProvide, Abort }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct OrderP {
    pub side: Side,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    pub stb: Stb,
    pub otype: OType,
    pub cid: u64,
    pub limit: u16,
    pub max_ts: i64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TakeP {
    pub side: Side,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    pub min_coin: u64,
    pub min_pc: u64,
    pub limit: u16,
}

/// One execution between the taker and a resting order.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Exec { pub maker: u128, pub qty: u64, pub price: u64 }

#[derive(Clone, Default, Debug)]
pub struct Feat {
    pub fills: Vec<Exec>,
    pub self_trades: u32,
    pub evicted: Option<u128>,
    pub posted: Option<u64>,
    pub crossed_unfilled: bool,
    pub limit_hit: bool,
    pub oid: Option<u128>,
    pub oo_init: bool,
    pub fees: u64,
    pub why: Option<Fail>,
}

struct Taker {
    side: Side,
    price: u64,
    qty: u64,
    locked: u64,
    oid: u128,
    owner: Option<Pubkey>,
    slot: u8,
    tier: u8,
    otype: OType,
    cid: u64,
    stb: Stb,
    limit: u16,
}

#[derive(Default)]
struct Proceeds { coin_unlocked: u64, coin_credit: u64, coin_debit: u64, pc_unlocked: u64, pc_credit: u64, pc_debit: u64 }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Abs {
    pub ms: MState,
    pub oos: BTreeMap<Pubkey, OO>,
    pub toks: BTreeMap<Pubkey, u64>,
}

pub struct Model<'a> {
    pub s: &'a mut Abs,
    pub feat: Feat,
    /// how much the signer may move out of the paying wallet (None: unlimited, it owns it)
    pub allow: Option<u64>,
}

fn mul(a: u64, b: u64) -> Result<u64, Fail> { a.checked_mul(b).ok_or("overflow") }

impl<'a> Model<'a> {
    fn push(&mut self, e: Ev) -> Result<(), Fail> {
        let q = &mut self.s.ms.evq;
        if q.evs.len() as u64 == q.cap { return Err("event queue full") }
        q.evs.push_back(e);
        q.seq += 1;
        Ok(())
    }
    fn out(&mut self, side: Side, release: bool, unlocked: u64, still: u64, l: &Leaf) -> Result<(), Fail> {
        self.push(Ev { fill: false, side, maker: false, release, slot: l.slot, tier: 0, a: unlocked, b: still, fee: 0, oid: l.key, owner: l.owner, cid: l.cid })
    }
    fn native(&self, side: Side, qty: u64, price: u64) -> Result<u64, Fail> {
        match side {
            Side::Bid => mul(mul(qty, price)?, self.s.ms.m.pc_lot),
            Side::Ask => mul(qty, self.s.ms.m.coin_lot),
        }
    }
    pub fn best(b: &Book, side: Side) -> Option<Leaf> {
        match side {
            Side::Bid => b.leaves.iter().next_back().map(|x| *x.1),
            Side::Ask => b.leaves.iter().next().map(|x| *x.1),
        }
    }

    fn run_taker(&mut self, mut t: Taker) -> Result<Proceeds, Fail> {
        let mut p = Proceeds::default();
        let opp = t.side.opp();
        let me = |t: &Taker| Leaf { slot: t.slot, tier: t.tier, key: t.oid, owner: t.owner.unwrap_or_default(), qty: 0, cid: t.cid };
        let crossed = loop {
            let best = match Self::best(self.s.ms.book(opp), opp) { None => break false, Some(b) => b };
            let px = best.price();
            let crosses = if t.side == Side::Bid { t.price >= px } else { t.price <= px };
            if !crosses { break false }
            if t.otype == OType::Post { break true }
            if t.limit == 0 { self.feat.limit_hit = true; break true }
            let mut tq = best.qty.min(t.qty);
            if t.side == Side::Bid { tq = tq.min(spendable(t.tier, t.locked) / self.s.ms.m.pc_lot / px) }
            if tq == 0 { break true }
            t.limit -= 1;
            if Some(best.owner) == t.owner {
                self.feat.self_trades += 1;
                let (take, provide) = match t.stb {
                    Stb::Dec => (tq, tq),
                    Stb::CancelProvide => (0, best.qty),
                    Stb::Abort => return Err("would self trade"),
                };
                let left = best.qty - provide;
                let (u, s) = (self.native(opp, provide, px)?, self.native(opp, left, px)?);
                self.out(opp, true, u, s, &best)?;
                let bk = self.s.ms.book_mut(opp);
                if left == 0 { bk.leaves.remove(&best.key); } else { bk.leaves.get_mut(&best.key).unwrap().qty = left }
                t.qty -= take;
                match t.side {
                    Side::Ask => {
                        let u = self.native(Side::Ask, take, 0)?;
                        // remaining amount reported in lots on the ask side
                        self.out(Side::Ask, false, u, t.qty, &me(&t))?;
                        p.coin_unlocked += take;
                        if t.qty == 0 { return Ok(p) }
                    }
                    Side::Bid => {
                        let u = self.native(Side::Bid, take, px)?;
                        let left = t.locked - u;
                        if t.qty == 0 || left == 0 {
                            p.pc_unlocked += t.locked;
                            self.out(Side::Bid, false, t.locked, 0, &me(&t))?;
                            return Ok(p);
                        }
                        p.pc_unlocked += u;
                        self.out(Side::Bid, false, u, left, &me(&t))?;
                        t.locked = left;
                    }
                }
                continue;
            }
            // a genuine execution at the maker's price
            self.feat.fills.push(Exec { maker: best.key, qty: tq, price: px });
            let pc = self.native(Side::Bid, tq, px)?;
            let coin = self.native(Side::Ask, tq, px)?;
            let (mp, mr) = if opp == Side::Bid { (pc, coin) } else { (coin, pc) };
            self.push(Ev { fill: true, side: opp, maker: true, release: false, slot: best.slot, tier: best.tier, a: mr, b: mp, fee: 0, oid: best.key, owner: best.owner, cid: best.cid })?;
            let bk = self.s.ms.book_mut(opp);
            let left = best.qty - tq;
            if left == 0 {
                bk.leaves.remove(&best.key);
                self.out(opp, true, 0, 0, &best)?;
            } else {
                bk.leaves.get_mut(&best.key).unwrap().qty = left;
            }
            t.qty -= tq;
            let fee = taker_fee(t.tier, pc);
            self.feat.fees += fee;
            let reb = fee / 5;
            {
                let m = &mut self.s.ms.m;
                m.reb += reb;
                m.pc_fees += fee - reb;
                m.pc_dep = m.pc_dep.wrapping_sub(fee);
            }
            let (paid, recv) = match t.side {
                Side::Bid => {
                    let cost = pc + fee;
                    t.locked = t.locked.checked_sub(cost).ok_or("spent more than locked")?;
                    p.coin_credit += tq;
                    p.pc_debit += cost;
                    (cost, coin)
                }
                Side::Ask => {
                    p.pc_credit += pc - fee;
                    p.coin_debit += tq;
                    (coin, pc - fee)
                }
            };
            if let Some(o) = t.owner {
                self.push(Ev { fill: true, side: t.side, maker: false, release: false, slot: t.slot, tier: t.tier, a: recv, b: paid, fee, oid: t.oid, owner: o, cid: t.cid })?;
            }
            if t.qty == 0 || (t.side == Side::Bid && t.locked == 0) { break true }
        };
        // finish: post the remainder or hand it back
        if crossed && t.qty > 0 { self.feat.crossed_unfilled = true }
        let may_post = t.otype != OType::Ioc && !crossed;
        match t.side {
            Side::Bid => {
                let q = if may_post { t.qty.min(t.locked / self.s.ms.m.pc_lot / t.price) } else { 0 };
                let still = self.native(Side::Bid, q, t.price)?;
                if t.owner.is_some() {
                    let back = t.locked - still;
                    p.pc_unlocked += back;
                    self.out(Side::Bid, false, back, still, &me(&t))?;
                }
                if q > 0 { self.post(&t, q)? }
            }
            Side::Ask => {
                if may_post && t.qty > 0 {
                    self.post(&t, t.qty)?;
                } else if t.owner.is_some() {
                    p.coin_unlocked += t.qty;
                    let n = self.native(Side::Ask, t.qty, 0)?;
                    self.out(Side::Ask, false, n, 0, &me(&t))?;
                }
            }
        }
        Ok(p)
    }

    fn post(&mut self, t: &Taker, qty: u64) -> Result<(), Fail> {
        let owner = t.owner.ok_or("send-take cannot rest")?;
        self.feat.posted = Some(qty);
        let bk = self.s.ms.book_mut(t.side);
        if bk.leaves.len() as u64 == (bk.cap + 1) / 2 {
            let worst = match t.side { Side::Bid => *bk.leaves.keys().next().unwrap(), Side::Ask => *bk.leaves.keys().next_back().unwrap() };
            let l = bk.leaves.remove(&worst).unwrap();
            self.feat.evicted = Some(worst);
            let n = self.native(t.side, l.qty, l.price())?;
            self.out(t.side, true, n, 0, &l)?;
        }
        self.s.ms.book_mut(t.side).leaves.insert(t.oid, Leaf { slot: t.slot, tier: t.tier, key: t.oid, owner, qty, cid: t.cid });
        Ok(())
    }

    fn next_id(&mut self, price: u64, side: Side) -> u128 {
        let s = self.s.ms.req_seq;
        self.s.ms.req_seq += 1;
        let id = (price as u128) << 64 | (if side == Side::Bid { !s } else { s }) as u128;
        self.feat.oid = Some(id);
        id
    }

    fn spend(&mut self, n: u64) -> Result<(), Fail> {
        match self.allow.as_mut() {
            None => Ok(()),
            Some(a) if *a >= n => { *a -= n; Ok(()) }
            _ => Err("payer not authorised"),
        }
    }
    fn tok(&mut self, k: &Pubkey) -> Result<&mut u64, Fail> { self.s.toks.get_mut(k).ok_or("not a token account") }
    fn xfer(&mut self, from: &Pubkey, to: &Pubkey, n: u64) -> Result<(), Fail> {
        let f = *self.tok(from)?;
        if f < n { return Err("insufficient funds") }
        *self.tok(from)? -= n;
        let t = self.tok(to)?;
        *t = t.checked_add(n).ok_or("overflow")?;
        Ok(())
    }

    pub fn new_order(&mut self, oo: &Pubkey, owner: &Pubkey, payer: &Pubkey, payer_mint: &Pubkey, tier: u8, now: i64, o: &OrderP) -> Result<(), Fail> {
        let mk = self.s.ms.m.own;
        if !self.s.ms.m.enabled() { return Err("market disabled") }
        {
            let perm = self.s.ms.m.auth.is_some();
            let e = self.s.oos.get_mut(oo).ok_or("no open orders account")?;
            if e.flags == 0 {
                if perm { return Err("open orders authority required") }
                *e = OO::fresh(mk, *owner);
                self.feat.oo_init = true;
            }
            if !e.live() || e.market != mk || e.owner != *owner { return Err("wrong open orders account") }
        }
        if *payer_mint != (if o.side == Side::Bid { self.s.ms.m.pc_mint } else { self.s.ms.m.coin_mint }) { return Err("payer has the wrong mint") }
        if o.max_ts < i64::MAX && now > o.max_ts { return Err("expired") }
        if self.s.ms.req_count != 0 { return Err("request queue not empty") }
        let need = if o.side == Side::Bid { o.pc } else { mul(o.qty, self.s.ms.m.coin_lot)? };
        let bal = *self.tok(payer)?;
        let a = self.s.oos.get_mut(oo).unwrap();
        let free = if o.side == Side::Bid { &mut a.pc_free } else { &mut a.coin_free };
        let from_free = need.min(*free);
        let deposit = need - from_free;
        if bal < deposit { return Err("insufficient funds") }
        *free -= from_free;
        let total = if o.side == Side::Bid { &mut a.pc_total } else { &mut a.coin_total };
        *total = total.checked_add(deposit).ok_or("overflow")?;
        let dep = if o.side == Side::Bid { &mut self.s.ms.m.pc_dep } else { &mut self.s.ms.m.coin_dep };
        *dep = dep.checked_add(deposit).ok_or("overflow")?;
        let id = self.next_id(o.price, o.side);
        let a = self.s.oos.get_mut(oo).unwrap();
        let slot = (0..128u8).find(|s| !a.slots.contains_key(s)).ok_or("too many open orders")?;
        a.slots.insert(slot, SlotO { side: o.side, id, cid: o.cid });
        let t = Taker { side: o.side, price: o.price, qty: o.qty, locked: if o.side == Side::Bid { o.pc } else { 0 }, oid: id, owner: Some(*oo), slot, tier, otype: o.otype, cid: o.cid, stb: o.stb, limit: o.limit };
        let p = self.run_taker(t)?;
        let cl = self.s.ms.m.coin_lot;
        let (cu, cc, cd) = (mul(p.coin_unlocked, cl)?, mul(p.coin_credit, cl)?, mul(p.coin_debit, cl)?);
        let a = self.s.oos.get_mut(oo).unwrap();
        let add = |x: &mut u64, d: u64| -> Result<(), Fail> { *x = x.checked_add(d).ok_or("overflow")?; Ok(()) };
        add(&mut a.coin_total, cc)?;
        add(&mut a.coin_free, cc)?;
        add(&mut a.coin_free, cu)?;
        add(&mut a.pc_total, p.pc_credit)?;
        add(&mut a.pc_free, p.pc_credit)?;
        add(&mut a.pc_free, p.pc_unlocked)?;
        a.coin_total = a.coin_total.checked_sub(cd).ok_or("underflow")?;
        a.pc_total = a.pc_total.checked_sub(p.pc_debit).ok_or("underflow")?;
        if a.coin_free > a.coin_total || a.pc_free > a.pc_total { return Err("free exceeds total") }
        if deposit > 0 {
            self.spend(deposit)?;
            let v = if o.side == Side::Bid { self.s.ms.m.pc_vault } else { self.s.ms.m.coin_vault };
            self.xfer(payer, &v, deposit)?;
        }
        Ok(())
    }

    pub fn send_take(&mut self, coin_w: &Pubkey, pc_w: &Pubkey, tier: u8, o: &TakeP) -> Result<(), Fail> {
        if !self.s.ms.m.enabled() { return Err("market disabled") }
        let id = self.next_id(o.price, o.side);
        let t = Taker { side: o.side, price: o.price, qty: o.qty, locked: if o.side == Side::Bid { o.pc } else { 0 }, oid: id, owner: None, slot: 0, tier, otype: OType::Ioc, cid: 0, stb: Stb::Abort, limit: o.limit };
        let p = self.run_taker(t)?;
        let (cv, pv) = (self.s.ms.m.coin_vault, self.s.ms.m.pc_vault);
        let cl = self.s.ms.m.coin_lot;
        let m = &mut self.s.ms.m;
        match o.side {
            Side::Bid => {
                if p.coin_credit < o.min_coin { return Err("minimum not met") }
                let get = mul(p.coin_credit, cl)?;
                m.pc_dep = m.pc_dep.wrapping_add(p.pc_debit);
                m.coin_dep = m.coin_dep.checked_sub(get).ok_or("vault short")?;
                if p.pc_debit > 0 {
                    self.spend(p.pc_debit)?;
                    self.xfer(pc_w, &pv, p.pc_debit)?;
                }
                if get > 0 { self.xfer(&cv, coin_w, get)? }
            }
            Side::Ask => {
                if p.pc_credit < o.min_pc { return Err("minimum not met") }
                let pay = mul(p.coin_debit, cl)?;
                m.coin_dep = m.coin_dep.checked_add(pay).ok_or("overflow")?;
                m.pc_dep = m.pc_dep.checked_sub(p.pc_credit).ok_or("vault short")?;
                if pay > 0 {
                    self.spend(pay)?;
                    self.xfer(coin_w, &cv, pay)?;
                }
                if p.pc_credit > 0 { self.xfer(&pv, pc_w, p.pc_credit)? }
            }
        }
        Ok(())
    }

    fn own_oo(&self, oo: &Pubkey, owner: &Pubkey) -> Result<&OO, Fail> {
        let e = self.s.oos.get(oo).ok_or("no open orders account")?;
        if !e.live() || e.market != self.s.ms.m.own || e.owner != *owner { return Err("wrong open orders account") }
        Ok(e)
    }

    pub fn cancel_leaf(&mut self, oo: &Pubkey, side: Side, id: u128) -> Result<(), Fail> {
        let l = *self.s.ms.book(side).leaves.get(&id).ok_or("order not found")?;
        if l.owner != *oo { return Err("order not yours") }
        let n = self.native(side, l.qty, l.price())?;
        self.out(side, false, n, 0, &l)?;
        self.s.ms.book_mut(side).leaves.remove(&id);
        let e = self.s.oos.get_mut(oo).unwrap();
        if side == Side::Bid { e.pc_free += n } else { e.coin_free += n }
        Ok(())
    }
    pub fn cancel(&mut self, oo: &Pubkey, owner: &Pubkey, side: Side, id: u128) -> Result<(), Fail> {
        self.own_oo(oo, owner)?;
        self.cancel_leaf(oo, side, id)
    }
    pub fn cancel_cid(&mut self, oo: &Pubkey, owner: &Pubkey, cid: u64) -> Result<(), Fail> {
        let e = self.own_oo(oo, owner)?;
        if cid == 0 { return Err("zero client id") }
        let s = *e.slots.values().find(|s| s.cid == cid).ok_or("client id not found")?;
        self.cancel_leaf(oo, s.side, s.id)
    }
    pub fn cancel_cids(&mut self, oo: &Pubkey, owner: &Pubkey, cids: &[u64]) -> Result<(), Fail> {
        let e = self.own_oo(oo, owner)?;
        let v: Vec<SlotO> = e.slots.values().filter(|s| s.cid != 0 && cids.contains(&s.cid)).cloned().collect();
        for s in v {
            if self.s.ms.book(s.side).leaves.contains_key(&s.id) { self.cancel_leaf(oo, s.side, s.id)? }
        }
        Ok(())
    }

    /// apply the front event to its account
    pub fn consume_one(&mut self) -> Result<(), Fail> {
        let ev = *self.s.ms.evq.evs.front().ok_or("empty")?;
        let mk = self.s.ms.m.own;
        let e = self.s.oos.get_mut(&ev.owner).ok_or("owner not available")?;
        if !e.live() || e.market != mk { return Err("wrong open orders account") }
        match e.slots.get(&ev.slot) {
            Some(s) if s.side == ev.side && s.id == ev.oid => {}
            _ => return Err("slot does not match event"),
        }
        if ev.fill {
            if ev.maker {
                let (tp, fr, tr) = match ev.side {
                    Side::Bid => (&mut e.pc_total, &mut e.coin_free, &mut e.coin_total),
                    Side::Ask => (&mut e.coin_total, &mut e.pc_free, &mut e.pc_total),
                };
                *tp = tp.checked_sub(ev.b).ok_or("underflow")?;
                *fr += ev.a;
                *tr += ev.a;
            } else {
                e.reb += ev.fee / 5;
            }
        } else {
            if ev.release {
                let (fr, to) = match ev.side { Side::Bid => (&mut e.pc_free, e.pc_total), Side::Ask => (&mut e.coin_free, e.coin_total) };
                *fr += ev.a;
                if *fr > to { return Err("free exceeds total") }
            }
            if ev.b == 0 { e.slots.remove(&ev.slot); }
        }
        let q = &mut self.s.ms.evq;
        q.evs.pop_front();
        q.head = (q.head + 1) % q.cap;
        Ok(())
    }
    /// events consumable with these accounts, in order, up to `limit`
    pub fn consume(&mut self, avail: &[Pubkey], limit: u16) -> Result<u32, Fail> {
        let mut n = 0;
        for _ in 0..limit {
            match self.s.ms.evq.evs.front() {
                None => break,
                Some(e) if !avail.contains(&e.owner) => break,
                _ => {}
            }
            self.consume_one()?;
            n += 1;
        }
        Ok(n)
    }

    pub fn settle(&mut self, oo: &Pubkey, owner: &Pubkey, coin_w: &Pubkey, pc_w: &Pubkey, referrer: Option<&Pubkey>) -> Result<(), Fail> {
        self.own_oo(oo, owner)?;
        let (cv, pv) = (self.s.ms.m.coin_vault, self.s.ms.m.pc_vault);
        let e = self.s.oos.get_mut(oo).unwrap();
        let (c, p, r) = (e.coin_free, e.pc_free, e.reb);
        e.coin_free = 0;
        e.pc_free = 0;
        e.coin_total = e.coin_total.checked_sub(c).ok_or("underflow")?;
        e.pc_total = e.pc_total.checked_sub(p).ok_or("underflow")?;
        e.reb = 0;
        let m = &mut self.s.ms.m;
        m.coin_dep = m.coin_dep.checked_sub(c).ok_or("underflow")?;
        m.pc_dep = m.pc_dep.checked_sub(p).ok_or("underflow")?;
        m.reb = m.reb.checked_sub(r).ok_or("underflow")?;
        self.xfer(&cv, coin_w, c)?;
        self.xfer(&pv, pc_w, p)?;
        match referrer {
            Some(k) if r > 0 => self.xfer(&pv, k, r)?,
            _ => self.s.ms.m.pc_fees += r,
        }
        Ok(())
    }

    pub fn close(&mut self, oo: &Pubkey, owner: &Pubkey) -> Result<(), Fail> {
        let e = self.own_oo(oo, owner)?;
        if !e.slots.is_empty() || e.coin_total != 0 || e.pc_total != 0 { return Err("account still in use") }
        self.s.oos.remove(oo);
        Ok(())
    }
    pub fn init_oo(&mut self, oo: &Pubkey, owner: &Pubkey, auth: Option<&Pubkey>) -> Result<(), Fail> {
        let mk = self.s.ms.m.own;
        if !self.s.ms.m.enabled() { return Err("market disabled") }
        let want = self.s.ms.m.auth.map(|a| a.0);
        let e = self.s.oos.get_mut(oo).ok_or("no open orders account")?;
        if e.flags == 0 {
            if auth.cloned() != want { return Err("wrong open orders authority") }
            *e = OO::fresh(mk, *owner);
            self.feat.oo_init = true;
        }
        self.own_oo(oo, owner).map(|_| ())
    }
    pub fn sweep(&mut self, dst: &Pubkey) -> Result<(), Fail> {
        if !self.s.ms.m.enabled() { return Err("market disabled") }
        let n = self.s.ms.m.pc_fees;
        self.s.ms.m.pc_fees = 0;
        let v = self.s.ms.m.pc_vault;
        self.xfer(&v, dst, n)
    }
    pub fn disable(&mut self) -> Result<(), Fail> {
        if !self.s.ms.m.enabled() { return Err("market disabled") }
        self.s.ms.m.flags |= fl::DISABLED;
        Ok(())
    }
    pub fn replace(&mut self, oo: &Pubkey, owner: &Pubkey, payer: &Pubkey, payer_mint: &Pubkey, tier: u8, now: i64, os: &[OrderP]) -> Result<(), Fail> {
        let cids: Vec<u64> = os.iter().take(8).map(|o| o.cid).collect();
        self.cancel_cids(oo, owner, &cids)?;
        for o in os { self.new_order(oo, owner, payer, payer_mint, tier, now, o)? }
        Ok(())
    }
}
