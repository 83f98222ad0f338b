S = "dex/src/state.rs"; M = "dex/src/matching.rs"; F = "dex/src/fees.rs"; K = "dex/src/critbit.rs"
SEEDS = []
def seed(id, prop, edits, scenario, needs, breaks, kit="dex"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, scenario=scenario, needs=needs, breaks=breaks, kit=kit))

seed("settle-odd-rebate", "C01", [(S, """            _ => {
                market.pc_fees_accrued += open_orders.referrer_rebates_accrued;
            }""", """            Some(_) => {}
            None => {
                market.pc_fees_accrued += open_orders.referrer_rebates_accrued >> 1 << 1;
            }""", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    for i in 0..14u64 {
        let p = 1000 + 731 * i;
        check(l.order(0, ord(Side::Ask, p, 7)) && l.order(1, ord(Side::Bid, p, 7)) && l.crank(), "trade");
        check(l.settle(1, None) && l.settle(0, None), "settlement");
        let s = l.st();
        check(l.bal(&l.k().pc_vault) == s.m.pc_dep + s.m.pc_fees + s.m.reb, "quote vault does not equal deposits, fees and rebates");
    }
}
""", "a taker whose accrued referrer rebate is odd settles without naming a referrer", "one unit of the rebate is recorded nowhere, so the vault no longer equals what the market owes")

seed("evict-refund-cap", "C20", [(M, "native_qty_unlocked: order.quantity() * order.price().get() * pc_lot_size,", "native_qty_unlocked: (order.quantity() * order.price().get()).min(u32::MAX as u64) * pc_lot_size,", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    let mut n = 0;
    loop {
        // fill the bid side with large orders until one is evicted
        let u = if n < 60 { 0 } else { 1 };
        let before = l.st().bids.leaves.len();
        check(l.order(u, ord(Side::Bid, (1 << 33) + n, 3)), "order refused");
        n += 1;
        if l.st().bids.leaves.len() == before { break }
        check(n < 300, "nothing evicted");
    }
    check(l.crank(), "crank");
    let s = l.st();
    for u in 0..2 {
        let o = l.oo(u);
        let need: u64 = s.bids.leaves.values().filter(|x| x.owner == l.ook(u)).map(|x| x.qty * x.price()).sum();
        check(o.pc_total - o.pc_free == need, "the evicted order's funds were not all returned");
    }
}
""", "a full bid side and an evicted bid whose quantity times price exceeds 32 bits", "part of the evicted order's reserved quote stays locked for ever")

seed("owner-check-empty", "C03", [(S, """        if let Some(owner) = owner_account {
            check_assert_eq!(&identity(open_orders.owner), &owner.key.to_aligned_bytes())""", """        if let (Some(owner), true) = (owner_account, open_orders.native_coin_total | open_orders.native_pc_total != 0) {
            check_assert_eq!(&identity(open_orders.owner), &owner.key.to_aligned_bytes())""", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    // the account has been used before and is empty now
    check(l.order(0, ord(Side::Bid, 50, 2)), "order");
    let id = *l.st().bids.leaves.keys().next().unwrap();
    let (oo, me) = (l.ook(0), l.key(0));
    check(l.go(&Op::Cancel { m: 0, oo, owner: me, side: Side::Bid, id }) && l.crank() && l.settle(0, None), "cancel and settle");
    let thief = l.key(1);
    let stolen = l.go(&Op::Close { m: 0, oo, owner: thief, dest: thief });
    check(!stolen, "a stranger closed the account and took its lamports");
    let mut op = l.order_op(0, ord(Side::Ask, 90, 1));
    if let Op::New { owner, payer, .. } = &mut op { *owner = thief; *payer = l.wallet(1, false) }
    check(!l.go(&op), "a stranger traded on the account");
}
""", "an open-orders account whose balances are all zero", "anyone can use or close it and take its rent")

seed("crank-unsigned", "C04", [(S, "            check_assert!(consume_events_auth.is_signer)?;\n", "            check_assert!(consume_events_auth.is_signer || limit == 0 || limit > 1000)?;\n", 0)], """
fn scenario() {
    let mut l = Lab::new(Cfg { perm: 3, ..cfg() });
    check(l.order(0, ord(Side::Ask, 50, 2)) && l.order(1, ord(Side::Bid, 50, 2)), "trade");
    let mut oos = vec![l.ook(0), l.ook(1)];
    oos.sort_by_key(|x| aligned(x));
    for limit in [1u16, 5, 1000, 1001, 65535] {
        let auth = l.k().crank_auth;
        let (mut ix, _) = l.w.build(&Op::Consume { m: 0, oos: oos.clone(), limit, auth, sorted: true });
        for a in ix.accounts.iter_mut() { a.is_signer = false }
        check(!l.tx(&[ix]), "events consumed without the crank authority's signature");
    }
}
""", "a permissioned crank request with a limit above 1000", "events are consumed without the crank authority's signature")

seed("take-max-ignores-fee", "C06", [(M, "let max_pc_qty = fee_tier.remove_taker_fee(native_pc_qty_locked.get()) / pc_lot_size;", """let max_pc_qty = if is_send_take && max_coin_qty.get() == u64::MAX {
            native_pc_qty_locked.get()
        } else {
            fee_tier.remove_taker_fee(native_pc_qty_locked.get())
        } / pc_lot_size;""", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    check(l.order(0, ord(Side::Ask, 100, 10_000)), "ask");
    let (cw, pw, me) = (l.wallet(1, false), l.wallet(1, true), l.key(1));
    let (c0, p0) = (l.bal(&cw), l.bal(&pw));
    let p = TakeP { side: Side::Bid, price: 100, qty: u64::MAX, pc: 100_000, min_coin: 0, min_pc: 0, limit: 50 };
    check(l.go(&Op::Take { m: 0, cw, pw, signer: me, srm: None, p }), "the take was refused");
    let (got, paid) = (l.bal(&cw) - c0, p0 - l.bal(&pw));
    check(paid <= 100_000, "the taker paid more than its maximum");
    check(got > 0 && got % 10 == 0, "nothing bought");
}
""", "an immediate take that buys with an unlimited quantity (u64::MAX), bounded only by its quote maximum", "the taker pays the fee on top of its stated maximum")

seed("negative-expiry", "C08", [(S, "if cur_ts > instruction.max_ts {", "if cur_ts > instruction.max_ts && instruction.max_ts >= 0 {", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    for ts in [clock() - 1, 0, -1, -1_000_000, i64::MIN] {
        check(!l.order(0, OrderP { max_ts: ts, ..ord(Side::Bid, 50, 2) }), "an expired order was accepted");
    }
    check(l.order(0, OrderP { max_ts: clock(), ..ord(Side::Bid, 50, 2) }), "a valid order was refused");
}
""", "an expiry time before 1970", "an order whose expiry has passed is executed")

seed("crank-skips-absent", "C10", [(S, "Err(_) => break,", """Err(i) if i == open_orders_accounts.len() && open_orders_accounts.len() > 1 => {
                    event_q
                        .pop_front()
                        .map_err(|()| DexErrorCode::ConsumeEventsQueueFailure)?;
                    continue;
                }
                Err(_) => break,""", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    let mut us = vec![0, 1, 2];
    us.sort_by_key(|u| aligned(&l.ook(*u)));
    for v in 0..3 {
        // the first event concerns `victim`, whose account is not supplied
        let victim = us[v];
        let rest: Vec<usize> = us.iter().cloned().filter(|u| *u != victim).collect();
        check(l.order(victim, OrderP { otype: OType::Limit, ..ord(Side::Bid, 50, 2) }), "order");
        let id = *l.st().bids.leaves.keys().next().unwrap();
        let (oo, me) = (l.ook(victim), l.key(victim));
        check(l.go(&Op::Cancel { m: 0, oo, owner: me, side: Side::Bid, id }), "cancel");
        let before = l.oo(victim);
        let n = l.st().evq.evs.len();
        l.crank_with(&rest, 10);
        check(l.st().evq.evs.len() == n, "an event was dropped because its account was not supplied");
        check(l.oo(victim) == before, "account changed");
        check(l.crank() && l.st().evq.evs.is_empty() && l.oo(victim).slots.is_empty(), "event not applied");
    }
}
""", "the next event belongs to an account that sorts after all supplied ones, with at least two supplied", "that event is popped without being applied")

seed("msrm-owner-skipped", "C11", [(S, "check_assert_eq!(owner, expected_owner)?;\n        if mint == &srm_token", "if mint != &msrm_token::ID.to_aligned_bytes() {\n            check_assert_eq!(owner, expected_owner)?;\n        }\n        if mint == &srm_token", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    let theirs = l.r.key();
    let other = l.key(2);
    l.w.l.insert(theirs, mk_tok(&msrm_mint_addr(), &other, 1));
    check(l.order(0, ord(Side::Ask, 1000, 100)), "ask");
    let mut op = l.order_op(1, ord(Side::Bid, 1000, 100));
    if let Op::New { srm, .. } = &mut op { *srm = Some(theirs) }
    check(!l.go(&op), "someone else's MSRM account was accepted for a discount");
}
""", "the fee-discount account is an MSRM account of another person", "a trader pays the MSRM fee tier without owning any")

seed("cancel-list-full-queue", "C12", [(S, "                        if code == DexErrorCode::OrderNotFound {\n                            continue;", "                        if code == DexErrorCode::OrderNotFound || code == DexErrorCode::EventQueueFull {\n                            continue;", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    check(l.order(2, OrderP { cid: 77, ..ord(Side::Bid, 40, 2) }), "order");
    for i in 0..200 {
        let u = if i < 60 { 0 } else { 1 };
        if l.st().evq.evs.len() == 128 { break }
        check(l.order(u, OrderP { cid: 100 + i, ..ord(Side::Bid, 50, 2) }), "order");
        if l.st().evq.evs.len() == 128 { break }
        let (oo, me) = (l.ook(u), l.key(u));
        check(l.go(&Op::CancelCid { m: 0, oo, owner: me, cid: 100 + i }), "cancel");
    }
    check(l.st().evq.evs.len() == 128, "queue full");
    let (oo, me) = (l.ook(2), l.key(2));
    let before = l.st().bids.leaves.len();
    let ok = l.go(&Op::CancelCids { m: 0, oo, owner: me, cids: vec![77] });
    check(!ok || l.st().bids.leaves.len() == before, "an order left the book with no event to free its slot");
    for _ in 0..40 { l.crank(); }
    let rests = l.st().bids.leaves.len();
    check(l.oo(0).slots.len() + l.oo(1).slots.len() + l.oo(2).slots.len() == rests, "slot and book disagree");
}
""", "cancelling by a list of client ids while the event queue is full", "the order leaves the book but its event is lost, so its slot is never freed")

seed("replace-expired-skipped", "C13", [(S, """                instruction,
                accounts,
                Self::process_new_order_v3,
            )?;
        }""", """                instruction,
                accounts,
                Self::process_new_order_v3,
            )
            .or_else(|e| match e {
                DexError::ErrorCode(DexErrorCode::OrderMaxTimestampExceeded) => Ok(()),
                e => Err(e),
            })?;
        }""", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    check(l.order(0, OrderP { cid: 1, ..ord(Side::Bid, 50, 2) }), "order");
    check(l.order(0, OrderP { cid: 2, ..ord(Side::Bid, 51, 2) }), "order");
    let before = l.w.l.clone();
    let (oo, owner, payer) = (l.ook(0), l.key(0), l.wallet(0, true));
    let a = OrderP { cid: 1, ..ord(Side::Bid, 52, 2) };
    let b = OrderP { cid: 2, max_ts: clock() - 1, ..ord(Side::Bid, 53, 2) };
    for ps in [vec![a, b], vec![b, a]] {
        let ok = l.go(&Op::Replace { m: 0, oo, owner, payer, srm: None, ps, single: false });
        check(!ok && l.w.l == before, "a replace with a failing placement took effect");
    }
}
""", "a list replace in which one of the new orders has expired", "the old order is cancelled though its replacement failed")

seed("payer-mint-prefix", "C14", [(S, "if &payer.inner().try_borrow_data()?[..32] != transmute_to_bytes(&identity(self.pc_mint)) {", "if &payer.inner().try_borrow_data()?[..8] != &transmute_to_bytes(&identity(self.pc_mint))[..8] {", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    // free balance, so that no tokens need to move
    check(l.order(0, OrderP { cid: 3, ..ord(Side::Bid, 50, 20) }), "order");
    let (oo, me) = (l.ook(0), l.key(0));
    check(l.go(&Op::CancelCid { m: 0, oo, owner: me, cid: 3 }) && l.crank(), "cancel");
    let mut m = l.k().pc_mint.to_bytes();
    m[20] ^= 0x55;
    let fake = l.r.key();
    l.w.l.insert(fake, mk_tok(&solana_program::pubkey::Pubkey::new_from_array(m), &me, 1 << 40));
    let mut op = l.order_op(0, OrderP { pc: 100, ..ord(Side::Bid, 50, 2) });
    if let Op::New { payer, .. } = &mut op { *payer = fake }
    check(!l.go(&op), "a payer of another mint was accepted");
}
""", "a mint whose address shares its first 8 bytes with the quote mint", "a token account of another mint is accepted as the payer or wallet")

seed("vault-close-authority", "C15", [(S, "check_assert_eq!(*close_authority_tag, [0u8; 4])?;", "check_assert!(*close_authority_tag == [0u8; 4] || *delegate_tag == [0u8; 4])?;", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    for which in 0..2 {
        let mut k = l.k();
        k.key = l.r.key();
        let (nonce, signer) = find_signer(&mut l.r, &k.key);
        k.nonce = nonce; k.signer = signer;
        k.req_q = l.r.key(); k.event_q = l.r.key(); k.bids = l.r.key(); k.asks = l.r.key(); k.coin_vault = l.r.key(); k.pc_vault = l.r.key();
        l.parts(&k, &cfg());
        let good = l.w.l.clone();
        let v = if which == 0 { k.coin_vault } else { k.pc_vault };
        let who = l.key(0);
        let a = l.w.l.get_mut(&v).unwrap();
        a.data[129] = 1;
        a.data[133..165].copy_from_slice(who.as_ref());
        check(!l.tx(&[init_market_ix(&k, 0, 100)]), "a market was created over a vault somebody else can close");
        l.w.l = good;
        check(l.tx(&[init_market_ix(&k, 0, 100)]), "a good market was refused");
    }
}
""", "a vault with a close authority and no delegate", "the market is created over a vault that an outsider can close")

seed("slab-lone-leaf-leak", "C19", [(K, "                let _old_root = self.remove(parent_h).unwrap();\n", "                if self.header().free_list_len > 0 {\n                    let _old_root = self.remove(parent_h).unwrap();\n                }\n", 0)], """
fn scenario() {
    use serum_dex::critbit::{LeafNode, Slab};
    use std::convert::TryInto;
    for nodes in [6usize, 7, 10, 11, 20, 31] {
        let mut mem = vec![0u64; (32 + 72 * nodes) / 8];
        let bytes = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut u8, mem.len() * 8) };
        let slab = Slab::new(bytes);
        for round in 0..5u64 {
            let leaf = LeafNode::new(0, (7u128 << 64) | round as u128, [1, 2, 3, 4], 5, 0u8.try_into().ok().unwrap(), 1);
            check(slab.insert_leaf(&leaf).is_ok(), "an empty store is full");
            check(slab.remove_by_key(leaf.order_id()).is_some(), "the order is not there");
        }
        let mut n = 0u64;
        loop {
            let key = ((n + 1) as u128) << 64 | n as u128;
            if slab.insert_leaf(&LeafNode::new(0, key, [1, 2, 3, 4], 5, 0u8.try_into().ok().unwrap(), n)).is_err() { break }
            n += 1;
            check(n <= nodes as u64, "never full");
        }
        check(n as usize == (nodes + 1) / 2, "the store holds fewer orders than it has room for");
    }
}
""", "a side that repeatedly holds exactly one order and empties again, before it ever held two", "one node is lost each time, so capacity shrinks for ever")

seed("evict-best-for-dust", "C20", [(M, "let order = bids.remove_min().unwrap();", "let order = if new_leaf.quantity() > 1 { bids.remove_min() } else { bids.remove_max() }.unwrap();", 0)], """
fn scenario() {
    for qty in [1u64, 2, 5] {
        let mut l = Lab::new(cfg());
        let mut n = 0;
        loop {
            let before: Vec<u128> = l.st().bids.leaves.keys().cloned().collect();
            let u = if n < 60 { 0 } else { 1 };
            check(l.order(u, ord(Side::Bid, 1000 + n, qty)), "order refused");
            n += 1;
            if l.st().bids.leaves.len() == before.len() {
                let after = l.st().bids.leaves;
                let gone: Vec<u128> = before.iter().cloned().filter(|k| !after.contains_key(k)).collect();
                check(gone.len() == 1 && gone[0] == *before.iter().min().unwrap(), "an order other than the worst was evicted");
                break;
            }
            check(n < 300, "nothing evicted");
        }
    }
}
""", "a full bid side and a new bid of quantity one", "the best bid is evicted and not the worst")
