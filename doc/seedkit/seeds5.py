S = "dex/src/state.rs"; M = "dex/src/matching.rs"; I = "dex/src/instruction.rs"
SEEDS = []
def seed(id, prop, edits, scenario, needs, breaks, kit="dex"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, scenario=scenario, needs=needs, breaks=breaks, kit=kit))

seed("self-trade-prefix", "C09", [(M, "let order_would_self_trade = owner == best_offer_ref.owner();", "let order_would_self_trade = owner[..3] == best_offer_ref.owner()[..3];", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    for i in [0usize, 7, 15, 23, 24, 31] {
        // two accounts of different users whose addresses share a prefix
        let mut b = l.ook(0).to_bytes();
        b[i] ^= 0x40;
        let k = solana_program::pubkey::Pubkey::new_from_array(b);
        l.w.put_zeroed(k, OO_LEN);
        l.w.us[1].oos[0] = vec![k];
        l.w.all_oos[0].push(k);
        let owner = l.key(1);
        check(l.go(&Op::InitOO { m: 0, oo: k, owner, auth: None }), "open orders");
        check(l.order(0, ord(Side::Ask, 50, 4)), "ask");
        check(l.order(1, OrderP { otype: OType::Ioc, ..ord(Side::Bid, 50, 4) }), "bid");
        check(l.oo(1).coin_free == 40, "two different accounts did not trade with each other");
        check(l.crank(), "crank");
    }
}
""", "a bid meeting an ask of another account whose address has the same first 24 bytes", "the two orders cancel each other as if they were one account's, and no trade takes place")

seed("bid-sequence-48", "C05", [(S, "            Side::Bid => !seq_num,\n", "            Side::Bid => !seq_num & (u64::MAX >> 16),\n", 0)], """
fn scenario() {
    for at in [0u64, 1 << 32, (1 << 48) - 2] {
        let mut l = Lab::new(cfg());
        let q = l.k().req_q;
        l.w.l.get_mut(&q).unwrap().data[29..37].copy_from_slice(&at.to_le_bytes());
        check(l.st().req_seq == at, "layout");
        for u in [0, 0, 1, 1] { check(l.order(u, ord(Side::Bid, 50, 1)), "bid") }
        let mut first = vec![];
        for _ in 0..4 {
            check(l.order(2, ord(Side::Ask, 50, 1)), "ask");
            let s = l.st();
            first.push(s.evq.evs.iter().find(|e| e.fill && e.maker).unwrap().owner);
            check(l.crank(), "crank");
        }
        check(first == vec![l.ook(0), l.ook(0), l.ook(1), l.ook(1)], "bids at one price were not filled in the order they came");
    }
}
""", "a market that has taken 2^48 orders", "later bids are filled before earlier ones at the same price")

seed("slot-bit-mod-64", "C07", [(S, "        self.is_bid_bits &= !slot_mask;\n\n        Ok(())", "        self.is_bid_bits &= !u128::from(1u64.wrapping_shl(slot as u32));\n\n        Ok(())", 0)], """
fn scenario() {
    let mut l = Lab::new(Cfg { evq: 300, ..cfg() });
    for i in 0..70u64 { check(l.order(0, ord(Side::Bid, 100 + i, 1)), "bid") }
    let (oo, me) = (l.ook(0), l.key(0));
    for slot in [3u8, 66, 69] {
        let id = l.oo(0).slots[&slot].id;
        check(l.go(&Op::Cancel { m: 0, oo, owner: me, side: Side::Bid, id }) && l.crank(), "cancel");
    }
    let (o, s) = (l.oo(0), l.st());
    for x in o.slots.values() { check((x.side == Side::Bid) == s.bids.leaves.contains_key(&x.id), "a slot's side is not its order's") }
    check(o.slots.len() == 67, "slots");
}
""", "an account with more than 64 orders, one of which in an upper slot ends", "a resting bid's slot says it is an ask, so it can no longer be cancelled by its client id")

seed("disabled-crank-market-shut", "C16", [(S, "                && flags != disabled_flags\n                && flags != disabled_crank_flags\n", "                && flags != disabled_flags\n", 0), (S, "            let disabled_crank_flags = required_crank_flags | AccountFlag::Disabled;\n", "", 0)], """
fn scenario() {
    for perm in [0u8, 1, 2, 3] {
        let mut l = Lab::new(Cfg { perm, ..cfg() });
        check(l.order(0, ord(Side::Bid, 50, 2)) && l.order(1, ord(Side::Ask, 50, 1)), "orders");
        check(l.go(&Op::Disable { m: 0, signer: disabler() }), "disable");
        check(!l.order(1, ord(Side::Ask, 60, 1)), "an order on a disabled market");
        let (oo, me) = (l.ook(0), l.key(0));
        let id = *l.st().bids.leaves.keys().next().unwrap();
        check(l.go(&Op::Cancel { m: 0, oo, owner: me, side: Side::Bid, id }), "cannot cancel on a disabled market");
        check(l.crank() && l.settle(0, None) && l.settle(1, None), "cannot withdraw from a disabled market");
        check(l.go(&Op::Close { m: 0, oo, owner: me, dest: me }), "cannot close an account of a disabled market");
    }
}
""", "a market with a crank authority, once it is disabled", "nobody can cancel, crank, withdraw or close there any more")

seed("close-into-new-account", "C17", [(S, "        open_orders.account_flags = AccountFlag::Closed as u64;\n", "        if dest_starting_lamports > 0 {\n            open_orders.account_flags = AccountFlag::Closed as u64;\n        }\n", 0)], """
fn scenario() {
    for fresh in [false, true] {
        let mut l = Lab::new(cfg());
        let (oo, me) = (l.ook(0), l.key(0));
        let dest = if fresh { l.r.key() } else { l.key(1) };
        let (close, _) = l.w.build(&Op::Close { m: 0, oo, owner: me, dest });
        let op = l.order_op(0, ord(Side::Bid, 50, 1));
        let (order, _) = l.w.build(&op);
        check(!l.tx(&[close.clone(), order]), "the closed account was used again in the same transaction");
        check(l.tx(&[close]), "close");
    }
}
""", "an account closed into a destination that has no lamports yet and used again in the same transaction", "the closed account still takes orders; what it holds disappears with it")

seed("send-take-side-byte", "C18", [(I, "        let side = Side::try_from_primitive(u32::from_le_bytes(side_arr).try_into().ok()?).ok()?;\n        let limit_price = NonZeroU64::new(u64::from_le_bytes(price_arr))?;\n        let max_coin_qty = NonZeroU64::new(u64::from_le_bytes(max_coin_qty_arr))?;\n        let max_native_pc_qty_including_fees =\n            NonZeroU64::new(u64::from_le_bytes(max_native_pc_qty_arr))?;\n        let min_coin_qty", "        let side = Side::try_from_primitive(side_arr[0]).ok()?;\n        let limit_price = NonZeroU64::new(u64::from_le_bytes(price_arr))?;\n        let max_coin_qty = NonZeroU64::new(u64::from_le_bytes(max_coin_qty_arr))?;\n        let max_native_pc_qty_including_fees =\n            NonZeroU64::new(u64::from_le_bytes(max_native_pc_qty_arr))?;\n        let min_coin_qty", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    check(l.order(0, ord(Side::Ask, 100, 10)), "ask");
    let (cw, pw, me) = (l.wallet(1, false), l.wallet(1, true), l.key(1));
    let p = TakeP { side: Side::Bid, price: 100, qty: 2, pc: 1000, min_coin: 0, min_pc: 0, limit: 50 };
    let (ix, _) = l.w.build(&Op::Take { m: 0, cw, pw, signer: me, srm: None, p });
    for at in [5usize, 6, 7, 8] {
        for v in [2u8, 0x80] {
            let mut bad = ix.clone();
            bad.data[at] = v;
            check(serum_dex::instruction::MarketInstruction::unpack(&bad.data).is_none(), "bytes that encode no side are read as a take");
            check(!l.tx(&[bad]), "a take with an invalid side was executed");
        }
    }
    check(l.tx(&[ix]), "take");
}
""", "a take instruction whose four side bytes are not 0 or 1 but whose first byte is", "the malformed instruction is executed as a take")

seed("last-one-out", "C21", [(S, "        for &(token_amount, wallet_account, vault) in token_infos.iter() {\n", "        for &(token_amount, wallet_account, vault) in token_infos.iter() {\n            if token_amount > 1 && token_amount == vault.balance()? {\n                continue;\n            }\n", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    for u in [0usize, 1] { check(l.order(u, ord(Side::Ask, 50 + u as u64, 5)), "ask") }
    for u in [0usize, 1] {
        let (oo, me, w) = (l.ook(u), l.key(u), l.wallet(u, false));
        let id = *l.st().asks.leaves.iter().find(|x| x.1.owner == oo).unwrap().0;
        check(l.go(&Op::Cancel { m: 0, oo, owner: me, side: Side::Ask, id }) && l.crank(), "cancel");
        let (b, owed) = (l.bal(&w), l.oo(u).coin_free);
        check(l.settle(u, None), "settle");
        check(owed == 50 && l.bal(&w) == b + owed, "settling did not pay what was owed");
    }
}
""", "a settlement of exactly what the vault still holds", "the last one to withdraw gets nothing while the account is set to zero")

seed("evict-client-id-of-newcomer", "C22", [(M, "                    client_order_id: NonZeroU64::new(order.client_order_id()),\n                });\n                event_q\n                    .push_back(out)\n                    .map_err(|_| DexErrorCode::EventQueueFull)?;\n                offers", "                    client_order_id: NonZeroU64::new(client_order_id),\n                });\n                event_q\n                    .push_back(out)\n                    .map_err(|_| DexErrorCode::EventQueueFull)?;\n                offers", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    let mut n = 0u64;
    loop {
        let u = if n < 60 { 0 } else { 1 };
        let before = l.st().asks.leaves.clone();
        check(l.order(u, OrderP { cid: 1000 + n, ..ord(Side::Ask, 10_000 - n, 1) }), "order refused");
        n += 1;
        let s = l.st();
        if s.asks.leaves.len() == before.len() {
            let (id, gone) = before.iter().next_back().unwrap();
            let e = s.evq.evs.iter().rev().find(|e| !e.fill && e.oid == *id).expect("no event");
            check(e.cid == gone.cid && e.owner == gone.owner, "the eviction's event carries another order's client id");
            break
        }
        check(n < 300, "nothing evicted");
    }
}
""", "a full ask side, the evicted and the new order having different client ids", "the eviction event names the newcomer's client id")

seed("free-balance-all-or-nothing", "C02", [(S, "                let free_qty_to_lock = lock_qty_native.min(open_orders_mut.native_coin_free);\n", "                let free_qty_to_lock = if payer.balance()? < lock_qty_native {\n                    lock_qty_native.min(open_orders_mut.native_coin_free)\n                } else if open_orders_mut.native_coin_free >= lock_qty_native {\n                    lock_qty_native\n                } else {\n                    0\n                };\n", 0)], """
fn scenario() {
    let mut l = Lab::new(cfg());
    check(l.order(0, ord(Side::Ask, 50, 5)), "ask");
    let (oo, me, w) = (l.ook(0), l.key(0), l.wallet(0, false));
    let id = *l.st().asks.leaves.keys().next().unwrap();
    check(l.go(&Op::Cancel { m: 0, oo, owner: me, side: Side::Ask, id }) && l.crank(), "cancel");
    let b = l.bal(&w);
    check(l.oo(0).coin_free == 50, "free");
    check(l.order(0, ord(Side::Ask, 60, 8)), "ask");
    check(b - l.bal(&w) == 30 && l.oo(0).coin_free == 0, "the account's free balance was not used first");
}
""", "an ask larger than the account's free base balance and a payer rich enough for all of it", "the whole amount is taken from the payer while the free balance stays unused")

seed("prune-authority-fallback", "C04", [(S, "prune_authority.map(|p| *p.key).unwrap_or(Pubkey::default());", "prune_authority.map(|p| *p.key).unwrap_or(*oo_auth.key);", 0)], """
fn scenario() {
    for perm in [1, 2, 3] {
        let mut l = Lab::new(Cfg { perm, ..cfg() });
        let k = l.k();
        check(l.order(0, ord(Side::Bid, 50, 1)), "bid");
        let (oo, oo_owner) = (l.ook(0), l.key(0));
        let auth = k.oo_auth.unwrap();
        check(!l.go(&Op::Prune { m: 0, oo, oo_owner, auth, limit: 65535 }), "the open-orders authority pruned somebody's orders");
        check(l.st().bids.leaves.len() == 1, "the order is gone");
        if let Some(auth) = k.prune_auth { check(l.go(&Op::Prune { m: 0, oo, oo_owner, auth, limit: 65535 }), "prune"); }
    }
}
""", "a permissioned market listed without a prune authority, and a prune signed by its open-orders authority", "a market without a prune authority can be pruned: the open-orders authority cancels anybody's orders")

seed("prune-64-asks", "C12", [(M, ".filter_map(|order_to_remove| self.asks.remove_by_key(*order_to_remove))", ".filter_map(|order_to_remove| self.asks.remove_by_key(*order_to_remove))\n            .take(64)", 0)], """
fn scenario() {
    for side in [Side::Ask, Side::Bid] {
        let mut l = Lab::new(Cfg { perm: 2, evq: 400, ..cfg() });
        for i in 0..100u64 { check(l.order(0, ord(side, 100 + i, 1)), "order") }
        let (oo, oo_owner, auth) = (l.ook(0), l.key(0), l.k().prune_auth.unwrap());
        check(l.go(&Op::Prune { m: 0, oo, oo_owner, auth, limit: 65535 }), "prune");
        let s = l.st();
        check(s.bids.leaves.is_empty() && s.asks.leaves.is_empty(), "orders are left on the book after an unlimited prune");
        check(l.crank(), "crank");
        check(l.oo(0).slots.is_empty() && l.oo(0).coin_free == l.oo(0).coin_total && l.oo(0).pc_free == l.oo(0).pc_total, "a pruned order left no cancellation behind");
    }
}
""", "an account with more than 64 asks is pruned without a practical limit", "asks beyond the 64th stay on the book")
