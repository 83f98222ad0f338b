PX="dex/permissioned/src/proxy.rs"; MW="dex/permissioned/src/middleware.rs"
SEEDS = []
def seed(id, prop, edits, scenario, needs, breaks, kit="proxy"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, scenario=scenario, needs=needs, breaks=breaks, kit=kit))

seed("proxy-ioc-approval-stays", "P01", [(MW, "        ctx.post_instructions.push(post_instruction);\n", "        if ix.order_type != serum_dex::matching::OrderType::ImmediateOrCancel {\n            ctx.post_instructions.push(post_instruction);\n        }\n", 0)], """
fn scenario() {
    for ioc in [false, true] {
        for side in [Side::Bid, Side::Ask] {
            let mut l = Lab::new();
            // leaves free funds on the exchange that pay for part of the next order
            let mut p = ord(side, 50, 2);
            p.otype = OType::Ioc;
            let op = l.order(0, p);
            check(l.go(&op), "order");
            for pc in [false, true] { let w = l.wallet(0, pc); l.revoke(&w) }
            let mut p = ord(side, 50, 5);
            if ioc { p.otype = OType::Ioc }
            let op = l.order(0, p);
            check(l.go(&op), "order");
            for pc in [false, true] { let w = l.wallet(0, pc); check(l.delegate(&w).is_none(), "the wallet stays spendable after the order") }
        }
    }
}
""", "an immediate-or-cancel order partly paid from funds already on the exchange", "the allowance given to the open-orders account outlives the transaction")

seed("proxy-limit-rewrite-lost", "P02", [(PX, """            Some(MarketInstruction::Prune(ref mut limit)) => {
                require!(ctx.accounts.len() >= 7, ErrorCode::NotEnoughAccounts);
                for mw in &self.middlewares {
                    mw.prune(&mut ctx, limit)?;""", """            Some(MarketInstruction::Prune(mut limit)) => {
                require!(ctx.accounts.len() >= 7, ErrorCode::NotEnoughAccounts);
                for mw in &self.middlewares {
                    mw.prune(&mut ctx, &mut limit)?;""", 0)], """
fn scenario() {
    // the same request, once with the limit asked for, once with that limit set by a middleware
    let mut left = vec![];
    for (asked, set) in [(4, None), (60000, Some(4)), (60000, None)] {
        LIMIT.with(|x| x.set(None));
        let mut l = Lab::new();
        for i in 0..12 { let op = l.order(0, ord(Side::Bid, 50 + i, 5)); check(l.go(&op), "order") }
        LIMIT.with(|x| x.set(set));
        let auth = l.w.mk[0].prune_auth.unwrap();
        let op = Op::Prune { m: 0, oo: l.oo(0), oo_owner: l.oo(0), auth, limit: asked };
        check(l.go(&op), "prune");
        left.push(MState::load(&l.w.l, &l.w.mk[0].key).unwrap().bids.leaves.len());
    }
    check(left[2] < left[0], "the limit matters");
    check(left[0] == left[1], "the exchange did not get the limit set by the middleware");
}
""", "a prune request whose limit a middleware rewrites", "the exchange gets the original request instead of what the middlewares left")

seed("proxy-self-referral", "P01", [(MW, "        require!(referral == self.referral, ErrorCode::InvalidReferral);\n", "        let own_wallet = ctx.accounts[9].key == ctx.accounts[6].key;\n        require!(referral == self.referral || own_wallet, ErrorCode::InvalidReferral);\n", 0)], """
fn scenario() {
    let mut l = Lab::new();
    let a = l.order(0, ord(Side::Ask, 100_000, 50));
    let b = l.order(1, ord(Side::Bid, 100_000, 50));
    check(l.go(&a) && l.go(&b) && l.crank(), "trade");
    let own = l.wallet(1, true);
    let bad = l.settle(1, Some(own));
    let before = l.bal(&own);
    check(!l.go(&bad) && l.bal(&own) == before, "a trader collected the referral fee");
    let good = l.settle(1, Some(l.refw));
    check(l.go(&good) && l.bal(&l.refw) > 0, "settlement pays the referrer");
}
""", "a settlement naming the trader's own quote wallet as the referrer's", "the trader collects the rebate meant for the configured recipient")

seed("proxy-close-unsigned", "P01", [(MW, """        let user = &ctx.accounts[1];
        if !user.is_signer {""", """        let user = &ctx.accounts[1];
        let refund = &ctx.accounts[2];
        if !user.is_signer && refund.key != user.key {""", 0)], """
fn scenario() {
    let mut l = Lab::new();
    let (oo, me) = (l.oo(0), l.key(0));
    let mut ix = l.ix(&Op::Close { m: 0, oo, owner: me, dest: me });
    for a in ix.accounts.iter_mut() { a.is_signer = false }
    check(!l.tx(ix) && l.w.l.contains_key(&oo), "the account was closed without its user's signature");
    check(l.go(&Op::Close { m: 0, oo, owner: me, dest: me }), "close");
}
""", "closing an empty open-orders account with the refund going to its user", "anyone can close a user's account without the user's signature")
