CX="pool/src/context.rs"; AD="pool/examples/admin-controlled/src/lib.rs"; LB="pool/src/lib.rs"; PL="pool/src/pool.rs"
SEEDS = []
def seed(id, prop, edits, scenario, needs, breaks, kit="pool"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, scenario=scenario, needs=needs, breaks=breaks, kit=kit))

seed("pool-round-up-small-only", "L01", [(CX, "                    .checked_add(if round_up {\n", "                    .checked_add(if round_up && pool_tokens_requested < total_pool_tokens {\n", 0)], """
pub fn scenario() {
    for (supply, held, n) in [(10u64, 25u64, 3u64), (10, 25, 20), (10, 25, 13), (10, 3, 11)] {
        let mut l = Lab::new(SIMPLE, supply, &[held], 2500, vec![]);
        check(l.create(1, 2, n), "create");
        let got = l.amount(&l.p.vaults[0].clone()) - held;
        check(got as u128 * supply as u128 >= held as u128 * n as u128, "the creator paid less than the share behind the tokens issued");
    }
}
""", "a creation at least as large as the whole outstanding supply whose share does not divide evenly", "the creation is rounded down, so each existing pool token loses backing")

seed("pool-basis-point-floor", "L02", [(CX, "                (tokens - 1) / 10000 + 1,\n", "                max(tokens / 10000, 1),\n", 0)], """
pub fn scenario() {
    for n in [100u64, 100_000, 100_001, 119_999] {
        let mut l = Lab::new(SIMPLE, 1_000_000, &[1_000_000], 150, vec![]);
        check(l.create(1, 2, n), "create");
        let lqd = l.amount(&l.p.lqd.clone());
        check(lqd >= (n + 9999) / 10000, "less than one basis point for LQD");
    }
}
""", "the minimum fee rate and a quantity above ten thousand that is no multiple of it", "the LQD part is below one basis point of the quantity")

seed("pool-readonly-params", "L03", [(CX, "                check_account_address(account_info, &param_desc.address)?;\n", "                if param_desc.writable {\n                    check_account_address(account_info, &param_desc.address)?;\n                }\n", 0)], """
pub fn scenario() {
    for wr in [true, false] {
        let c = Pubkey::new_from_array([77; 32]);
        let mut l = Lab::new(PARAM, 1000, &[5000], 2500, vec![(c, wr)]);
        check(l.create(1, 2, 100), "create");
        let x = l.s.us[2].key;
        let mut a = l.accs(1, 2);
        a.last_mut().unwrap().pubkey = x;
        check(!l.run(a, Rq::Exec(Act::Create(100)).enc()), "accepted an account that is not the pool's parameter");
    }
}
""", "a pool with a read-only parameter account, and a request naming another account in its place", "the pool is used with a parameter account it did not record")

seed("pool-fee-waiver-any", "L02", [(CX, "                if fee_accounts.initializer_fee_account.key == user_key {\n                    fees.initializer_fee = 0;\n                }\n", "                if fee_accounts.initializer_fee_account.key == user_key\n                    || fee_accounts.initializer_fee_account.key\n                        == fee_accounts.referrer_fee_account.key\n                {\n                    fees.initializer_fee = 0;\n                }\n", 0)], """
pub fn scenario() {
    for own in [false, true] {
        let mut l = Lab::new(SIMPLE, 1_000_000, &[1_000_000], 2500, vec![]);
        let mut a = l.accs(1, 2);
        let i = a.len() - 2;
        if own { a[i].pubkey = l.p.init }
        check(l.run(a, Rq::Exec(Act::Create(100_000)).enc()), "create");
        let (x, y) = (l.amount(&l.p.lqd.clone()), l.amount(&l.p.init.clone()) + if own { 0 } else { l.amount(&l.s.us[2].pool[0]) });
        check(x == 100 && y == 150, "the fee is not the configured rate");
    }
}
""", "a request naming the initializer's own fee account as the referrer", "the initializer's part of the fee is dropped")
