#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (edit here, then run)."""
import json
S="dex/src/state.rs"; M="dex/src/matching.rs"; F="dex/src/fees.rs"; K="dex/src/critbit.rs"; I="dex/src/instruction.rs"
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs or ["account bytes after every transaction"],"hook_needed":None}})
HI=["inputs","histories"]
ALLH="every sequence of accepted and refused transactions by any set of users, in any order, on any market configuration"
p("C01","Vaults always back exactly what the market owes",
 "After every transaction each market's base and quote vaults hold exactly the recorded deposits plus accrued fees plus accrued referrer rebates (plus tokens someone donated directly), and no transaction creates or destroys tokens. The recorded deposits equal the sum of what all open-orders accounts of the market are owed once pending execution events are applied. A failed transaction changes nothing.",
 HI,ALLH,"The unit tests run a handful of fixed scenarios and check a few balances; they never sum all obligations against the vaults over arbitrary histories.",[S,M],
 [("deposit accounting on order placement","process_new_order_v3"),("take settlement","process_send_take"),("withdrawal","process_settle_funds"),("fee withdrawal","process_sweep_fees"),("vault transfer","send_from_vault")])
p("C02","Open-orders balances are exact: free plus locked equals owed",
 "Each open-orders account's free and total amounts always equal deposits minus withdrawals plus the net effect of its trades, free never exceeds total, and, once pending events are applied, total minus free equals exactly what its resting orders need. An order uses the account's free balance first and takes only the shortfall from the payer, and is refused without effect when neither suffices.",
 HI,ALLH,"Tests assert balances of one or two accounts after fixed trades; arithmetic at extreme sizes, mixed self trades, evictions and late event processing is not sampled.",[S,M],
 [("credit/lock/unlock","OpenOrders in "+S),("order settlement","process_new_order_v3"),("event application","process_consume_events")])
p("C03","Only the owner can trade, cancel, withdraw or spend",
 "Funds and orders in an open-orders account can be used, cancelled, withdrawn or closed only by a transaction signed by the owner recorded when the account was initialised, and that owner never changes while the account lives. Tokens leave a wallet only with the signature of its owner or approved delegate, and withdrawals go only to the wallets the signed transaction names.",
 HI,"every transaction an adversary can assemble from any accounts and any set of signatures they hold","Tests only use the right signer; the space of missing, swapped or foreign signers on every instruction is not explored.",[S],
 [("signer wrapper","account_parser SignerAccount"),("owner check","Market::load_orders_mut"),("owner check in settle/cancel/close","SettleFundsArgs, CancelOrder*Args, CloseOpenOrdersArgs")])
p("C04","Privileged actions need exactly the designated authority",
 "Sweeping fees and disabling a market succeed only with the signature of the exchange's designated fee and disable authorities; on permissioned markets, creating open-orders accounts, pruning someone's orders and consuming events succeed only with the signature of that market's configured open-orders, prune and crank authorities respectively. The designated authority is always able to perform its action on an enabled market, and a market without such an authority cannot be pruned by anyone.",
 ["inputs","histories","configurations"],"every combination of market permission configuration, signer and instruction","Tests have no adversarial signers and almost no permissioned-market coverage.",[S],
 [("authority accounts","fee_sweeper / disable_authority constants"),("permission flags","Market::open_orders_authority, prune_authority, consume_events_authority"),("prune","PruneArgs, process_prune"),("crank","ConsumeEventsArgs::with_parsed_args_permissioned")])
p("C05","Matching follows price-time priority at the maker's price",
 "An incoming order executes against the opposite side's resting orders strictly from best price to worst and, at equal price, from earliest to latest, each fill executing at the resting order's price and for the smaller of the two remaining quantities. Order ids are unique per market, encode the price, and order earlier orders ahead of later ones at the same price on both sides.",
 HI,ALLH,"Tests use books of two or three orders; ties, deep books, partial fills and limits across millions of book states are not sampled.",[M,S,K],
 [("match loops","new_bid / new_ask"),("best order","OrderBookState::find_bbo"),("order id","RequestQueue::gen_order_id")])
p("C06","A taker never pays more or gets less than the order allows",
 "No order ever buys or sells more base than its stated quantity, spends more quote (fees included) than its stated maximum, or executes at a price worse than its limit, and executed plus resting quantity never exceeds the order. An immediate take either delivers at least the stated minimums to the named wallets or has no effect at all, and moves exactly the executed amounts in the right direction.",
 HI,"every order size, price, maximum, minimum, fee tier and book state, including values at the edge of the integer range","Tests check a few hand-picked sizes; rounding, fee-inclusive caps and overflow boundaries need the whole input range.",[M,S],
 [("match loops","new_bid / new_ask"),("take","process_send_take"),("fee removal","FeeTier::remove_taker_fee")])
p("C07","The book is never crossed and every resting order is accounted for",
 "After every transaction the best bid is below the best ask, every resting order has positive quantity, and each one corresponds to exactly one occupied slot, with the same order id, side and client id, in its owner's open-orders account. Conversely every occupied slot belongs to exactly one resting order or one not-yet-consumed final event, and an account holds at most 128 orders.",
 HI,ALLH,"The book and the slot table live in different accounts and are only related through whole histories with delayed event consumption.",[M,S,K],
 [("posting","new_bid / new_ask insert"),("slots","OpenOrders::add_order / remove_order"),("final events","process_consume_events")])
p("C08","Order types, match limits and expiry behave as specified",
 "An immediate-or-cancel order never rests; a post-only order never executes and is dropped if it would cross; a limit order rests exactly its unexecuted remainder at its own price unless it still crosses because the match limit ran out, in which case the remainder is dropped. At most the stated number of matches is made per order, and an order whose expiry time has passed is rejected with no effect while one not yet expired is unaffected by it. Quantity or funds not used are returned to the account's free balance.",
 HI,"every order type, match limit, expiry, clock value and book state","Tests cover each type once; combinations of type, limit exhaustion, partial fills and expiry boundary are not.",[M,S],
 [("order processing","new_order, new_bid, new_ask"),("expiry","process_new_order_v3 max_ts")])
p("C09","Self-trades do exactly what the order asked for",
 "When an order meets a resting order of the same open-orders account, the chosen behaviour decides: decrement-take reduces both by the smaller quantity with no trade and no fee, cancel-provide cancels the resting order and returns its funds and continues, and abort makes the whole transaction fail without effect. In no case does an account trade with itself, pay itself, or earn fees or rebates from itself, and orders of other accounts at the same price keep their priority.",
 HI,"every sequence in which incoming orders cross any mix of own and foreign resting orders, under each behaviour","Tests exercise one or two self-trade situations; mixed own/foreign levels with partial quantities and each behaviour are not covered.",[M,S],
 [("self-trade branches","new_bid / new_ask")])
p("C10","Execution events are consumed in order, exactly once",
 "Queued events are applied strictly first-in first-out, each exactly once, stopping at the requested limit or at the first event whose account was not supplied, never skipping or losing one. The final account balances and slots are the same however consumption is split into batches and whichever supplied accounts are extra. When the queue has no room for all the events a transaction needs, that transaction fails and has no effect.",
 ["inputs","histories","schedules"],"every interleaving of trading with event-consumption batches of any size and any supplied account list, including queue wrap-around and a full queue","Tests consume everything at once with all accounts present and never wrap or fill the queue.",[S],
 [("ring buffer","Queue push_back / pop_front / revert_pushes"),("crank","process_consume_events")])
p("C11","Fees, discounts and rebates are exact and fully accounted",
 "A taker pays the fee of its tier rounded up on the executed quote value, where the tier follows only from the fee-discount tokens in an account owned by the trader; makers receive their tier's rebate and pay nothing. Each taker fee is split exactly into maker rebate, referrer share and protocol fee, none negative; the referrer share goes to the referrer named at settlement or otherwise to the protocol, and sweeping pays out exactly the accrued protocol fees.",
 HI,"every trade size, price, fee tier, stable or ordinary market and settlement with or without referrer","Fee unit properties test the formulas in isolation; they do not follow fees through books, events, accounts, referrers and the sweep.",[F,S,M],
 [("tiers and rates","FeeTier"),("fee split","new_bid / new_ask"),("referrer","process_settle_funds"),("sweep","process_sweep_fees")])
p("C12","Cancelling removes exactly the named orders and frees their funds",
 "Cancelling by order id, by client id, by a list of client ids, or pruning by the prune authority removes exactly the orders named (for pruning, the given account's orders on both sides) and no others, and, once its event is consumed, unlocks exactly the funds those orders had reserved. Cancelling an order that does not exist, lies on the other side, or belongs to another account fails without effect, except that the list form skips ids it does not find. A prune removes no more orders than its limit, and all of the account's orders when the limit is large enough.",
 HI,ALLH,"Tests cancel one order in a tiny book; wrong-side, foreign, already filled, duplicate and zero client ids over deep books are not covered.",[S,M,K],
 [("cancel","cancel_order_v2, cancel_leaf_node, process_cancel_*"),("prune","process_prune, OrderBookState::remove_all")])
p("C13","Replacing orders is one atomic cancel-then-place",
 "A replace transaction has exactly the effect of cancelling the resting orders with the given client ids and then placing the new orders one after another in the order given; a client id that is not resting is simply placed. If any placement fails, nothing changes at all: the old orders still rest untouched.",
 HI,"every list of up to eight replacements against every account and book state","There is no test of the replace instructions.",[S],
 [("replace","process_replace_orders_by_client_ids, ReplaceOrdersByClientIdsArgs")])
p("C14","Accounts of another market, program or kind are never accepted",
 "Every instruction works only on the book, queues, vaults, vault signer, open-orders accounts and token accounts that belong to the market it names: substituting another market's part, a different part of the same market, a token account of the wrong mint, a counterfeit owned by another program, or the wrong vault or token program makes the transaction fail with no effect. A transaction modifies no account beyond those its documented effect needs, and a market's recorded configuration never changes.",
 HI,"every substitution of any account of any instruction by any other account on chain","Tests always pass the right accounts.",[S],
 [("address and owner checks","MarketState::load*, check_coin_vault, check_pc_vault, check_*_payer, TokenAccount"),("vault signer","VaultSigner / gen_vault_signer_key")])
p("C15","A market is created only once, from clean and correctly owned parts",
 "Creating a market succeeds only if its market, queue and book accounts are owned by the exchange, empty, not part of another market, large enough and rent exempt, and its two vaults are initialised token accounts of the stated mints, controlled by the market's derived signer, with no delegate and no close authority. A created market records exactly the requested configuration and starts empty and tradable, and it can never be initialised a second time.",
 ["inputs","configurations"],"every combination of account contents, sizes, owners and parameters offered at creation","Tests create one well-formed market.",[S],
 [("creation checks","InitializeMarketArgs::new"),("initialisation","process_initialize_market")])
p("C16","A disabled market stops trading but lets everyone leave",
 "Once a market is disabled no order can be placed, taken or replaced on it and no new open-orders account created, and it can never become enabled again. Owners can still cancel their orders, have events consumed, withdraw everything and close their accounts.",
 HI,"every history containing a disable at any point","No test disables a market.",[S],
 [("flags","MarketState::check_flags / check_enabled"),("disable","process_disable_market")])
p("C17","Open-orders accounts have a safe life cycle",
 "An open-orders account becomes bound to one market and one owner when first initialised, which requires a clean rent-exempt account of the exchange (and the market's authority on permissioned markets), and initialising it again changes nothing. It can be closed only by its owner and only when it has no orders and no balance; closing pays its whole lamport balance to the named destination and the account cannot be used again, even later in the same transaction.",
 HI,"every interleaving of initialise, trade, settle, close and re-create, within and across transactions","One test closes one account; reuse after close and dirty re-initialisation are not covered.",[S],
 [("init","OpenOrders::init, Market::load_orders_mut, InitOpenOrdersArgs"),("close","CloseOpenOrdersArgs, process_close_open_orders")])
p("C18","Instructions and events mean the same to clients and the program",
 "Every instruction encodes to the documented byte layout and decodes back to the same instruction; bytes that are not a valid encoding are rejected and never misread as another request, and decoding never crashes. The client-side builders produce transactions with the accounts, flags and bytes the program expects for what the caller asked, queued events and requests decode to what was encoded, and retired instructions are refused.",
 ["inputs"],"every instruction value and every byte string","A property test samples round trips with one generator; it does not pin the layout, hostile bytes or the builders' account lists.",[I,S],
 [("codec","MarketInstruction::pack / unpack"),("builders","instruction.rs builder functions"),("event codec","Event::new / as_view")])
p("C19","The order book store behaves as an ordered map",
 "Under every sequence of insertions, removals by key, minimum and maximum removals and lookups, the order book store returns exactly what an ordered map would: entries come back intact, the minimum and maximum are right, a removed key is gone, re-inserting a key replaces its value, and nothing else changes. It accepts entries up to its capacity, reports fullness without damaging existing entries, and reuses freed space indefinitely.",
 ["inputs","histories"],"every operation sequence, capacity and key distribution, including adversarial keys sharing long prefixes","The unit test compares one random sequence on a large store and never reaches capacity.",[K],
 [("crit-bit tree","Slab insert_leaf / remove_by_key / find_min / find_max"),("allocator","SlabView insert / remove")],["the store's public interface and its bytes"])
p("C20","A full book evicts only the worst order, and refunds it",
 "When a new order must rest on a full side of the book, exactly one resting order, the one with the lowest priority on that side, is evicted, its remaining quantity is cancelled with an event that returns all its reserved funds and frees its slot, and the new order then rests normally. No other resting order is affected and no order is evicted while there is room.",
 HI,"every full-book state, on both sides, with any ownership of the evicted order","No test fills a book.",[M,K],
 [("eviction","new_bid / new_ask insert failure path")])
p("C21","Everyone can always withdraw everything they own",
 "Settling pays the account's owner exactly its free base and quote balances into the named wallets and zeroes them, at any time and on disabled markets too. From every reachable state, consuming the pending events, cancelling every resting order and settling returns to every user exactly what they are owed, after which the vaults hold only fees and rebates and every account can be closed.",
 HI,"every reachable market state","Reachability of a full exit from arbitrary states cannot be sampled by fixed scenarios.",[S],
 [("settle","process_settle_funds"),("cancel, crank, close","process_cancel_*, process_consume_events, process_close_open_orders")])
p("C22","Every execution produces faithful, complete events",
 "Each fill, cancellation, eviction, self-trade removal and order completion enqueues exactly the events that describe it: right account, order id, client id, side, slot, maker or taker role, quantities paid and received, fee or rebate and fee tier, in execution order, with consecutive sequence numbers. Nothing else is enqueued, and events already queued are never altered.",
 HI,ALLH,"Tests compare events of a few fixed matches; indexers and the crank rely on them for every history.",[M,S],
 [("event emission","new_bid / new_ask / cancel_leaf_node"),("event layout","Event::new / as_view"),("queue","Queue::push_back")])
p("C23","Hostile transactions cannot corrupt memory or the market",
 "No transaction, however its accounts, account contents or bytes are chosen by an adversary, reads or writes outside the account data it was given or leaves the program in undefined behaviour. It either fails without effect or leaves every market well formed with all users' balances still exact.",
 ["inputs","histories"],"every byte string and every list of on-chain accounts, including truncated, duplicated, oversized and mistyped ones","Tests pass only well-formed accounts and run without sanitizers.",[S,K,M,I],
 [("account views","strip_header, Slab::new, remove_slop"),("unsafe casts","critbit.rs, state.rs")],["sanitizer reports","account bytes after every transaction"])
exec(open(__file__.replace("mkprops.py","props_more.py")).read())
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
