PX="dex/permissioned/src/proxy.rs"; MW="dex/permissioned/src/middleware.rs"; PC="pool/src/context.rs"; PL="pool/src/pool.rs"; PS="pool/schema/src/lib.rs"
p("P01","A permissioned-market proxy acts only for the user who signed",
 "Through the proxy with its open-orders middleware, an open-orders account can be created, traded, settled, cancelled or closed only in a transaction signed by the user whose address, together with the proxy, exchange and market, derives that account's address; no other user, account substitution or account order gets it done. The proxy may spend from the user's wallet only what the relayed order can cost, the spending right never outlives the transaction, and only the official exchange program is ever called. With the referral middleware, settlement pays rebates only to a wallet of the configured recipient.",
 HI,"every transaction an adversary can assemble from any accounts, any order of accounts and any set of signatures they hold","The repository's Rust tests do not run the proxy at all; its integration test needs a live cluster and uses honest accounts only.",[PX,MW],
 [("derived open-orders accounts and authorities","OpenOrdersPda in "+MW),("spending approval and revocation","OpenOrdersPda::new_order_v3, settle_funds"),("referral wallet","ReferralFees::settle_funds"),("exchange program check","MarketProxy::run")])
p("P02","The proxy relays exactly one equivalent exchange request",
 "A relayed request has exactly the effect of the same instruction sent directly to the exchange by the derived authority on the accounts left by the middlewares, and a request the exchange or any middleware refuses has no effect. Every middleware sees every request in the configured order, with the data earlier ones left; instructions scheduled before run before the exchange call, those scheduled after run after it in order, and callbacks run last. Requests the proxy does not support or recognise are never relayed but go to the fallback.",
 HI,"every instruction, account list, middleware stack and exchange state","No unit test covers the proxy.",[PX,MW],
 [("dispatch and call","MarketProxy::run"),("request context","Context in "+MW),("instruction preparation","prepare_pda")])
p("L01","Pool tokens are always fully backed by the pool's assets",
 "Creating pool tokens takes from the user the proportional share of every pool asset, rounded up, for the stated quantity and issues exactly that quantity; redeeming burns the stated quantity less the fee and pays out the proportional share of what was burned, rounded down. So the assets behind each outstanding pool token never decrease through creation, redemption or fees. Everything taken from a user's wallets needs that user's signature, a request for more than is held or allowed has no effect, and a quote reports exactly the proportional basket by the same rules.",
 HI,"every sequence of creations, redemptions and quotes by any users for any quantities, asset counts, supplies and donations","The pool program is never executed by the tests; rounding and overflow need the whole integer range.",[PC,PL],
 [("basket computation","PoolContext::get_simple_basket"),("execution","process_execute_request in "+PL),("transfers, mint and burn","PoolContext::transfer_basket_*, mint_tokens, burn_tokens_and_collect_fees")])
p("L02","Pool fees are exact, split as specified, and waived only for the payee",
 "On creation and redemption the fee is the pool's configured rate of the quantity rounded up, paid in pool tokens to the three fee accounts: LQD's two fifths or one basis point of the quantity if larger, half of LQD's share to the referrer as far as the rest allows, and the remainder to the initializer; the parts sum to the fee exactly. A part is waived when the user's own pool-token account is the account that would receive it (all of them when it is LQD's). Each part goes to the pool's recorded LQD and initializer fee accounts or the named referrer's, and every pool's fee rate lies between 0.015 % and 100 %.",
 HI,"every fee rate, quantity and choice of fee and user accounts","The unit tests check eight hand-picked fee values and never run the program; rounding and saturation need the whole integer range.",[PC,PL],
 [("fee formula","PoolContext::get_fees"),("fee payment","burn_tokens_and_collect_fees, process_execute_request"),("rate range","PoolState fee_rate, initialize")])
p("L03","A pool is initialised once, checked, and bound to its own accounts",
 "Initialisation succeeds only on an unused, rent-exempt account of the program, with a mint and vaults controlled by the pool's derived authority, valid fee accounts, and an allowed fee rate, and records exactly the given configuration; it cannot be repeated. Every later request succeeds only with exactly the recorded mint, vaults, authority, fee accounts and parameter accounts and with user accounts of the right mints; otherwise it has no effect. Requests that do not decode as documented are refused.",
 ["inputs","histories","configurations"],"every account list, substitution and request encoding","The pool program is never executed by the tests.",[PC,PL,PS],
 [("account checks","PoolContext::new, check_pool_state / initialization checks in "+PC),("dispatch","Pool entrypoint in "+PL),("request and state encoding",PS)])
p("L04","An admin-controlled pool obeys only its current admin",
 "In the admin-controlled pool only a transaction signed by the recorded admin can pause or unpause, add or remove an asset, change the fee rate, approve a delegate on a vault, or hand over the admin role; a handover needs the new admin's signature too. While paused no one can create or redeem; approving a delegate pauses the pool and it cannot be unpaused while a delegate holds an allowance; an asset can be removed only when its vault is empty, and every admin request changes exactly what it names and keeps the pool consistent with the rest of its rules.",
 HI,"every sequence of admin and user requests by any signers with any accounts","The pool examples have no tests.",["pool/examples/admin-controlled/src/lib.rs",PL,PC],
 [("admin requests","process_foreign_instruction in pool/examples/admin-controlled/src/lib.rs"),("foreign instruction dispatch",PL)])
p("A01","The owner-assertion program passes exactly for the expected owner",
 "The owner-assertion program succeeds exactly when the first account given is owned by the program whose 32-byte address is the instruction data, fails for any other owner, data length or missing account, and never changes anything.",
 ["inputs"],"every account, owner and instruction data","The program has no tests.",["assert-owner/src/lib.rs"],
 [("entry point","assert-owner/src/lib.rs")])
CR="dex/crank/src/lib.rs"; CC="common/src/client/rpc.rs"
p("K01","The crank service keeps the event queue drained, and does nothing else",
 "As long as the node answers its reads, the crank service runs on: on every market the exchange accepts (and that names no crank authority of its own), whatever waits in its queues, it consumes waiting events, oldest first, whenever the queue has reached the configured length or the configured delay since the last crank has passed and the slot it reads was not cranked already, and does not crank otherwise. Each round sends enough distinct transactions for the waiting events (at most one per worker, each for at most the configured number of events), every one fits a packet, is signed by the configured payer only, and carries the accounts of the oldest events' owners, so that every round consumes what its transactions allow however many traders are involved. The transactions change nothing beyond consuming events, and refused, lost or unanswered transactions neither stop the service nor make it skip events for good.",
 ["inputs","histories","schedules","fault_sequences","configurations"],"every market content, trader count, configuration, timing and node failure pattern","The crank has no tests; it needs a node, time and many traders.",[CR],
 [("service loop","consume_events_loop in "+CR),("transaction","consume_events_once, consume_events_wrapper in "+CR),("queue reading","remove_dex_account_padding, parse_event_queue, parse_req_queue in "+CR)])
p("K02","A client command does exactly what it says or nothing",
 "Each command of the crank's command line and each client function (create and mint tokens, create token accounts, transfer, list a market, open, use, settle and close an open-orders account, place and cancel orders, match, consume events) has exactly the effect of the documented exchange, token and system instructions for its arguments, in transactions a node accepts, signed by the right keys. It reports success only when that happened; when a request is refused, lost or fails in simulation it reports an error, nothing beyond the named step is left behind and no command panics; a listed market is exactly the one configured, with its own accounts. Commands that read (queue print, queue monitor, token accounts) report what the chain holds and change nothing, and reading something that is not a market is an error.",
 ["inputs","histories","fault_sequences"],"every argument, ledger state and node failure","The crank and the client library have no tests.",[CR,CC],
 [("commands","start, list_market, place_order, init_open_orders, cancel_*, settle_funds, close_open_orders, match_orders, consume_events_instruction, read_queue_length_loop in "+CR),("token client",CC)])
