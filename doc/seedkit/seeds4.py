CR="dex/crank/src/lib.rs"
SEEDS = []
def seed(id, prop, edits, scenario, needs, breaks, kit="crank"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, scenario=scenario, needs=needs, breaks=breaks, kit=kit))

seed("crank-wait-restarts", "K01", [(CR, "                event_q_slot\n            );\n            continue;\n        } else {\n", "                event_q_slot\n            );\n            last_cranked_at = loop_start;\n            continue;\n        } else {\n", 0)], """
from node import *
n = Node()
n.accounts[EVQ] = event_queue([key(50), key(51)], 3)
def look(k):
    if k == EVQ: n.slot += 1
n.look = look
s = service(n, maxq=10, wait=4)
check(until(lambda: n.sent, 15), "never cranks")
t = n.sent[0][0]
check(until(lambda: any(x[0] > t + 2 for x in n.sent), 16), "waiting events are not consumed although the delay has long passed")
s.end()
print("ok")
""", "fewer events waiting than the configured length, for longer than the delay since the last crank", "each look at the short queue restarts the delay, so the events are never consumed")

seed("crank-wrapped-order", "K01", [(CR, "            let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);\n            let mut used_accounts", "            let accounts = seg1.iter().chain(seg0.iter()).map(|event| event.owner);\n            let mut used_accounts", 0)], """
from node import *
owners = [key(100 + i) for i in range(40)]
for head in (0, 100, 253):
    n = Node()
    n.accounts[EVQ] = event_queue(owners, head)
    s = service(n)
    check(until(lambda: n.sent, 15), "never cranks")
    ks = keys_of(n.sent[0][1])
    check(owners[0] in ks, "the transaction cannot consume the oldest event (head %d)" % head)
    s.end()
print("ok")
""", "an event queue that wraps around its end with more order accounts in the wrapped part than fit a transaction", "the accounts of the newest events are named, the oldest event blocks every transaction")

seed("crank-same-transactions", "K01", [(CR, "        rand::random::<u64>() % 10000 + 1,\n", "        rand::random::<u64>() % 10000 / 5000 + 1,\n", 0)], """
from node import *
n = Node()
n.accounts[EVQ] = event_queue([key(50 + i % 7) for i in range(60)], 9)
def look(k):
    if k == EVQ: n.slot += 1
n.look = look
s = service(n, workers=6, events=10)
until(lambda: len(n.sent) >= 48, 30)
check(len(n.sent) >= 48, "too few transactions")
distinct = len({t for _, t in n.sent})
check(distinct >= 40, "most transactions repeat one another (%d of %d differ)" % (distinct, len(n.sent)))
s.end()
print("ok")
""", "several workers in one round", "the workers send the same transaction, the chain runs it once and the round consumes a fraction of what it should")

seed("match-simulation-ignored", "K02", [(CR, """    if let Some(e) = result.value.err {
        return Err(format_err!("simulate_transaction error: {:?}", e));
    }
    debug_println!("{:#?}", result.value);
    if result.value.err.is_none() {
        debug_println!("Matching orders ...");
""", """    debug_println!("{:#?}", result.value);
    if result.value.err.is_none() {
        debug_println!("Matching orders ...");
""", 0)], """
from node import *
for err in (None, {"InstructionError": [0, {"Custom": 100}]}):
    n = Node()
    n.sim_err = err
    c = Client(n, "match-orders", "-d", b58(DEX), "--payer", "KEY", "-m", b58(MARKET), "-c", b58(key(30)), "-p", b58(key(31)))
    rc = c.p.wait(timeout=60)
    check((rc == 0) == (err is None), "exit status %d although the simulation answered %s" % (rc, err))
    check(bool(n.sent) == (err is None), "transaction sent or missing")
    c.end()
print("ok")
""", "a match-orders request that fails in simulation", "the command reports success although nothing happened")
