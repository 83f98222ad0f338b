"""Which harness decides which property, and for how long."""
ASAN = {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=address"}
TRIPLE = "x86_64-unknown-linux-gnu"
HARNESS = {
    "dex": {"dir": "dex", "bin": "release/vdex", "args": ["--release"]},
    "asan": {"dir": "dex", "bin": TRIPLE + "/asan/vdex", "args": ["--profile", "asan", "--target", TRIPLE], "env": ASAN},
    "proxy": {"dir": "proxy", "bin": "release/vproxy", "args": ["--release"]},
    "pool": {"dir": "pool", "bin": "release/vpool", "args": ["--release", "--features", "owner"]},
    "crank": {"dir": "crank", "bin": "release/vcrank", "args": ["--release"]},
    "admin": {"dir": "pool", "bin": "release/vpool", "args": ["--release", "--features", "admin"]},
}
QUICK, THOROUGH = 30, 420

def PARTS(prop, tier):
    q = tier == "quick"
    b = QUICK if q else THOROUGH
    def part(h, share=1.0, **k):
        n = max(2, int(b * share))
        return dict({"h": h, "budget": n, "cap": 6 * n if q else 2 * n}, **k)
    if prop == "C23":
        return [part("asan", 1.0, slow=16, crash_is_violation=True, label="address sanitizer build",
                     plan="chaos:6,slab:1,ring:1,codec:1,init:1,extreme:1,evict:1,full:1,tamper:1"),
                part("dex", 0.6, crash_is_violation=True, label="release build")]
    if prop == "C19":
        return [part("dex", 0.7, crash_is_violation=True, label="release build"),
                part("asan", 0.5, slow=17, crash_is_violation=True, label="address sanitizer build", plan="slab:4,evict:1")]
    if prop[0] == "K": return [part("crank", 2.0)]
    if prop[0] == "P": return [part("proxy")]
    if prop == "L04": return [part("admin", 0.7)]
    if prop[0] in "LA": return [part("pool", 0.3 if prop == "A01" else 0.7)]
    return [part("dex")]

def RULE(prop):
    if prop == "C15": return "Market creation requests: a well-formed one or one with a single injected fault out of 23 kinds, random parameters and sizes; each outcome is compared with the rules. Distinct: each generated request. Non-trivial: all (either the market must come out exactly as configured or must be refused)."
    if prop == "C18": return "Random instruction values and mutated encodings, compared with an independent codec of the documented layout; builder calls compared field by field. Distinct by encoded bytes."
    if prop == "C19": return "Random operation sequences on a store of random capacity compared step by step with an ordered map; distinct by (sequence, step)."
    if prop == "A01": return "Random owner assertions: right, near-miss and random owners, short and long data, no accounts; distinct by (accounts, data)."
    if prop[0] == "P": return "Random requests, honest and tampered, sent through a real MarketProxy with observing middlewares; each is compared with the equivalent direct exchange transaction on a copy of the ledger. Distinct by (instruction bytes, accounts, state digest)."
    if prop == "K01": return "The real service runs as a process on virtual time against a fake node over HTTP while the real exchange program trades behind it; each round between two looks at the event queue is one case, judged by what the node saw. Distinct by (events, owners, slot, configuration). Non-trivial: all (a round must crank, must not crank, or is bounded in what it may do)."
    if prop == "K02": return "Random commands with right and wrong arguments and injected node faults against a fake node in front of the real programs; the ledger after each is compared with the effect of independently encoded instructions on a copy. Distinct by (command, arguments, position in the history)."
    if prop[0] == "L": return "Random request histories, honest and tampered, against real pool programs; each outcome and every changed byte is compared with the independently stated rules. Distinct by (request, accounts, state digest)."
    return ("Seeded random transaction histories are executed by the real program on an in-memory chain; each transaction and the state it leaves is judged by the monitors. "
            "A case counts for this property when the transaction or state exercises it (trigger per property in DESIGN.md); it is distinct when the hash of "
            "(instruction bytes, market sequence numbers, queue position, deposits, fees) or of the generated input has not been seen before.")

def LEVEL(prop): return "exploration"

def ASSUME(prop):
    if prop[0] == "K": return ["the fake node answers as a Solana RPC node of version 1.10.3 does for the methods used; packets are limited to 1232 bytes, signatures verified, a transaction runs at most once",
            "sleeping advances a virtual clock instead of waiting", "the in-memory chain enforces the same account, signer and balance rules as the Solana runtime; compute limits are not modelled"]
    return ["the in-memory chain enforces the same account, signer and balance rules as the Solana runtime; compute and stack limits are not modelled",
            "host (x86-64) release arithmetic equals on-chain arithmetic: wrapping where the program does not check"]

def sanitizer_env(h):
    if h.startswith("asan"): return {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:quarantine_size_mb=8:malloc_context_size=5"}
    return {}

NOT_APPLICABLE = {}

def TECHNIQUE(p):
    if p == "K01": return "runtime monitoring: trace monitor over the real service process on virtual time against a fault-injecting fake node"
    if p == "K02": return "runtime monitoring: differential ledger monitor over real client commands against a fault-injecting fake node"
    if p == "C23": return "AddressSanitizer build plus whole-market monitors under hostile random transactions"
    if p in ("C19",): return "online reference-model monitor over random operation sequences, release and AddressSanitizer builds"
    if p in ("C18",): return "runtime monitoring against an independent codec over random and mutated inputs"
    return "runtime monitoring: online differential and invariant monitors over randomized hostile transaction histories"

def NOTE(p):
    return ("The property held on every execution explored (counts in the evidence file); no claim about executions not produced. "
            "Trusts the in-memory chain runtime, the account parsers and the reference model in /verif/harness.")
