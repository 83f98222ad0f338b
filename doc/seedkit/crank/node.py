"""A node as the command-line client sees it (JSON-RPC over HTTP), and the accounts of one market."""
import base64, hashlib, http.server, json, os, struct, subprocess, sys, tempfile, threading, time
# ---- keys
P = 2**255 - 19; D = -121665 * pow(121666, P - 2, P) % P; L = 2**252 + 27742317777372353535851937790883648493
def xrec(y):
    xx = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(xx, (P + 3) // 8, P)
    if (x * x - xx) % P: x = x * pow(2, (P - 1) // 4, P) % P
    return x if (x * x - xx) % P == 0 else None
def add(a, b):
    (x1, y1), (x2, y2) = a, b; k = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * pow(1 + k, P - 2, P) % P, (y1 * y2 + x1 * x2) * pow(1 - k, P - 2, P) % P)
BY = 4 * pow(5, P - 2, P) % P; bx = xrec(BY); B = (bx if bx % 2 == 0 else P - bx, BY)
def public(secret):
    h = hashlib.sha512(secret).digest(); a = int.from_bytes(h[:32], "little"); a &= (1 << 254) - 8; a |= 1 << 254
    r, q = (0, 1), B
    while a:
        if a & 1: r = add(r, q)
        q = add(q, q); a >>= 1
    return ((r[1]) | ((r[0] & 1) << 255)).to_bytes(32, "little")
def on_curve(k):
    y = int.from_bytes(k, "little") & ((1 << 255) - 1)
    return xrec(y % P) is not None
AL = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(b):
    n = int.from_bytes(b, "big"); s = ""
    while n: n, r = divmod(n, 58); s = AL[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s
def unb58(s):
    n = 0
    for c in s: n = n * 58 + AL.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return b"\0" * (len(s) - len(s.lstrip("1"))) + b
def key(n): return hashlib.sha256(b"key%d" % n).digest()
TOKEN = unb58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
# ---- accounts
DEX, MARKET, EVQ, REQQ, BIDS, ASKS, CV, PV = (key(i) for i in range(1, 9))
def market():
    n = 0
    while on_curve(hashlib.sha256(MARKET + struct.pack("<Q", n) + DEX + b"ProgramDerivedAddress").digest()): n += 1
    q = lambda x: struct.pack("<Q", x)
    b = q(3) + MARKET + q(n) + key(20) + key(21) + CV + q(0) + q(0) + PV + q(0) + q(0) + q(100) + REQQ + EVQ + BIDS + ASKS + q(10) + q(10) + q(0) + q(0)
    return b"serum" + b + b"padding"
def event(owner, seq):
    return struct.pack("<BBBBxxxxQQQ", 1 | 4, 0, 0, 0, 5, 5, 0) + struct.pack("<QQ", seq, 1) + owner + struct.pack("<Q", 0)
def event_queue(owners, head, size=256):
    ring = [b"\0" * 88] * size
    for i, o in enumerate(owners): ring[(head + i) % size] = event(o, i)
    return b"serum" + struct.pack("<QQQQ", 1 | 16, head, len(owners), len(owners)) + b"".join(ring) + b"padding"
def request_queue(): return b"serum" + struct.pack("<QQQQ", 1 | 8, 0, 0, 0) + b"\0" * 80 * 8 + b"padding"
# ---- node
class Node:
    def __init__(self):
        self.slot = 100; self.accounts = {MARKET: market(), REQQ: request_queue(), EVQ: event_queue([], 0)}; self.sent = []; self.sim_err = None; self.owner = DEX
        me = self
        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            def log_message(self, *a): pass
            def do_POST(self):
                r = json.loads(self.rfile.read(int(self.headers["Content-Length"])))
                try: out = {"jsonrpc": "2.0", "id": r["id"], "result": me.answer(r["method"], r.get("params") or [])}
                except Exception as e: out = {"jsonrpc": "2.0", "id": r["id"], "error": {"code": -32601, "message": str(e)}}
                b = json.dumps(out).encode()
                self.send_response(200); self.send_header("Content-Type", "application/json"); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H); self.srv.daemon_threads = True
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()
        self.url = "http://127.0.0.1:%d" % self.srv.server_address[1]
    def answer(self, m, p):
        ctx = {"slot": self.slot}
        if m == "getVersion": return {"solana-core": "1.10.3", "feature-set": 1}
        if m == "getAccountInfo":
            k = unb58(p[0]); self.look(k)
            d = self.accounts.get(k)
            return {"context": {"slot": self.slot}, "value": d and {"lamports": 10**9, "owner": b58(self.owner), "data": [base64.b64encode(d).decode(), "base64"], "executable": False, "rentEpoch": 0}}
        if m == "getLatestBlockhash": return {"context": ctx, "value": {"blockhash": b58(key(1000 + self.slot)), "lastValidBlockHeight": self.slot + 150}}
        if m == "getMinimumBalanceForRentExemption": return 10**7
        if m == "simulateTransaction": return {"context": ctx, "value": {"err": self.sim_err, "logs": [], "accounts": None, "unitsConsumed": 0}}
        if m == "sendTransaction":
            t = base64.b64decode(p[0]) if len(p) > 1 and p[1].get("encoding") == "base64" else unb58(p[0])
            if len(t) > 1232: raise Exception("too large")
            self.sent.append((time.time(), t)); self.got(t)
            return b58(t[1:65])
        if m == "getSignatureStatuses": return {"context": ctx, "value": [{"slot": self.slot, "confirmations": 1, "err": None, "status": {"Ok": None}, "confirmationStatus": "confirmed"}]}
        if m == "isBlockhashValid": return {"context": ctx, "value": False}
        raise Exception("unknown method " + m)
    def look(self, k): pass
    def got(self, t): pass
def keys_of(t):
    n = t[0]; m = t[1 + 64 * n:]
    k = m[3]; assert k < 128
    return [m[4 + 32 * i:36 + 32 * i] for i in range(k)]
def check(ok, what):
    if not ok: print("BROKEN: " + what, flush=True); os._exit(1)
class Client:
    def __init__(self, node, *args):
        self.d = tempfile.mkdtemp(); s = hashlib.sha256(b"secret").digest()
        self.kp = self.d + "/key.json"; open(self.kp, "w").write(json.dumps(list(s + public(s))))
        self.p = subprocess.Popen([os.environ["CRANK"], node.url] + [a.replace("KEY", self.kp).replace("DIR", self.d) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def end(self):
        self.p.kill(); self.p.wait()
        import shutil; shutil.rmtree(self.d, ignore_errors=True)
def service(node, **o):
    a = dict(workers=1, events=10, maxq=1, wait=60); a.update(o)
    return Client(node, "consume-events", "-d", b58(DEX), "--payer", "KEY", "-m", b58(MARKET), "-c", b58(key(30)), "-p", b58(key(31)), "-n", str(a["workers"]), "-e", str(a["events"]), "--log-directory", "DIR/log/crank", "--max-q-length", str(a["maxq"]), "--max-wait-for-events-delay", str(a["wait"]))
def until(f, seconds):
    end = time.time() + seconds
    while time.time() < end:
        if f(): return True
        time.sleep(0.1)
    return f()
