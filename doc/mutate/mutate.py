#!/usr/bin/env python3
"""Development tool: systematic small changes to the sources, each judged by all monitors.
   mutate.py WORK FILE[:first-last] ... [--harness dex] [--sample N] [--seed S] [--budget SECONDS] [--threads N] [--out FILE]
Works on copies of /repo and /verif/harness below WORK; never touches either. Prints, per change,
the properties whose monitors object; for a change nobody objects to, whether the existing tests do."""
import glob, json, os, random, re, shutil, subprocess, sys
a = sys.argv[1:]
def o(k, d):
    if k in a:
        i = a.index(k); v = a[i + 1]; del a[i:i + 2]; return v
    return d
harness = o("--harness", "dex"); sample = int(o("--sample", "40")); seed = int(o("--seed", "1")); budget = o("--budget", "8"); threads = o("--threads", "4"); out = o("--out", None)
work, files = a[0], a[1:]
PLAN = {"dex": ",".join(w + ":1" for w in "base tamper evict init admin lifecycle cancel extreme fees take disabled full crank many crowd self replace chaos codec slab ring".split()),
        "proxy": None, "pool": None, "admin": None, "crank": "service:3,faults:1,commands:20,monitor:1,shebang:1"}
CFG = {"dex": ("dex", "vdex", []), "proxy": ("proxy", "vproxy", []), "pool": ("pool", "vpool", ["--features", "owner"]), "admin": ("pool", "vpool", ["--features", "admin"]), "crank": ("crank", "vcrank", [])}
ANYPROP = {"proxy": ["P01", "P02"], "pool": ["L01", "L02", "L03", "A01"], "admin": ["L04"]}
def sh(c, t=1800, **k):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c, 124, "", "timeout")
R, H = work + "/repo", work + "/harness"
if not os.path.isdir(R):
    os.makedirs(work, exist_ok=True)
    sh("git clone -q /repo %s" % R)
sh("rm -rf %s; cp -r /verif/harness %s" % (H, H))
for f in glob.glob(H + "/*/Cargo.toml"):
    t = open(f).read(); open(f, "w").write(t.replace('"/repo', '"' + R))
d, binname, extra = CFG[harness]
ENV = dict(os.environ, CARGO_TARGET_DIR=work + "/target-" + harness, CARGO_BUILD_JOBS=threads)
def build(): return sh(". /opt/vp/env.sh; cd %s/%s && cargo build --release --offline %s" % (H, d, " ".join(extra)), env=ENV)
b = build()
if b.returncode: print(b.stderr[-2000:]); sys.exit(2)
BIN = work + "/target-" + harness + "/release/" + binname

OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " < "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
       (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bBid\b", ["Ask"]), (r"\bAsk\b", ["Bid"]), (r"\bcoin\b", ["pc"]), (r"\bpc\b", ["coin"]),
       (r"(?<![\w.])(\d+)(?![\w.])", ["+1", "-1"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r"\.is_signer\b", [".is_signer || true"]), (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]), (r"native_coin", ["native_pc"]), (r"native_pc", ["native_coin"]), (r"_free\b", ["_total"]), (r"_total\b", ["_free"]), (r"find_min", ["find_max"]), (r"find_max", ["find_min"])]
def mutants(f, lo, hi):
    lines = open(R + "/" + f).read().split("\n")
    test = False; depth = 0; res = []
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l): test = "pend"
        if test == "pend" and "{" in l: test = True; depth = 0
        if test is True:
            depth += l.count("{") - l.count("}")
            if depth <= 0: test = False
            continue
        if test or not (lo <= i + 1 <= hi): continue
        code = l.split("//")[0]
        if re.match(r"\s*(use |#|//|msg!|pub (struct|enum|type|mod)|mod |info!|debug_println)", l) or not code.strip(): continue
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if "fn " in code and pat in (r" < ", r" > "): continue
                for r in reps:
                    if r in ("+1", "-1"):
                        n = int(m.group(1)) + (1 if r == "+1" else -1)
                        if n < 0: continue
                        r = str(n)
                    res.append((f, i, l[:m.start()] + r + l[m.end():]))
        m = re.match(r"^(\s*)(if|} else if|while) (?!let)(.*) \{$", code)
        if m:
            res.append((f, i, "%s%s !(%s) {" % m.groups()))
            res.append((f, i, "%s%s false && (%s) {" % m.groups()))
            if m.group(2) != "while": res.append((f, i, "%s%s true || (%s) {" % m.groups()))
        if re.match(r"^\s*(?!let |return|break|continue|\}|\)|\.|pub |fn |use )[\w*][^{}]*;$", code): res.append((f, i, re.match(r"^\s*", l).group(0) + "// deleted"))
    return [(f, i, n) for f, i, n in res if n != lines[i]]
ms = []
for x in files:
    f, _, rng = x.partition(":")
    lo, hi = (map(int, rng.split("-")) if rng else (1, 10 ** 9))
    ms += mutants(f, lo, hi)
random.Random(seed).shuffle(ms)
print("%d candidate changes" % len(ms), flush=True)
log = open(out, "a") if out else sys.stdout
done = 0
for f, i, new in ms:
    if done >= sample: break
    p = R + "/" + f
    src = open(p).read(); lines = src.split("\n"); old = lines[i]; lines[i] = new
    try:
        open(p, "w").write("\n".join(lines))
        b = build()
        if b.returncode: continue
        done += 1
        props, tail = [], ""
        runs = [["ANY", "--plan", PLAN[harness]]] if PLAN[harness] else [[q] for q in ANYPROP[harness]]
        for r in runs:
            r = sh("%s check %s --seed %d --budget %s --cap %d --threads %s --json /dev/null" % (BIN, " ".join(r), seed, budget, 10 * int(budget), threads), t=20 * int(budget))
            if r.returncode == 124 or r.returncode < 0 or r.returncode > 3: tail += " [rc %d]" % r.returncode; props.append("DIED")
            for l in r.stdout.splitlines():
                if l.startswith("ANY "): props.append("%s:%s" % tuple(l.split(" ")[1:3]))
                if l.startswith("first violation"): props.append("hit")
            if r.returncode == 3: props.append("UNJUDGED")
        verdict = "CAUGHT " + " ".join(props) if props else "SURVIVED"
        if not props:
            rc = 0
            for c in ("%s/dex" % R, R):
                q = sh(". /opt/vp/env.sh; cd %s && cargo test --offline %s 2>&1 | tail -60" % (c, "--workspace" if c == R else ""), env=dict(os.environ, CARGO_BUILD_JOBS=threads))
                if "test result: FAILED" in q.stdout or "error: could not compile" in q.stdout: rc = 1
            verdict += " (tests fail)" if rc else " (tests pass)"
        log.write("%s %s:%d%s\n   - %s\n   + %s\n" % (verdict, f, i + 1, tail, old.strip(), new.strip())); log.flush()
    finally: open(p, "w").write(src)
print("done", done)
