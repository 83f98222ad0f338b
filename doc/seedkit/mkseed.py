#!/usr/bin/env python3
"""Writes seeded/<id>/ from seeds*.py (patch text, demonstration scenario, description).
   mkseed.py [--verify] [ids]   --verify: build, tests and demo with and without each patch (changes /repo temporarily)
   mkseed.py --catch [ids]      runs the quick check of the property each one breaks (changes /repo temporarily)"""
import importlib.util, json, os, shutil, subprocess, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(here))
SEEDS = {}
for f in sorted(glob.glob(os.path.join(here, "seeds*.py"))):
    sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for s in m.SEEDS: SEEDS[s["id"]] = s
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = sys.argv[1:]
verify = "--verify" in args
catch = "--catch" in args
ids = [a for a in args if not a.startswith("--")] or list(SEEDS)
assert sh("git -C /repo status --porcelain").stdout == "", "/repo is not clean"
def apply(s):
    for f, old, new, occ in s["edits"]:
        p = "/repo/" + f; t = open(p).read(); i = -1
        for _ in range(occ + 1):
            i = t.find(old, i + 1)
            assert i >= 0, (s["id"], "text not found", f)
        open(p, "w").write(t[:i] + new + t[i + len(old):])
def restore(): sh("git -C /repo checkout -- .")
if catch:
    for id in ids:
        s = SEEDS[id]
        try:
            r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, id)); assert r.returncode == 0, r.stderr
            r = sh("%s/bin/check %s" % (V, s["property"]), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            print(id, s["property"], "caught" if r.returncode == 1 and "VIOLATION property=" + s["property"] in r.stdout else "MISSED", r.returncode, r.stdout.strip().splitlines()[-1:], flush=True)
        finally: restore()
    sys.exit()
for id in ids:
    s = SEEDS[id]; d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    kit, _, feat = s["kit"].partition("+")
    shutil.copytree(os.path.join(here, kit), d + "/demo", ignore=shutil.ignore_patterns("target"))
    if kit == "crank": open(d + "/demo/scenario.py", "w").write(s["scenario"]); shutil.move(d + "/demo/demo.sh", d + "/demo.sh")
    else:
      open(d + "/demo/src/scenario.rs", "w").write(s["scenario"])
      open(d + "/demo/bin", "w").write({"dex": "vdex", "proxy": "vproxy", "pool": "vpool"}[kit] + "\n")
      if feat: open(d + "/demo/features", "w").write("--features " + feat + "\n")
      shutil.copy(os.path.join(here, "demo.sh"), d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        apply(s)
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally: restore()
    if not verify: continue
    print(id, end=" ", flush=True)
    r = sh("bash %s/demo.sh" % d, cwd="/repo"); print("clean=%d" % r.returncode, end=" ", flush=True)
    if r.returncode: print(r.stdout[-1500:])
    try:
        apply(s)
        b = sh("bash /opt/vp/build.sh"); print("build=%d" % b.returncode, end=" ", flush=True)
        if b.returncode: print((b.stdout + b.stderr)[-1500:])
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); got = json.load(open("/tmp/seedtest.json"))
        passed = set(got.get("passed", got.get("pass", [])))
        print("tests=%s" % ("ok" if base <= passed else sorted(base - passed)[:3]), end=" ", flush=True)
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); print("patched=%d %s" % (r.returncode, r.stdout.strip().splitlines()[-1:]), flush=True)
    finally: restore()
