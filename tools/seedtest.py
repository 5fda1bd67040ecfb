#!/usr/bin/env python3
"""Try planted bugs: seedtest.py [--no-check] [--all-checks] ID...   (not used by any check)
Applies the patch to /repo, builds, runs the tests, the demo and the property's check, undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def build(): return sh("bash /opt/vp/build.sh")
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    d = json.load(open("/tmp/seedtest.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return [x for x in b["stable"] if x not in d["passed"]]
def demo(d): return sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
clean = {}
build()
if "--only-check" not in sys.argv:
    for i in ids:
        clean[i] = demo(f"{V}/seeded/{i}").returncode
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    out = [i, meta["property"]]
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
    try:
        if "--only-check" not in sys.argv:
            r = build()
            if r.returncode: print(i, "DOES NOT BUILD", r.stdout[-1500:]); continue
            out.append(f"tests-missing={tests()}")
            dr = demo(d)
            out.append(f"demo clean={clean[i]} patched={dr.returncode}")
            if dr.returncode == 0 or clean[i]: out.append("DEMO-BAD " + dr.stdout[-300:] + dr.stderr[-600:])
        if "--no-check" not in sys.argv:
            props = [meta["property"]]
            for p in props:
                c = sh(f"python3 {V}/tools/check.py {p}", cwd=V)
                keys = [l.strip()[:100] for l in c.stdout.splitlines() if l.startswith("  ")]
                out.append(f"{p}: {'CAUGHT' if c.returncode == 1 and 'VIOLATION' in c.stdout else 'MISSED rc=%d' % c.returncode + c.stderr[-300:]} {keys[:2]}")
    finally:
        sh("git -C /repo checkout -- .")
    print(" | ".join(out), flush=True)
build()
