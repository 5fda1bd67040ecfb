#!/usr/bin/env python3
"""Run the monitors of one property against /repo's current working tree.

  check.py ID [--tier quick|thorough] [--seed N]
  check.py --replay FILE

exit 0: held on everything observed; exit 1: VIOLATION line(s) printed;
anything else: the check itself failed (no verdict).
"""
import argparse, json, os, re, subprocess, sys, tempfile, threading, time, shutil

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, specs

VERIF = build.VERIF
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
ENV_BASE = {
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.environ.get("HOME", "/root"),
    "LC_ALL": "C", "TZ": "UTC",
    "WREPORT_TABLES": os.path.join(build.REPO, "tables"),
    "WREPORT_TESTDATA": os.path.join(build.REPO, "testdata"),
    "VERIF_REPO": build.REPO, "VERIF_DIR": VERIF,
}
ASAN = "abort_on_error=0:exitcode=66:detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=12"
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=66"
TSAN = "halt_on_error=0:exitcode=67:second_deadlock_stack=1"

class HarnessError(Exception):
    pass

def env_for(flavour, scratch):
    e = dict(ENV_BASE)
    e["TMPDIR"] = scratch
    e["ASAN_OPTIONS"] = ASAN
    e["UBSAN_OPTIONS"] = UBSAN
    e["TSAN_OPTIONS"] = TSAN
    return e

def symframes(txt):
    """Function names of the frames of the first stack in a sanitizer report that are in the repository"""
    res = []
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (\S+?)(:\d+)?(:\d+)?(?: \(BuildId.*)?$", txt, re.M):
        fn, path = m.group(1), m.group(2)
        if "/wreport/" in path or "/python/" in path or "/src/" in path:
            fn = re.sub(r"\(.*", "", fn)
            res.append(fn)
        if re.search(r"^\s*$", txt[m.end():m.end() + 2], re.M) and res:
            break
    return res

def crash_key(stderr, rc):
    if "hard rss limit exhausted" in stderr or "rss limit" in stderr:
        return None, "resource: rss limit"
    m = re.search(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$", stderr, re.M)
    if m:
        msg = re.sub(r"-?\b(0x[0-9a-f]+|\d[\d.e+]*)\b", "N", m.group(4))
        fr = symframes(stderr[m.start():])
        return f"ubsan:{msg[:90]}:{os.path.basename(m.group(1))}:{fr[0] if fr else '?'}", m.group(0)
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)(.*)$", stderr, re.M)
    if m:
        kind = m.group(1)
        if kind in ("allocation-size-too-big", "out-of-memory", "requested"):
            kind = "oversized-allocation"
        fr = symframes(stderr[m.start():])
        return f"asan:{kind}:{fr[0] if fr else '?'}", m.group(0)
    m = re.search(r"^==\d+== ((?:Conditional jump|Use of uninit|Invalid |Syscall param|Argument |Mismatched free|Source and dest|Illegal mem)[^\n]*)", stderr, re.M)
    if m:
        fr = []
        for f in re.finditer(r"^==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.+?) \((\S+?):\d+\)$", stderr[m.start():], re.M):
            if re.search(r"/(wreport|python|src)/", f.group(2)): fr.append(re.sub(r"\(.*", "", f.group(1)))
        return f"memcheck:{re.sub(r'[0-9]+', 'N', m.group(1))[:60]}:{fr[0] if fr else '?'}", m.group(1)
    if "terminate called" in stderr or "libc++abi: terminating" in stderr:
        return "terminate", stderr[-300:]
    return f"died:rc={rc}", stderr[-300:]

def tsan_reports(stderr):
    res = []
    for blk in re.split(r"^={18}$", stderr, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: ([^(]+)", blk)
        if not m: continue
        fr = symframes(blk)
        res.append((f"tsan:{m.group(1).strip()}:{fr[0] if fr else '?'}", blk.strip()[:3000]))
    return res

def command(flavour, exe, args):
    """Command line of one worker"""
    if flavour == "memcheck":
        return ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--fullpath-after=", "--leak-check=no",
                "--max-stackframe=8000000", "--num-callers=25", exe] + args
    return [exe] + args

class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.fails = {}          # key -> (job, detail, replay-info)
        self.inconclusive = []
        self.harness_errors = []
    def add_fail(self, key, detail, replay):
        with self.lock:
            self.fails.setdefault(key, (detail, replay))

def run_worker(exe, job, flavour, seed, w, nworkers, count, scratch, res):
    mode, cpu = job["mode"], job.get("cpu", 30)
    out = os.path.join(scratch, f"{flavour}.{mode}.{w}.out")
    status = os.path.join(scratch, f"{flavour}.{mode}.{w}.status")
    env = env_for(flavour, scratch)
    start, restarts = w, 0
    while start < count:
        err = os.path.join(scratch, f"{flavour}.{mode}.{w}.err")
        cmd = command(flavour, exe, [mode, str(seed), str(start), str(nworkers), str(count), out, status, str(cpu)])
        wall = job.get("wall", 800)
        with open(err, "wb") as ef:
            try:
                rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=scratch, timeout=wall).returncode
            except subprocess.TimeoutExpired:
                rc = -1000
        stderr = open(err, errors="replace").read()
        st = open(status, "rb").read() if os.path.exists(status) else b""
        import struct
        if len(st) >= 40:
            _, case, running, bounded, phase = struct.unpack("<QQQQQ", st[:40])
            note = st[40:].split(b"\0")[0].decode(errors="replace")
        else:
            case, running, bounded, phase, note = start, 0, 1, 0, ""
        replay = {"flavour": flavour, "mode": mode, "seed": seed, "case": case, "start": start, "step": nworkers, "note": note}
        if flavour == "tsan":
            for key, blk in tsan_reports(stderr):
                res.add_fail(key, blk, replay)
            if rc in (0, 67): return
        if rc == 0:
            return
        if not running and rc != -1000 and "VERIF-SETUP-ERROR" not in stderr and rc != 3:
            # the library failed under the sanitizers while loading tables or sample data
            key, detail = crash_key(stderr, rc)
            if key is not None:
                replay["setup"] = 1
                res.add_fail("setup:" + key, f"{detail}\n{stderr[:2500]}", replay)
                return
        if "VERIF-SETUP-LIBRARY-ERROR" in stderr:
            res.add_fail("setup:library-error", stderr[-1500:], replay)
            return
        if rc == 3 or "VERIF-SETUP-ERROR" in stderr or not running:
            with res.lock:
                res.harness_errors.append(f"{flavour}/{mode}: rc={rc} {stderr[-800:]}")
            return
        if rc == -1000:
            with res.lock: res.inconclusive.append(f"{mode} wall-clock watchdog at case {case}")
            return
        if rc == 97:
            # CPU limit: re-run the case alone, with three times the budget, before calling it a hang
            o2 = out + ".hang"
            r2 = subprocess.run(command(flavour, exe, [mode, str(seed), str(case), "1", str(case + 1), o2, status + "h", str(cpu * 3)]),
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=scratch)
            if r2.returncode == 97 and bounded:
                res.add_fail(f"hang:{mode}:phase{phase}", f"no progress within {cpu*3} CPU seconds; {note}", replay)
            else:
                with res.lock: res.inconclusive.append(f"{mode} case {case}: CPU limit ({'unbounded work' if not bounded else 'finished when alone'})")
        else:
            key, detail = crash_key(stderr, rc)
            if key is None:
                with res.lock: res.inconclusive.append(f"{mode} case {case}: {detail}")
            else:
                res.add_fail(key, f"{detail}\n{note}\n{stderr[:2500]}", replay)
        restarts += 1
        if restarts > 12:
            with res.lock: res.inconclusive.append(f"{mode} worker {w}: stopped after {restarts} restarts at case {case}")
            return
        start = case + nworkers

def collect(scratch, res):
    ended = 0
    for f in sorted(os.listdir(scratch)):
        if not f.endswith(".out"): continue
        flavour, mode, w, _ = f.split(".", 3)
        for line in open(os.path.join(scratch, f), errors="replace"):
            try: d = json.loads(line)
            except ValueError: continue
            if d["type"] == "count":
                res.counters[d["name"]] = res.counters.get(d["name"], 0) + d["n"]
            elif d["type"] == "distinct": res.distinct.update(d["h"])
            elif d["type"] == "sample":
                if len(res.samples) < 6 and d["text"] not in res.samples: res.samples.append(d["text"])
            elif d["type"] == "fail":
                res.add_fail(d["key"], d["detail"], {"flavour": flavour, "mode": mode, "seed": res.seed, "case": d["case"],
                             "start": int(w), "step": res.nworkers})
            elif d["type"] == "end": ended += 1
    return ended

def known_findings():
    """known-findings.txt: 'known: property=ID key=KEY what...' lines"""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m: res.append(m.groups())
    return res

def run_job(job, tier, seed, scratch, res):
    flavour = job.get("flavour", "asan")
    count = job[tier]
    if not count: return
    if "runner" in job:
        job["runner"](job, tier, seed, scratch, res, sys.modules[__name__])
        return
    exe = build.driver(flavour, build.ALT.get(job["mode"], "driver"))
    n = min(job.get("workers", NWORKERS), count)
    res.nworkers = n
    ths = [threading.Thread(target=run_worker, args=(exe, job, flavour, seed, w, n, count, scratch, res)) for w in range(n)]
    for t in ths: t.start()
    for t in ths: t.join()

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    spec = specs.SPECS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(build.BUILD, "replays"), exist_ok=True)
    res = Result(); res.seed = a.seed; res.nworkers = NWORKERS
    scratch = tempfile.mkdtemp(prefix=f"run-{a.prop}-", dir=build.BUILD)
    try:
        for job in spec["jobs"]:
            sub = os.path.join(scratch, f"{job.get('flavour','asan')}-{job['mode']}")
            os.makedirs(sub, exist_ok=True)
            run_job(job, tier, a.seed, sub, res)
            collect(sub, res)
    except build.BuildError as e:
        print(f"BUILD-ERROR {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = [(k, w) for p, k, w in known_findings() if p == a.prop]
    violations = []
    for key, (detail, rep) in sorted(res.fails.items()):
        kf = [w for k, w in known if k == re.sub(r"\s+", "_", key)]
        if kf:
            print(f"KNOWN-FINDING: property={a.prop} {kf[0]}")
            continue
        name = re.sub(r"[^A-Za-z0-9._-]+", "_", key)[:80]
        path = os.path.join(build.BUILD, "replays", f"{a.prop}-{name}.json")
        json.dump({"property": a.prop, "key": key, "detail": detail, "replay": rep}, open(path, "w"), indent=1)
        violations.append((key, detail, path))
    wall = time.time() - t0
    evals = res.counters.get("cases", 0)
    need = {}
    for job in spec["jobs"]:
        need.update(job.get("require", {}))
    missing = {k: v for k, v in need.items() if res.counters.get(k, 0) < v}
    cov = {
        "evaluations": evals, "distinct_nontrivial": len(res.distinct), "rule": spec["rule"],
        "samples": res.samples or ["(none)"], "observed": dict(sorted(res.counters.items())),
        "inconclusive": len(res.inconclusive), "inconclusive_detail": res.inconclusive[:10],
    }
    ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1)
    obs = ", ".join(f"{k}={v}" for k, v in sorted(res.counters.items())[:40])
    print(f"{a.prop} [{tier} seed={a.seed}] {wall:.1f}s observed: {obs}; distinct={len(res.distinct)} inconclusive={len(res.inconclusive)}")
    if violations:
        for key, detail, path in violations:
            print(f"  {key}: {detail[:700]}")
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if res.harness_errors:
        print("HARNESS-ERROR " + "\n".join(res.harness_errors[:3]), file=sys.stderr)
        return 2
    if evals == 0 or not res.distinct or missing:
        print(f"INCONCLUSIVE: observed nothing useful (missing: {missing})", file=sys.stderr)
        return 2
    if len(res.inconclusive) > max(20, evals // 20):
        print(f"INCONCLUSIVE: {len(res.inconclusive)} cases without a verdict: {res.inconclusive[:3]}", file=sys.stderr)
        return 2
    return 0

def replay(path):
    d = json.load(open(path))
    r = d["replay"]
    print(f"{d['property']} {d['key']}\n{d['detail'][:3000]}")
    if "mode" not in r:
        print("no driver replay; see detail"); return 0
    exe = build.driver(r["flavour"], build.ALT.get(r["mode"], "driver"))
    with tempfile.TemporaryDirectory(dir=build.BUILD) as scratch:
        args = [r["mode"], str(r["seed"]), str(r["case"]), "1", str(r["case"] + 1), os.path.join(scratch, "out"), "-", "120" if r["flavour"] != "memcheck" else "1200"]
        rc = subprocess.run(command(r["flavour"], exe, args), env=env_for(r["flavour"], scratch), cwd=scratch).returncode
        txt = open(os.path.join(scratch, "out")).read()
        if not rc and '"fail"' not in txt and r["case"] > r.get("start", 0):
            # not on its own: repeat what its process had done before
            args[2:5] = [str(r["start"]), str(r["step"]), str(r["case"] + 1)]
            rc = subprocess.run(command(r["flavour"], exe, args), env=env_for(r["flavour"], scratch), cwd=scratch, stderr=subprocess.DEVNULL).returncode
            txt = open(os.path.join(scratch, "out")).read()
    print("rc", rc)
    return 1 if rc or '"fail"' in txt else 0

if __name__ == "__main__":
    sys.exit(main())
