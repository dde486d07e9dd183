#!/usr/bin/env python3
"""Run the check of one property: compile its monitors against /repo, run them, judge, write evidence.
exit 0 held / 1 violation (VIOLATION line) / 2 harness error or inconclusive."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
BASE = ["-g1", "-fno-omit-frame-pointer", "-w", "-ftemplate-depth=2048", "-fconstexpr-depth=4096", "-fmax-errors=5"]

def limits(cpu, mem=0):
    def f():
        try:
            soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
            want = 1 << 30
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
        except Exception: pass
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def clean_env(extra):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR")}
    e.update(LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:symbolize=1",
             UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
    e.update(extra)
    return e

def compile_unit(u, bdir):
    """-> dict(ok, bin, kind, log, secs)"""
    t0 = time.time()
    cxx = u.get("cxx", "g++")
    flags = ["-std=" + u.get("std", "c++17"), u.get("opt", "-O0")] + BASE + (SAN if u.get("san", True) else []) + u.get("flags", [])
    flags += ["-D" + d for d in u.get("defs", [])]
    flags += ["-I" + REPO, "-I" + os.path.join(V, "lib"), "-I" + os.path.dirname(u["path"])]
    link = u.get("link", [])
    try:
        pre = subprocess.run([cxx] + flags + ["-E", "-P", u["path"]], capture_output=True, env=clean_env({}), timeout=300)
        key = None
        if pre.returncode == 0:
            key = hashlib.sha256(pre.stdout + b"\0" + " ".join([cxx] + flags + link).replace(bdir, "").encode()).hexdigest()[:32]
            out = os.path.join(V, "build", "cache", key)
            if os.path.exists(out) and not os.environ.get("VERIF_NOCACHE"):
                os.utime(out)
                return dict(ok=True, bin=out, log="", secs=time.time() - t0, cached=True)
        else:
            return dict(ok=False, kind="preprocess", log=pre.stderr.decode(errors="replace"), secs=time.time() - t0)
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + flags + ["-o", tmp, u["path"]] + link, capture_output=True, env=clean_env({}), timeout=800, preexec_fn=limits(600, 10 << 30))
    except subprocess.TimeoutExpired:
        return dict(ok=False, kind="timeout", log="compiler timeout", secs=time.time() - t0)
    log = r.stderr.decode(errors="replace")
    if r.returncode != 0:
        kind = "error"
        if r.returncode < 0 or "internal compiler error" in log or "Killed" in log or "cannot allocate" in log or "No space" in log or not re.search(r"error:", log):
            kind = "tool"
        return dict(ok=False, kind=kind, log=log, secs=time.time() - t0)
    os.replace(tmp, out)
    return dict(ok=True, bin=out, log=log, secs=time.time() - t0, cached=False)

def run_test(job, tier, seed, bdir, cpu):
    u, bin_, test, n = job
    base = os.path.join(bdir, "run%d" % n)
    outf, shf = base + ".json", base + ".sh"
    for f in (outf, shf):
        if os.path.exists(f): os.unlink(f)
    env = clean_env(dict(VERIF_SEED=str(seed), VERIF_TIER=tier, MON_OUT=outf, MON_SHARED=shf))
    if not u.get("uar", True): env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("use_after_return=1", "use_after_return=0")  # its bookkeeping costs ~1 ms per exception
    t0 = time.time(); hang = False
    with open(base + ".log", "wb") as lf:
        try:
            r = subprocess.run([bin_, test], stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=env, timeout=cpu * 6, preexec_fn=limits(cpu), cwd=bdir)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc, hang = -999, True
    if rc in (-24, -9): hang = True
    rep = None
    if os.path.exists(outf):
        try: rep = json.load(open(outf))
        except Exception: rep = None
    op = ""
    if os.path.exists(shf):
        b = open(shf, "rb").read(); op = b[:256].split(b"\0")[0].decode(errors="replace")
        ev = int.from_bytes(b[256:264], "little") if len(b) >= 264 else 0
    else: ev = 0
    return dict(unit=u, test=test, rc=rc, hang=hang, rep=rep, op=op, ev=ev, log=base + ".log", secs=time.time() - t0, bin=bin_)

def san_summary(log):
    t = open(log, errors="replace").read()
    m = re.search(r"runtime error: (.*)", t)
    if m:
        loc = re.search(r"(\S+/sprout/\S+?):\d+", t)
        return "ubsan: " + m.group(1)[:160] + (" at " + re.sub(r"^.*?/sprout/", "sprout/", loc.group(1)) if loc else ""), t[-4000:]
    m = re.search(r"ERROR: AddressSanitizer:? (\S+)", t)
    if m:
        loc = re.search(r"(\S+/sprout/\S+?):\d+", t)
        return "asan: " + m.group(1) + (" at " + re.sub(r"^.*?/sprout/", "sprout/", loc.group(1)) if loc else ""), t[-6000:]
    m = re.search(r"terminate called.*(?:\n.*what.*)?", t)
    if m: return m.group(0)[:200], t[-3000:]
    return "", t[-3000:]

def load_known(pid):
    r = []
    f = os.path.join(V, "known-findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"): continue
            k = json.loads(line)
            if k["property"] == pid: r.append(k)
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--unit"); ap.add_argument("--test"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier, seed = a.id, a.tier, a.seed
    t0 = time.time()
    cdir = os.path.join(V, "checks", pid)
    suite = json.load(open(os.path.join(cdir, "suite.json")))
    bdir = os.path.join(V, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    os.makedirs(os.path.join(V, "build", "cache"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    units = []
    for u in suite["units"]:
        if u.get("tier") and u["tier"] != tier: continue
        if "gen" in u:
            gdir = os.path.join(bdir, "gen_" + u["name"]); os.makedirs(gdir)
            r = subprocess.run([sys.executable, os.path.join(cdir, u["gen"]), gdir, str(seed), tier] + u.get("gen_args", []), capture_output=True, text=True)
            if r.returncode:
                print("harness error: generator failed", r.stderr); sys.exit(2)
            for f in sorted(os.listdir(gdir)):
                if f.endswith(".cpp"):
                    for std in u.get("stds", ["c++11", "c++17"]):
                        units.append(dict(u, name=f"{u['name']}.{f[:-4]}.{std}", std=std, path=os.path.join(gdir, f)))
        else:
            for std in u.get("stds", ["c++17"]):
                for shard in (range(u["shards"]) if "shards" in u else [None]):
                    n = u["name"] + "." + std + ("" if shard is None else ".%d" % shard)
                    d = u.get("defs", []) + ([] if shard is None else ["MON_SHARD=%d" % shard])
                    units.append(dict(u, name=n, std=std, defs=d, path=os.path.join(cdir, u["src"])))
    if a.unit: units = [u for u in units if a.unit in u["name"]]
    violations, errors, known_hit = [], [], []
    known = load_known(pid)
    def violate(key, detail, extra):
        for k in known:
            if k["key"] == key and re.search(k.get("match", ""), detail, re.S):
                known_hit.append((k, detail)); return
        violations.append(dict(key=key, detail=detail, **extra))
    # compile
    comp_s = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda u: compile_unit(u, bdir), units))
    comp_s = time.time() - comp_s
    jobs = []
    for u, r in zip(units, res):
        if a.v: print(f"  compile {u['name']}: {r['secs']:.1f}s {'cached' if r.get('cached') else ''} {'' if r['ok'] else 'FAIL ' + r['kind']}")
        if not r["ok"]:
            if r["kind"] in ("error", "preprocess"):
                m = re.search(r"^.*error:.*$", r["log"], re.M)
                violate("compile:" + u["name"], (m.group(0) if m else r["log"][:300]), dict(unit=u["name"], test="", log=r["log"][-6000:]))
            else:
                errors.append(f"compile {u['name']}: {r['kind']}: {r['log'][-800:]}")
            continue
        ls = subprocess.run([r["bin"], "--list"], capture_output=True, text=True, env=clean_env({}))
        tl = ls.stdout.split()
        if not tl: errors.append(f"no tests in {u['name']}: {ls.stderr[-500:]}")
        for t in tl:
            if a.test and a.test not in t: continue
            jobs.append((u, r["bin"], t, len(jobs)))
    # run
    cpu = suite.get("cpu", 40) * (6 if tier == "thorough" else 1)
    run_s = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        out = list(ex.map(lambda j: run_test(j, tier, seed, bdir, cpu), jobs))
        # a hang is re-run once, alone
    for i, o in enumerate(out):
        if o["hang"]: out[i] = run_test(jobs[i], tier, seed, bdir, cpu)
    run_s = time.time() - run_s
    ops, events, distinct, nontriv, counters = {}, 0, 0, 0, {}
    for o in out:
        u = o["unit"]; where = dict(unit=u["name"], test=o["test"])
        if a.v: print(f"  run {u['name']}/{o['test']}: rc={o['rc']} {o['secs']:.1f}s ev={o['rep']['events'] if o['rep'] else '-'}")
        rep = o["rep"]
        if rep:
            events += rep["events"]; distinct += rep["distinct"]; nontriv += rep["nontrivial"]
            for k, v in rep["counters"].items(): counters[k] = counters.get(k, 0) + v
            for q in rep["ops"]:
                d = ops.setdefault(q["op"], dict(events=0, samples=[]))
                d["events"] += q["events"]
                if len(d["samples"]) < 2: d["samples"] += q["samples"][:1]
                for det in q["details"]: violate(q["op"], det, where)
                if q["fails"] and not q["details"]: violate(q["op"], "failed", where)
        if o["hang"]:
            violate(o["op"] or o["test"], f"hang: no result within {cpu}s CPU (re-run once), after {o['ev']} events", where)
        elif rep and rep["exception"]:
            violate(o["op"] or o["test"], "unexpected exception: " + rep["exception"], where)
        elif o["rc"] != 0:
            s, t = san_summary(o["log"])
            if o["rc"] in (126, 127) or (not s and not o["op"]):
                errors.append(f"run {u['name']}/{o['test']} rc={o['rc']}: {t[-500:]}")
            else:
                violate(o["op"] or o["test"], f"crash rc={o['rc']} {s} after {o['ev']} events", dict(where, log=t))
        elif not rep or not rep["done"] or rep["events"] == 0:
            errors.append(f"inconclusive: {u['name']}/{o['test']} observed nothing")
    wall = time.time() - t0
    samples = []
    for k in sorted(ops):
        for s in ops[k]["samples"]:
            samples.append(s)
    step = max(1, len(samples) // 40)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=events, distinct_nontrivial=nontriv,
                            rule="one evaluation = one monitored execution of an operation of the real code judged by an oracle; distinct = distinct (operation, input) pairs by 64-bit hash within a test; non-trivial = some sequence argument has at least two elements or some scalar/other argument is non-zero",
                            distinct=distinct, operations={k: ops[k]["events"] for k in sorted(ops)}, counters=counters,
                            programs_compiled=len(units), test_processes=len(out), compile_s=round(comp_s, 1), run_s=round(run_s, 1),
                            units=[u["name"] for u in units], samples=samples[::step][:60]),
              assumptions=suite.get("assumptions", []) + ["g++ 13 sanitizers, libstdc++/glibc/Boost oracles", "held on the executions observed only"],
              wall_s=round(wall, 2), violations=len(violations))
    if not (a.unit or a.test):
        json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    seen = set()
    for k, d in known_hit:
        if k["what"] not in seen:
            seen.add(k["what"]); print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier} seed={seed}: {len(units)} programs, {len(out)} test processes, {events} events, {nontriv} distinct non-trivial, {len(ops)} operations; compile {comp_s:.0f}s run {run_s:.0f}s")
    old = os.path.join(V, "build", "replay", pid + ".txt")
    if os.path.exists(old): os.remove(old)
    if violations:
        rdir = os.path.join(V, "build", "replay"); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}.txt")
        byk = {}
        for v in violations: byk.setdefault(v["key"], []).append(v)
        with open(path, "w") as f:
            f.write(f"property {pid} seed {seed} tier {tier}\n")
            for k, vs in byk.items():
                v = vs[0]
                f.write(f"\n== {k} ({len(vs)} reports)\nreplay: VERIF_SEED={seed} python3 tools/run.py {pid} --tier {tier} --unit {v['unit']}" + (f" --test {v['test']}" if v['test'] else "") + "\n")
                for x in vs[:12]: f.write("  " + x["unit"] + "/" + x["test"] + ": " + x["detail"] + "\n")
                if v.get("log"): f.write(v["log"] + "\n")
        for k, vs in list(byk.items())[:40 if not a.v else 400]:
            print(f"  [{k}] x{len(vs)} {vs[0]['detail'][:400]}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if errors:
        for e in errors: print("harness error:", e)
        sys.exit(2)
    sys.exit(0)
main()
