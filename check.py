#!/usr/bin/env python3
"""Decide one property: build the real crate with its harness, execute the harness symbolically over
the compiler's LLVM IR (engine/), replay any counterexample natively, write the evidence file."""
import concurrent.futures as cf, fcntl, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
ENGINE = os.path.join(BUILD, "engine", "release", "llsym")
DRIVER = os.path.join(BUILD, "driver")
LEVEL = "model_checking"


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_OPT_LEVEL"):
        e.pop(k, None)
    return e


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".tools-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "engine"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("engine build failed:\n" + r.stdout[-4000:])
        src = os.path.join(V, "driver", "driver.c")
        if not os.path.exists(DRIVER) or os.path.getmtime(DRIVER) < os.path.getmtime(src):
            r = subprocess.run(["gcc", "-O1", "-w", "-rdynamic", src, "-o", DRIVER, "-ldl", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                die("driver build failed:\n" + r.stdout)


def directives(pid):
    entries, bounds, assume, stubs = [], [], [], []
    for l in open(os.path.join(V, "harness", pid + ".rs")):
        m = re.match(r"//@ (\w+): (.*)", l.strip())
        if not m:
            continue
        k, v = m.groups()
        if k == "entry":
            w = v.split()
            d = {"entry": w[0], "mode": "real", "time": "60", "query": "20", "shards": "1", "tier": "any", "cover": "end", "conc": "3"}
            for x in w[1:]:
                a, b = x.split("=", 1)
                d[a] = b
            entries.append(d)
        elif k == "bounds":
            bounds.append(v)
        elif k == "assume":
            assume.append(v)
        elif k == "stub":
            stubs.append(v)
    return entries, bounds, assume, stubs


def run_native(so, entry, model, extra=()):
    """returns (outcome, output): outcome in pass, assert, panic, assume, other"""
    d = tempfile.mkdtemp(prefix="visqol-replay-")
    try:
        try:
            r = subprocess.run([DRIVER, so, entry, model, "1" if TIER == "thorough" else "0", *extra], cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=120, errors="replace")
        except subprocess.TimeoutExpired:
            return "timeout", ""
        o = {0: "pass", 3: "assert", 4: "assume"}.get(r.returncode, "panic" if r.returncode < 0 else "other")
        return o, r.stdout, r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


FOUND = threading.Event()


def llsym(ll, so, d, out, shard, hurry):
    if hurry and FOUND.is_set():
        return {"verdict": "skipped", "undecided": [], "cex": [], "entry": d["entry"]}
    cmd = [ENGINE, ll, d["entry"], "--mode", d["mode"], "--time", d["time"], "--query", d["query"], "--out", out,
           "--tier", "1" if TIER == "thorough" else "0"]
    if d.get("merge") == "1":
        cmd += ["--merge"]
    if d.get("snap") == "1":
        cmd += ["--snap"]
    if d.get("nonzero") == "1":
        cmd += ["--nonzero"]
    if d.get("ideal") == "1":
        cmd += ["--ideal"]
    if shard:
        cmd += ["--shard", "%d/%d" % shard]
    if hurry:
        cmd += ["--hurry", "20"]
    t = time.time()
    lim = t + float(d["time"]) * 1.5 + 60
    with tempfile.TemporaryFile("w+") as err:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                if hurry and FOUND.is_set():
                    lim = min(lim, time.time() + 25)
                    hurry = False
                if time.time() > lim:
                    os.killpg(p.pid, 9)
                    p.wait()
                    break
        err.seek(0)
        errtxt = err.read()
    if p.returncode == -9 and not os.path.exists(out):
        return {"verdict": "undecided", "undecided": ["the engine did not stop"], "cex": [], "entry": d["entry"]}
    if not os.path.exists(out):
        return {"verdict": "undecided", "undecided": ["engine failure: " + errtxt[-1500:]], "cex": [], "entry": d["entry"]}
    j = json.load(open(out))
    j["wall"] = time.time() - t
    if "--hurry" in cmd:
        for k, c in enumerate(j["cex"]):
            p = out + ".%d.cex" % k
            write_model(p, "", d, c)
            if run_native(so, d["entry"], p)[0] in ("assert", "panic"):
                FOUND.set()
                break
    return j


def write_model(p, pid, d, c):
    with open(p, "w") as f:
        f.write("# property %s entry %s : %s: %s\n" % (pid, d["entry"], c["kind"], c["msg"]))
        f.write("# native replay: %s <harness .so of this check> %s <this file>\n" % (DRIVER, d["entry"]))
        for n, v in c["model"] + c["picks"]:
            f.write("%s %s\n" % (n, v))


def concrete_validate(ll, so, d, wd, k):
    """run one random input natively and through the translator; compare all observed values bit for bit"""
    base = os.path.join(wd, "conc-%s-%d" % (d["entry"], k))
    empty = base + ".empty"
    open(empty, "w").close()
    r = run_native(so, d["entry"], empty, ("random", str(SEED * 1000 + k), base + ".model"))
    if r[0] in ("timeout", "other"):
        return None
    nat = [l for l in r[1].splitlines() if l.startswith("TRACE ")]
    if r[0] == "assume":
        return None
    out = base + ".json"
    subprocess.run([ENGINE, ll, d["entry"], "--mode", d["mode"], "--time", "60", "--concrete", base + ".model", "--out", out,
                    "--tier", "1" if TIER == "thorough" else "0"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=150)
    if not os.path.exists(out):
        return "the translator failed on a concrete run of %s" % d["entry"]
    j = json.load(open(out))
    panicked = any(n.startswith("panic:") for n in j["notes"])
    if r[0] == "panic":
        return True if panicked else "native run panics, translated run does not (%s)" % base
    if panicked or j["undecided"]:
        return "translated run of %s: %s" % (d["entry"], (j["notes"] + j["undecided"])[:2])
    eng = ["TRACE %s %s" % (n, v) for n, v in (j["traces"][0] if j["traces"] else [])]
    tol = float(d.get("ctol", "0"))

    def same(a, b):
        if a == b or not tol:
            return a == b
        x, y = (struct.unpack(">d", bytes.fromhex(l.split()[-1]))[0] for l in (a, b))
        return abs(x - y) <= tol

    if eng != nat:
        for a, b in zip(eng, nat):
            if not same(a, b):
                return "values differ between the real build and its translation: %s / %s" % (b, a)
        if len(eng) != len(nat):
            return "trace lengths differ: %d / %d" % (len(nat), len(eng))
    return (len(nat),)


def known(pid):
    f = os.path.join(V, "known_findings.txt")
    res = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"KNOWN property=(\S+) entry=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append(m.groups()[1:])
    return res


def main():
    t0 = time.time()
    pid = sys.argv[1]
    build_tools()
    if pid == "--setup":
        # warm the dependency cache with one harness build
        out = os.path.join(BUILD, "C02")
        r = subprocess.run([os.path.join(V, "build_harness.sh"), "C02", out], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(r.stdout[-2000:])
        sys.exit(1 if r.returncode else 0)
    out = os.path.join(BUILD, pid)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if f.endswith((".json", ".cex")) or f.startswith("conc-") or f.startswith("h."):
            os.unlink(os.path.join(out, f))
    evd = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
    rep = os.path.join(evd, "replay")
    os.makedirs(rep, exist_ok=True)
    e = env()
    r = subprocess.run([os.path.join(V, "build_harness.sh"), pid, out], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        die("building /repo with the harness failed:\n" + r.stdout[-6000:])
    tb = time.time() - t0
    ll, so = os.path.join(out, "h.ll"), os.path.join(out, "h.so")
    entries, bounds, assume, stubs = directives(pid)
    entries = [d for d in entries if d["tier"] in ("any", TIER)]
    only = os.environ.get("VERIF_ENTRY")
    if only:
        entries = [d for d in entries if d["entry"] == only]
    for d in entries:
        if TIER == "thorough" and "ttime" in d:
            d["time"] = d["ttime"]
        if TIER == "thorough" and "tquery" in d:
            d["query"] = d["tquery"]
    jobs = []
    for d in entries:
        n = int(d["shards"])
        for i in range(n):
            jobs.append((d, (i, n) if n > 1 else None))
    jobs.sort(key=lambda j: -float(j[0]["time"]))
    hurry = not known(pid)
    results = []
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [(d, s, ex.submit(llsym, ll, so, d, os.path.join(out, "%s-%s.json" % (d["entry"], s[0] if s else 0)), s, hurry)) for d, s in jobs]
        cs = [(d, ex.submit(concrete_validate, ll, so, d, out, k)) for d in entries for k in range(int(d["conc"]))]
        for d, s, f in fs:
            results.append((d, f.result()))
        conc = [(d, f.result()) for d, f in cs]
    bad, undecided, knowns, unrep = [], [], [], []
    ncex = 0
    kf = known(pid)
    for d, j in results:
        got = 0
        for c in j["cex"]:
            ncex += 1
            p = os.path.join(rep, "%s-%d.txt" % (pid, ncex))
            write_model(p, pid, d, c)
            o = run_native(so, d["entry"], p)
            if o[0] in ("assert", "panic"):
                got += 1
                txt = "%s: %s" % (d["entry"], c["msg"])
                k = [x for x in kf if x[0] == d["entry"] and x[1] in c["msg"]]
                if k:
                    knowns.append(k[0][2])
                else:
                    bad.append((p, txt, o[2].strip()[-600:]))
            else:
                unrep.append("%s: %s (native replay: %s, model %s)" % (d["entry"], c["msg"], o[0], p))
        for u in j.get("undecided", []):
            undecided.append("%s: %s" % (d["entry"], u))
        # (a shard whose cases are all excluded by assumptions completes no path)
        if j["verdict"] == "undecided" and not j.get("undecided") and int(d["shards"]) == 1:
            undecided.append("%s: no path was completed" % d["entry"])
    # vacuity: the end of every entry is reachable
    for d in entries:
        js = [j for x, j in results if x is d and j["verdict"] != "skipped"]
        for c in (d["cover"].split(",") if js else []):
            if c and not any(c in j.get("covers", {}) for j in js) and not any(j["cex"] for j in js):
                undecided.append("%s: location %r was never reached (vacuous)" % (d["entry"], c))
    nval = sum(1 for d, c in conc if c is True or isinstance(c, tuple))
    nvals = sum(c[0] for d, c in conc if isinstance(c, tuple))
    for d, c in conc:
        if isinstance(c, str):
            undecided.append("translation validation: " + c)
    js = [j for _, j in results]
    tot = lambda k: sum(j.get(k, 0) for j in js)
    funcs = {}
    for j in js:
        for k, v in j.get("functions", {}).items():
            if "visqol_rs::" in k and "::verif" not in k:
                funcs[k] = max(v, funcs.get(k, 0))
    solv = {}
    for j in js:
        for k, v in j.get("by_solver", {}).items():
            solv[k] = solv.get(k, 0) + v
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": LEVEL,
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": nval,
            "samples": [{"entry": j.get("entry"), "mode": j.get("mode"), "verdict": j["verdict"], "paths": j.get("paths"), "infeasible_branches": j.get("infeasible"),
                         "assertions": j.get("asserts"), "by_simplification": j.get("asserts_by_simplification"), "by_solver": j.get("asserts_by_solver"),
                         "queries": j.get("queries"), "solver_s": round(j.get("solver_s", 0), 2), "time_s": round(j.get("time_s", 0), 2), "covers": j.get("covers")} for j in js],
            "states_meaning": "completed symbolic paths (each stands for all inputs satisfying its path condition)",
            "transitions_meaning": "LLVM IR instructions executed symbolically",
            "values_compared_in_validation": nvals,
            "bounds": bounds, "stubs": stubs, "functions_encoded": funcs,
            "solver_queries": tot("queries"), "solver_seconds": round(tot("solver_s"), 2), "decided_by": solv,
            "assertions": tot("asserts"), "panic_sites_found_unreachable": tot("panics_checked"),
            "undecided": undecided[:20], "build_s": round(tb, 1), "exhaustive": False,
        },
        "assumptions": assume, "wall_s": round(time.time() - t0, 1), "violations": len(bad),
    }
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for k in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    seen = set()
    for p, m, o in bad:
        if m in seen:
            continue
        seen.add(m)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  " + m)
        for l in o.splitlines()[:6]:
            print("    | " + l)
    for u in unrep[:5]:
        print("counterexample did not reproduce: " + u)
    for u in undecided[:10]:
        print("undecided: " + u)
    print("%s: %d paths, %d assertions, %d queries, %.1fs solver, %d validated runs, %.1fs build, %.1fs total" % (
        pid, tot("paths"), tot("asserts"), tot("queries"), tot("solver_s"), nval, tb, time.time() - t0))
    if bad:
        sys.exit(1)
    if undecided or unrep:
        sys.exit(2)
    sys.exit(0)


main()
