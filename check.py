#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: builds the harness together with /repo's current tree to
LLVM IR, executes it symbolically (engine/), replays every counterexample and a
witness of every explored path on a native build of the same tree, and writes
evidence/<PROPERTY>.json.  Exit 0: held; 1: violated; 2: no answer."""
import collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get("SYMEX_BUILD", V + "/.build")
NCPU = os.cpu_count() or 4
T0 = time.time()


def sh(cmd, log, env=None, cwd=V):
    e = dict(os.environ, **(env or {}))
    with open(log, "w") as f:
        return subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT).returncode


def tree_hash():
    h = hashlib.sha256()
    for root in ("/repo/src", "/repo/protobuf", V + "/harness/src", V + "/engine/src"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in ("/repo/Cargo.toml", "/repo/build.rs", V + "/harness/Cargo.toml", V + "/harness/Cargo.lock", V + "/engine/Cargo.toml", V + "/scripts/build_ir.sh"):
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def build():
    """engine, LLVM IR and native replay binary, all from the current trees"""
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hsh = tree_hash()
        stamp = B + "/stamp"
        if os.path.exists(stamp) and open(stamp).read() == hsh and os.path.exists(B + "/all.ll"):
            return True, 0.0
        if os.path.exists(stamp):
            os.remove(stamp)
        t = time.time()
        rc = {}

        def run(name, *a, **k):
            rc[name] = sh(*a, **k)

        th = [
            threading.Thread(target=run, args=("ir", ["bash", V + "/scripts/build_ir.sh"], B + "/log.ir")),
            threading.Thread(target=run, args=("engine", ["cargo", "build", "--release", "--offline", "--locked"], B + "/log.engine"), kwargs=dict(env={"RUSTUP_TOOLCHAIN": "stable", "CARGO_TARGET_DIR": B + "/engine"}, cwd=V + "/engine")),
            threading.Thread(target=run, args=("native", ["cargo", "build", "--profile", "native", "--offline", "--locked"], B + "/log.native"), kwargs=dict(env={"RUSTUP_TOOLCHAIN": "nightly", "CARGO_TARGET_DIR": B + "/nat"}, cwd=V + "/harness")),
        ]
        [x.start() for x in th]
        [x.join() for x in th]
        if any(rc.values()):
            for k in ("ir", "engine", "native"):
                if rc[k]:
                    print(f"build of {k} failed:", open(f"{B}/log.{k}").read()[-3000:])
            return False, time.time() - t
        if tree_hash() == hsh:
            open(stamp, "w").write(hsh)
        return True, time.time() - t
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


NATIVE = B + "/nat/native/harness"


class Replayer:
    """replays (h, t, hex) on the native build; survives crashes and hangs"""

    def __init__(self, deadline=None):
        self.deadline = deadline
        self.n = 0
        self.env = None

    def run(self, items, show=False):
        """list of result dicts, in order; None where the time ran out"""
        nproc = min(NCPU, max(1, len(items) // 50))
        res = [None] * len(items)

        def work(k):
            idx = list(range(k, len(items), nproc))
            while idx:
                if self.deadline and time.time() > self.deadline:
                    return
                idx = self.batch(items, idx, res, show)

        ts = [threading.Thread(target=work, args=(k,)) for k in range(nproc)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        self.n += sum(r is not None for r in res)
        return res

    def batch(self, items, idx, res, show):
        p = subprocess.Popen([NATIVE, "replay"] + (["--show"] if show else []), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=self.env)
        feed = "".join("%d %d %s\n" % items[i] for i in idx)

        def w():
            try:
                p.stdin.write(feed)
                p.stdin.close()
            except OSError:
                pass

        threading.Thread(target=w, daemon=True).start()
        done = 0
        state = {"t": time.time(), "hang": False}

        def watch():
            while p.poll() is None:
                time.sleep(0.5)
                if time.time() - state["t"] > 20 or (self.deadline and time.time() > self.deadline + 25):
                    state["hang"] = True
                    p.kill()
                    return

        threading.Thread(target=watch, daemon=True).start()
        for line in p.stdout:
            try:
                r = json.loads(line)
            except ValueError:
                break
            res[idx[done]] = r
            done += 1
            state["t"] = time.time()
        p.wait()
        if done < len(idx):
            res[idx[done]] = {"status": "hang" if state["hang"] else "crash", "msg": "no answer in 20 s" if state["hang"] else f"process ended with {p.returncode}", "outs": [], "covers": "0", "notes": []}
            done += 1
        return idx[done:]


BAD = ("assert", "panic", "crash", "hang")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    h = int(prop[1:])
    ok, build_s = build()
    if not ok:
        print("NO ANSWER: the harness does not build against /repo")
        return 2
    listed = subprocess.run([NATIVE, "list"], capture_output=True, text=True, check=True).stdout.splitlines()
    jobs = [j for j in map(json.loads, listed) if j["h"] == h and (tier == "thorough" or j["tier"] == 0)]
    if not jobs:
        print("NO ANSWER: no jobs for", prop)
        return 2
    jn = {j["name"]: j for j in jobs}
    # budget: what is left of the time a quick check has, less replay
    limit = float(os.environ.get("CHECK_LIMIT", "780" if tier == "quick" else "7200"))
    budget = max(60.0, limit - (time.time() - T0) - 60)
    if tier == "quick":
        budget = min(budget, 420)
    out = tempfile.mkdtemp(prefix="symex-", dir=B)
    try:
        with open(out + "/jobs", "w") as f:
            for j in jobs:
                f.write(f"{j['name']} h_entry {seed} {j['h']} {j['t']}\n")
        t1 = time.time()
        cmd = [B + "/engine/release/symex", "--ll", B + "/all.ll", "--jobs", out + "/jobs", "--procs", str(NCPU), "--out", out, "--deadline", str(int(budget)), "--max-viol", "24"]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget + 90)
            crashed = p.returncode != 0
            tail = p.stderr[-2000:]
        except subprocess.TimeoutExpired:
            crashed, tail = True, "symex did not stop at its deadline"
        sym_s = time.time() - t1
        recs, st, used = [], collections.Counter(), set()
        for fn in sorted(glob.glob(out + "/res.*.jsonl")):
            for l in open(fn):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d["t"] == "stats":
                    for k, v in d.items():
                        if isinstance(v, int):
                            st[k] = max(st[k], v) if k.startswith("max") else st[k] + v
                    used.update(d.get("used", []))
                else:
                    recs.append(d)
        return report(prop, tier, seed, jobs, jn, recs, st, used, crashed, tail, build_s, sym_s)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def report(prop, tier, seed, jobs, jn, recs, st, used, crashed, tail, build_s, sym_s):
    rp = Replayer(deadline=time.time() + 150)
    paths = [d for d in recs if d["t"] == "path"]
    viols = [d for d in recs if d["t"] == "viol"]
    incs = [d for d in recs if d["t"] == "inc"]
    t1 = time.time()
    item = lambda d: (jn[d["job"]]["h"], jn[d["job"]]["t"], d.get("bytes", ""))
    # counterexamples first, then every incomplete path's input, then path witnesses
    cand = viols + [d for d in incs if "bytes" in d] + paths
    cap = 30000
    if len(cand) > cap:
        head = len(cand) - len(paths)
        step = max(1, len(paths) // (cap - min(head, cap - 1)))
        cand = cand[:head][: cap - 1] + paths[::step]
    res = rp.run([item(d) for d in cand])
    # what depends on the seeds of the hash tables may take many runs to show natively
    retry = [i for i, (d, r) in enumerate(zip(cand, res)) if d["t"] == "viol" and r and r["status"] not in BAD][:16]
    if retry:
        rp.env = dict(os.environ, HARNESS_REPS="400")
        for i, r in zip(retry, rp.run([item(cand[i]) for i in retry])):
            if r:
                res[i] = r
    confirmed, unconfirmed, mismatch, validated = [], [], [], 0
    for d, r in zip(cand, res):
        if r is None:
            continue
        if r["status"] in BAD:
            confirmed.append((d, r))
        elif d["t"] == "viol":
            unconfirmed.append((d, r))
        elif d["t"] == "path":
            if r["status"] != "ok" or r["outs"] != d["outs"] or int(r["covers"], 16) != int(d["covers"], 16):
                mismatch.append((d, r))
            else:
                validated += 1
    replay_s = time.time() - t1
    # vacuity: markers the harness promises to reach
    cov = collections.defaultdict(int)
    per = collections.Counter()
    asserts = collections.Counter()
    for d in paths:
        cov[d["job"]] |= int(d["covers"], 16)
        per[d["job"]] += 1
        asserts[d["job"]] += d.get("asserts", 0)
    # distinct violations, known findings
    known = [k for k in load_known() if k["property"] == prop]
    fresh, known_hit = {}, {}
    for d, r in confirmed:
        k = next((k for k in known if re.fullmatch(k["job"], d["job"]) and re.search(k["message"], r["msg"])), None)
        key = (d["job"], r["status"], r["msg"])
        (known_hit if k else fresh).setdefault(key, (d, r, k))
    os.makedirs(V + "/evidence", exist_ok=True)
    samples = []
    pick = paths[:: max(1, len(paths) // 6)][:6]
    shown = rp.run([item(d) for d in pick], show=True) if pick else []
    for d, r in zip(pick, shown):
        if r:
            samples.append({"job": d["job"], "solver_input_bytes": d["bytes"], "input": r.get("notes", [])[:3], "observed": r["outs"][:12], "asserts_on_path": d.get("asserts", 0)})
    done_jobs = []
    open_jobs = {d["job"] for d in incs}
    for j in jobs:
        done_jobs.append({"job": j["name"], "bounds": j["note"], "paths": per[j["name"]], "assertions": asserts[j["name"]], "exhausted_within_bounds": j["name"] not in open_jobs and per[j["name"]] > 0, "markers": hex(cov[j["name"]])})
    lima = sorted(f for f in used if "beancount_parser_lima" in f)
    files = {}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "wall_s": round(time.time() - T0, 1),
        "coverage": {
            "states": len(paths),
            "transitions": st["forks"],
            "traces_validated_against_impl": validated,
            "samples": samples,
            "symbolic_paths_completed": len(paths),
            "paths_incomplete": len(incs),
            "incomplete_reasons": dict(collections.Counter(d.get("msg", "")[:120] for d in incs).most_common(8)),
            "paths_pruned_infeasible": st["pruned"],
            "ir_instructions_executed": st["steps"],
            "solver": {"name": "z3", "queries": st["queries"], "sat": st["sat"], "unsat": st["unsat"], "unknown": st["unknown"], "cache_hits": st["cache_hits"], "time_s": round(st["solver_ms"] / 1000, 1), "assertions_evaluated": st["asserts"], "assertions_needing_solver": st["assert_queries"]},
            "functions_encoded": {"of_the_crate_under_test": len(lima), "all": len(used), "examples": [demangle(f) for f in lima[:40]]},
            "jobs": done_jobs,
            "native_replays": rp.n,
            "engine_native_mismatches": len(mismatch),
            "violations_not_reproduced_natively": len(unconfirmed),
            "symex_s": round(sym_s, 1),
            "build_s": round(build_s, 1),
            "replay_s": round(replay_s, 1),
        },
    }
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(paths)} paths, {len(incs)} incomplete, {st['queries']} queries, {st['solver_ms']/1000:.0f} s solver, {validated} witnesses validated, build {build_s:.0f} s, symex {sym_s:.0f} s, replay {replay_s:.0f} s")
    for d, r in mismatch[:5]:
        print("note: engine and native disagree on", d["job"], d["bytes"], r["status"], r["msg"], d["outs"][:20], r["outs"][:20])
    for d, r in unconfirmed[:5]:
        print("note: not reproduced natively:", d["job"], d.get("msg"), d["bytes"], r["status"])
    for j in done_jobs:
        if not j["exhausted_within_bounds"]:
            print("note: job not exhausted:", j["job"], j["paths"], "paths")
    for key, (d, r, k) in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if fresh:
        vs = list(fresh.values())
        rp.env = dict(os.environ, HARNESS_REPS="400")
        shown = rp.run([item(d) for d, _, _ in vs], show=True)
        path = f"{V}/evidence/{prop}.replay.json"
        rep = [{"property": prop, "job": d["job"], "h": jn[d["job"]]["h"], "t": jn[d["job"]]["t"], "bytes": d["bytes"], "status": r["status"], "message": r["msg"], "input": (s or {}).get("notes", []), "found_by": d["t"], "engine_message": d.get("msg", ""), "stack": d.get("stack", "")} for (d, r, _), s in zip(vs, shown)]
        with open(path, "w") as f:
            json.dump({"replay": f"echo '{rep[0]['h']} {rep[0]['t']} {rep[0]['bytes']}' | HARNESS_REPS=400 {NATIVE} replay --show", "violations": rep}, f, indent=1)
        for x in rep[:6]:
            print(f"  {x['job']}: {x['status']}: {x['message']}  input: {x['input']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not paths:
        print("NO ANSWER: no path completed", tail)
        return 2
    if crashed:
        print("note: the executor ended early:", tail[-400:])
    return 0


def demangle(f):
    # v0 / legacy names are left readable enough
    m = re.findall(r"\d+([A-Za-z_][A-Za-z0-9_]*)", f)
    return "::".join(x for x in m if not x.startswith("h") or len(x) < 17)[:160] or f[:160]


def load_known():
    p = V + "/known-findings.json"
    return json.load(open(p))["known"] if os.path.exists(p) else []


if __name__ == "__main__":
    sys.exit(main())
