#!/usr/bin/env python3
"""Deterministic-simulation checks for go-vite.

  check.py PROPERTY [--tier quick|thorough] [--budget SECONDS]
  check.py --replay FILE [-v]
  check.py --determinism PROPERTY [N]

Every run builds the simulator from /repo's working tree, explores seeds derived from VERIF_SEED in
parallel processes (one process = one case = one simulated execution), minimises the first violation
and writes it as a replay file. Exit 0: held on everything explored. Exit 1: violation, with a
VIOLATION line. Any other exit: the check itself is in trouble (build failure, watchdog, non-determinism).
"""
import sys, os, json, time, subprocess, threading, tempfile, shutil, re, queue, resource, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
AS_LIMIT = 14 << 30
CASE_TIMEOUT = 240


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Trouble(Exception):
    pass


class Runner:
    def __init__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="vsim-", dir=base)
        self.n = 0
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False

    def close(self):
        self.stop = True
        with self.lock:
            for p in list(self.procs):
                try:
                    p.kill()
                except OSError:
                    pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self):
        t = time.time()
        p = subprocess.run(["bash", os.path.join(HERE, "build.sh"), self.dir + "/build"], capture_output=True, text=True)
        if p.returncode != 0:
            raise Trouble("build failed:\n" + (p.stdout + p.stderr)[-4000:])
        self.bin = self.dir + "/build/vsim"
        log("built in %.1f s" % (time.time() - t))
        return time.time() - t

    def run(self, args, timeout=CASE_TIMEOUT):
        """One case in one process. Returns the result (a dict) or None when interrupted."""
        with self.lock:
            self.n += 1
            k = self.n
        scratch = "%s/s%d" % (self.dir, k)
        out = scratch + "/out.json"
        errf = "%s/e%d" % (self.dir, k)
        env = dict(os.environ, GOGC="off", GOTRACEBACK="all")
        for v in ("GOMAXPROCS", "GODEBUG", "GOMEMLIMIT"):
            env.pop(v, None)
        t = time.time()
        with open(errf, "wb") as ef:
            p = subprocess.Popen([self.bin, "-scratch", scratch] + args, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=self.dir,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT)))
            with self.lock:
                self.procs.add(p)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            with self.lock:
                self.procs.discard(p)
        err = open(errf, "rb").read()
        os.unlink(errf)
        if self.stop:
            shutil.rmtree(scratch, ignore_errors=True)
            return None
        r = None
        try:
            r = json.load(open(out))
        except (OSError, ValueError):
            pass
        shutil.rmtree(scratch, ignore_errors=True)
        if r is None:
            r = {"stats": {}, "faults": {}, "states": [], "hash": 0, "log": 0, "sim_ns": 0, "ticks": 0}
            txt = err.decode("utf8", "replace")
            v = death(txt)
            if v:
                r["violation"] = v
            elif rc == "timeout":
                r["error"] = "watchdog: the case ran over %d s" % timeout
            else:
                r["error"] = "process ended with %s and no result: %s" % (rc, txt[:1500])
        r["wall"] = time.time() - t
        return r

    def run_case(self, case, timeout=CASE_TIMEOUT):
        with self.lock:
            self.n += 1
            f = "%s/c%d.json" % (self.dir, self.n)
        json.dump(case, open(f, "w"))
        r = self.run(["-case", f], timeout)
        os.unlink(f)
        return r

    def gen(self, sim, profile, seed, thorough):
        f = "%s/g.json" % self.dir
        subprocess.run([self.bin, "-sim", sim, "-profile", profile, "-seed", str(seed), "-gen", "-out", f, "-scratch", self.dir + "/gs"] + (["-thorough"] if thorough else []), check=True, stdout=subprocess.DEVNULL, cwd=self.dir)
        return json.load(open(f))


def death(txt):
    """A process of the simulator that died is a violation only for causes that are deterministic
    verdicts about the code under test."""
    m = re.search(r"fatal error: (all goroutines are asleep - deadlock!|concurrent map[^\n]*|sync: [^\n]*|simulation: [^\n]*)", txt)
    if not m:
        return None
    what = m.group(1)
    if "concurrent map" in what:
        run = re.search(r"goroutine \d+[^\n]*running[^\n]*\n(?:(?:runtime|internal/runtime)[^\n]*\n\t[^\n]*\n)*([^\n]*)", txt)
        if not run or "zzverif" in run.group(1):
            return None  # the simulator's own mistake
    frames = [l.strip() for l in txt.splitlines() if "go-vite/v2/" in l and "zzverif" not in l and "(" in l][:8]
    cls = "deadlock" if "asleep" in what else "data-race" if "concurrent map" in what else "lock-misuse" if what.startswith("sync") else "no-progress"
    return {"class": cls, "msg": what + " | " + " <- ".join(re.sub(r"\(0x.*", "", f.split("/")[-1]) for f in frames)}


def viol_key(v):
    return v["class"]


# ------------------------------------------------------------------ minimisation

def drop_ops(case, keep):
    """keep: sorted list of op indexes. Faults address operations by index (field a)."""
    c = dict(case)
    pos = {o: i for i, o in enumerate(keep)}
    c["ops"] = [case["ops"][i] for i in keep]
    fs = []
    for f in case.get("faults") or []:
        a = f.get("a", 0)
        if a < 0 or a >= len(case["ops"]):
            if a >= len(case["ops"]):
                f = dict(f, a=len(c["ops"]) + a - len(case["ops"]))
            fs.append(f)
        elif a in pos:
            fs.append(dict(f, a=pos[a]))
    c["faults"] = fs
    return c


def minimise(R, case, viol, deadline):
    want = viol_key(viol)
    tries = [0]

    def fails(cands):
        """runs candidates in parallel; index of the first (in order) that still fails the same way"""
        if time.time() > deadline or not cands:
            return None
        res = [None] * len(cands)
        def work(i):
            res[i] = R.run_case(cands[i], 60)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(cands))]
        for t in ts: t.start()
        for t in ts: t.join()
        tries[0] += len(cands)
        for i, r in enumerate(res):
            if r and r.get("violation") and viol_key(r["violation"]) == want:
                return i
        return None

    # truncate after the failing op first, then delta debugging over ops and faults
    cur = case
    n = 2
    while len(cur["ops"]) > 1 and time.time() < deadline:
        ops = list(range(len(cur["ops"])))
        size = max(1, len(ops) // n)
        chunks = [ops[i:i + size] for i in range(0, len(ops), size)]
        chunks.reverse()
        hit = False
        for b in range(0, len(chunks), WORKERS):
            cands = [drop_ops(cur, [o for o in ops if o not in set(ch)]) for ch in chunks[b:b + WORKERS]]
            k = fails(cands)
            if k is not None:
                cur = cands[k]
                hit = True
                break
            if time.time() > deadline:
                break
        if hit:
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    i = len(cur.get("faults") or []) - 1
    while i >= 0 and time.time() < deadline:
        c = dict(cur, faults=cur["faults"][:i] + cur["faults"][i + 1:])
        if fails([c]) is not None:
            cur = c
        i -= 1
    s = cur.get("sched", {})
    for k, v in [("preempt", 0), ("yield", 0), ("fssleep", 0), ("fsyield", 0), ("mode", 3)]:
        if s.get(k) != v and time.time() < deadline:
            c = dict(cur, sched=dict(cur["sched"], **{k: v}))
            if fails([c]) is not None:
                cur = c
    for fi in range(len(cur.get("faults") or [])):
        for k in ("c", "b"):
            x = cur["faults"][fi].get(k, 0)
            while x > 0 and time.time() < deadline:
                nx = x // 2
                fs = [dict(f) for f in cur["faults"]]
                fs[fi][k] = nx
                c = dict(cur, faults=fs)
                if fails([c]) is None:
                    break
                cur, x = c, nx
    return cur, tries[0]


# ------------------------------------------------------------------ known findings

def known(prop):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and prop in m.group(1).split(","):
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def match_known(kn, v):
    for cls, rx, what in kn:
        if v["class"] == cls and rx.search(v["msg"]):
            return what
    return None


# ------------------------------------------------------------------ the check

def check(prop, tier, budget):
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    R = Runner()
    try:
        return check1(R, prop, P, tier, seed, budget, t0)
    finally:
        R.close()


def check1(R, prop, P, tier, seed, budget, t0):
    bs = R.build()
    thorough = tier == "thorough"
    if budget is None:
        budget = P.get("thorough_s", 600) if thorough else P.get("quick_s", 50)
    kn = known(prop)
    jobs = P["jobs"]  # (sim, profile, weight)
    agg = {"runs": 0, "wall": 0.0, "sim_ns": 0, "ticks": 0, "faults": {}, "stats": {}, "states": set(), "scheds": set(), "logs": set(), "per": {}, "samples": []}
    found, errors, knownhits = [], [], {}
    lock = threading.Lock()
    tot = sum(j[2] for j in jobs)
    cnt = [0] * len(jobs)
    maxcases = P.get("max_cases") if not thorough else None
    t1 = time.time()
    end = t1 + budget

    def nxt():
        # the job that is most behind its share of the running time
        with lock:
            if time.time() > end or found or len(errors) > 3 or (maxcases and sum(cnt) >= maxcases):
                return None
            k = min(range(len(jobs)), key=lambda i: (agg["per"].get(i, 0.0) + 0.05 * cnt[i] + (1e-9 * i)) / jobs[i][2])
            cnt[k] += 1
            agg["per"][k] = agg["per"].get(k, 0.0)
            return k, cnt[k]

    def worker():
        while True:
            j = nxt()
            if j is None:
                return
            k, i = j
            sim, prof, _ = jobs[k]
            s = seed * 10_000_000 + i
            args = ["-sim", sim, "-profile", prof, "-seed", str(s)] + (["-thorough"] if thorough else [])
            r = R.run(args)
            if r is None:
                return
            with lock:
                agg["runs"] += 1
                agg["wall"] += r["wall"]
                agg["per"][k] = agg["per"].get(k, 0.0) + r["wall"]
                agg["sim_ns"] += r["sim_ns"]
                agg["ticks"] += r["ticks"]
                for x in ("faults", "stats"):
                    for a, b in r[x].items():
                        agg[x][a] = agg[x].get(a, 0) + b
                for x in r.get("states") or []:
                    agg["states"].add((k, x))
                agg["scheds"].add(r["hash"])
                agg["logs"].add(r["log"])
                if len(agg["samples"]) < 3 * len(jobs) and i <= 3:
                    agg["samples"].append({"sim": sim, "profile": prof, "seed": s, "sim_s": round(r["sim_ns"] / 1e9, 3), "switches": r["ticks"], "faults": r["faults"], "stats": r["stats"]})
                if r.get("error"):
                    errors.append((sim, prof, s, r["error"]))
                elif r.get("violation"):
                    w = match_known(kn, r["violation"])
                    if w:
                        knownhits[w] = knownhits.get(w, 0) + 1
                    else:
                        found.append((sim, prof, s, r))

    ts = [threading.Thread(target=worker) for _ in range(WORKERS)]
    for t in ts: t.start()
    for t in ts: t.join()
    explore = time.time() - t1

    def evidence(nv):
        cov = {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["logs"]),
            "rule": "one evaluation is one simulated execution of a case generated from a seed (operations, faults, schedule policy); distinct: different event logs (operations, crashes, recoveries, outcomes, simulated times); every case performs operations against the real code and is checked against the model. " + P.get("rule", ""),
            "samples": agg["samples"][:9],
            "runs_per_hour": int(agg["runs"] / max(explore, 1e-9) * 3600),
            "seeds": {"%s/%s" % (j[0], j[1]): cnt[i] for i, j in enumerate(jobs)},
            "simulated_seconds": round(agg["sim_ns"] / 1e9, 1),
            "faults_injected": agg["faults"],
            "workload": {k: v for k, v in agg["stats"].items()},
            "distinct_schedules": len(agg["scheds"]),
            "schedule_measure": "hash over the sequence of (goroutine, simulated time) at every goroutine switch",
            "goroutine_switches": agg["ticks"],
            "distinct_states": len(agg["states"]),
            "state_measure": P.get("state_measure", "signature of the model state after each operation"),
            "real_code": P.get("real", []),
            "stubs": P.get("stubs", []),
            "known_findings_hit": knownhits,
            "build_s": round(bs, 1),
        }
        e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 1),
             "assumptions": P.get("assumptions", []), "violations": nv}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(e, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)

    if found:
        sim, prof, s, r = found[0]
        v = r["violation"]
        log("violation in %s/%s seed %d: %s: %s" % (sim, prof, s, v["class"], v["msg"][:1500]))
        case = r.get("case") or R.gen(sim, prof, s, thorough)
        r2 = R.run_case(case)
        if not (r2.get("violation") and viol_key(r2["violation"]) == viol_key(v) and r2["violation"]["msg"] == v["msg"]):
            evidence(0)
            raise Trouble("not reproducible: %s/%s seed %d gave %r, again %r" % (sim, prof, s, v, r2.get("violation") or r2.get("error")))
        m, tries = minimise(R, case, v, time.time() + (300 if thorough else 60))
        r3 = R.run_case(m)
        if not r3.get("violation") or viol_key(r3["violation"]) != viol_key(v):
            m, r3 = case, r2
        m = dict(m, expect=r3["violation"])
        os.makedirs(HERE + "/replays", exist_ok=True)
        f = HERE + "/replays/%s-%s-%s-%d.json" % (prop, sim, prof, s)
        json.dump({"property": prop, "case": m, "original_ops": len(case["ops"]), "trace": (r3.get("trace") or [])[-200:]}, open(f, "w"), indent=1)
        log("minimised from %d to %d operations and %d faults in %d runs: %s" % (len(case["ops"]), len(m["ops"]), len(m.get("faults") or []), tries, r3["violation"]["msg"][:1500]))
        evidence(1)
        for w in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  seed=%d class=%s %s" % (s, r3["violation"]["class"], r3["violation"]["msg"][:600].replace("\n", " | ")))
        return 1
    if errors:
        evidence(0)
        raise Trouble("%d case(s) in trouble, first: %s/%s seed %d: %s" % ((len(errors),) + errors[0]))
    if agg["runs"] < P.get("min_runs", 10):
        evidence(0)
        raise Trouble("only %d runs fitted in the budget" % agg["runs"])
    evidence(0)
    for _, _, w in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("OK property=%s runs=%d distinct=%d states=%d simulated=%.0fs faults=%s wall=%.0fs" % (prop, agg["runs"], len(agg["logs"]), len(agg["states"]), agg["sim_ns"] / 1e9, json.dumps(agg["faults"]), time.time() - t0))
    return 0


def replay(f, verbose):
    d = json.load(open(f))
    case = d["case"]
    R = Runner()
    try:
        R.build()
        r = R.run_case(case)
        v, e = r.get("violation"), case.get("expect")
        for l in r.get("trace") or []:
            if verbose:
                print(l)
        if v is None:
            print("no violation:", r.get("error") or "the run passed")
            return 0
        print("class=%s %s" % (v["class"], v["msg"]))
        print("exactly as recorded" if e and v["msg"] == e["msg"] and v["class"] == e["class"] else "differs from the record: %s" % e)
        print("VIOLATION property=%s replay=%s" % (d["property"], f))
        return 1
    finally:
        R.close()


def determinism(prop, n):
    """every seed twice, in different processes, at two worker counts"""
    R = Runner()
    bad = 0
    try:
        R.build()
        for sim, prof, _ in PROPS[prop]["jobs"]:
            first = {}
            for w in (8, 3):
                q = queue.Queue()
                for i in range(n):
                    q.put(900_000_000 + i)
                def work():
                    nonlocal bad
                    while True:
                        try:
                            s = q.get_nowait()
                        except queue.Empty:
                            return
                        r = R.run(["-sim", sim, "-profile", prof, "-seed", str(s)])
                        k = (r["hash"], r["log"], r["ticks"], r["sim_ns"], json.dumps(r.get("violation")), json.dumps(r["faults"], sort_keys=True))
                        if first.setdefault(s, k) != k:
                            bad += 1
                            print("DIFFERS", sim, prof, s, first[s], k)
                ts = [threading.Thread(target=work) for _ in range(w)]
                for t in ts: t.start()
                for t in ts: t.join()
            print("%s/%s: %d seeds twice, %d differ" % (sim, prof, n, bad))
        return 1 if bad else 0
    finally:
        R.close()


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1], "-v" in a)
    if a[:1] == ["--determinism"]:
        return determinism(a[1], int(a[2]) if len(a) > 2 else 100)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    budget = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--budget" in a:
        budget = float(a[a.index("--budget") + 1])
    return check(prop, tier, budget)


if __name__ == "__main__":
    try:
        rc = main()
    except Trouble as e:
        print("CHECK-ERROR:", e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
