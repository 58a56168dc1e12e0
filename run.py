#!/usr/bin/env python3
"""Coordinator of the property checks.

  run.py check C07 [--tier quick|thorough] [--arm NAME] [--scale F]
  run.py replay replays/C07-....json
  run.py list C07

check: builds the harness package of the property against /repo's current
working tree, runs every arm's cases in worker processes, re-runs and shrinks a
failure, writes replays/ and evidence/.  Exit 0: held on everything explored,
1: VIOLATION line printed, 2: the check itself could not do its work.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
OUT = os.environ.get("PBT_OUT", VERIF)  # evidence and replays
NCPU = min(8, os.cpu_count() or 1)
VIRT = "internal/zverif"

# property -> extra build needs
CONFIG = {
    "C24": {"bins": ["bcwallet"]},
    "C28": {"bins": ["bcnode"]},
    "C11": {"race": True},
    "C18": {"race": True},
    "C19": {"race": True},
    "C20": {"race": True},
    "C25": {"race": True},
    "C26": {"race": True},
    "C27": {"race": True},
}
# How often the quick tier repeats the arms' quick counts, where they are cheap.
QUICK = {"C01": 3, "C02": 2, "C03": 3, "C04": 4, "C05": 4, "C06": 2, "C07": 6, "C08": 4, "C09": 2, "C10": 2, "C12": 2,
         "C14": 4, "C15": 2, "C16": 2, "C21": 3, "C22": 2, "C23": 4, "C24": 2}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Build:
    def __init__(self, prop):
        self.prop = prop
        base = "/tmp"
        self.dir = tempfile.mkdtemp(prefix=f"pbt-{prop}-", dir=base)
        os.chmod(self.dir, 0o755)
        self.tmp = self.dir + "/tmp"
        os.mkdir(self.tmp)
        os.chmod(self.tmp, 0o1777)
        self.env = dict(os.environ)
        self.env.update(self.go_env())
        cache = self.dir + "/gocache"
        if os.path.isdir("/opt/vp/gocache"):
            subprocess.run(["cp", "-a", "/opt/vp/gocache", cache], check=False)
        else:
            os.mkdir(cache)
        self.env.update(
            GOCACHE=cache, GOTMPDIR=self.tmp, TMPDIR=self.tmp, GOFLAGS="-mod=readonly -buildvcs=false",
            GOTOOLCHAIN="local", GOPROXY="off", CGO_ENABLED="0", GODEBUG="", GOTRACEBACK="all",
        )
        self.env.pop("PBT_JOB", None)
        self.cfg = CONFIG.get(prop, {})

    def go_env(self):
        """The environment the repository's own build uses."""
        out = {}
        if os.path.exists("/opt/vp/env.sh"):
            r = subprocess.run(
                ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                capture_output=True, text=True)
            for kv in r.stdout.split("\0"):
                k, _, v = kv.partition("=")
                if k in ("PATH", "GOROOT", "GOPATH", "GOMODCACHE"):
                    out[k] = v
        return out

    def overlay(self):
        rep = {}
        root = VERIF + "/harness"
        for d, _, files in os.walk(root):
            for f in files:
                if f.endswith(".go"):
                    p = os.path.join(d, f)
                    rep[f"{REPO}/{VIRT}/{os.path.relpath(p, root)}"] = p
        ov = self.dir + "/overlay.json"
        json.dump({"Replace": rep}, open(ov, "w"))
        return ov

    def build(self):
        ov = self.overlay()
        self.bin = self.dir + "/worker"
        pkg = f"./{VIRT}/{self.prop.lower()}"
        env = dict(self.env)
        cmd = ["go", "test", "-vet=off", "-overlay", ov, "-c", "-o", self.bin]
        if self.cfg.get("race"):
            env["CGO_ENABLED"] = "1"
            cmd.append("-race")
        t0 = time.time()
        r = subprocess.run(cmd + [pkg], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(self.bin):
            raise CheckError("harness does not build:\n" + (r.stdout + r.stderr)[-6000:])
        for b in self.cfg.get("bins", []):
            r = subprocess.run(
                ["go", "build", "-o", f"{self.dir}/{b}", f"./cmd/{b}"], cwd=REPO, env=self.env,
                capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError(f"{b} does not build:\n" + (r.stdout + r.stderr)[-6000:])
            os.chmod(f"{self.dir}/{b}", 0o755)
        self.env["PBT_BIN"] = self.dir
        shutil.rmtree(self.env["GOCACHE"], ignore_errors=True)
        log(f"[{self.prop}] built in {time.time() - t0:.1f} s")

    def close(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.dir], check=False, capture_output=True)
        shutil.rmtree(self.dir, ignore_errors=True)


_n = [0]
_nl = threading.Lock()
_procs = set()
STOP = threading.Event()


def uniq():
    with _nl:
        _n[0] += 1
        return _n[0]


class Outcome:
    def __init__(self):
        self.results, self.started, self.labels = [], [], {}
        self.ended = self.stalled = self.cancelled = False
        self.rc, self.stderr = None, ""

    def running(self):
        done = {r["i"] for r in self.results}
        return [i for i in self.started if i not in done]


def run_worker(b, arm, job, stall=None, cancellable=True, wall=None):
    n = uniq()
    jp, op, ep = (f"{b.dir}/{x}{n}" for x in ("job", "out", "err"))
    job = dict(job, arm=arm["Name"], out=op)
    json.dump(job, open(jp, "w"))
    open(op, "w").close()
    mem = (arm.get("MemMB") or 6144) << 20
    race = b.cfg.get("race")

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    wdir = f"{b.tmp}/w{n}"
    os.mkdir(wdir)
    os.chmod(wdir, 0o755)
    env = dict(b.env, PBT_JOB=jp, TMPDIR=wdir)
    env.setdefault("GOMAXPROCS", "4")
    if race:
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    o = Outcome()
    with open(ep, "wb") as ef:
        p = subprocess.Popen(
            [b.bin, "-test.timeout=0"], stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL,
            env=env, cwd=wdir, preexec_fn=limits)
    with _nl:
        _procs.add(p)
    stall = stall or arm.get("StallS") or 90
    size, last, t0 = -1, time.time(), time.time()
    while True:
        try:
            p.wait(0.1 if time.time() - t0 < 2 else 0.3)
            break
        except subprocess.TimeoutExpired:
            pass
        s = os.path.getsize(op)
        if s != size:
            size, last = s, time.time()
        if cancellable and STOP.is_set():
            o.cancelled = True
        elif time.time() - last > stall or (wall and time.time() - t0 > wall):
            o.stalled = True
            # leave a goroutine dump behind
            try:
                os.killpg(p.pid, signal.SIGQUIT)
                p.wait(5)
            except (OSError, subprocess.TimeoutExpired):
                pass
        if os.path.getsize(ep) > 64 << 20:
            o.stalled = True
        if o.cancelled or o.stalled:
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    with _nl:
        _procs.discard(p)
    o.rc = p.returncode
    with open(op, "rb") as f:
        for line in f.read().decode("utf8", "replace").split("\n"):
            try:
                if line.startswith("S "):
                    o.started.append(int(line[2:]))
                elif line.startswith("R "):
                    o.results.append(json.loads(line[2:]))
                elif line.startswith("L "):
                    o.labels = json.loads(line[2:])
                elif line == "E":
                    o.ended = True
            except ValueError:
                pass
    with open(ep, "rb") as f:
        raw = f.read(1 << 20)
        o.stderr = raw.decode("utf8", "replace")
    for x in (jp, op, ep):
        os.unlink(x)
    shutil.rmtree(wdir, ignore_errors=True)
    return o


FRAME = re.compile(r"^github\.com/levilutz/basiccoin/(\S+?)\((?:[^()]*|\(.*\))\)?$")


def crash_key(stderr):
    """Identify a crash by its kind and the repository function it happened in."""
    if "WARNING: DATA RACE" in stderr:
        body = stderr[stderr.index("WARNING: DATA RACE"):]
        kind = "race"
    else:
        m = re.search(r"^(panic: |fatal error: |runtime: |unexpected fault|SIG\w+)", stderr, re.M)
        if not m:
            return None, stderr[-3000:]
        body = stderr[m.start():]
        kind = "crash"
        if "out of memory" in body[:400] or "cannot allocate memory" in body[:400]:
            kind = "oom"
    harness = ""
    for line in body.split("\n")[:400]:
        line = line.strip()
        if not line.startswith("github.com/levilutz/basiccoin/"):
            continue
        fn = line[len("github.com/levilutz/basiccoin/"):]
        fn = re.sub(r"\([^()]*\)$", "", fn)
        fn = re.sub(r"\[\.\.\.\]", "", fn)
        if fn.startswith("internal/zverif"):
            harness = harness or fn
            continue
        return f"{kind}@{fn}", body[:6000]
    return f"{kind}@{'harness:' + harness if harness else 'unknown'}", body[:6000]


class Check:
    def __init__(self, prop, tier, seed, scale=1.0, only=None):
        self.prop, self.tier, self.seed, self.scale, self.only = prop, tier, seed, scale, only
        self.known = load_known(prop)
        self.failures = {}  # key -> dict
        self.stats = {}
        self.notes = []
        self.lock = threading.Lock()
        self.errors = []

    def arms(self):
        o = f"{self.b.dir}/list"
        jp = self.b.dir + "/listjob"
        json.dump({"mode": "list", "out": o}, open(jp, "w"))
        r = subprocess.run(
            [self.b.bin], env=dict(self.b.env, PBT_JOB=jp), cwd=self.b.tmp, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(o):
            raise CheckError("worker does not start: " + (r.stdout + r.stderr)[-2000:])
        return json.load(open(o))

    def run(self):
        t0 = time.time()
        self.b = Build(self.prop)
        try:
            self.b.build()
            arms = [a for a in self.arms() if not self.only or a["Name"] in self.only]
            jobs = []
            for a in arms:
                n = a["Quick"] if self.tier == "quick" else (a["Thorough"] or a["Quick"] * 20)
                if self.tier == "quick":
                    n *= QUICK.get(self.prop, 1)
                n = max(1, int(n * self.scale)) if n else 0
                chunk = a["Chunk"] or max(1, -(-n // (NCPU * 2)))
                self.stats[a["Name"]] = dict(
                    rule=a["Rule"], evaluations=0, nontrivial=0, discarded=0, fps=set(), labels={}, samples=[],
                    draws=0, el=[], wall=0.0)
                for lo in range(0, n, chunk):
                    jobs.append((a, lo, min(n, lo + chunk)))
            # interleave the arms so that a failure anywhere shows up early
            jobs.sort(key=lambda j: (j[1] / max(1, j[0]["Quick"] if self.tier == "quick" else j[0]["Thorough"] or 1)))
            sems = {a["Name"]: threading.Semaphore(a["Workers"] or NCPU) for a in arms}
            with cf.ThreadPoolExecutor(max([NCPU] + [a["Workers"] or 0 for a in arms])) as ex:
                futs = [ex.submit(self.chunk, sems[a["Name"]], a, lo, hi) for a, lo, hi in jobs]
                for f in cf.as_completed(futs):
                    try:
                        f.result()
                    except CheckError as e:
                        self.errors.append(str(e))
                        STOP.set()
            STOP.clear()
            new = {k: f for k, f in self.failures.items() if k not in self.known}
            for k in sorted(self.failures.keys() & self.known.keys()):
                print(f"KNOWN-FINDING: property={self.prop} {self.known[k]}", flush=True)
            paths = []
            for k, f in sorted(new.items(), key=lambda kv: kv[1]["order"])[:3]:
                self.minimise(f, deadline=time.time() + float(
                    os.environ.get("PBT_SHRINK") or (45 if self.tier == "quick" else 120)))
                paths.append((k, self.write_replay(f)))
            self.wall = time.time() - t0
            self.write_evidence(arms, len(new))
            for k, p in paths:
                f = new[k]
                log(f"--- {k}\n{f['msg']}\n" + "\n".join(f.get("trace") or [])[:6000])
                print(f"VIOLATION property={self.prop} replay={p}", flush=True)
            if paths:
                return 1
            if self.errors:
                for e in self.errors[:3]:
                    log("ERROR:", e)
                return 2
            ev = sum(s["evaluations"] for s in self.stats.values())
            nt = sum(len(s["fps"]) for s in self.stats.values())
            print(f"[{self.prop}] held: {ev} cases, {nt} distinct non-trivial, {self.wall:.1f} s", flush=True)
            return 0
        finally:
            for p in list(_procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            self.b.close()

    def job(self, lo, hi, **kw):
        return dict(dict(
            mode="gen", seed=self.seed, tier=self.tier, samples=0, known=list(self.known),
            **{"from": lo, "to": hi}), **kw)

    def absorb(self, arm, o):
        with self.lock:
            s = self.stats[arm["Name"]]
            for r in o.results:
                s["evaluations"] += 1
                s["draws"] += r.get("nd", 0)
                s["el"].append(r.get("el", 0))
                if r["status"] == "discard":
                    s["discarded"] += 1
                elif r.get("nt"):
                    s["nontrivial"] += 1
                    s["fps"].add(r["fp"])
                if r.get("trace") and r["status"] == "ok" and len(s["samples"]) < 2:
                    s["samples"].append(r["trace"])
            for k, v in o.labels.items():
                s["labels"][k] = s["labels"].get(k, 0) + v

    def record(self, arm, key, msg, draws=None, trace=None, case=None, rng=None):
        with self.lock:
            if key not in self.failures:
                self.failures[key] = dict(
                    arm=arm, key=key, msg=msg, draws=draws, trace=trace, case=case, range=rng,
                    order=len(self.failures))
            if key not in self.known:
                STOP.set()

    def chunk(self, sem, arm, lo, hi):
        with sem:
            guard = 0
            while lo < hi and not STOP.is_set():
                guard += 1
                if guard > 25:
                    raise CheckError(f"{arm['Name']}: worker keeps dying at case {lo}")
                t0 = time.time()
                o = run_worker(self.b, arm, self.job(lo, hi, samples=1 if lo == 0 else 0))
                with self.lock:
                    self.stats[arm["Name"]]["wall"] += time.time() - t0
                self.absorb(arm, o)
                for r in o.results:
                    if r["status"] == "fail":
                        self.failed(arm, r, (lo, hi))
                if o.cancelled or STOP.is_set():
                    return
                if o.ended:
                    return
                # died or stalled: find the culprit among the cases in progress
                cand = o.running() or ([max(o.started)] if o.started else [lo])
                key, text = crash_key(o.stderr)
                hit = False
                for i in cand[:8]:
                    if self.isolate(arm, i, o.stalled):
                        hit = True
                        break
                if hit:
                    if STOP.is_set():
                        return
                elif not o.stalled and key and not key.endswith("unknown"):
                    # not tied to one case: try the whole range once more
                    o2 = run_worker(self.b, arm, self.job(lo, max(cand) + 1), cancellable=False)
                    k2, t2 = crash_key(o2.stderr)
                    if not o2.ended and k2 == key or key.startswith("race@"):
                        self.record(arm, key, text, rng=(lo, max(cand) + 1))
                    elif "harness:" not in key and not key.startswith("oom@"):
                        # a crash inside the repository's code is definite even if it is rare
                        self.record(arm, key, text, rng=(lo, max(cand) + 1))
                    else:
                        raise CheckError(f"{arm['Name']}: unexplained crash {key}\n{text}")
                    if STOP.is_set():
                        return
                elif not o.stalled:
                    tries = self.__dict__.setdefault("deaths", {})
                    tries[arm["Name"]] = tries.get(arm["Name"], 0) + 1
                    if tries[arm["Name"]] > 3:
                        raise CheckError(
                            f"{arm['Name']}: worker ended with {o.rc} at {cand[:4]}: {o.stderr[-1500:]}")
                    continue
                lo = max(cand) + 1

    def failed(self, arm, r, rng):
        key = r["key"]
        if key.startswith("timeout:") or arm["Retry"]:
            if key in self.known or STOP.is_set():
                return
            for _ in range(3):
                o = run_worker(self.b, arm, self.job(0, 0, mode="replay", seqs=[r["draws"]]), cancellable=False)
                for r2 in o.results:
                    if r2["status"] == "fail":
                        self.record(arm, r2["key"], r2["msg"], r2["draws"], r2.get("trace"), r["i"])
                        return
            with self.lock:
                self.notes.append(
                    f"{arm['Name']} case {r['i']}: {key} seen once under load, not in 3 isolated re-runs: "
                    + r.get("msg", "")[:300])
            return
        self.record(arm, key, r["msg"], r["draws"], r.get("trace"), r["i"])

    def isolate(self, arm, i, stalled):
        """Re-run one case alone, logging its draws; True if it crashes or hangs again."""
        dl = f"{self.b.dir}/draws{uniq()}"
        o = run_worker(
            self.b, arm, self.job(i, i + 1, drawlog=dl), stall=max(150, 2 * (arm.get("StallS") or 0)), cancellable=False)
        draws = None
        if os.path.exists(dl):
            draws = [int(x) for x in open(dl).read().split()]
            os.unlink(dl)
        for r in o.results:
            if r["status"] == "fail":
                self.record(arm, r["key"], r["msg"], r["draws"], r.get("trace"), i)
                return True
        if o.ended:
            return False
        if o.stalled:
            el = self.stats[arm["Name"]]["el"]
            typical = sorted(el)[len(el) // 2] if el else 1.0
            if typical > 20:
                raise CheckError(f"{arm['Name']} case {i} exceeds its time")
            self.record(
                arm, "hang", f"case {i} does not end (typical case: {typical:.3f} s)\n" + o.stderr[-6000:], draws, None, i)
            return True
        key, text = crash_key(o.stderr)
        if key is None:
            raise CheckError(f"{arm['Name']} case {i}: worker ended with {o.rc}: {o.stderr[-1500:]}")
        self.record(arm, key, text, draws, None, i)
        return True

    # -- shrinking

    def try_batch(self, f, cands, deadline):
        """Results for candidate draw lists; None where nothing is known."""
        arm, key = f["arm"], f["key"]
        out = [None] * len(cands)

        def part(idx):
            idx = list(idx)
            while idx and time.time() < deadline:
                o = run_worker(
                    self.b, arm, self.job(0, 0, mode="replay", seqs=[cands[i] for i in idx]),
                    cancellable=False, wall=max(5, deadline - time.time() + 5))
                for r in o.results:
                    if r["status"] == "fail" and r["key"] == key:
                        out[idx[r["i"]]] = r
                if o.ended or o.stalled:
                    return
                k, text = crash_key(o.stderr)
                run = o.running()
                if not run:
                    return
                at = run[0]
                if k == key:
                    out[idx[at]] = dict(draws=cands[idx[at]], msg=text, trace=None)
                idx = idx[at + 1:]

        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(part, [range(w, len(cands), NCPU) for w in range(NCPU)]))
        return out

    def minimise(self, f, deadline):
        if f["draws"] is None or f["key"] == "hang":
            return
        f["orig_draws"] = len(f["draws"])
        first = self.try_batch(f, [f["draws"]], deadline)[0]
        f["reproduced"] = first is not None
        if first is None:
            return
        cur = list(first["draws"])
        best = first
        tried = set()

        def cost(d):
            return (len(d), d)

        def attempt(cands):
            nonlocal cur, best
            fresh = []
            for c in cands:
                t = tuple(c)
                if t not in tried and cost(c) < cost(cur):
                    tried.add(t)
                    fresh.append(c)
            for k in range(0, len(fresh), 64):
                if time.time() > deadline:
                    return False
                batch = fresh[k:k + 64]
                res = [r for r in self.try_batch(f, batch, deadline) if r]
                res = [r for r in res if cost(r["draws"]) < cost(cur)]
                if res:
                    best = min(res, key=lambda r: cost(r["draws"]))
                    cur = list(best["draws"])
                    return True
            return False

        progress = True
        while progress and time.time() < deadline:
            progress = False
            n = len(cur)
            if attempt([cur[: n * k // 16] for k in range(16)]):
                progress = True
                continue
            size = max(1, len(cur) // 2)
            while size >= 1 and time.time() < deadline:
                while attempt([cur[:i] + cur[i + size:] for i in range(0, len(cur), max(1, size // 2))][:192]):
                    progress = True
                size //= 2
            size = max(1, len(cur) // 2)
            while size >= 1 and time.time() < deadline:
                while attempt([
                    cur[:i] + [0] * min(size, len(cur) - i) + cur[i + size:] for i in range(0, len(cur), size)
                    if any(cur[i:i + size])][:192]):
                    progress = True
                size //= 2
            c = []
            for i, v in enumerate(cur):
                for w in {1, v // 2, v - 1, v >> 8, v >> 32}:
                    if 0 < w < v:
                        c.append(cur[:i] + [w] + cur[i + 1:])
            if attempt(c[:384]):
                progress = True
        f.update(draws=cur, msg=best.get("msg") or f["msg"], trace=best.get("trace") or f["trace"])

    def write_replay(self, f):
        os.makedirs(OUT + "/replays", exist_ok=True)
        h = hashlib.sha1((f["key"] + str(f["draws"]) + str(f["range"])).encode()).hexdigest()[:8]
        path = f"{OUT}/replays/{self.prop}-{f['arm']['Name']}-{h}.json"
        json.dump(dict(
            property=self.prop, arm=f["arm"]["Name"], key=f["key"], message=f["msg"], trace=f["trace"],
            draws=f["draws"], case=f["case"], range=f["range"], seed=self.seed, tier=self.tier,
            original_draws=f.get("orig_draws"), reproduced_in_isolation=f.get("reproduced"),
            how=f"python3 run.py replay {os.path.relpath(path, VERIF)}"), open(path, "w"), indent=1)
        return path

    def write_evidence(self, arms, nviol):
        arms_out, samples = {}, []
        for name, s in self.stats.items():
            arms_out[name] = dict(
                evaluations=s["evaluations"], nontrivial=s["nontrivial"], distinct_nontrivial=len(s["fps"]),
                discarded=s["discarded"], rule=s["rule"],
                mean_draws=round(s["draws"] / max(1, s["evaluations"]), 1),
                worker_seconds=round(s["wall"], 2),
                classes=dict(sorted(s["labels"].items(), key=lambda kv: -kv[1])[:40]))
            for t in s["samples"][:1]:
                t = [x[:240] for x in t[:25]]
                samples.append(dict(arm=name, case=t))
        while len(json.dumps(samples)) > 30000:
            samples = [dict(arm=x["arm"], case=x["case"][: max(1, len(x["case"]) // 2)]) for x in samples]
            if all(len(x["case"]) == 1 for x in samples):
                samples = samples[: max(1, len(samples) // 2)]
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
            coverage=dict(
                evaluations=sum(s["evaluations"] for s in self.stats.values()),
                distinct_nontrivial=sum(len(s["fps"]) for s in self.stats.values()),
                rule="Cases are generated from VERIF_SEED and the case number by the arms listed under 'arms' "
                     "(each with its own generator, oracle and non-triviality rule); distinct counts different "
                     "case descriptions (or draw lists) among the non-trivial ones, summed over the arms.",
                samples=samples or [dict(arm="-", case=["no non-trivial case"])], arms=arms_out),
            assumptions=[
                "SHA-256 and ECDSA of the Go standard library are correct",
                "the reference model in harness/ states the rules correctly"],
            wall_s=round(self.wall, 2), violations=nviol)
        if self.notes:
            ev["coverage"]["unreproduced"] = self.notes[:10]
        os.makedirs(OUT + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{OUT}/evidence/{self.prop}.json", "w"), indent=1)


def load_known(prop):
    """key -> description of the recorded findings of a property."""
    out = {}
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                out[m[2]] = m[3]
    return out


def replay(path):
    d = json.load(open(path))
    c = Check(d["property"], d["tier"], d["seed"])
    c.b = Build(d["property"])
    try:
        c.b.build()
        arm = next(a for a in c.arms() if a["Name"] == d["arm"])
        if d["draws"] is not None:
            job = c.job(0, 0, mode="replay", seqs=[d["draws"]])
        else:
            job = c.job(*(d["range"] or (d["case"], d["case"] + 1)))
        o = run_worker(c.b, arm, job)
        bad = False
        for r in o.results:
            if r["status"] == "fail":
                bad = True
                print("\n".join(r.get("trace") or []))
                print(f"{r['key']}: {r['msg']}")
        if not o.ended:
            bad = True
            print(*crash_key(o.stderr), sep="\n")
        if bad:
            print(f"VIOLATION property={d['property']} replay={path}")
        else:
            print("no violation")
        return 1 if bad else 0
    finally:
        c.b.close()


def main():
    a = sys.argv[1:]
    if len(a) < 2:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    opt = {}
    for i in range(2, len(a) - 1, 2):
        opt[a[i]] = a[i + 1]
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or "1")
    c = Check(
        a[1], tier, seed, float(opt.get("--scale", "1")), opt["--arm"].split(",") if "--arm" in opt else None)
    if a[0] == "list":
        c.b = Build(a[1])
        try:
            c.b.build()
            for x in c.arms():
                print(json.dumps(x))
        finally:
            c.b.close()
        return 0

    def stop(*_):
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if hasattr(c, "b"):
            c.b.close()
        os._exit(2)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        return c.run()
    except CheckError as e:
        log("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
