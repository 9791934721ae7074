#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py setup            build the workers, self-test the reference models
  check.py check <ID>       decide one property on /repo's working tree
  check.py replay <FILE>    run the failing case a replay file describes
  check.py all              every property in turn (developer convenience)

A check builds /repo's crates and the workers several times (release semantics, checked
arithmetic, sanitizers), runs the monitors in each build, and merges what they observed
into evidence/<ID>.json. Exit 0: held on everything observed. Exit 1: violated, with a
VIOLATION line. Exit 2: no verdict (does not build, harness fault, too little observed).
"""
import fcntl, hashlib, json, os, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
NIGHTLY = "+nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"

# Builds in which the same monitors run. salt: offset of the seed, so that the builds
# do not repeat each other's random cases.
BUILDS = {
    "release": dict(args=["--profile", "release"], dir="release", salt=0),
    "checked": dict(args=["--profile", "checked"], dir="checked", salt=1_000_003),
    "asan": dict(args=["--profile", "checked", "--target", TRIPLE], dir=TRIPLE + "/checked", salt=2_000_003, nightly=True,
                 flags="-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer",
                 env={"VH_STACK_MB": "16", "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=1:allocator_may_return_null=1"}),
    "tsan": dict(args=["-Zbuild-std", "--profile", "release", "--target", TRIPLE], dir=TRIPLE + "/release", salt=3_000_003, nightly=True,
                 flags="-Zsanitizer=thread", env={"VH_STACK_MB": "16", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}),
    "miri": dict(salt=4_000_003, nightly=True, env={"VH_STACK_MB": "16", "MIRIFLAGS": "-Zmiri-disable-isolation"}),
}

# Sanitizer builds of the quick tier; every property gets release and checked.
QUICK_EXTRA = {"H08": ["asan"], "U04": ["asan"], "P06": ["asan"]}
THOROUGH_EXTRA = {"X01": ["asan", "tsan"]}  # others: asan
MIRI = {"H07", "H08", "U03", "U04", "P04", "P06", "X01"}
# scale of the worker's case counts, per mille, by tier and build
SCALE = {"quick": {"release": 15000, "checked": 15000, "asan": 2000},
         "thorough": {"release": 1000, "checked": 1000, "asan": 300, "tsan": 100}}
# faults enumerated at every point of the operation
LEVEL = {"P07": "fault_enumeration"}
BUDGET = {"quick": 120, "thorough": 2400}
HANG = 30


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    """Content hash of everything a build depends on (never of time stamps)."""
    h = hashlib.sha256()
    roots = [(REPO, c) for c in ("hpack", "huffman", "protos")] + [(VERIF, "harness")]
    for base, sub in roots:
        files = []
        for d, dirs, fs in os.walk(os.path.join(base, sub)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()[:16]


def target_dir():
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, tree_hash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    old = sorted((x for x in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, x))),
                 key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
    for x in old[:-3]:
        shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    return d


def feature(pid):
    return pid[0].lower()


def cargo_env(b):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    if BUILDS[b].get("flags"):
        env["RUSTFLAGS"] = BUILDS[b]["flags"]
    env.update(BUILDS[b].get("env", {}))
    return env


def cargo_cmd(b, verb, feats, tdir):
    c = ["cargo"] + ([NIGHTLY] if BUILDS[b].get("nightly") else [])
    c += verb + BUILDS[b].get("args", []) + ["--offline", "--no-default-features", "--features", feats,
                                             "--target-dir", os.path.join(tdir, feats.replace(",", ""), b)]
    return c


def build(names, feats):
    """Build the workers of the named builds concurrently; returns their paths or None."""
    tdir = target_dir()
    procs = []
    for b in names:
        if b == "miri":
            continue
        p = subprocess.Popen(cargo_cmd(b, ["build"], feats, tdir), cwd=HARNESS, env=cargo_env(b),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        procs.append((b, p))
    paths, ok = {}, True
    for b, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            log("the %s build failed:\n%s" % (b, out[-6000:]))
            ok = False
        paths[b] = os.path.join(tdir, feats.replace(",", ""), b, BUILDS[b]["dir"], "vh")
    if "miri" in names:
        paths["miri"] = tdir
    return paths if ok else None


class Run:
    """One worker process, watched to its end."""

    def __init__(self, b, path, args, timeout, tag):
        self.b, self.timeout = b, timeout
        self.scratch = os.path.join(BUILD, "run-%d-%s" % (os.getpid(), tag))
        os.makedirs(self.scratch, exist_ok=True)
        self.out = os.path.join(self.scratch, "out.json")
        self.slots = os.path.join(self.scratch, "slots")
        env = cargo_env(b)
        if b == "miri":
            cmd = cargo_cmd("miri", ["miri", "run"], path[1], path[0]) + ["--"] + args + ["--out", self.out]
        else:
            cmd = [path] + args + ["--out", self.out, "--slots", self.slots]
        self.err = open(os.path.join(self.scratch, "err"), "w+")
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=self.err, stderr=self.err, start_new_session=b == "miri")

    def wait(self):
        self.timed_out = False
        try:
            self.p.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.timed_out = True
            os.killpg(self.p.pid, signal.SIGKILL) if self.b == "miri" else self.p.kill()  # cargo and what it started
            self.p.wait()
        self.rc = self.p.returncode
        self.wall = time.time() - self.t0
        self.err.seek(0)
        self.text = self.err.read()[-20000:]
        self.err.close()
        self.report = None
        if self.rc in (0, 1, 3) and os.path.exists(self.out):
            with open(self.out) as f:
                self.report = json.load(f)
        self.inflight = []
        if self.report is None and os.path.exists(self.slots):
            raw = open(self.slots, "rb").read()
            for i in range(0, len(raw) - 31, 32):
                live, idx, in_sut, _ = struct.unpack_from("<4Q", raw, i)
                if live:
                    self.inflight.append((in_sut, live - 1, idx))
            self.inflight.sort(key=lambda x: -x[0])
        shutil.rmtree(self.scratch, ignore_errors=True)
        return self

    def ending(self):
        if self.timed_out:
            return "ran out of time"
        if self.rc == 86:
            return "memory bound exceeded"
        if self.rc == 87:
            return "an operation did not return within %d s of processor time" % HANG
        if self.rc < 0:
            return "process killed by signal %d" % -self.rc
        return "process ended with code %d" % self.rc

    def san(self):
        """The sanitizer's or interpreter's own report, if there is one."""
        for mark in ("ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "Undefined Behavior", "error: memory leaked",
                     "has overflowed its stack", "memory allocation of", "panic in a destructor", "unsafe precondition(s) violated"):
            k = self.text.find(mark)
            if k >= 0:
                return self.text[max(0, k - 80):k + 900].strip()
        return ""


def worker_args(pid, tier, seed, scale, threads, budget, stage=None, idx=None):
    head = ["run", pid] if stage is None else ["replay", pid, stage, str(idx)]
    return head + ["--tier", tier, "--seed", str(seed), "--scale", str(scale), "--threads", str(threads),
                   "--hang", str(HANG), "--budget", str(budget)]


def confirm(pid, b, path, args_of, r, stages, feats):
    """A worker died. Re-run what was in flight, one case at a time, to find the culprit."""
    for in_sut, si, idx in r.inflight[:8]:
        if si >= len(stages):
            continue
        one = Run(b, path, args_of(stages[si], idx), 200, "confirm").wait()
        if one.report and one.report["violations"]:
            v = one.report["violations"][0]
            return v
        if one.report is None and not one.timed_out and one.rc not in (2, 101, -9):
            return dict(stage=stages[si], idx=idx, what="%s %s" % (one.ending(), one.san()))
    return None


def stage_names(path, pid):
    out = subprocess.run([path, "list"], capture_output=True, text=True).stdout
    for l in out.splitlines():
        if l.startswith(pid + ":"):
            return [s.split(" (")[0] for s in l.split(": ", 1)[1].split(", ")]
    return []


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    names = ["release", "checked"]
    if tier == "quick":
        names += QUICK_EXTRA.get(pid, [])
    else:
        names += THOROUGH_EXTRA.get(pid, ["asan"])
    feats = feature(pid)
    paths = build(names, feats)
    if paths is None:
        print("NO VERDICT property=%s: /repo or the harness does not build" % pid)
        return 2
    t_build = time.time() - t0
    budget = BUDGET[tier]
    cpus = os.cpu_count() or 4
    # quick: the builds side by side; thorough: one after another on all processors
    side = tier == "quick"
    threads = max(2, cpus // len(names)) if side else cpus
    stages = stage_names(paths["release"], pid)
    args_of, runs = {}, []
    for b in names:
        sc = SCALE[tier][b]
        sd = seed + BUILDS[b]["salt"]
        args_of[b] = lambda st, i, sc=sc, sd=sd: worker_args(pid, tier, sd, sc, threads, budget, st, i)
        runs.append((b, sc, sd))
    done = []

    def start(b, sc, sd):
        return Run(b, paths[b], worker_args(pid, tier, sd, sc, threads, budget), budget + 300, b)

    if side:
        done = [r.wait() for r in [start(*x) for x in runs]]
    else:
        for x in runs:
            done.append(start(*x).wait())
            if done[-1].rc != 0:
                break
    if tier == "thorough" and pid in MIRI and all(r.rc == 0 for r in done):
        done.append(Run("miri", (target_dir(), feats), worker_args(pid, "quick", seed + BUILDS["miri"]["salt"], 1, cpus, 900) + ["--sampled", "1"], 2400, "miri").wait())

    violations, unclear, cut = [], [], []
    for r in done:
        if r.report is not None:
            for v in r.report["violations"]:
                violations.append(dict(v, build=r.b))
            for e in r.report["harness_errors"]:
                unclear.append("%s: harness: %s" % (r.b, e))
            if r.report["below_floor"] and not r.report["violations"] and r.b in ("release", "checked"):
                unclear.append("%s: observed too little: %s" % (r.b, r.report["below_floor"]))
            continue
        san = r.san()
        v = None if r.b == "miri" else confirm(pid, r.b, paths[r.b], args_of[r.b], r, stages, feats)
        if v:
            violations.append(dict(v, build=r.b))
        elif san:
            violations.append(dict(stage="?", idx=0, what="%s: %s" % (r.ending(), san), build=r.b))
        elif r.rc in (86, 87):
            si, idx = (r.inflight[0][1], r.inflight[0][2]) if r.inflight else (0, 0)
            violations.append(dict(stage=stages[si] if si < len(stages) else "?", idx=idx, what=r.ending(), build=r.b))
        elif r.b == "miri" and r.timed_out:
            cut.append("the miri sample was stopped after %d s without a finding; not counted" % r.wall)
        else:
            unclear.append("%s: %s: %s" % (r.b, r.ending(), r.text[-1500:]))

    os.makedirs(EVIDENCE, exist_ok=True)
    reps = [(r.b, r) for r in done if r.report]
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], events={}, maxima={}, builds={}, stages={})
    for b, r in reps:
        d = r.report
        cov["rule"] = d["rule"]
        cov["evaluations"] += d["evaluations"]
        # builds may repeat an enumerated case: the count of the widest one is a lower bound
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], d["distinct"])
        cov["builds"][b] = dict(evaluations=d["evaluations"], cases=d["cases"], distinct=d["distinct"], wall_s=round(r.wall, 2))
        for k, n in d["events"].items():
            cov["events"][k] = cov["events"].get(k, 0) + n
        for k, n in d["maxima"].items():
            cov["maxima"][k] = max(cov["maxima"].get(k, 0), n)
        cov["stages"][b] = d["stages"]
        if b == "release":
            cov["samples"] = d["samples"][:12]
    cov["rule"] += "; counts are summed over the builds, distinct ones are those of the widest build alone"
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, "exploration"), coverage=cov,
              assumptions=["the reference models in harness/src/ref*.rs state the RFC 7541 and proto3 rules correctly (self-tested on the published vectors)",
                           "what was not executed was not judged"],
              wall_s=round(time.time() - t0, 2), build_s=round(t_build, 2), violations=len(violations))
    if unclear:
        ev["inconclusive"] = unclear
    if cut:
        ev["assumptions"] += cut
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        seen = set()
        for v in violations:
            if v["build"] in seen:
                continue
            seen.add(v["build"])
            sc, sd = next(((sc, sd) for b, sc, sd in runs if b == v["build"]), (1, seed))
            f = os.path.join(REPLAYS, "%s-%s-%s-%d.json" % (pid, v["build"], v["stage"].replace(" ", "_").replace("?", "x"), v["idx"]))
            with open(f, "w") as fh:
                json.dump(dict(property=pid, build=v["build"], stage=v["stage"], idx=v["idx"], tier=tier, seed=sd, scale=sc, what=v["what"]), fh, indent=1)
            print("  [%s, %s #%d] %s" % (v["build"], v["stage"], v["idx"], v["what"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(f, VERIF)), flush=True)
        return 1
    if unclear:
        for u in unclear:
            print("NO VERDICT property=%s: %s" % (pid, u))
        return 2
    print("%s held: %d evaluations (%d distinct) in %.1f s (build %.1f s)" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, t_build))
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    pid, b = d["property"], d["build"]
    paths = build([b], feature(pid))
    if paths is None or b == "miri":
        return 2
    r = Run(b, paths[b], worker_args(pid, d["tier"], d["seed"], d["scale"], 1, 600, d["stage"], d["idx"]), 900, "replay").wait()
    if r.report and not r.report["violations"]:
        print("%s %s #%d: no violation" % (pid, d["stage"], d["idx"]))
        return 0
    print(r.report["violations"][0]["what"] if r.report else r.ending() + " " + r.san())
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def setup():
    paths = build(["release", "checked"], "h,u,p,x")
    if paths is None:
        return 2
    for b in paths:
        r = subprocess.run([paths[b], "selftest"], capture_output=True, text=True)
        print(b, r.stdout.strip(), r.stderr.strip()[-2000:])
        if r.returncode != 0:
            return 2
    return 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)  # two checks at once would starve each other
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        return setup()
    if a[:1] == ["check"] and len(a) == 2:
        return check(a[1])
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["all"]:
        ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
        bad = [i for i in ids if check(i) != 0]
        print("not silent:", bad)
        return 1 if bad else 0
    print(__doc__)
    return 2


sys.exit(main())
