#!/usr/bin/env python3
"""Driver for every registered check.

  check.py <PROPERTY> quick|thorough      run the check against /repo's working tree
  check.py replay <file>                  re-run a replay file (exit 1 while it still fails)

Builds harness binaries from /verif/harness and /repo's current sources, runs generated cases in
parallel shards (a pure function of the code and VERIF_SEED), confirms and shrinks failures, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TAT_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS, TARGETSETS  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
JOBS = 8

BASE_ENV = {
    "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_plm_rsh_agent": "", "OMPI_MCA_ess_singleton_isolated": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "MALLOC_PERTURB_": "128", "PYTHONHASHSEED": "0",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=0",
}


def env():
    e = dict(BASE_ENV)
    for k in ("VERIF_SEED", "VERIF_TIER"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["TAT_REPO"] = REPO
    return e


def log(*a):
    print(*a, flush=True)


class Target:
    def __init__(self, prop, spec, work):
        self.prop = prop
        self.spec = spec
        self.name = spec["name"]
        self.work = work
        self.exe = os.path.join(work, "t_" + self.name)

    def build(self):
        s = self.spec
        cc = s.get("cxx", "g++")
        objs = []
        cmd = [cc, "-std=c++17", s.get("opt", "-O1"), "-w", "-I" + REPO + "/include", "-I" + HARNESS]
        cmd += ["-D" + d for d in s.get("defs", [])]
        cmd += s.get("flags", [])
        cmd += [os.path.join(HARNESS, f) for f in s["src"]]
        cmd += ["-o", self.exe] + s.get("libs", ["-llapack", "-lblas"])
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return "compile failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:])
        return None

    def command(self, args):
        return self.spec.get("prefix", []) + self.spec.get("runner", [self.exe]) + args

    def run(self, args, timeout):
        e = env()
        e.update(self.spec.get("env", {}))
        d = os.path.join(self.work, "run-%s-%s" % (self.name, hashlib.sha1(repr(args).encode()).hexdigest()[:10]))
        os.makedirs(d, exist_ok=True)
        e["PBT_SCRATCH"] = d
        e["PBT_WORK"] = self.work
        try:
            p = subprocess.Popen(self.command(args), env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 text=True, errors="replace", start_new_session=True)
            try:
                out, err = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
                return -99, out, err + "\nwall-clock limit reached"
            return p.returncode, out, err
        finally:
            shutil.rmtree(d, ignore_errors=True)


def read_crash(path):
    try:
        with open(path, "rb") as f:
            b = f.read(8 * 3)
            act, ti, n = struct.unpack("<QQQ", b)
            tape = struct.unpack("<%dQ" % n, f.read(8 * n))
            return act, ti, list(tape)
    except Exception:
        return 0, 0, []


def replay_once(t, test, tape, timeout=60):
    path = os.path.join(t.work, "tape-%s" % hashlib.sha1((t.name + test + repr(tape)).encode()).hexdigest()[:16])
    with open(path, "w") as f:
        f.write(" ".join(map(str, tape)))
    rc, out, err = t.run(["--test", test, "--tape", path, "--case-cpu", "20"], timeout)
    os.unlink(path)
    return rc, out, err


def shrink_crash(t, test, tape, budget=160):
    """Delta-debug a tape whose failure kills the process, one subprocess per attempt."""
    best = list(tape)
    def bad(c):
        rc, _, _ = replay_once(t, test, c, 30)
        return rc != 0 and rc != 3
    left = budget
    deadline = time.time() + 60
    def batch(cands):
        nonlocal left, best
        if time.time() > deadline:
            left = 0
        # deterministic: first (in order) failing candidate wins
        cands = cands[:max(0, left)]
        left -= len(cands)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for c, r in zip(cands, ex.map(bad, cands)):
                if r:
                    best = c
                    return True
        return False
    # truncation first (missing choices read as 0)
    n = len(best)
    while n > 0 and left > 0:
        n //= 2
        if not batch([best[:n]]):
            break
    changed = True
    while changed and left > 0:
        changed = False
        for span in (16, 8, 4, 2, 1):
            if left <= 0:
                break
            cands = [best[:i] + best[i + span:] for i in range(0, max(0, len(best) - span + 1), max(1, span))]
            if batch(cands[:24]):
                changed = True
        cands = [best[:i] + [0] + best[i + 1:] for i in range(len(best)) if best[i]]
        if left > 0 and batch(cands[:24]):
            changed = True
    return best


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                kid, what = rest.split(" ", 1)
                out[kid] = what
    return out


def expand(prop, tier):
    """Return the list of target specs for this property and tier."""
    P = PROPS[prop]
    specs = []
    for src in P["sources"]:
        tset = src["targets"]
        if isinstance(tset, str):
            tset = TARGETSETS[tset]
        tset = tset[tier] if isinstance(tset, dict) else tset
        for t in tset:
            s = dict(t)
            s["src"] = src["src"]
            base = os.path.splitext(src["src"][0])[0] if src["src"] else s["name"]
            s["name"] = base + "_" + t["name"]
            s["cases"] = int(src["cases"][tier] * t.get("scale", 1))
            s["shards"] = src.get("shards", {}).get(tier, 1)
            s["only"] = src.get("only")
            for k in ("flags", "libs", "prefix", "env", "opt", "cxx", "exclusive", "timeout", "nprocs", "runner", "prepare", "optional"):
                if k in src and k not in s:
                    s[k] = src[k]
            s["defs"] = list(t.get("defs", [])) + list(src.get("defs", []))
            specs.append(s)
    return specs


def make_work(tag):
    work = os.path.join(VERIF, ".build", "%s-%d" % (tag, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    return work


def prepare(specs, work):
    """Run the named preparation steps ("name:argument", for example building the Python module), each once and all in parallel."""
    steps = sorted({step for s in specs for step in s.get("prepare", [])})
    if not steps:
        return None
    import prepare as prep

    def one(step):
        name, arg = step.split(":")
        return getattr(prep, name)(arg, work, REPO, env())
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for msg in ex.map(one, steps):
            if msg:
                return msg
    return None


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    work = make_work(prop)
    try:
        return run_check(prop, tier, seed, P, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        try:
            os.rmdir(os.path.join(VERIF, ".build"))
        except OSError:
            pass


def run_check(prop, tier, seed, P, work, t0):
    specs = expand(prop, tier)
    ahead = cf.ThreadPoolExecutor(1)
    prepared = ahead.submit(prepare, specs, work)
    targets = [Target(prop, s, work) for s in specs]
    skipped = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for t, e in zip(targets, ex.map(lambda t: t.build() if t.spec["src"] and not t.spec.get("runner") else None, targets)):
            if e and t.spec.get("optional"):
                log("skipped (does not build against this tree): " + t.name)
                skipped.append(t)
            elif e:
                log("ERROR: " + e)
                return 2
    msg = prepared.result()
    if msg:
        log("ERROR: cannot prepare: " + msg)
        return 2
    targets = [t for t in targets if t not in skipped]
    tb = time.time()
    jobs = []
    for i, t in enumerate(targets):
        for sh in range(t.spec["shards"]):
            jobs.append((t, i * 100 + sh))  # distinct streams for every binary
    limit = {"quick": 700, "thorough": 20000}[tier]

    def run_job(j):
        t, sh = j
        tag = "%s-%d" % (t.name, sh)
        out = os.path.join(work, tag + ".json")
        crash = os.path.join(work, tag + ".crash")
        args = ["--seed", str(seed), "--cases", str(t.spec["cases"]), "--shard", str(sh), "--out", out, "--crash", crash, "--case-cpu", "30"]
        if t.spec.get("only"):
            args += ["--only", t.spec["only"]]
        rc, so, se = t.run(args, t.spec.get("timeout", limit))
        data = None
        try:
            data = json.load(open(out))
        except Exception:
            pass
        return rc, so, se, data, crash, args

    results = []
    par = max(1, JOBS // max(s.get("nprocs", 1) for s in specs))
    with cf.ThreadPoolExecutor(par) as ex:
        results = list(zip(jobs, ex.map(run_job, jobs)))

    violations = []
    cov = {"evaluations": 0, "discards": 0, "nontrivial": 0, "distinct_nontrivial": 0}
    samples, labels, per_target, known = [], {}, {}, {}
    open_known = known_findings(prop)
    unconfirmed = []
    for (t, sh), (rc, so, se, data, crash, args) in results:
        if data is None or rc not in (0, 1):
            if violations:
                continue
            # died: recover the tape
            act, ti, tape = read_crash(crash)
            names = (data or {}).get("tests") or list_tests(t)
            what = "exit status %s; %s" % (rc, (se or so)[-1500:])
            v = None
            if act and ti < len(names):
                test = names[ti]
                reps = [replay_once(t, test, tape) for _ in range(3)]
                if all(r[0] not in (0, 3) for r in reps):
                    small = shrink_crash(t, test, tape)
                    reps = [replay_once(t, test, small) for _ in range(3)]
                    if all(r[0] not in (0, 3) for r in reps):
                        r = reps[0]
                        v = dict(kind="tape", test=test, tape=small, message="process died: status %s: %s" % (r[0], (r[2] or r[1])[-1500:]), text="")
            if v is None:
                v = confirm_shard(t, args, what)
            if v:
                violations.append((t, v))
            else:
                unconfirmed.append((t.name, sh, what))
            continue
        for k in cov:
            cov[k] += data.get(k, 0)
        per_target[t.name] = per_target.get(t.name, 0) + data.get("evaluations", 0)
        for s in data.get("samples", [])[:3]:
            samples.append(t.name + " | " + s)
        for k, n in data.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + n
        for k, n in data.get("known", {}).items():
            kk = known.setdefault(k, {"count": 0, "first": n.get("first"), "target": t})
            kk["count"] += n["count"]
        f = data.get("failure")
        if f and not violations:
            reps = [replay_once(t, f["test"], f["tape"]) for _ in range(3)]
            if all(r[0] not in (0, 3) for r in reps):
                violations.append((t, dict(kind="tape", test=f["test"], tape=f["tape"], message=f["message"], text=f["text"])))
            else:
                v = confirm_shard(t, args, f["message"], f)
                if v:
                    violations.append((t, v))
                else:
                    unconfirmed.append((t.name, sh, f["message"]))
    for k, info in known.items():
        if k not in open_known and not violations:
            fst = info["first"]
            violations.append((info["target"], dict(kind="tape", test=fst["test"], tape=fst["tape"],
                               message="behaviour matches unlisted finding " + k, text=fst["text"])))
    for k in sorted(known):
        if k in open_known:
            log("KNOWN-FINDING: property=%s %s: %s (seen %d times)" % (prop, k, open_known[k], known[k]["count"]))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cov["evaluations"], "distinct_nontrivial": cov["distinct_nontrivial"],
            "rule": P["rule"], "samples": samples[:16], "discards": cov["discards"],
            "evaluations_per_target": per_target, "case_classes": labels,
            "known_finding_hits": {k: v["count"] for k, v in known.items()},
            "unconfirmed": [list(map(str, u))[:3] for u in unconfirmed][:5],
        },
        "wall_s": round(wall, 2), "violations": len(violations),
        "assumptions": P.get("assumptions", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, %d targets, build %.0f s, total %.0f s" %
        (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], len(targets), tb - t0, wall))
    for u in unconfirmed:
        log("unconfirmed (not reproducible, ignored): %s" % (str(u)[:600]))
    if violations:
        t, v = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = dict(property=prop, tier=tier, seed=seed, target=t.name, **v)
        h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        log("  target: %s  test: %s" % (t.name, v.get("test")))
        log("  input:  %s" % v.get("text", "")[:1500])
        log("  result: %s" % v["message"][:2000])
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def list_tests(t):
    rc, out, err = t.run(["--list", "1"], 60)
    return [x for x in out.split("\n") if x.startswith("TEST ")] and [x[5:] for x in out.split("\n") if x.startswith("TEST ")]


def confirm_shard(t, args, what, failure=None):
    """A failure that needs the process history: re-run the whole shard three times."""
    a = [x if not x.endswith((".json", ".crash")) else x + ".again" for x in args]
    for _ in range(3):
        rc, so, se = t.run(a, 20000)
        if rc == 0:
            return None
    return dict(kind="shard", args=a, test=(failure or {}).get("test"), tape=(failure or {}).get("tape"), text=(failure or {}).get("text", ""),
                message="reproduced by re-running the whole shard (history dependent): " + what)


def replay(path):
    body = json.load(open(path))
    prop = body["property"]
    work = make_work("replay-" + prop)
    try:
        specs = [s for s in expand(prop, body["tier"]) if s["name"] == body["target"]]
        msg = prepare(specs, work)
        if msg:
            log("ERROR: " + msg)
            return 2
        t = Target(prop, specs[0], work)
        if t.spec["src"] and not t.spec.get("runner"):
            e = t.build()
            if e:
                log("ERROR: " + e)
                return 2
        if body["kind"] == "tape":
            rc, out, err = replay_once(t, body["test"], body["tape"])
        else:
            a = []
            for x in body["args"]:
                a.append(os.path.join(work, os.path.basename(x)) if x.endswith(".again") else x)
            rc, out, err = t.run(a, 20000)
        log(out[-4000:])
        log(err[-4000:])
        log("replay: %s" % ("no longer fails" if rc == 0 else "fails"))
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 3 or sys.argv[1] not in PROPS or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        sys.exit(64)
    sys.exit(check(sys.argv[1], sys.argv[2]))
