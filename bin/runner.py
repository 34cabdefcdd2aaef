"""Building and running the monitors (used by bin/check, bin/replay, bin/setup)."""
import json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
STABLE = "stable-x86_64-unknown-linux-gnu"
ASSUMPTIONS = [
    "MPFR 4 and GMP compute correctly rounded results (the oracle's arithmetic)",
    "the four lookup-table crates missing from the repository are replaced by /verif/lut, which computes the same tables with GMP",
]


class Broken(Exception):
    pass


class BuildFailed(Broken):
    pass


def env(toolchain=STABLE, **kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(kw)
    return e


def sh(cmd, e, timeout, cwd=V):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as t:
        raise Broken(f"{' '.join(cmd)} took more than {timeout} s")
    return p


def workspace(*targets):
    p = sh([sys.executable, os.path.join(V, "bin", "ws.py"), *targets], env(), 120)
    if p.returncode:
        raise Broken("workspace: " + p.stdout[-2000:])


def build_monitor(target="target", profile="release", toolchain=STABLE, extra=(), **kw):
    """Build the monitor binary, return its path."""
    t = os.path.join(B, target)
    workspace(t)
    p = sh(["cargo", "build", "--offline", "--profile", profile, *extra],
           env(toolchain, CARGO_TARGET_DIR=t, **kw), 600, os.path.join(V, "harness"))
    if p.returncode:
        raise BuildFailed("build failed:\n" + p.stdout[-4000:])
    d = t
    if "--target" in extra:
        d = os.path.join(t, extra[list(extra).index("--target") + 1])
    return os.path.join(d, "debug" if profile == "dev" else profile, "f256mon")


def known(prop):
    """sig -> description of the findings recorded (not repaired) for the property."""
    r = {}
    with open(os.path.join(V, "known_findings.jsonl")) as f:
        for l in f:
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("status") == "open" and d["property"] == prop:
                    r[d["sig"]] = d["what"]
    return r


def known_file(prop):
    os.makedirs(B, exist_ok=True)
    p = os.path.join(B, f"known-{prop}.jsonl")
    with open(p, "w") as f:
        for s in known(prop):
            f.write(json.dumps({"sig": s}, ensure_ascii=False) + "\n")
    return p


def monitor(exe, prop, tier, seed, opts={}, cap=None, cmd="check", e=None, extra=()):
    """Run the monitor, return its report; its death counts as a violation."""
    out = os.path.join(B, f"out-{prop}-{os.getpid()}.json")
    cap = cap or (500 if tier == "quick" else 6 * 3600)
    a = [exe, cmd, prop, "--tier", tier, "--seed", str(seed), "--out", out, "--known", known_file(prop), "--cap", str(cap), *extra]
    for k, v in opts.items():
        a += [k, v]
    try:
        p = subprocess.run(a, cwd=V, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=cap + 250)
    except subprocess.TimeoutExpired:
        raise Broken("the monitor did not finish in time")
    err = p.stderr.decode(errors="replace")
    if not os.path.exists(out):
        if p.returncode < 0 or "AddressSanitizer" in err or "stack overflow" in err or "memory allocation" in err:
            m = re.findall(r"^CURRENT CASE: (.*)$", err, re.M)
            i = err.find("ERROR: AddressSanitizer")
            v = {"sig": m[-1] if m else f"# crash exit={p.returncode}, rerun with the same seed", "stream": "process",
                 "detail": (f"the process died (exit {p.returncode}): " + (err[i:i + 1200] if i >= 0 else err[-1500:])).replace("\n", " | ")}
            return {"coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the monitored process died", "samples": [v["sig"]]},
                    "n_violations": 1, "violations": [v], "known_hit": {}}
        raise Broken(f"monitor exit {p.returncode}: {err[-3000:]}")
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    return r


def run(prop, tier, seed, opts):
    if prop == "C26":
        return run_c26(tier, seed, opts)
    if prop == "C27":
        return run_c27(tier, seed, opts)
    exe = build_monitor()
    return monitor(exe, prop, tier, seed, opts)


# ---------------------------------------------------------------- C26, C27

NIGHTLY = "nightly"
ASAN = dict(target="target-asan", profile="release", toolchain=NIGHTLY,
            extra=["--target", "x86_64-unknown-linux-gnu"], RUSTFLAGS="-Zsanitizer=address")
ASAN_ENV = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1")
BUILD_STD = ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]
TSAN = dict(target="target-tsan", profile="release", toolchain=NIGHTLY, extra=BUILD_STD, RUSTFLAGS="-Zsanitizer=thread")
TSAN_ENV = dict(TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4")
MSAN_ENV = dict(MSAN_OPTIONS="abort_on_error=0:exitcode=77")
MIRI_DIR = os.path.join(V, "miri")
MIRI_T = os.path.join(B, "miri")


def miri_env(flags=""):
    return env(NIGHTLY, CARGO_TARGET_DIR=MIRI_T, MIRIFLAGS="-Zmiri-disable-isolation " + flags)


def miri_cmd(*a):
    return ["cargo", "miri", "run", "--offline", "-q", "--", *[str(x) for x in a]]


def miri_prepare():
    """Build what Miri interprets; one trivial run so that the shards only run."""
    workspace(MIRI_T)
    p = sh(miri_cmd(1, 0, 0), miri_env(), 600, MIRI_DIR)
    if p.returncode:
        raise Broken("Miri build failed:\n" + p.stdout[-4000:])


def build_msan():
    """The program Miri interprets, natively, everything (std too) instrumented for uninitialised reads."""
    t = os.path.join(B, "msan")
    workspace(t)
    p = sh(["cargo", "build", "--offline", *BUILD_STD],
           env(NIGHTLY, CARGO_TARGET_DIR=t, RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg lut_pure -Copt-level=1"), 600, MIRI_DIR)
    if p.returncode:
        raise BuildFailed("build failed:\n" + p.stdout[-4000:])
    return os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "f256miri")


def msan_run(seed, seconds, procs=8):
    """Jobs under MemorySanitizer for some time: (number, distinct, violations)."""
    exe = build_msan()
    res = []

    def go(k):
        o = os.path.join(B, f"msan-{os.getpid()}-{k}.txt")
        with open(o, "wb") as f:
            p = subprocess.Popen([exe, str(seed), str(2_000_000 + k * 10_000_000), str(2_000_000 + (k + 1) * 10_000_000)],
                                 stdout=f, stderr=subprocess.PIPE, env=env(**MSAN_ENV), start_new_session=True)
            cut = []
            t = threading.Timer(seconds, lambda: (cut.append(1), p.kill()))
            t.start()
            e = p.communicate()[1].decode(errors="replace")
            t.cancel()
        n, seen, v, cur, ended = 0, set(), [], None, True
        with open(o, errors="replace") as f:
            for l in f:
                if l.startswith("> ") and l.endswith("\n"):
                    cur, ended = l[2:].rstrip("\n").split(" ", 1)[-1], False
                elif l.startswith("= ") and cur:
                    n, ended = n + 1, True
                    seen.add(hash(cur))
                    if l == "= panicked\n":
                        v.append({"sig": cur, "detail": "panicked under MemorySanitizer (debug assertions and overflow checks on)", "stream": "msan"})
        os.unlink(o)
        if not cut and p.returncode:
            i = e.find("WARNING: MemorySanitizer")
            if i < 0 and p.returncode > 0:
                raise_.append(e[-2000:])
            else:
                v.append({"sig": cur if cur and not ended else "# msan", "detail": "MemorySanitizer: " + e[max(i, 0):max(i, 0) + 1200].replace("\n", " | "), "stream": "msan"})
        res.append((n, len(seen), v))

    raise_ = []
    ts = [threading.Thread(target=go, args=(k,)) for k in range(procs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if raise_:
        raise Broken("MemorySanitizer: " + raise_[0])
    return sum(r[0] for r in res), sum(r[1] for r in res), [v for r in res for v in r[2][:10]]


def tsan_violations(err):
    """Data races in a report, one per pair of places."""
    v, seen = [], set()
    for w in err.split("WARNING: ThreadSanitizer: ")[1:]:
        fr = re.findall(r"^    #\d+ (\S.*?) \S+\.\S*cgu", w, re.M) or re.findall(r"^    #\d+ (.*)$", w, re.M)
        own = [f for f in fr if "f256" in f and "f256mon" not in f][:2]
        key = (w.split(" ", 2)[:2], *own)
        if str(key) in seen:
            continue
        seen.add(str(key))
        v.append({"sig": "# ThreadSanitizer " + "; ".join(own or fr[:2]), "detail": "ThreadSanitizer: " + w[:1200].replace("\n", " | "), "stream": "tsan"})
    return v[:10]


def miri_shards(seed, shards, seconds):
    """Interpret jobs for some time: list of (shard, [(index, job, result)], error text)."""
    miri_prepare()
    out = []

    def go(k, start, threads, flags):
        p = subprocess.Popen(miri_cmd(seed, start, start + 10 ** 6, threads), cwd=MIRI_DIR, env=miri_env(flags),
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        cut = []
        t = threading.Timer(seconds, lambda: (cut.append(1), os.killpg(p.pid, 9)))
        t.start()
        o, e = p.communicate()
        t.cancel()
        rec, cur, extra = [], None, []
        for l in o.split("\n"):
            if l.startswith("> "):
                i, j = l[2:].split(" ", 1)
                cur = (int(i), j)
            elif l.startswith("= ") and cur:
                rec.append((*cur, l[2:]))
                last, cur = cur, None
            elif l.startswith("! "):
                extra.append((cur, l))
        out.append({"start": start, "threads": threads, "rec": rec, "cur": cur, "err": "" if cut else e, "rc": 0 if cut else p.returncode, "extra": extra})

    ts = [threading.Thread(target=go, args=(k, *a)) for k, a in enumerate(shards)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


def miri_violations(shards):
    v = []
    for s in shards:
        if s["rc"]:
            e = s["err"]
            i = e.find("error: ")
            if "Undefined Behavior" in e or "error: " in e and "unsupported operation" not in e:
                v.append({"sig": s["cur"][1] if s["cur"] else "# miri", "detail": "Miri: " + e[i:i + 1200].replace("\n", " | "), "stream": "miri"})
            else:
                raise Broken("Miri: " + e[-2000:])
        for i, j, r in s["rec"]:
            if r == "panicked":
                v.append({"sig": j, "detail": "panicked in Miri (debug assertions and overflow checks on)", "stream": "miri"})
        for c, l in s["extra"]:
            v.append({"sig": c[1], "detail": "thread result differs in Miri: " + l, "stream": "miri"})
    return v


def miri_summary(shards):
    return {"jobs": sum(len(s["rec"]) for s in shards),
            "shards": [{"first_job": s["start"], "threads": s["threads"], "jobs": len(s["rec"])} for s in shards]}


def shard_list(tier, base):
    """6 shards of the aligned interpreter, 2 with threads and another schedule."""
    big = 0 if tier == "quick" else 500_000
    l = [(big + base + 100_000 * k, 1, "-Zmiri-symbolic-alignment-check" if k % 2 else "") for k in range(6)]
    return l + [(big + base + 100_000 * k, 3, "-Zmiri-preemption-rate=0.05") for k in (6, 7)]


def run_c26(tier, seed, opts):
    scale = float(opts.get("--scale", 1))
    q = tier == "quick"
    phases, viol, n = [], [], 0

    def phase(name, r):
        nonlocal n
        phases.append({"configuration": name, **r["coverage"]})
        n += r["n_violations"]
        viol.extend({**v, "stream": name + ": " + v["stream"]} for v in r["violations"])

    exe = build_monitor("target-checked", "checked")
    phase("debug assertions + overflow checks", monitor(exe, "C26", tier, seed, {"--scale": str(scale * (2 if q else 1))}, cap=120 if q else 3 * 3600))
    exe = build_monitor(**ASAN)
    phase("address sanitizer (nightly)", monitor(exe, "C26", tier, seed + 1, {"--scale": str(scale * (0.7 if q else 0.3))}, cap=120 if q else 3 * 3600, e=env(**ASAN_ENV)))
    mn, md, mv = msan_run(seed, (20 if q else 3600) * scale)
    viol += mv
    n += len(mv)
    sh_ = miri_shards(seed, shard_list(tier, 0), (50 if q else 3600) * scale)
    mv = miri_violations(sh_)
    viol += mv
    n += len(mv)
    ms = miri_summary(sh_)
    c0, c1 = phases
    jobs = [j for s in sh_ for _, j, _ in s["rec"]]
    cov = {
        "evaluations": c0["evaluations"] + c1["evaluations"] + mn + ms["jobs"],
        "distinct_nontrivial": max(c0["distinct_nontrivial"], c1["distinct_nontrivial"]) + md + len(set(jobs)),
        "rule": "calls observed to end normally under each instrumentation; distinct: those of the larger of the two compiled phases plus the distinct jobs of the MemorySanitizer processes (disjoint job numbers) plus the distinct jobs interpreted by Miri",
        "samples": [f"[miri] {j} -> {r}" for s in sh_ for _, j, r in s["rec"][:2]][:6] + c0.get("samples", [])[:6],
        "msan": {"jobs": mn, "distinct": md}, "miri": ms, "phases": phases,
    }
    return {"coverage": cov, "n_violations": n, "violations": viol, "known_hit": {},
            "assumptions": ["Miri interprets a build in which GMP is replaced by a plain Rust implementation of the table arithmetic"]}


def text(cmd, timeout, e=None):
    try:
        p = subprocess.run(cmd, cwd=V, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "no end after %d s" % timeout
    return (p.stdout, "") if p.returncode == 0 else (None, f"exit {p.returncode}: {p.stderr[-1200:]}")


def run_c27(tier, seed, opts):
    scale = float(opts.get("--scale", 1))
    q = tier == "quick"
    viol, comps = [], []
    N = int((600_000 if q else 60_000_000) * scale)
    ref = build_monitor()
    limit = 200 if q else 4 * 3600

    def digest(exe, n, *a):
        o, err = text([exe, "digest", "--seed", str(seed), "--n", str(n), *a], limit)
        if o is None:
            return None, err
        d = {}
        for l in o.split("\n"):
            if l:
                b, h = l.split()
                d.setdefault(int(b), set()).add(h)
        return d, ""

    def joblist(exe, b, n):
        o, err = text([exe, "jobs", "--seed", str(seed), "--from", str(b * 500), "--to", str(min((b + 1) * 500, n))], 300)
        if o is None:
            raise Broken("jobs: " + err)
        return [x.split("\n= ", 1) for x in o[2:].split("\n> ")]

    def died(name, exe, err):
        if "monitor bug" in err:
            raise Broken(f"{name}: {err}")
        m = re.findall(r"^CURRENT CASE: (.*)$", err, re.M)
        viol.append({"sig": m[-1] if m else "# " + name, "detail": f"{name}: {err}".replace("\n", " | "), "stream": name})

    base, err = digest(ref, N, "--threads", "8")
    if base is None:
        died("reference", ref, err)
        base = {}

    def compare(name, exe, n, *a):
        d, err = digest(exe, n, *a)
        t0 = time.time()
        if d is None:
            died(name, exe, err)
            return
        bad = [b for b in sorted(d) if (b + 1) * 500 <= n and d[b] != base.get(b)]
        comps.append({"configuration": name, "jobs": n, "blocks_compared": len(d), "blocks_different": len(bad)})
        k = 0
        for b in bad[:3]:
            x, y = joblist(ref, b, n), joblist(exe, b, n)
            for u, v in zip(x, y):
                if u != v and k < 10:
                    k += 1
                    viol.append({"sig": u[0], "detail": f"{name}: got {v[1].strip()}, reference build {u[1].strip()}", "stream": name})
        if bad and not k:
            viol.append({"sig": f"# blocks {bad[:5]} of seed {seed}", "detail": f"{name}: results differ from one execution to another", "stream": name})

    def variant(name, n, *a, **kw):
        """A configuration that does not even build, though the reference does, differs as well."""
        try:
            exe = build_monitor(*a, **kw)
        except BuildFailed as e:
            viol.append({"sig": "# " + name, "detail": f"{name}: " + str(e)[-1500:].replace("\n", " | "), "stream": name})
            return
        compare(name, exe, n, "--threads", "8")

    compare("release, opposite order, 5 threads", ref, N, "--threads", "5", "--reverse")
    compare("release, 8 threads executing the same jobs at the same time", ref, N // 8, "--threads", "8", "--same")
    compare("release, 1 thread", ref, N // 8, "--threads", "1")
    o, err = text([ref, "hammer", "--seed", str(seed), "--groups", str(int((4000 if q else 400_000) * min(scale, 1) + 50)), "--threads", "8", "--us", "2000"], limit)
    if o is None:
        died("threads in lockstep", ref, err)
    else:
        for l in o.split("\n"):
            if l.startswith("! "):
                sig, got, alone = l[2:].split("\t")
                viol.append({"sig": sig, "detail": f"threads in lockstep: {got}, {alone}", "stream": "lockstep"})
            elif l.startswith("= "):
                g, kinds, ex = l[2:].split()
                comps.append({"configuration": "8 threads in lockstep on groups of related jobs", "groups": int(g), "kinds": int(kinds), "jobs": int(ex)})
    # first uses: one process per kind of job, 8 threads meeting in the first call
    def first_uses(name, exe, reps, e, limit):
        done, t0 = [0, 0, set()], time.time()
        for k in range(50 * reps):
            if time.time() - t0 > limit:
                break
            try:
                p = subprocess.run([exe, "cold", "--seed", str(seed * 1000 + k // 50), "--kind", str(k % 50), "--threads", "8"], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, text=True, errors="replace")
            except subprocess.TimeoutExpired:
                died(name, exe, "no end after 120 s")
                return
            tv = tsan_violations(p.stderr)
            bad = [l[2:].split("\t") for l in p.stdout.split("\n") if l.startswith("! ")]
            viol.extend(tv)
            viol.extend({"sig": b[0], "detail": f"{name}: {b[1]}, {b[2]}", "stream": name} for b in bad)
            if p.returncode and not tv:
                died(name, exe, f"exit {p.returncode}: {p.stderr[-1200:]}")
            if p.returncode or bad:
                break
            m = re.search(r"^= 1 (.*) (\d+)$", p.stdout, re.M)
            done[0] += 1
            done[1] += int(m.group(2))
            done[2].add(m.group(1))
        comps.append({"configuration": name, "processes": done[0], "jobs": done[1], "kinds": len(done[2])})

    first_uses("first use by 8 threads", ref, 20 if q else 1000, env(), 60 if q else 3600)
    # the same experiments while ThreadSanitizer watches (std instrumented as well)
    exe = build_monitor(**TSAN)
    for name, a in (("lockstep", ["hammer", "--groups", str(int((1200 if q else 60_000) * min(scale, 1) + 50)), "--us", "4000"]),
                    ("same jobs at the same time", ["digest", "--same", "--n", str(int((15_000 if q else 2_000_000) * min(scale, 1)))])):
        try:
            p = subprocess.run([exe, *a, "--seed", str(seed + 7), "--threads", "8"], cwd=V, env=env(**TSAN_ENV), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            died("ThreadSanitizer, " + name, exe, "no end after %d s" % limit)
            continue
        tv = tsan_violations(p.stderr)
        viol.extend(tv)
        if p.returncode and not tv:
            died("ThreadSanitizer, " + name, exe, f"exit {p.returncode}: {p.stderr[-1200:]}")
        for l in p.stdout.split("\n"):
            if l.startswith("! "):
                sig, got, alone = l[2:].split("\t")
                viol.append({"sig": sig, "detail": f"threads in lockstep (ThreadSanitizer): {got}, {alone}", "stream": "tsan"})
            elif l.startswith("= "):
                comps.append({"configuration": "ThreadSanitizer: 8 threads in lockstep", "groups": int(l.split()[1]), "jobs": int(l.split()[3]), "races_reported": len(tv)})
        if a[0] == "digest":
            comps.append({"configuration": "ThreadSanitizer: 8 threads executing the same jobs at the same time", "jobs": int(a[-1]), "races_reported": len(tv)})
    first_uses("ThreadSanitizer: first use by 8 threads", exe, 1 if q else 40, env(**TSAN_ENV), 40 if q else 3600)
    variant("debug assertions + overflow checks", N, "target-checked", "checked")
    variant("no optimisation", N // 8, "target-dev", "dev")
    variant("no default features", N, "target-nofeat", "release", extra=["--no-default-features"])
    variant("std only", N // 2, "target-std", "release", extra=["--no-default-features", "--features", "std"])
    exe = build_monitor("target-nightly", "release", toolchain=NIGHTLY, RUSTFLAGS="-Ctarget-cpu=native -Copt-level=2")
    compare("nightly compiler, -O2, native instruction set", exe, N, "--threads", "8")
    if not q:
        exe = build_monitor("target-size", "release", RUSTFLAGS="-Copt-level=s -Clto=fat -Ccodegen-units=1 -Cembed-bitcode=yes")
        compare("-Os, fat LTO", exe, N, "--threads", "8")
    # the abstract machine
    sh_ = miri_shards(seed, shard_list(tier, 50_000), (50 if q else 3600) * scale)
    viol += [v for v in miri_violations(sh_)]
    tmp = os.path.join(B, f"jobs-{os.getpid()}.txt")
    nm = 0
    for s in sh_:
        if not s["rec"]:
            continue
        a, z = s["rec"][0][0], s["rec"][-1][0] + 1
        o, err = text([ref, "jobs", "--seed", str(seed), "--light", "--from", str(a), "--to", str(z)], 300)
        if o is None:
            raise Broken("jobs: " + err)
        nat = [x.split("\n= ", 1) for x in o[2:].split("\n> ")]
        for (i, j, r), (nj, nr) in zip(s["rec"], nat):
            nm += 1
            if j != nj:
                raise Broken(f"job {i} differs between Miri and native: {j} / {nj}")
            if r != nr.strip("\n"):
                viol.append({"sig": j, "detail": f"Miri: got {r}, reference build {nr.strip()}", "stream": "miri"})
    comps.append({"configuration": "Miri (abstract machine, overflow checks on)", "jobs": nm, "multi_threaded": miri_summary(sh_)["shards"]})
    total = sum(c["jobs"] for c in comps)
    jl = joblist(ref, 0, N)
    distinct = int(text([ref, "digest", "--distinct", "--seed", str(seed), "--n", str(min(N, 5_000_000))], 600)[0])
    cov = {
        "evaluations": total, "distinct_nontrivial": distinct,
        "rule": "a job (operation, operands, result text) executed in a configuration and compared with the reference release build; distinct: different (operation, operands) of the reference run",
        "samples": [f"{j} -> {r.strip()}" for j, r in jl[:8]],
        "comparisons": comps,
    }
    return {"coverage": cov, "n_violations": len(viol), "violations": viol, "known_hit": {}, "assumptions": []}
