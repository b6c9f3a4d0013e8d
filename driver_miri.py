"""C18: runs the bounded programs of the crate ub under Miri, which stops at the first undefined
behaviour of an execution; many more of them compiled, under AddressSanitizer; and compiles programs
that use views for too long (driver_borrows)."""
import glob, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import driver_borrows

TOOLCHAIN = "nightly"
# about how long each space takes alone, to split the long ones over the processors
SHARDS = {"quick": {"splits": 4, "histories": 4, "rank-select": 6, "windows": 6, "replaced-window": 8, "short-storage": 8, "integers-as-storage": 3, "integer-vectors": 2, "foreign-strategies": 6}}
KNOWN_SPACE = {"value-halves": "value-halves-alias", "halves-in-threads": "halves-in-threads-alias"}

def environment(here):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(here, "target", "miri"),
               MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation",
               RUSTFLAGS="-C target-feature=+sse2,+ssse3,+sse4.1")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        env.pop(k, None)
    return env

def ub(here, args, timeout):
    cmd = ["cargo", f"+{TOOLCHAIN}", "miri", "run", "-q", "--offline", "--locked", "--profile", "plain", "--manifest-path", os.path.join(here, "ub", "Cargo.toml"), "--"] + args
    env = environment(here)
    if any(a.startswith("races-") for a in args):
        # about accesses that race, not about references that could
        env["MIRIFLAGS"] = env["MIRIFLAGS"].replace("-Zmiri-tree-borrows", "-Zmiri-disable-stacked-borrows")
    return subprocess.run(cmd, env=env, cwd=here, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)

def prepare(here, log, what=("list",)):
    for d in glob.glob(os.path.join(here, "target", "miri", "**", ".fingerprint", "*"), recursive=True):
        if os.path.basename(d).startswith(("succinct_neo-", "ub-")):
            shutil.rmtree(d, ignore_errors=True)
    p = ub(here, list(what), 900)
    spaces = [l.split("\t") for l in p.stdout.splitlines() if "\t" in l]
    if p.returncode or not spaces:
        log(p.stdout[-2000:], p.stderr[-4000:])
        raise RuntimeError("building the programs for Miri failed")
    return spaces

def classify(p):
    """-> None (clean), ("ub", text), ("unsupported", text) or ("error", text)"""
    if p.returncode == 0 and re.search(r"^END\b", p.stdout, re.M):
        return None
    m = re.search(r"^WRONG (.*)", p.stdout, re.M)
    if m:
        return "ub", m.group(1)
    m = re.search(r"error: (Undefined Behavior: .*|abnormal termination: .*|.*deadlock.*)", p.stderr)
    if m:
        where = re.search(r"--> (\S+)", p.stderr[m.start():])
        return "ub", m.group(1) + (f" at {where.group(1)}" if where else "")
    m = re.search(r"error: unsupported operation: (.*)", p.stderr)
    if m:
        return "unsupported", m.group(1)
    return "error", p.stderr[-3000:]

def shard_job(here, tier, space, shard, shards, limit):
    """-> dict(cases, ops, ub, unsupported, samples)"""
    r = dict(space=space, cases=0, ops=0, ub=None, unsupported=[], samples=[], wall=0.0)
    start, frm = time.time(), 0
    while True:
        left = limit - (time.time() - start)
        try:
            p = ub(here, ["run", tier, space, str(shard), str(shards), str(frm)], max(left, 1))
        except subprocess.TimeoutExpired:
            raise RuntimeError(f"programs of {space} did not end within {limit} s")
        marks = re.findall(r"^@ (\d+) ([\d,]*)$", p.stdout, re.M)
        for _, c in marks[:2]:
            r["samples"].append([int(x) for x in c.split(",") if x])
        kind = classify(p)
        if kind is None:
            m = re.search(r"^END cases=(\d+) ops=(\d+)", p.stdout, re.M)
            r["cases"] += int(m.group(1))
            r["ops"] += int(m.group(2))
            break
        if not marks or kind[0] == "error":
            raise RuntimeError(f"Miri failed on {space}: {kind[1]}")
        idx, coords = int(marks[-1][0]), [int(x) for x in marks[-1][1].split(",") if x]
        r["cases"] += len(marks)
        r["ops"] += len(marks)
        if kind[0] == "ub":
            r["ub"] = dict(space=space, coords=coords, sig=KNOWN_SPACE.get(space, "undefined-behaviour"), msg=kind[1])
            break
        r["unsupported"].append(f"{space} case {coords}: {kind[1]}")
        if len(r["unsupported"]) > 20:
            raise RuntimeError(f"Miri cannot run {space}: {kind[1]}")
        frm = idx + 1
    r["wall"] = time.time() - start
    return r

BORROWS = ("borrows", "programs that use a view of an object after the object is gone, moved, changed or viewed otherwise: refused by the compiler, or run")

def borrows(here, limit):
    """-> dict as of shard_job: the programs about borrowed views"""
    start = time.time()
    env = environment(here)
    every, legal, wrong = driver_borrows.accepted(here, env, TOOLCHAIN)
    r = dict(space="borrows", cases=len(every), ops=len(every), ub=None, unsupported=[], samples=[[0]], wall=0.0)
    # of the legal programs, those that use a view run; of the others, those the compiler accepts
    good = [p for p in legal if p[0].endswith("_used")]
    env["CARGO_TARGET_DIR"] = os.path.join(here, "target", "borrows", "miri")
    manifest = driver_borrows.binary(here, good + wrong)
    n = 4
    jobs = [[p[0] for p in good[i::n]] for i in range(n)] + [[p[0]] for p in wrong]
    driver_borrows.run(manifest, [], env, TOOLCHAIN, limit)
    with ThreadPoolExecutor(n) as ex:
        results = list(ex.map(lambda names: driver_borrows.run(manifest, names, env, TOOLCHAIN, limit), jobs))
    names = [p[0] for p in every]
    for p in results:
        kind = classify(p)
        if kind is None:
            continue
        marks = re.findall(r"^@ (\w+)$", p.stdout, re.M)
        if kind[0] == "ub" and marks:
            r["ub"] = r["ub"] or dict(space="borrows", coords=[names.index(marks[-1])], sig="undefined-behaviour", msg=f"{kind[1]} in program {marks[-1]}, which the compiler accepts")
        elif kind[0] == "unsupported":
            r["unsupported"].append(f"borrows {marks[-1:]}: {kind[1]}")
        elif "panicked at" not in kind[1]:
            raise RuntimeError(f"Miri failed on borrows: {kind[1]}")
    r["wall"] = time.time() - start
    return r

# ------------------------------------------------------------------ compiled, under AddressSanitizer

WATCHED = "watched-"
TARGET = "x86_64-unknown-linux-gnu"

def watched_build(here, log):
    """-> the program, which stops at accesses outside of allocated memory and broken preconditions"""
    target = os.path.join(here, "target", "watched")
    for d in glob.glob(os.path.join(target, "**", ".fingerprint", "*"), recursive=True):
        if os.path.basename(d).startswith(("succinct_neo-", "ub-")):
            shutil.rmtree(d, ignore_errors=True)
    env = environment(here)
    env["CARGO_TARGET_DIR"] = target
    env["RUSTFLAGS"] += " -Zsanitizer=address -Zub-checks=yes"
    cmd = ["cargo", f"+{TOOLCHAIN}", "build", "-q", "--offline", "--locked", "--profile", "plain", "--target", TARGET, "--manifest-path", os.path.join(here, "ub", "Cargo.toml")]
    p = subprocess.run(cmd, env=env, cwd=here, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        log(p.stdout[-4000:])
        raise RuntimeError("building the programs for AddressSanitizer failed")
    return os.path.join(target, TARGET, "plain", "ub")

def watched_run(exe, args, timeout):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:symbolize=0")
    return subprocess.run([exe] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)

def watched_wrong(p):
    """-> None (clean), or what went wrong"""
    if p.returncode == 0 and re.search(r"^END\b", p.stdout, re.M):
        return None
    m = re.search(r"ERROR: (AddressSanitizer: [^\n]*)|(unsafe precondition\(s\) violated: [^\n]*)", p.stderr)
    return (m.group(1) or m.group(2)) if m else f"ended with status {p.returncode} {p.stderr[-300:]}"

def watched(here, tier, limit, log):
    """-> (spaces, list of dicts as of shard_job, what was skipped)"""
    exe = watched_build(here, log)
    p = watched_run(exe, ["native"], 60)
    if p.returncode:
        return [], [], [f"programs under AddressSanitizer, which does not start here: {p.stderr[-300:]}"]
    own = [l.split("\t") for l in p.stdout.splitlines() if "\t" in l]
    # the interpreted programs take no time when compiled, so they run with their largest bounds
    every = own + [l.split("\t") for l in watched_run(exe, ["list"], 60).stdout.splitlines() if "\t" in l and l.split("\t")[0] not in KNOWN_SPACE]
    n = 8
    def job(j):
        (name, _), shard = j
        start = time.time()
        try:
            p = watched_run(exe, ["run", tier if [name] in [o[:1] for o in own] else "thorough", name, str(shard), str(n), "0"], limit)
        except subprocess.TimeoutExpired:
            raise RuntimeError(f"watched programs of {name} did not end within {limit} s")
        marks = re.findall(r"^@ (\d+) ([\d,]*)$", p.stdout, re.M)
        end = re.search(r"^END cases=(\d+) ops=(\d+)", p.stdout, re.M)
        r = dict(space=WATCHED + name, cases=len(marks), ops=int(end.group(2)) if end else len(marks), ub=None, unsupported=[],
                 samples=[[int(x) for x in c.split(",") if x] for _, c in marks[:1]], wall=time.time() - start)
        wrong = watched_wrong(p)
        if wrong and not marks:
            raise RuntimeError(f"watched programs of {name} failed: {wrong}")
        if wrong and re.search(r"memory allocation of \d+ bytes failed", p.stderr):
            r["unsupported"].append(f"{WATCHED}{name} case {marks[-1][1]} and those after it: out of memory")
        elif wrong:
            r["ub"] = dict(space=WATCHED + name, coords=[int(x) for x in marks[-1][1].split(",") if x], sig="undefined-behaviour", msg=wrong)
        return r
    with ThreadPoolExecutor(4) as ex:
        results = list(ex.map(job, [(s, i) for s in every for i in range(n)]))
    return [[WATCHED + name, f"{about}; compiled, under AddressSanitizer"] for name, about in every], results, []

def explore(here, tier, known, log):
    """-> (report, violation, what was skipped)"""
    spaces = prepare(here, log)
    per = SHARDS["quick"]
    scale = 1 if tier == "quick" else 4
    jobs = [(name, i, n) for name, _ in spaces for n in [per.get(name, 1) * scale if name not in KNOWN_SPACE else 1] for i in range(n)]
    jobs.sort(key=lambda j: -(j[2] > 1))
    limit = 700 if tier == "quick" else 9000
    cpus = os.cpu_count() or 8
    with ThreadPoolExecutor(cpus) as ex:
        extra = ex.submit(borrows, here, limit)
        compiled = ex.submit(watched, here, tier, limit, log)
        results = list(ex.map(lambda j: shard_job(here, tier, j[0], j[1], j[2], limit), jobs))
        results.append(extra.result())
        more, found, skipped = compiled.result()
    spaces.append(list(BORROWS))
    spaces += more
    results += found
    return account(spaces, results, known, skipped)

def account(spaces, results, known, skipped):
    """-> (report, violation, what was skipped)"""
    stats = {n: dict(name=n, about=a, cases=0, states=0, transitions=0, traces=0, outcomes=0, schedules=0, infeasible=0, wall_s=0.0, samples=[]) for n, a in spaces}
    signatures = {s for s, _ in known}
    violation, findings = None, []
    for r in results:
        s = stats[r["space"]]
        for k in ("cases", "states", "traces"):
            s[k] += r["cases"]
        s["transitions"] += r["ops"]
        s["wall_s"] = round(s["wall_s"] + r["wall"], 2)
        s["samples"] = (s["samples"] + r["samples"])[:4]
        skipped += r["unsupported"]
        if r["ub"]:
            if r["ub"]["sig"] in signatures:
                findings.append(dict(sig=r["ub"]["sig"], msg=r["ub"]["msg"]))
                # the programs after the one with the known defect are not run
            elif not violation:
                violation = r["ub"]
    return dict(spaces=list(stats.values()), findings=findings), violation, skipped

def races(here, prop, tier, log):
    """C19 to C21: the programs of two threads -> as of explore"""
    spaces = prepare(here, log, ("races", prop))
    limit = 800 if tier == "quick" else 10800
    n = 8
    with ThreadPoolExecutor(n) as ex:
        results = list(ex.map(lambda j: shard_job(here, tier, j[0][0], j[1], n, limit), [(s, i) for s in spaces for i in range(n)]))
    return account(spaces, results, [], [])

def replay(here, v, log):
    if v["space"] == "borrows":
        found = borrows(here, 800)["ub"]
        return found["msg"] if found else None
    if v["space"].startswith(WATCHED):
        p = watched_run(watched_build(here, log), ["one", v["space"][len(WATCHED):], ",".join(map(str, v["coords"]))], 800)
        log(p.stderr[-6000:])
        return watched_wrong(p)
    prepare(here, log)
    p = ub(here, ["one", v["space"], ",".join(map(str, v["coords"]))], 800)
    log(p.stderr[-6000:])
    kind = classify(p)
    if kind and kind[0] == "error":
        raise RuntimeError(kind[1])
    return kind[1] if kind else None
