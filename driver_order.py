"""C26: runs the programs of the crate order natively (little-endian) and, interpreted by Miri, for a
big-endian machine."""
import glob, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

TOOLCHAIN = "nightly"
TARGET = "s390x-unknown-linux-gnu"
MACHINES = ("little-endian", "big-endian")
def environment(here, machine):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(here, "target", "order", machine),
               XDG_CACHE_HOME=os.path.join(here, "target", "order", "cache"),
               # undefined behaviour is C18's concern; here the interpreter has to be quick
               MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-ignore-leaks -Zmiri-disable-isolation"
                         " -Zmiri-disable-weak-memory-emulation -Zmiri-disable-data-race-detector -Zmir-opt-level=4 -Zinline-mir-threshold=300 -Zinline-mir-hint-threshold=500")
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        env.pop(k, None)
    return env

def order(here, machine, args, timeout):
    how = ["--offline", "--locked", "--profile", "plain", "--manifest-path", os.path.join(here, "order", "Cargo.toml")]
    if machine == "big-endian":
        cmd = ["cargo", f"+{TOOLCHAIN}", "miri", "run", "-q", "--target", TARGET] + how + ["--"] + args
    else:
        cmd = [os.path.join(here, "target", "order", machine, "plain", "order")] + args
    return subprocess.run(cmd, env=environment(here, machine), cwd=here, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)

def prepare(here, log):
    for d in glob.glob(os.path.join(here, "target", "order", "**", ".fingerprint", "*"), recursive=True):
        if os.path.basename(d).startswith(("succinct_neo-", "order-")):
            shutil.rmtree(d, ignore_errors=True)
    setup = ["cargo", f"+{TOOLCHAIN}", "miri", "setup", "-q", "--target", TARGET]
    build = ["cargo", "build", "--offline", "--locked", "--profile", "plain", "--manifest-path", os.path.join(here, "order", "Cargo.toml")]
    procs = [subprocess.Popen(c, env=environment(here, m), cwd=here, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for m, c in (("big-endian", setup), ("little-endian", build))]
    outs = [(p.communicate()[0], p.returncode) for p in procs]
    for out, rc in outs:
        if rc:
            log(out[-4000:])
            raise RuntimeError("preparing the programs failed")
    spaces = None
    for machine in MACHINES:
        p = order(here, machine, ["list"], 600)
        spaces = [l.split("\t") for l in p.stdout.splitlines() if "\t" in l]
        if p.returncode or not spaces:
            log(p.stdout[-2000:], p.stderr[-4000:])
            raise RuntimeError(f"building the programs for a {machine} machine failed")
    return spaces

def verdict(p, out, marks):
    """-> None or (coords, what is wrong), of the part of the output that is about one space"""
    m = re.search(r"^WRONG ([\d,]*) (.*)", out, re.M)
    if m:
        return m.group(1), m.group(2)
    if re.search(r"^END ", out, re.M):
        return None
    last = marks[-1] if marks else ""
    m = re.search(r"error: (Undefined Behavior: .*|abnormal termination: .*)", p.stderr)
    if m:
        return last, m.group(1)
    if p.returncode < 0 and marks:
        return last, f"ended by signal {-p.returncode}"
    raise RuntimeError(f"a program failed: {out[-300:]} {p.stderr[-3000:]}")

def job(here, tier, machine, shard, shards, limit):
    """-> [what was found in one space]"""
    try:
        p = order(here, machine, ["run", tier, str(shard), str(shards)], limit)
    except subprocess.TimeoutExpired:
        raise RuntimeError(f"programs did not end within {limit} s")
    parts = re.split(r"^SPACE (.*)$", p.stdout, flags=re.M)[1:]
    if not parts:
        raise RuntimeError(f"no program ran: {p.stderr[-3000:]}")
    numbers = lambda c: [int(x) for x in c.split(",") if x]
    results = []
    for space, out in zip(parts[::2], parts[1::2]):
        marks = re.findall(r"^@ ([\d,]*)$", out, re.M)
        v = verdict(p, out, marks)
        m = re.search(r"^END cases=(\d+) ops=(\d+)", out, re.M)
        cases, ops = (int(m.group(1)), int(m.group(2))) if m else (len(marks), len(marks))
        if v:
            v = dict(space=f"{machine}/{space}", coords=numbers(v[0]), sig="wrong-answer", msg=f"on a {machine} machine: {v[1]}")
        results.append(dict(space=f"{machine}/{space}", cases=cases, ops=ops, wrong=v, samples=[numbers(c) for c in marks[:2]]))
    if p.returncode and not any(r["wrong"] for r in results):
        raise RuntimeError(f"a program failed: {p.stderr[-3000:]}")
    return results

def explore(here, tier, known, log):
    """-> (report, violation, what was skipped)"""
    spaces = prepare(here, log)
    shards = 15 if tier == "quick" else 96
    jobs = [("big-endian", i, shards) for i in range(shards)] + [("little-endian", 0, 1)]
    limit = 600 if tier == "quick" else 9000
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        found = list(ex.map(lambda j: job(here, tier, *j, limit), jobs))
    complete = all(len(f) == len(spaces) for f in found)
    stats = {f"{m}/{n}": dict(name=f"{m}/{n}", about=a, cases=0, states=0, transitions=0, traces=0, outcomes=0, schedules=0, infeasible=0, wall_s=0.0, samples=[]) for m in MACHINES for n, a in spaces}
    violation = None
    for r in (r for f in found for r in f):
        s = stats[r["space"]]
        for k in ("cases", "states", "traces"):
            s[k] += r["cases"]
        s["transitions"] += r["ops"]
        s["samples"] = (s["samples"] + r["samples"])[:2]
        violation = violation or r["wrong"]
    if not violation and not complete:
        raise RuntimeError("not every space was run")
    return dict(spaces=list(stats.values()), findings=[]), violation, []

def replay(here, v, log):
    prepare(here, log)
    machine, space = v["space"].split("/")
    coords = ",".join(map(str, v["coords"]))
    p = order(here, machine, ["one", space, coords], 800)
    wrong = verdict(p, p.stdout, [coords])
    return wrong[1] if wrong else None
