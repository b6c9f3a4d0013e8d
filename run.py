#!/usr/bin/env python3
"""Runs the check of one property:  ./run.py C01 [--tier quick|thorough]
   Replays a recorded violation:    ./run.py --replay replays/C01-checked.json

Builds the explorer from /repo's current working tree, runs it in every build flavour the
property needs, writes evidence/<id>.json. Exit 0: held; 1: violated (VIOLATION line); 2: the
check itself failed."""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import driver_miri, driver_order, driver_xtask

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")

# How each property is explored. Flavours: checked = optimised, with debug assertions, overflow
# checks and the standard library's precondition checks on unchecked accesses; plain = a release
# build; simd = checked, with the instruction sets that compile the SIMD strategy in.
DEFAULT = ["checked", "plain"]
PROPS = {f"C{i:02}": dict(flavours=DEFAULT) for i in range(1, 27)}
for p in ("C13", "C14", "C15", "C16"):
    PROPS[p]["flavours"] = ["checked", "plain", "simd"]
# single-stepping is slow and the checks that debug assertions add are explored sequentially
PROPS["C19"]["flavours"] = ["plain"]
PROPS["C19"]["thorough"] = ["plain", "checked"]
for p in ("C19", "C20", "C21"):
    PROPS[p]["assumptions"] = ["threads interleave at the granularity of machine instructions, one at a time; " +
                               ("reordering by store buffers is not explored" if p == "C20" else "what store buffers could add needs a data race, which the programs run by Miri would show"),
                               "heap calls run in an allocator without locks, so that a stopped thread does not keep the others out"]

# counted in the build that users get
PROPS["C24"]["flavours"] = ["plain"]
PROPS["C24"]["assumptions"] = ["steps are machine instructions of a release build by the installed compiler, counted by single-stepping"]
PROPS["C25"]["assumptions"] = ["memory is what the program's global allocator has handed out and not got back"]

# properties about threads, which presuppose that safe code can hand the objects to threads
THREADED = ("C19", "C20", "C21")
# of these, the ones without accesses that race by design; their programs also run under Miri
RACES = ("C19", "C20", "C21")

# properties whose exploration is not the explorer's
DRIVERS = {"C18": ("miri", driver_miri), "C23": ("xtask", driver_xtask), "C26": ("order", driver_order)}
PROPS["C18"]["assumptions"] = ["undefined behaviour is what Miri reports with Tree Borrows, in one schedule per program; panics are allowed",
                               "states and traces count programs, transitions count library calls"]
PROPS["C23"]["assumptions"] = ["cargo and grcov are stand-ins that record their calls; states, traces and transitions count runs of the task runner",
                               "directories and symbolic links named *.profraw, and symbolic links to directories, are not part of the file trees"]

PROPS["C26"]["assumptions"] = ["the big-endian machine is Miri's interpretation of s390x-unknown-linux-gnu; 64-bit machines only, as the library demands",
                               "states and traces count programs, transitions count compared answers"]

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class CheckError(Exception):
    pass

def known_findings(prop):
    """[(signature, text)] of the findings of this property that are not repaired."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out

# ------------------------------------------------------------------ building

def flavour_paths(fl):
    return ("checked" if fl == "simd" else fl), os.path.join(TARGET, fl)

def build_cmd(fl):
    profile, target = flavour_paths(fl)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    if fl == "simd":
        env["RUSTFLAGS"] = "-C target-feature=+sse2,+ssse3,+sse4.1"
    # cargo decides by modification times; a tree restored from elsewhere may carry old ones
    for d in glob.glob(os.path.join(target, profile, ".fingerprint", "succinct_neo-*")) + glob.glob(os.path.join(target, profile, ".fingerprint", "mc-*")):
        shutil.rmtree(d, ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile, "--manifest-path", os.path.join(HERE, "mc", "Cargo.toml")]
    return cmd, env, os.path.join(target, profile, "mc")

def cpu_has(*flags):
    text = open("/proc/cpuinfo").read()
    return all(re.search(r"\b%s\b" % f, text) for f in flags)

def build(flavours):
    exes, procs = {}, []
    for fl in flavours:
        cmd, env, exe = build_cmd(fl)
        exes[fl] = exe
        procs.append((fl, subprocess.Popen(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    failed = None
    for fl, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            failed = (fl, out)
    if failed:
        log(failed[1][-6000:])
        raise CheckError(f"building flavour {failed[0]} failed")
    return exes

# ------------------------------------------------------------------ running the explorer

class Decided(Exception):
    """a violation has been found elsewhere"""

def run_mc(exe, args, timeout, decided=lambda: False):
    end = time.time() + timeout
    with subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=HERE) as p:
        while True:
            try:
                out, err = p.communicate(timeout=1)
                return subprocess.CompletedProcess(p.args, p.returncode, out, err)
            except subprocess.TimeoutExpired:
                late = time.time() > end
                if late or decided():
                    p.kill()
                    p.communicate()
                    raise CheckError(f"explorer did not finish within {timeout} s") if late else Decided()

def explore(prop, fl, exe, tier, known, decided):
    """-> (report or None, violation or None)"""
    args = ["check", "--property", prop, "--tier", tier]
    if known:
        args += ["--known", ",".join(s for s, _ in known)]
    limit = 800 if tier == "quick" else 10800
    last = None
    for attempt in range(2):
        p = run_mc(exe, args, limit, decided)
        if p.returncode in (0, 1):
            rep = json.loads(p.stdout)
            return rep, rep["violation"]
        m = re.search(r"^(CRASH|HANG) signal=(\d+) space=(\S+) coords=(\S*)", p.stdout, re.M)
        if not m:
            log(p.stdout[-3000:], p.stderr[-3000:])
            if last and p.returncode < 0:
                return None, last
            raise CheckError(f"explorer ended with status {p.returncode}")
        kind, sig, space, coords = m.groups()
        text = re.search(r"^CRASHMSG (.*)", p.stdout, re.M)
        why = f"{'crash with signal ' + sig if kind == 'CRASH' else 'no end within the time limit'} {text.group(1) if text else ''} {p.stderr[-500:]}".strip()
        if space == "none":
            log(p.stdout[-2000:], p.stderr[-2000:])
            raise CheckError(f"explorer died outside any case: {why}")
        names = json.loads(run_mc(exe, ["spaces", "--property", prop], 60).stdout)
        v = dict(space=names[int(space)], coords=[int(x) for x in coords.split(",") if x], sig=kind.lower(), msg=why)
        if "memory allocation of" in p.stderr:
            v["msg"] += " (memory exhausted)"
        if kind == "HANG" or replay_case(exe, prop, v) != 0 or attempt == 1:
            return None, v
        last = v
        log(f"crash not reproduced alone ({v}); exploring again")
    raise CheckError("unreachable")

def replay_case(exe, prop, v, show=False):
    p = run_mc(exe, ["replay", "--property", prop, "--space", v["space"], "--coords", ",".join(map(str, v["coords"]))], 300)
    if show:
        print(p.stdout, p.stderr, sep="")
    return p.returncode

def types(prop):
    """-> violation or None: do the types allow what the property is about?"""
    target = os.path.join(TARGET, "share")
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    for name in ("succinct_neo-*", "share-*"):
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", name)):
            shutil.rmtree(d, ignore_errors=True)
    cmd = ["cargo", "check", "--offline", "--locked", "--features", prop, "--manifest-path", os.path.join(HERE, "share", "Cargo.toml")]
    p = subprocess.run(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        return None
    m = re.search(r"^error\[E0277\]: (.*(?:between threads safely|`Sync`|`Send`).*)", p.stdout, re.M)
    if not m:
        log(p.stdout[-6000:])
        raise CheckError("compiling share failed")
    return dict(space="types", coords=[], sig="types", msg=m.group(1))

# ------------------------------------------------------------------ one check

def evidence(prop, tier, t0, reports, violations, skipped, extra):
    spaces, first = [], True
    states = transitions = traces = schedules = infeasible = cases = 0
    samples = []
    for fl, rep in reports:
        for s in rep["spaces"] if rep else []:
            spaces.append(dict(flavour=fl, **{k: s[k] for k in ("name", "about", "cases", "states", "transitions", "traces", "outcomes", "schedules", "infeasible", "wall_s")}))
            transitions += s["transitions"]
            traces += s["traces"]
            schedules += s["schedules"]
            infeasible += s["infeasible"]
            cases += s["cases"]
            if first:
                states += s["states"]
                for c in s["samples"]:
                    samples.append(dict(space=s["name"], coords=c, about=s["about"], flavour=fl))
        first = False
    cov = dict(states=states, transitions=transitions, traces_validated_against_impl=traces, cases=cases, samples=samples,
               exhaustive=not violations and all(r for _, r in reports) and not skipped, spaces=spaces,
               flavours=[fl for fl, _ in reports],
               counting="states: distinct situations by hash, first flavour only; transitions: library operations compared with the reference, all flavours; traces: cases or histories run on the implementation, all flavours")
    if schedules:
        cov["schedules"] = schedules
        cov["infeasible_schedules"] = infeasible
    if skipped:
        cov["skipped"] = skipped
    cov.update(extra.get("coverage", {}))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=extra.get("assumptions", []) + ["nothing is random: the seed is not used", "the installed compiler"] + ([] if prop == "C26" else ["64-bit little-endian x86"]),
              violations=len(violations), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

def report_violation(prop, fl, v):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{fl}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, flavour=fl, **v, how=f"./run.py --replay {os.path.relpath(path, HERE)}"), f, indent=1)
    log(f"{prop} [{fl}] space {v['space']} case {v['coords']}: {v['msg']}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)

def check(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]
    known = known_findings(prop)
    if prop in DRIVERS:
        fl, driver = DRIVERS[prop]
        try:
            rep, v, skipped = driver.explore(HERE, tier, known, log)
        except (RuntimeError, OSError, subprocess.SubprocessError) as e:
            raise CheckError(str(e))
        return finish(prop, tier, t0, [(fl, rep)], [(fl, v)] if v else [], skipped, cfg, known)
    flavours, skipped = list(cfg.get(tier, cfg["flavours"])), []
    if "simd" in flavours and not cpu_has("sse2", "ssse3", "sse4_1"):
        flavours.remove("simd")
        skipped.append("simd flavour: this CPU lacks SSE4.1")
    exes = build(flavours)
    reports, violations = [], []
    v = types(prop) if prop in THREADED else None
    if v:
        violations.append(("types", v))
        flavours = []
    with ThreadPoolExecutor(1) as ex:
        races = ex.submit(driver_miri.races, HERE, prop, tier, log) if prop in RACES and flavours else None
        decided = lambda: races is not None and races.done() and not races.exception() and races.result()[1] is not None
        trouble = None
        try:
            for fl in flavours:
                rep, v = explore(prop, fl, exes[fl], tier, known, decided)
                reports.append((fl, rep))
                if v:
                    violations.append((fl, v))
                    break
        except Decided:
            pass
        except CheckError as e:
            trouble = e
        if races:
            try:
                rep, v, more = races.result()
            except (RuntimeError, OSError, subprocess.SubprocessError) as e:
                raise CheckError(str(e))
            reports.append(("races", rep))
            skipped += more
            if v and not violations:
                violations.append(("races", v))
        if trouble and not violations:
            raise trouble
    return finish(prop, tier, t0, reports, violations, skipped, cfg, known)

def finish(prop, tier, t0, reports, violations, skipped, cfg, known):
    evidence(prop, tier, t0, reports, violations, skipped, cfg)
    seen = {f["sig"]: f["msg"] for _, r in reports if r for f in r["findings"]}
    for sig, text in known:
        if sig in seen:
            print(f"KNOWN-FINDING: property={prop} {text} [{seen[sig]}]")
    for fl, v in violations:
        report_violation(prop, fl, v)
    return 1 if violations else 0

def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        r = json.load(open(a[1]))
        if r["property"] in DRIVERS or r["flavour"] == "races":
            driver = driver_miri if r["flavour"] == "races" else DRIVERS[r["property"]][1]
            wrong = driver.replay(HERE, r, log)
            print(wrong or "holds")
            sys.exit(1 if wrong else 0)
        if r["flavour"] == "types":
            v = types(r["property"])
            print(v["msg"] if v else "holds")
            sys.exit(1 if v else 0)
        exes = build([r["flavour"]])
        sys.exit(1 if replay_case(exes[r["flavour"]], r["property"], r, show=True) else 0)
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER") or "quick"
    if prop not in PROPS or tier not in ("quick", "thorough"):
        log("usage: run.py Cnn [--tier quick|thorough]")
        sys.exit(2)
    try:
        sys.exit(check(prop, tier))
    except CheckError as e:
        log(f"ERROR: {e}")
        sys.exit(2)

if __name__ == "__main__":
    main()
