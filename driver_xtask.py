"""C23: runs the task runner itself, as an unprivileged user in a scratch directory, with stand-ins
for cargo and grcov that record their calls, and compares calls, exit and files with the rules."""
import glob, itertools, os, shutil, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

NOBODY = 65534
STUB = r'''#!/bin/sh
name="${0##*/}"
have=0; [ -e a.profraw ] && have=1
cov=0; [ -d coverage ] && cov=1
{ printf '%s\037have=%s\037cov=%s\037rf=%s\037pf=%s' "$name" "$have" "$cov" "$RUSTFLAGS" "$LLVM_PROFILE_FILE"; for x in "$@"; do printf '\037%s' "$x"; done; printf '\n'; } >> "$STUB_LOG"
step=report
case "$name" in cargo) step=test;; *) [ "$1" = --version ] && step=version;; esac
if [ "$step" = test ]; then : > made-by-tests.profraw; : > sub/made-by-tests.profraw; fi
case "$STUB_FAIL" in
  "$step:signal") kill -9 $$;;
  "$step:"*) exit "${STUB_FAIL#*:}";;
esac
# like the real program, the report needs the directory it is written to
if [ "$step" = report ]; then
  out=
  while [ $# -gt 0 ]; do
    case "$1" in -o|--output-path) out="$2";; -o=*|--output-path=*) out="${1#*=}";; esac
    shift
  done
  if [ -n "$out" ]; then : > "$out" || exit 3; fi
fi
exit 0
'''
FORMATS = {"xml": ("cobertura", "xml"), "cobertura": ("cobertura", "xml"), "lcov": ("lcov", "lcov"), "json": ("covdir", "json"), "covdir": ("covdir", "json")}
DELETE = ["a.profraw", "sub/b.profraw", "sub/deep/c.profraw", ".hid/d.profraw", ".profraw", "with space.profraw", "[a].profraw", "coverage/e.profraw"]
KEEP = ["keep.profraw.txt", "profraw", "x.PROFRAW", "y.profdata", "sub/keep.rs", "z.profraws", "sub/deep/aprofraw", "Cargo.toml", "target/debug/deps/lib.rlib"]

def mixed(s):
    return "".join(c.upper() if i % 2 else c for i, c in enumerate(s))

def formats():
    yield None
    for f in FORMATS:
        for g in dict.fromkeys([f, f.upper(), f.capitalize(), mixed(f), f[:-1] + f[-1].upper()]):
            yield g
    yield from ["", "html", "xml ", " lcov", "lcovx", "jso", "cobertura.xml", "xml,lcov", "COVDİR", "-t", "--json"]

def spellings():
    """every way to write every format with small and capital letters"""
    for f in FORMATS:
        for bits in range(1 << len(f)):
            yield "".join(c.upper() if bits >> i & 1 else c for i, c in enumerate(f))

def near(word):
    """the words that one slip of the pen makes of a word"""
    for i in range(len(word) + 1):
        for c in "aesx1-_ ":
            yield word[:i] + c + word[i:]
    for i in range(len(word)):
        yield word[:i] + word[i + 1:]
        yield word[:i] + "o" + word[i + 1:]
        yield word[:i] + word[i + 1:i + 2] + word[i:i + 1] + word[i + 2:]

# what grcov and other tools call their formats, and other words that could be taken for one
WORDS = ["html", "htm", "info", "lcov.info", "lcov-info", "coveralls", "coveralls+", "ade", "files", "markdown", "md", "cobertura-pretty", "pretty", "text", "txt", "csv", "yaml", "yml", "toml",
         "json5", "jsonl", "ndjson", "sonar", "sonarqube", "clover", "jacoco", "codecov", "cov", "covdir.json", "cobertura.xml", "tests.xml", "tests.lcov", ".xml", ".json", ".lcov", "xmlx", "xsd",
         "svg", "pdf", "profraw", "profdata", "llvm", "gcov", "all", "none", "default", "help", "--help", "-h", "--", "-", "0", "1", "true", "null", "*", "?", "./xml", "xml/", "coverage", "tests"]

def words():
    yield from WORDS
    for f in FORMATS:
        yield from near(f)
    letters = "abcdefghijklmnopqrstuvwxyz"
    for a in letters:
        yield a
        for b in letters:
            yield a + b

def wanted(fmt):
    """output type and extension; None stands for no argument"""
    if fmt is not None:
        low = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in fmt)
        if low in FORMATS:
            return FORMATS[low]
    return ("cobertura", "xml")

TASKS = ["cover", "test_instr", "cover_only", "clean"]
OTHER = [None, "", "Cover", "CLEAN", "coverall", "cover ", "--help", "test", "test-instr", "clean_all", "unknown", "xml", "lcov"]
FAULTS = [None, "test:1", "test:101", "test:signal", "test:missing", "version:1", "version:missing", "report:1", "report:2", "report:signal", "report:blocked", "clean:readonly"]

class World:
    """One scratch directory per worker thread."""
    def __init__(self, root, exe, n):
        self.dir = os.path.join(root, f"w{n}")
        os.mkdir(self.dir)
        self.exe = exe
        self.log = os.path.join(self.dir, "log")
        self.cwd = os.path.join(self.dir, "cwd")
        self.outside = os.path.join(self.dir, "outside")
        self.bins = {}
        # where a variable names the report program there is none with the usual name
        for missing, tool in itertools.product(("", "cargo", "grcov"), ("grcov", "mygrcov")):
            b = os.path.join(self.dir, f"bin-{missing}-{tool}")
            os.mkdir(b)
            for name in ("cargo", tool):
                if name == missing or missing == "grcov" and name == tool:
                    continue
                p = os.path.join(b, name)
                with open(p, "w") as f:
                    f.write(STUB)
                os.chmod(p, 0o755)
            self.bins[missing, tool] = b

    def put(self, path):
        p = os.path.join(self.cwd, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()

    def files(self):
        out = set()
        for d, _, fs in os.walk(self.cwd):
            out.update(os.path.relpath(os.path.join(d, f), self.cwd) for f in fs)
        return out

    def prepare(self, tree, fault):
        for d in (self.cwd, self.outside):
            if os.path.isdir(d):
                subprocess.run(["chmod", "-R", "u+rwX", d], check=True)
                shutil.rmtree(d)
            os.mkdir(d)
        open(os.path.join(self.outside, "o.profraw"), "w").close()
        open(os.path.join(self.dir, "up.profraw"), "w").close()
        os.makedirs(os.path.join(self.cwd, "sub"))
        for t in tree:
            self.put(t)
        if fault == "clean:readonly":
            self.put("locked/l.profraw")
        if fault == "report:blocked":
            self.put("coverage")
        for d, ds, fs in os.walk(self.cwd):
            for x in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(x, NOBODY, NOBODY)
        os.chown(self.outside, NOBODY, NOBODY)
        os.chown(self.dir, NOBODY, NOBODY)
        if fault == "clean:readonly":
            os.chmod(os.path.join(self.cwd, "locked"), 0o555)
        open(self.log, "w").close()
        os.chown(self.log, NOBODY, NOBODY)

    def run(self, args, fault, grcov):
        kind, _, mode = (fault or "").partition(":")
        missing = {"test": "cargo", "version": "grcov"}.get(kind, "") if mode == "missing" else ""
        bins = self.bins[missing, "mygrcov" if grcov else "grcov"]
        env = dict(PATH=bins, STUB_LOG=self.log, STUB_FAIL="" if missing else (fault or ""), HOME=self.cwd)
        if grcov:
            env["GRCOV"] = "mygrcov" if grcov == "name" else os.path.join(bins, "mygrcov")
        try:
            p = subprocess.run([self.exe] + args, cwd=self.cwd, env=env, user=NOBODY, group=NOBODY, extra_groups=[], stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            return None, [], "no end within 60 s"
        calls = [l.split("\037") for l in open(self.log, encoding="utf-8", errors="surrogateescape").read().split("\n") if l]
        return p.returncode, calls, p.stdout.decode(errors="replace")

def flag(args, names):
    """the value of an option in either spelling"""
    for i, a in enumerate(args):
        if a in names and i + 1 < len(args):
            return args[i + 1]
        for n in names:
            if a.startswith(n + "="):
                return a[len(n) + 1:]
    return None

def judge(w, task, fmt, fault, tree, grcov, more=()):
    """-> None or what is wrong; more: arguments after the format, or tasks run afterwards in the same directory"""
    w.prepare(tree, fault)
    wrong = judge_one(w, task, fmt, fault, tree, grcov, [a[1:] for a in more if a[0] == "+"])
    for t in more:
        if t[0] != "+" and not wrong:
            open(w.log, "w").close()
            wrong = judge_one(w, t, fmt, fault, w.files(), grcov, [])
    return wrong

def judge_one(w, task, fmt, fault, tree, grcov, extra):
    before = w.files()
    had_coverage = os.path.isdir(os.path.join(w.cwd, "coverage"))
    args = [] if task is None else [task]
    if fmt is not None:
        args.append(fmt)
    args += extra
    rc, calls, out = w.run(args, fault, grcov)
    if rc is None:
        return out
    after = w.files()
    # the steps that were run, in order
    steps, reports = [], set()
    for c in calls:
        name, have, cov, rf, pf, argv = c[0], c[1], c[2], c[3], c[4], c[5:]
        if name == "cargo":
            if argv[:1] != ["test"]:
                return f"cargo was called with {argv}"
            if "instrument-coverage" not in rf:
                return f"the tests ran without instrumentation (RUSTFLAGS {rf})"
            if not pf[3:].endswith(".profraw"):
                return f"the tests' profiles are written to {pf}"
            steps.append("test")
        elif argv[:1] == ["--version"]:
            steps.append("version")
        else:
            steps.append("report")
            kind, ext = wanted(fmt)
            got = flag(argv, ["-t", "--output-type", "--output-types"])
            if got != kind:
                return f"the report has type {got} instead of {kind}"
            path = flag(argv, ["-o", "--output-path"])
            if path is None or os.path.splitext(path)[1] != "." + ext:
                return f"the report goes to {path} instead of a file with extension {ext}"
            reports.add(os.path.normpath(os.path.join(w.cwd, path)))
            if "a.profraw" in tree and have != "have=1":
                return "the profiles were deleted before the report"
    plan = {"cover": ["test", "report", "clean"], "test_instr": ["test"], "cover_only": ["report"], "clean": ["clean"]}.get(task, [])
    failing = {"test": "test", "version": "report", "report": "report", "clean": "clean"}.get((fault or "").split(":")[0])
    if failing == "clean" and not os.path.lexists(os.path.join(w.cwd, "locked", "l.profraw")):
        return "a file in a directory without write permission was deleted"
    want = plan[: plan.index(failing) + 1] if failing in plan else plan
    # a failing version call need not happen; one that does must end the run
    if fault and fault.startswith("version") and "report" in want:
        if "version" not in steps and fault == "version:1":
            failing, want = None, plan
    # a program that is missing leaves no trace of its call
    seen = [s for s in steps if s != "version"]
    expect = [s for s in want if s != "clean"]
    if fault in ("test:missing",) and failing in plan:
        expect = [s for s in expect if s != "test"]
    if failing == "report" and fault.startswith("version") and failing in plan:
        expect = [s for s in expect if s != "report"]
    # without a directory to write to, the report may be given up before or after starting it
    if fault == "report:blocked" and failing in plan and "report" not in seen:
        expect = [s for s in expect if s != "report"]
    if seen != expect:
        return f"steps {steps} instead of {expect}"
    bad = failing in plan
    if bad != (rc != 0):
        return f"exit status {rc}, {'failure' if bad else 'success'} expected"
    # files
    made = {"made-by-tests.profraw", "sub/made-by-tests.profraw"} if "test" in steps else set()
    if "report" in steps and failing != "report":
        made |= {os.path.relpath(p, w.cwd) for p in reports}
    total = before | made
    if "clean" in want and failing != "clean":
        left = {f for f in total if not f.endswith(".profraw")}
    else:
        left = total
    if failing == "clean" and "clean" in want:
        keep = {f for f in total if not f.endswith(".profraw")}
        if not (keep <= after <= total):
            return f"files {sorted(keep - after)} are gone or {sorted(after - total)} are new"
    elif after != left:
        return f"wrongly deleted: {sorted(left - after)}; wrongly left or made: {sorted(after - left)}"
    if not os.path.exists(os.path.join(w.outside, "o.profraw")) or not os.path.exists(os.path.join(w.dir, "up.profraw")):
        return "a file outside the current directory was deleted"
    if not plan and (calls or after != before or os.path.isdir(os.path.join(w.cwd, "coverage")) != had_coverage):
        return "did something"
    return None

def cases(tier):
    base = DELETE[:3] + KEEP
    some = [None, "lcov", "JSON", "html"]
    for task in TASKS + OTHER:
        for fmt in formats():
            if task is None and fmt is not None:
                continue
            for fault in FAULTS:
                if fault and (task not in TASKS or tier == "quick" and fmt not in some):
                    continue
                for grcov in (False, True, "name") if task in TASKS and (tier != "quick" or fmt in some) else (False, True) if task in TASKS else (False,):
                    yield "tasks", (task, fmt, fault, base, grcov)
    for task in ("cover_only",) if tier == "quick" else ("cover_only", "cover"):
        for fmt in spellings():
            yield "spellings", (task, fmt, None, base, False)
    for fmt in dict.fromkeys(words()):
        yield "words", ("cover_only", fmt, None, base, False)
    for task in dict.fromkeys(w for t in TASKS for w in near(t)):
        yield "words", (task, None, None, base, False)
    for task in TASKS:
        for fmt in ("lcov", "html", ""):
            for after in (["+json"], ["+clean"], ["+cover", "+xml"]):
                yield "tasks", (task, fmt, None, base, False, after)
    for n in range(1, 3 if tier == "quick" else 5):
        for first in TASKS:
            for rest in itertools.product(TASKS, repeat=n):
                for fmt in (None, "lcov"):
                    yield "histories", (first, fmt, None, base, False, list(rest))
    n = len(DELETE)
    for task in ("clean", "cover") if tier == "quick" else TASKS:
        for bits in range(1 << n):
            yield "trees", (task, None, None, [d for i, d in enumerate(DELETE) if bits >> i & 1] + KEEP, False)
    for task in TASKS:
        for bits in range(1 << len(KEEP)) if tier != "quick" else [0] + [1 << i for i in range(len(KEEP))]:
            yield "trees", (task, None, None, DELETE + [k for i, k in enumerate(KEEP) if bits >> i & 1], False)
        for depth in range(0, 13):
            yield "trees", (task, None, None, ["/".join(["d"] * depth + ["q.profraw"]), "/".join(["d"] * depth + ["q.rs"])], False)
        yield "trees", (task, None, None, [], False)
        yield "trees", (task, None, None, [f"many/f{i}.profraw" for i in range(120)] + ["many/k"], False)

ABOUT = {"tasks": "tasks, known and unknown, with every format argument in several spellings, every failing step and every way of naming the report program",
         "spellings": "every format with every combination of small and capital letters",
         "words": "format arguments that are no format: all of up to two letters, names of other formats, formats with one slip; task names with one slip",
         "histories": "several tasks one after the other in one directory",
         "trees": "file trees: all subsets of files to delete, files to keep, depths, many files"}

def build(here, log):
    target = os.path.join(here, "target", "xtask")
    for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "xtask-*")):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", "/repo/xtask/Cargo.toml"], env=env, cwd=here, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log(p.stdout[-4000:])
        return None
    return os.path.join(target, "debug", "xtask")

def explore(here, tier, known, log):
    """-> (report, violation, what was skipped)"""
    exe = build(here, log)
    if not exe:
        raise RuntimeError("building the task runner failed")
    return with_worlds(exe, lambda worlds: run_all(worlds, tier))

def with_worlds(exe, f, n=8):
    root = tempfile.mkdtemp(prefix="xtask-check-")
    try:
        os.chmod(root, 0o755)
        copy = os.path.join(root, "xtask")
        shutil.copy(exe, copy)
        os.chmod(copy, 0o755)
        return f([World(root, copy, i) for i in range(n)])
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", root])
        shutil.rmtree(root, ignore_errors=True)

def run_all(worlds, tier):
    local, lock, free = threading.local(), threading.Lock(), list(worlds)
    def work(item):
        i, (space, c) = item
        if not hasattr(local, "w"):
            with lock:
                local.w = free.pop()
        t = time.time()
        return i, space, c, judge(local.w, *c), time.time() - t
    stats = {k: dict(name=k, about=ABOUT[k], cases=0, states=0, transitions=0, traces=0, outcomes=0, schedules=0, infeasible=0, wall_s=0.0, samples=[]) for k in ABOUT}
    violation = None
    t0 = time.time()
    with ThreadPoolExecutor(len(worlds)) as ex:
        for i, space, c, wrong, _ in ex.map(work, enumerate(cases(tier)), chunksize=8):
            s = stats[space]
            s["cases"] += 1
            s["states"] += 1
            s["traces"] += 1
            s["transitions"] += 1
            if s["cases"] & (s["cases"] - 1) == 0 and len(s["samples"]) < 6:
                s["samples"].append(list(c))
            if wrong and not violation:
                violation = dict(space=space, coords=list(c), sig="mismatch", msg=wrong)
    for s in stats.values():
        s["wall_s"] = round(time.time() - t0, 2)
    return dict(spaces=list(stats.values()), findings=[]), violation, []

def replay(here, v, log):
    exe = build(here, log)
    return with_worlds(exe, lambda ws: judge(ws[0], *v["coords"]), 1)
