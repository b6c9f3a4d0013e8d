"""Part of C18: programs that keep a view of an object beyond the life of the object, or beyond a
change of it. The compiler has to refuse them; one that it accepts is run under Miri."""
import json, os, re, subprocess

HEAD = """#![allow(unused, dropping_references)]
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};
fn see<T>(x: T) { std::hint::black_box(x); }
fn bits() -> BitVec { let mut v = BitVec::new(5000); for i in (0..5000).step_by(61) { v.set(i, true); } v }
fn numbers() -> IntVec { let mut v = IntVec::new(20); for i in 0..500 { v.push(i); } v }
"""
# owner -> (how it is made, how it is changed, views (name, expression, use, exclusive?))
OWNERS = {
    "BitVec": ("bits()", ["v.set(4900, true)", "v.flip_bit(3)", "*v = BitSlice::new(vec![0usize].into_boxed_slice(), 0, 64)", "v = BitVec::new(1)", "drop(v)", "let w = v; see(&w)",
                          "AsMut::<BitSlice<Box<[usize]>>>::as_mut(&mut v).flip(4900)", "see(v.slice_mut(..).len())", "v.split_at_mut(7).1.set(0, true)"], [
        ("slice", "v.slice(..)", "x.get(4900)", False),
        ("slice_bounds", "v.slice(10..=4950)", "x.slice(1..).get(4800)", False),
        ("slice_unchecked", "unsafe { v.slice_unchecked(5..) }", "x.get(4890)", False),
        ("slice_mut", "v.slice_mut(..)", "x.set(4900, true)", True),
        ("slice_unchecked_mut", "unsafe { v.slice_unchecked_mut(5..) }", "x.flip(4890)", True),
        ("split_left", "v.split_at(4950).0", "x.get(4900)", False),
        ("split_right", "v.split_at(20).1", "x.get(4800)", False),
        ("split_left_mut", "v.split_at_mut(4950).0", "x.flip(4900)", True),
        ("split_right_mut", "v.split_at_mut(20).1", "x.set(4800, false)", True),
        ("halves_mut", "v.split_at_mut(64)", "(x.0.flip(3), x.1.flip(4000))", True),
        ("iter", "v.iter()", "x.nth(4900)", False),
        ("ref_into_iter", "(&v).into_iter()", "x.nth(4900)", False),
        ("slice_into_iter", "v.slice(3..).into_iter()", "x.nth(4000)", False),
        ("slice_mut_into_iter", "v.slice_mut(3..).into_iter()", "x.nth(4000)", True),
        ("raw", "v.raw()", "x[70]", False),
        ("as_words", "AsRef::<[usize]>::as_ref(&v)", "x[70]", False),
        ("as_slice", "AsRef::<BitSlice<Box<[usize]>>>::as_ref(&v)", "x.get(4900)", False),
        ("as_mut_slice", "AsMut::<BitSlice<Box<[usize]>>>::as_mut(&mut v)", "x.set(4900, true)", True),
        ("backing", "v.backing()", "x[70]", False),
        ("deref", "&*v", "x.get(4900)", False),
        ("rank", "FlatPopcount::<LinearSearch>::new(&v)", "x.rank::<true>(4900)", False),
        ("select", "FlatPopcount::<BinarySearch>::new(&v)", "x.select(70)", False),
    ]),
    "IntVec": ("numbers()", ["for i in 0..5000 { v.push(i) }", "v.set(400, 7)", "v = IntVec::new(3)", "drop(v)", "let w = v; see(&w)", "see(v.into_iter())"], [
        ("iter", "v.iter()", "x.nth(400)", False),
        ("ref_into_iter", "(&v).into_iter()", "x.nth(400)", False),
        ("raw_data", "v.raw_data()", "x[100]", False),
    ]),
    "Integer": ("0x1234_5678u64", ["v = 7", "v.set_bit(3, true)", "v.flip_bit(3)"], [
        ("ref_slice", "BitSlice::new(&v, 3, 60)", "x.get(40)", False),
        ("mut_slice", "BitSlice::new(&mut v, 3, 60)", "x.flip(40)", True),
        ("ref_iter", "Iter::new(&v, 3, 60)", "x.nth(40)", False),
        ("mut_halves", "BitSlice::new(&mut v, 3, 60)", "x.slice_mut(..).flip(4)", True),
    ]),
    "BoxedSlice": ("BitSlice::new(vec![5usize; 80].into_boxed_slice(), 7, 5000)", ["v.set(4900, true)", "v = BitSlice::new(vec![0usize].into_boxed_slice(), 0, 64)", "drop(v)", "let w = v; see(&w)", "see(v.into_iter())"], [
        ("slice", "v.slice(..)", "x.get(4900)", False),
        ("slice_mut", "v.slice_mut(..)", "x.set(4900, true)", True),
        ("split", "v.split_at(64)", "(x.0.get(3), x.1.get(4800))", False),
        ("split_mut", "v.split_at_mut(64)", "(x.0.flip(3), x.1.flip(4800))", True),
        ("iter", "v.iter()", "x.nth(4900)", False),
        ("ref_into_iter", "(&v).into_iter()", "x.nth(4900)", False),
        ("backing", "v.backing()", "x[70]", False),
    ]),
    "ValueSlice": ("BitSlice::new(5u64, 2, 60)", ["v.set(40, true)", "v = BitSlice::new(9u64, 1, 64)"], [
        ("slice", "v.slice(..)", "x.get(40)", False),
        ("slice_mut", "v.slice_mut(..)", "x.set(40, true)", True),
        ("iter", "v.iter()", "x.nth(40)", False),
        ("backing", "v.backing()", "*x", False),
    ]),
}
# a window of a vector, looked at through further views; the changes reach the vector as well
WINDOW = [
    ("slice", "v.slice(..)", "x.get(4800)", False),
    ("slice_unchecked", "unsafe { v.slice_unchecked(5..) }", "x.get(4800)", False),
    ("split", "v.split_at(64)", "(x.0.get(3), x.1.get(4800))", False),
    ("iter", "v.iter()", "x.nth(4800)", False),
    ("ref_into_iter", "(&v).into_iter()", "x.nth(4800)", False),
    ("backing", "v.backing()", "see(x)", False),
]
WINDOW_MUT = WINDOW + [
    ("slice_mut", "v.slice_mut(..)", "x.set(4800, true)", True),
    ("slice_unchecked_mut", "unsafe { v.slice_unchecked_mut(5..) }", "x.flip(4800)", True),
    ("split_mut", "v.split_at_mut(64)", "(x.0.flip(3), x.1.flip(4800))", True),
]
REACH = ["base.set(4850, true)", "base = BitVec::new(1)", "drop(base)"]
OWNERS["Window"] = ("base.slice(3..)", REACH, WINDOW)
OWNERS["WindowMut"] = ("base.slice_mut(3..)", REACH + ["v.set(4800, true)", "v.flip(4800)", "drop(v)", "let w = v; see(&w)"], WINDOW_MUT)
OWNERS["WindowHalf"] = ("base.split_at_mut(20).1", REACH + ["v.set(4800, true)", "v.flip(4800)", "drop(v)", "let w = v; see(&w)"], WINDOW_MUT)
# programs that hand something to another thread that must stay in its own
CELL = "struct Odd(Cell<u64>); impl BitGet for Odd { fn get_bit(&self, i: usize) -> bool { self.0.set(self.0.get() + 1); self.0.get() >> i & 1 == 1 } unsafe fn get_bit_unchecked(&self, i: usize) -> bool { self.get_bit(i) } } impl std::fmt::Debug for Odd { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.set(self.0.get() + 1); Ok(()) } } "
SHARE = "std::thread::scope(|s| { s.spawn(|| { for _ in 0..20 { %s; } }); for _ in 0..20 { %s; } });"
THREADS = {
    "rc_slice_sent": "let r = Rc::new(5u64); let x = BitSlice::new(r.clone(), 0, 64); let t = std::thread::spawn(move || { for _ in 0..20 { see(x.clone()); } }); for _ in 0..20 { see(r.clone()); } t.join().unwrap();",
    "rc_iter_sent": "let r = Rc::new(5u64); let x = Iter::new(r.clone(), 0, 64); let t = std::thread::spawn(move || { for _ in x {} }); for _ in 0..20 { see(r.clone()); } t.join().unwrap();",
    "rc_slice_shared": "let x = BitSlice::new(Rc::new(5u64), 0, 64); " + SHARE % ("see(x.clone())", "see(x.clone())"),
    "cell_slice_shared": CELL + "let x = BitSlice::new(Odd(Cell::new(1)), 0, 64); " + SHARE % ("see(x.get(3))", "see(x.get(3))"),
    "cell_iter_shared": CELL + "let x = Iter::new(Odd(Cell::new(1)), 0, 64); " + SHARE % ("see(format!(\"{x:?}\"))", "see(format!(\"{x:?}\"))"),
    "cell_window_sent": CELL + "let o = Odd(Cell::new(1)); let x = BitSlice::new(&o, 0, 64); " + SHARE % ("see(x.get(3))", "see(o.get_bit(3))"),
    "cell_iter_sent": CELL + "let o = Odd(Cell::new(1)); let mut x = Iter::new(&o, 0, 64); std::thread::scope(|s| { s.spawn(move || { for _ in x {} }); for _ in 0..20 { see(o.get_bit(3)); } });",
    "cell_slice_into_iter_sent": CELL + "let o = Odd(Cell::new(1)); let x = BitSlice::new(&o, 0, 64); std::thread::scope(|s| { s.spawn(move || { for _ in x {} }); for _ in 0..20 { see(o.get_bit(3)); } });",
    "bits_written_by_two": "let mut v = bits(); " + SHARE % ("v.set(3, true)", "v.set(3, false)"),
    "bits_read_and_written": "let mut v = bits(); " + SHARE % ("see(v.get(3))", "v.set(3, false)"),
    "rank_read_and_written": "let mut v = bits(); let p = FlatPopcount::<LinearSearch>::new(&v); " + SHARE % ("see(p.rank::<true>(4900))", "v.flip(4800)"),
    "numbers_pushed_by_two": "let mut v = numbers(); " + SHARE % ("v.push(3)", "v.push(4)"),
    "half_outlives": "let mut v = bits(); let t = { let (mut a, b) = v.split_at_mut(64); std::thread::spawn(move || for _ in 0..20 { a.flip(3) }) }; drop(v); t.join().unwrap();",
    "rank_outlives": "let v = bits(); let p = FlatPopcount::<LinearSearch>::new(&v); let t = std::thread::spawn(move || for _ in 0..20 { see(p.rank::<true>(4900)) }); drop(v); t.join().unwrap();",
}
# what the compiler says about such programs: borrows, lifetimes, moves, threads
CODES = {"E0381", "E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0594", "E0596", "E0597", "E0621", "E0700", "E0712", "E0713", "E0716", "E0373", "E0277"}

def programs():
    """(name, legal?, body). The legal ones show that it is the view's life that makes the others illegal."""
    for owner, (make, changes, views) in OWNERS.items():
        for name, view, use, exclusive in views:
            keep = "mut x" if re.search(r"\.(nth|next|set|flip)|slice_mut", use) else "x"
            setup = "let mut base = bits(); " if "base" in make else ""
            start = setup + f"let mut v = {make}; let {keep} = {view}; see({use}); "
            yield f"{owner}_{name}_used", True, start + f"see({use}); drop(v);" if owner != "Integer" else start
            for i, change in enumerate(changes):
                yield f"{owner}_{name}_gone_then_{i}", True, setup + f"let mut v = {make}; {{ let {keep} = {view}; see({use}); }} {change};"
                yield f"{owner}_{name}_then_{i}", False, start + f"{change}; see({use});"
            yield f"{owner}_{name}_outlives", False, setup + f"let {keep}; {{ let mut v = {make}; x = {view}; }} see({use});"
            yield f"{owner}_{name}_thread", False, start + f"let t = std::thread::spawn(move || see({use})); drop(v); t.join().unwrap();"
            if exclusive:
                yield f"{owner}_{name}_twice", False, start + f"let mut y = {view}; see({re.sub(r'(?<![a-z])x(?![a-z])', 'y', use)}); see({use});"
            for other, view2, use2, exclusive2 in views:
                if exclusive != exclusive2:
                    yield f"{owner}_{name}_and_{other}", False, start + f"let mut y = {view2}; see({re.sub(r'(?<![a-z])x(?![a-z])', 'y', use2)}); see({use});"
    for name, body in THREADS.items():
        yield f"threads_{name}", False, body
        if ("Rc" in body or "Cell" in body) and name != "rc_iter_sent":
            # the same program with storage that threads can share
            fit = body.replace("Rc::", "std::sync::Arc::").replace("Cell<u64>", "AtomicU64").replace("Cell::new", "AtomicU64::new")
            fit = fit.replace("self.0.set(self.0.get() + 1)", "self.0.fetch_add(1, Relaxed)").replace("self.0.get()", "self.0.load(Relaxed)")
            yield f"threads_{name}_shareable", True, fit

def crate(here, sub, text, is_bin):
    d = os.path.join(here, "target", "borrows", sub)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "borrows"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nsuccinct_neo = {{ path = "/repo/succinct_neo" }}\n')
    lock = open(os.path.join(here, "ub", "Cargo.lock")).read().replace('name = "ub"', 'name = "borrows"')
    with open(os.path.join(d, "Cargo.lock"), "w") as f:
        f.write(lock)
    for n in ("main.rs", "lib.rs"):
        p = os.path.join(d, "src", n)
        if os.path.exists(p):
            os.remove(p)
    with open(os.path.join(d, "src", "main.rs" if is_bin else "lib.rs"), "w") as f:
        f.write(text)
    return os.path.join(d, "Cargo.toml")

def compile_all(here, sub, ps, env, toolchain):
    """-> {name: set of error codes}. All functions are judged in one compilation."""
    text, lines = HEAD, {}
    for name, _, body in ps:
        text += f"pub fn {name}() {{ {body} }}\n"
        lines[text.count("\n")] = name
    manifest = crate(here, sub, text, False)
    p = subprocess.run(["cargo", f"+{toolchain}", "check", "-q", "--offline", "--message-format=json", "--manifest-path", manifest],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    errors = {name: set() for name, _, _ in ps}
    for l in p.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or not m["message"]["spans"]:
            continue
        msg = m["message"]
        code = (msg["code"] or {}).get("code", "none")
        span = [s for s in msg["spans"] if s["is_primary"]][0]
        if not span["file_name"].endswith("src/lib.rs") or span["line_start"] not in lines:
            raise RuntimeError(f"the library does not compile for the borrow programs: {msg['message']}")
        errors[lines[span["line_start"]]].add(code)
        if code not in CODES:
            raise RuntimeError(f"program {lines[span['line_start']]} does not fit the library: {code} {msg['message']}")
    if p.returncode and not any(errors.values()):
        raise RuntimeError(f"compiling the borrow programs failed: {p.stderr[-2000:]}")
    return errors

def accepted(here, env, toolchain):
    """-> (all programs, the legal ones, the illegal ones that the compiler accepts)"""
    env = dict(env, CARGO_TARGET_DIR=os.path.join(here, "target", "borrows", "out"))
    ps = list(programs())
    # trait errors keep the compiler from judging borrows, so the programs about threads come apart
    plain = [p for p in ps if not (p[0].startswith("threads_") or p[0].endswith("_thread"))]
    rest = [p for p in ps if p not in plain]
    errors = compile_all(here, "all", plain, env, toolchain)
    types = compile_all(here, "threads", rest, env, toolchain)
    errors.update(types)
    left = [p for p in rest if not types[p[0]]]
    if left and len(left) < len(rest):
        errors.update(compile_all(here, "left", left, env, toolchain))
    legal = [p for p in ps if p[1]]
    for name, _, _ in legal:
        if errors[name]:
            raise RuntimeError(f"program {name} is right but does not compile: {errors[name]}")
    return ps, legal, [p for p in ps if not p[1] and not errors[p[0]]]

def binary(here, ps):
    """a crate whose program runs the named functions"""
    text = HEAD
    for name, _, body in ps:
        text += f"fn {name}() {{ {body} }}\n"
    arms = " ".join(f'"{name}" => {name}(),' for name, _, _ in ps)
    text += "fn main() { for a in std::env::args().skip(1) { println!(\"@ {a}\"); match a.as_str() { " + arms + " _ => panic!() } } println!(\"END\"); }\n"
    return crate(here, "run", text, True)

def run(manifest, names, env, toolchain, timeout):
    cmd = ["cargo", f"+{toolchain}", "miri", "run", "-q", "--offline", "--manifest-path", manifest, "--"] + names
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
