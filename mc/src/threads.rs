//! C19 to C21: several threads, several objects.
use crate::engine::*;
use crate::ints::{build, max_of, val};
use crate::ranks::Ref;
use crate::sched::{at_every_step, interleave, Duo};
use crate::slices::Writes;
use crate::util::*;
use crate::{ensure, ensure_eq};
use std::cell::{Cell, UnsafeCell};
use succinct_neo::bit_vec::{BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

type Feed<'a> = &'a mut dyn FnMut(&[u64]) -> bool;

/// What a query answered, in a slot of its own for each thread.
struct Answers(UnsafeCell<[[u64; 4]; 2]>);
impl Answers {
    fn new() -> Self {
        Answers(UnsafeCell::new([[u64::MAX - 7; 4]; 2]))
    }
    #[inline]
    fn put(&self, who: usize, i: usize, v: u64) {
        unsafe { (*self.0.get())[who][i] = v }
    }
    fn get(&self, who: usize, i: usize) -> u64 {
        unsafe { (*self.0.get())[who][i] }
    }
}

// ------------------------------------------------------------------ C19

/// Everything that can be shared; the borrowing structure is dropped before what it borrows.
struct Shared {
    lin: FlatPopcount<'static, LinearSearch>,
    bin: FlatPopcount<'static, BinarySearch>,
    ints: IntVec,
    bv: Box<BitVec>,
    progs: [Vec<u64>; 2],
    subject: u64,
    answers: Answers,
}
fn subject(k: u64) -> Ref {
    match k {
        0 => Ref::of(200, |i| i % 3 == 0),
        1 => Ref::of(9000, |i| i % 5 != 1),
        _ => Ref::of(20000, |i| i / 4096 % 2 == 1),
    }
}
thread_local! {
    static SUBJECTS: Vec<Ref> = (0..3).map(subject).collect();
    static VECS: Vec<BitVec> = (0..3).map(|k| subject(k).vec()).collect();
}
const IWIDTH: usize = 23;
impl Shared {
    fn new(subject: u64, progs: [Vec<u64>; 2]) -> Shared {
        let bv = Box::new(VECS.with(|v| v[subject as usize].clone()));
        let r: &'static BitVec = unsafe { &*(&*bv as *const BitVec) };
        Shared {
            lin: FlatPopcount::new(r),
            bin: FlatPopcount::new(r),
            ints: build(IWIDTH, &(0..9).map(|i| val(7, i, IWIDTH)).collect::<Vec<_>>()),
            bv,
            progs,
            subject,
            answers: Answers::new(),
        }
    }
}
const QUERIES: u64 = 20;
fn opt(x: Option<usize>) -> u64 {
    x.map_or(u64::MAX, |v| v as u64)
}
/// The queries; inlining is left to the compiler as in user code.
fn query(s: &Shared, q: u64) -> u64 {
    let n = s.bv.len();
    match q {
        0 => s.lin.rank::<true>(n / 2) as u64,
        1 => s.lin.rank::<false>(n - 3) as u64,
        2 => s.lin.rank_dyn(70, true) as u64,
        3 => opt(s.lin.select(3)),
        4 => opt(s.lin.select(66)),
        5 => opt(s.lin.select(usize::MAX)),
        6 => opt(s.bin.select(3)),
        7 => opt(s.bin.select(60)),
        8 => s.lin.len() as u64 + s.lin.is_empty() as u64,
        9 => s.bv.get(130) as u64,
        10 => s.bv.get(131) as u64,
        11 => s.bv.slice(60..140).get(9) as u64,
        12 => s.bv.slice(3..131).split_at(64).1.get(2) as u64,
        13 => s.ints.get(2) as u64,
        14 => s.ints.get(5) as u64,
        15 => s.lin.rank::<true>(n) as u64,
        16 => s.lin.rank::<true>(0) as u64,
        17 => s.bv.slice(100..110).iter().filter(|b| *b).count() as u64,
        18 => s.ints.iter().nth(2).unwrap_or(0) as u64,
        _ => (s.bv.slice(0..9) == s.bv.slice(3..12)) as u64 ^ (s.bv.raw()[1] as u64) << 1,
    }
}
fn expected(subject: u64, q: u64) -> u64 {
    SUBJECTS.with(|s| {
        let r = &s[subject as usize];
        let n = r.n;
        let bit = |i: usize| (r.words[i / 64] >> (i % 64)) as u64 & 1;
        match q {
            0 => r.rank(n / 2) as u64,
            1 => (n - 3 - r.rank(n - 3)) as u64,
            2 => r.rank(70) as u64,
            3 | 6 => opt(r.select(3)),
            4 => opt(r.select(66)),
            5 => u64::MAX,
            7 => opt(r.select(60)),
            8 => n as u64,
            9 => bit(130),
            10 => bit(131),
            11 => bit(69),
            12 => bit(69),
            13 | 18 => val(7, 2, IWIDTH) as u64,
            14 => val(7, 5, IWIDTH) as u64,
            15 => r.ones as u64,
            16 => 0,
            17 => (100..110).filter(|&i| bit(i) == 1).count() as u64,
            _ => ((0..9).all(|i| bit(i) == bit(i + 3))) as u64 ^ (r.words[1] as u64) << 1,
        }
    })
}
impl Duo for Shared {
    fn run(&self, who: usize) {
        for (i, &q) in self.progs[who].iter().enumerate() {
            self.answers.put(who, i, query(self, q));
        }
    }
    fn verdict(&self) -> Res {
        for who in 0..2 {
            for (i, &q) in self.progs[who].iter().enumerate() {
                ensure_eq!(expected(self.subject, q), self.answers.get(who, i), "query {q} (number {i}) of thread {}", who + 1);
            }
        }
        Ok(())
    }
    fn interim(&self) -> Res {
        for (i, &q) in self.progs[1].iter().enumerate() {
            ensure_eq!(expected(self.subject, q), self.answers.get(1, i), "query {q} (number {i}) of thread 2");
            self.answers.put(1, i, u64::MAX - 7);
        }
        Ok(())
    }
}
fn c19_pair_cases(t: Tier, f: Feed) {
    for s in t.pick(vec![0u64], vec![0, 1, 2]) {
        for a in 0..QUERIES {
            for b in a..QUERIES {
                if !f(&[s, a, b, 1, 0]) {
                    return;
                }
            }
        }
    }
}
fn c19_two_cases(t: Tier, f: Feed) {
    let qs = t.pick(vec![9u64, 13, 8], vec![0, 1, 2, 3, 6, 8, 9, 11, 12, 13, 17]);
    for &a in &qs {
        for &b in &qs {
            for part in 0..PARTS {
                if a <= b && !f(&[0, a, b, 2, part]) {
                    return;
                }
            }
        }
    }
}
const PARTS: u64 = 8;
fn c19_pair(c: &[u64], st: &mut St) -> Res {
    interleave(&mut || Shared::new(c[0], [vec![c[1]], vec![c[2]]]), c[3] as usize, (c[4], PARTS), hash_words(19, &[c[0] as usize, c[1] as usize, c[2] as usize]), &|| format!("queries {} and {} on one structure", c[1], c[2]), st)
}
fn c19_prog_cases(t: Tier, f: Feed) {
    let (aa, bb) = t.pick((vec![0u64, 3, 4, 7, 13], vec![0u64, 1, 3, 4, 7, 14, 15]), ((0..QUERIES).collect(), (0..QUERIES).collect()));
    for s in 0..3 {
        for a in 0..QUERIES {
            for b in 0..QUERIES {
                if !f(&[s, a, a, b, b]) {
                    return;
                }
            }
        }
        for &a in &aa {
            for &b in &aa {
                for &c in &bb {
                    if a != b && !f(&[s, a, b, c, a]) {
                        return;
                    }
                }
            }
        }
    }
}
fn c19_prog(c: &[u64], st: &mut St) -> Res {
    at_every_step(&Shared::new(c[0], [vec![c[1], c[2]], vec![c[3], c[4]]]), hash_words(20, &c.iter().map(|&x| x as usize).collect::<Vec<_>>()), &|| format!("queries {},{} and {},{}", c[1], c[2], c[3], c[4]), st)
}
/// Two threads build structures over one vector at the same time.
struct Building {
    bv: BitVec,
    answers: Answers,
}
impl Duo for Building {
    fn run(&self, who: usize) {
        let fp = FlatPopcount::<LinearSearch>::new(&self.bv);
        self.answers.put(who, 0, fp.rank::<true>(65) as u64);
        self.answers.put(who, 1, opt(fp.select(20)));
        self.answers.put(who, 2, fp.rank::<false>(70) as u64);
    }
    fn verdict(&self) -> Res {
        for who in 0..2 {
            ensure_eq!(22, self.answers.get(who, 0), "rank of thread {}", who + 1);
            ensure_eq!(60, self.answers.get(who, 1), "select of thread {}", who + 1);
            ensure_eq!(70 - 24, self.answers.get(who, 2), "rank of zeros of thread {}", who + 1);
        }
        Ok(())
    }
    fn interim(&self) -> Res {
        ensure_eq!([22, 60, 46], [self.answers.get(1, 0), self.answers.get(1, 1), self.answers.get(1, 2)], "answers of thread 2");
        self.answers.put(1, 0, 0);
        Ok(())
    }
}
fn c19_build_cases(_t: Tier, f: Feed) {
    for n in [70u64, 600, 5000] {
        if !f(&[n]) {
            return;
        }
    }
}
fn c19_build(c: &[u64], st: &mut St) -> Res {
    at_every_step(&Building { bv: make(c[0] as usize, |i| i % 3 == 0), answers: Answers::new() }, mix(191, c[0]), &|| "two structures built over one vector".into(), st)
}
pub fn c19() -> Vec<Space> {
    vec![
        Space { name: "query-pairs", about: "every pair of queries, every instruction at which one thread is preempted by the other's whole query, started by either thread", cases: c19_pair_cases, run: c19_pair, serial: false },
        Space { name: "two-preemptions", about: "pairs of short queries, every instruction of one at which the other starts and every instruction at which that is stopped again, started by either thread", cases: c19_two_cases, run: c19_pair, serial: false },
        Space { name: "query-programs", about: "two queries in each thread, the second thread's after every instruction of the first", cases: c19_prog_cases, run: c19_prog, serial: false },
        Space { name: "building", about: "two threads build over one vector, one of them after every instruction of the other", cases: c19_build_cases, run: c19_build, serial: false },
    ]
}

// ------------------------------------------------------------------ C20

struct Halves {
    l: UnsafeCell<BitSlice<&'static mut Box<[usize]>>>,
    r: UnsafeCell<BitSlice<&'static mut Box<[usize]>>>,
    bv: Box<BitVec>,
    base: Vec<bool>,
    k: usize,
    /// per thread: (operation, index inside the half)
    ops: [Vec<(u64, usize)>; 2],
    preempted: Cell<bool>,
}
/// A vector's halves as split_at_mut hands them out; their type names the backing reference.
fn halves(bv: &mut BitVec, k: usize) -> (BitSlice<&'static mut Box<[usize]>>, BitSlice<&'static mut Box<[usize]>>) {
    let b: &'static mut BitVec = unsafe { &mut *(bv as *mut BitVec) };
    b.split_at_mut(k)
}
impl Halves {
    fn new(n: usize, k: usize, bg: u64, ops: [Vec<(u64, usize)>; 2]) -> Halves {
        let base = model(n, |i| pat(bg, i, n));
        let mut bv = Box::new(make_bits(&base));
        let (l, r) = halves(&mut bv, k);
        Halves { l: UnsafeCell::new(l), r: UnsafeCell::new(r), bv, base, k, ops, preempted: Cell::new(false) }
    }
    fn after(&self, who: &[usize]) -> Vec<bool> {
        let mut m = self.base.clone();
        for &w in who {
            for &(op, i) in &self.ops[w] {
                apply_model(&mut m, op, i + w * self.k);
            }
        }
        m
    }
}
impl Duo for Halves {
    fn run(&self, who: usize) {
        let h = unsafe { &mut *if who == 0 { self.l.get() } else { self.r.get() } };
        for &(op, i) in &self.ops[who] {
            h.wr(i as u64, op, i);
        }
    }
    fn preempted(&self, yes: bool) {
        self.preempted.set(yes)
    }
    fn verdict(&self) -> Res {
        let got = read(&**self.bv, self.base.len());
        let want = self.after(&[0, 1]);
        if got == want {
            return Ok(());
        }
        let words = |w: usize| self.ops[w].iter().map(|o| (o.1 + w * self.k) / 64).collect::<Vec<_>>();
        let shared = words(0).iter().any(|x| words(1).contains(x));
        let msg = format!("split at {}: operations {:?} and {:?} leave {} instead of {}", self.k, self.ops[0], self.ops[1], show(&got), show(&want));
        // The known finding: both halves address bits of one word, the operations overlap
        // in time, and one of the two updates is lost.
        if shared && self.preempted.get() && self.ops.iter().all(|o| o.len() == 1) && (got == self.after(&[0]) || got == self.after(&[1])) {
            return fail_sig("halves-sharing-a-word-lose-an-update", msg);
        }
        fail(msg)
    }
}
fn c20_pair_cases(t: Tier, f: Feed) {
    // (length, split, index in the left half, index in the right half, background)
    let mut v: Vec<[u64; 4]> = vec![];
    for (n, k) in [(128u64, 64u64), (192, 64), (192, 128), (200, 128)] {
        for l in [0, 1, k / 2, k - 1] {
            for r in [0, 1, (n - k) / 2, n - k - 1] {
                v.push([n, k, l, r]);
            }
        }
    }
    // not at a word boundary, but the addressed bits are in different words
    for (n, k) in [(200u64, 70u64), (130, 30), (130, 100), (256, 127), (256, 129)] {
        for l in [0, 5, k - 1] {
            for r in [0, 40, 64, n - k - 1] {
                if r < n - k && l / 64 != (k + r) / 64 {
                    v.push([n, k, l, r]);
                }
            }
        }
    }
    if t == Tier::Quick {
        v = v.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
    }
    for c in v {
        for ops in 0..9 {
            for bg in [0, 1] {
                if !f(&[c[0], c[1], c[2], c[3], ops, bg, t.pick(1, 2)]) {
                    return;
                }
            }
        }
    }
}
fn c20_pair(c: &[u64], st: &mut St) -> Res {
    let (n, k, l, r) = (c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize);
    interleave(&mut || Halves::new(n, k, c[5], [vec![(c[4] % 3, l)], vec![(c[4] / 3, r)]]), c[6] as usize, (0, 1), hash_words(c[4], &[n, k, l, r, c[5] as usize]), &|| format!("{n} bits"), st)
}
fn c20_same_cases(t: Tier, f: Feed) {
    // both bits in one word
    for (n, k, l, r) in [(2u64, 1u64, 0u64, 0u64), (64, 32, 31, 0), (64, 1, 0, 62), (64, 63, 0, 0), (130, 70, 69, 0), (130, 65, 64, 5)] {
        for ops in 0..9 {
            for bg in [0, 1] {
                if !f(&[n, k, l, r, ops, bg, t.pick(1, 2)]) {
                    return;
                }
            }
        }
    }
}
fn c20_same(c: &[u64], st: &mut St) -> Res {
    let (n, k, l, r) = (c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize);
    // The known outcome must not hide another one in a later schedule of the same case.
    let mut known: Option<Fail> = None;
    let mk = || Halves::new(n, k, c[5], [vec![(c[4] % 3, l)], vec![(c[4] / 3, r)]]);
    struct Tolerant<'a>(Halves, &'a std::cell::RefCell<Option<Fail>>);
    impl Duo for Tolerant<'_> {
        fn run(&self, who: usize) {
            self.0.run(who)
        }
        fn preempted(&self, yes: bool) {
            self.0.preempted(yes)
        }
        fn verdict(&self) -> Res {
            match self.0.verdict() {
                Err(f) if f.sig != "mismatch" => {
                    self.1.borrow_mut().get_or_insert(f);
                    Ok(())
                }
                x => x,
            }
        }
    }
    let cell = std::cell::RefCell::new(None);
    let r = interleave(&mut || Tolerant(mk(), &cell), c[6] as usize, (0, 1), hash_words(c[4], &[n, k, l, r, c[5] as usize]), &|| format!("{n} bits"), st);
    known = cell.into_inner().or(known.take());
    r?;
    match known {
        Some(f) => Err(f),
        None => Ok(()),
    }
}
fn c20_seq_cases(t: Tier, f: Feed) {
    for (n, k) in [(128u64, 64u64), (200, 128), (192, 64)] {
        for a in 0..t.pick(3, 9) {
            for b in 0..t.pick(3, 9) {
                if !f(&[n, k, a, b]) {
                    return;
                }
            }
        }
    }
}
/// Several writes in each thread, on both sides of the boundary.
fn c20_seq(c: &[u64], st: &mut St) -> Res {
    let (n, k) = (c[0] as usize, c[1] as usize);
    let l = vec![(c[2] % 3, k - 1), (2, k - 2), ((c[2] / 3) % 3, k - 1)];
    let r = vec![(2, 1), (c[3] % 3, 0), ((c[3] / 3) % 3, n - k - 1)];
    interleave(&mut || Halves::new(n, k, 0, [l.clone(), r.clone()]), 1, (0, 1), hash_words(77, &[n, k, c[2] as usize, c[3] as usize]), &|| format!("{n} bits"), st)
}
pub fn c20() -> Vec<Space> {
    vec![
        Space { name: "different-words", about: "both halves address bits of different words: every pair of operations, preemptions at every instruction (number in the last coordinate), both threads first", cases: c20_pair_cases, run: c20_pair, serial: false },
        Space { name: "sequences", about: "three writes in each half, one preemption at every instruction", cases: c20_seq_cases, run: c20_seq, serial: false },
        Space { name: "same-word", about: "both halves address bits of one word, preemptions at every instruction (number in the last coordinate), both threads first", cases: c20_same_cases, run: c20_same, serial: false },
    ]
}

// ------------------------------------------------------------------ C21

/// An object of some kind with a model of what it must contain.
enum Obj {
    Bits(BitVec, Vec<bool>),
    Ints(IntVec, Vec<usize>, usize),
}
impl Obj {
    fn new(kind: u64) -> Obj {
        match kind {
            0 => {
                let m = model(70, |i| i % 3 == 0);
                Obj::Bits(make_bits(&m), m)
            }
            1 => Obj::Bits(BitVec::new(64), vec![false; 64]),
            2 => {
                let m: Vec<usize> = (0..5).map(|i| val(7, i, 23)).collect();
                Obj::Ints(build(23, &m), m, 23)
            }
            _ => Obj::Ints(IntVec::new(64), vec![], 64),
        }
    }
    const OPS: u64 = 4;
    fn op(&mut self, op: u64) {
        match self {
            Obj::Bits(b, m) => match op {
                0 => {
                    b.set(63, true);
                    m[63] = true
                }
                1 => {
                    b.flip(0);
                    m[0] = !m[0]
                }
                2 => {
                    // start over: the new vector must be empty although it may get the old memory
                    let n = m.len();
                    *b = BitVec::new(n);
                    m.fill(false)
                }
                _ => {
                    *b = b.clone();
                    b.slice_mut(10..20).flip(5);
                    m[15] = !m[15]
                }
            },
            Obj::Ints(v, m, w) => match op {
                0 => {
                    v.push(max_of(*w));
                    m.push(max_of(*w))
                }
                1 => {
                    if !m.is_empty() {
                        let i = m.len() - 1;
                        v.set(i, 5);
                        m[i] = 5
                    }
                }
                2 => {
                    *v = IntVec::with_capacity(*w, 3);
                    m.clear()
                }
                _ => {
                    v.push(0);
                    m.push(0)
                }
            },
        }
    }
    fn check(&self, who: usize) -> Res {
        match self {
            Obj::Bits(b, m) => {
                check_vec(b, m, 1)?;
                let fp = FlatPopcount::<LinearSearch>::new(b);
                let ones = m.iter().filter(|x| **x).count();
                ensure_eq!(ones, fp.rank::<true>(m.len()), "object {who}: number of ones");
                ensure_eq!(m.iter().position(|x| *x), fp.select(0), "object {who}: first one");
            }
            Obj::Ints(v, m, w) => {
                let got: Vec<usize> = v.iter().collect();
                ensure!(got == *m, "object {who} (width {w}): {got:x?} instead of {m:x?}");
            }
        }
        Ok(())
    }
}
fn c21_hist_cases(t: Tier, f: Feed) {
    for a in 0..4 {
        for b in 0..4 {
            for first in 0..2 * Obj::OPS {
                if !f(&[a, b, first, t.pick(4, 6)]) {
                    return;
                }
            }
        }
    }
}
/// All interleavings of operations on two objects in one thread.
fn c21_hist(c: &[u64], st: &mut St) -> Res {
    let mut r = Ok(());
    words(2 * Obj::OPS, c[3] as usize, &mut |w| {
        let mut o = [Obj::new(c[0]), Obj::new(c[1])];
        let res = (|| -> Res {
            for (i, &x) in std::iter::once(&c[2]).chain(w).enumerate() {
                o[(x / Obj::OPS) as usize].op(x % Obj::OPS);
                st.step(1);
                if i == 0 || i == w.len() {
                    o[0].check(1)?;
                    o[1].check(2)?;
                }
            }
            Ok(())
        })();
        st.traces += 1;
        st.state(w.iter().fold(hash_words(21, &[c[0] as usize, c[1] as usize, c[2] as usize]), |h, &x| mix(h, x)));
        r = res.map_err(|f| Fail { sig: f.sig, msg: format!("objects of kind {} and {}, operations {} {w:?}: {}", c[0], c[1], c[2], f.msg) });
        r.is_ok()
    });
    r
}
fn c21_clone_cases(_t: Tier, f: Feed) {
    for n in [1u64, 5, 63, 64, 65, 130] {
        for first in 0..3 {
            if !f(&[n, first]) {
                return;
            }
        }
    }
}
/// A vector and its clone, a structure over the vector, and more clones, modified in every order.
fn c21_clone(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let base = model(n, |i| i % 2 == c[1] as usize % 2);
    let mut r = Ok(());
    words(9, 4, &mut |w| {
        let mut vs = vec![make_bits(&base)];
        let mut ms = vec![base.clone()];
        let res = (|| -> Res {
            for &x in w {
                let t = (x / 3) as usize % vs.len();
                match x % 3 {
                    0 => {
                        let d = vs[t].clone();
                        vs.push(d);
                        let d = ms[t].clone();
                        ms.push(d);
                    }
                    1 => {
                        vs[t].flip(n - 1);
                        ms[t][n - 1] = !ms[t][n - 1];
                    }
                    _ => {
                        let (last, m) = (vs.len() - 1, ms.len() - 1);
                        if last > 0 && t == last {
                            vs.pop();
                            ms.pop();
                        } else {
                            let s = vs[last].clone();
                            vs[t].clone_from(&s);
                            ms[t] = ms[m].clone();
                        }
                    }
                }
                st.step(1);
            }
            for (v, m) in vs.iter().zip(&ms) {
                check_vec(v, m, 1)?;
            }
            Ok(())
        })();
        st.traces += 1;
        st.state(w.iter().fold(mix(c[0], c[1]), |h, &x| mix(h, x)));
        r = res.map_err(|f| Fail { sig: f.sig, msg: format!("clones of {n} bits, operations {w:?}: {}", f.msg) });
        r.is_ok()
    });
    r
}
/// Several rank/select structures over different vectors alive at the same time.
fn c21_struct_cases(_t: Tier, f: Feed) {
    for a in 0..6u64 {
        for b in 0..6 {
            if !f(&[a, b]) {
                return;
            }
        }
    }
}
fn c21_struct(c: &[u64], st: &mut St) -> Res {
    let mk = |k: u64| match k {
        0 => Ref::of(0, |_| false),
        1 => Ref::of(130, |i| i % 3 == 0),
        2 => Ref::of(130, |i| i % 3 == 1),
        3 => Ref::of(5000, |_| true),
        4 => Ref::of(5000, |i| i == 4999),
        _ => Ref::of(20000, |i| i % 2 == 0),
    };
    let (ra, rb) = (mk(c[0]), mk(c[1]));
    let va = ra.vec();
    let fa = FlatPopcount::<LinearSearch>::new(&va);
    let look = |f: &FlatPopcount<LinearSearch>, r: &Ref| -> Res {
        for i in (0..=r.n).step_by(37).chain([r.n]) {
            ensure_eq!(r.rank(i), f.rank::<true>(i), "structures {} and {}: rank at {i}", c[0], c[1]);
        }
        for k in (0..r.ones + 1).step_by(29).chain([r.ones.wrapping_sub(1), r.ones]) {
            ensure_eq!(r.select(k), f.select(k), "structures {} and {}: select({k})", c[0], c[1]);
        }
        Ok(())
    };
    look(&fa, &ra)?;
    for round in 0..3 {
        let mut vb = rb.vec();
        {
            let fb = FlatPopcount::<LinearSearch>::new(&vb);
            look(&fb, &rb)?;
            look(&fa, &ra)?;
            look(&fb, &rb)?;
        }
        look(&fa, &ra)?;
        // the other vector changes: only a new structure over it sees that
        if rb.n > 0 {
            vb.flip(rb.n / 2);
        }
        look(&fa, &ra)?;
        drop(vb);
        let mut iv = IntVec::new(17);
        for i in 0..100 * round {
            iv.push(i);
        }
        look(&fa, &ra)?;
        st.step(7);
    }
    st.state(mix(c[0], c[1]));
    Ok(())
}
/// Two threads, one object each.
struct Apart {
    o: [UnsafeCell<Obj>; 2],
    ops: [u64; 2],
    /// also create and destroy objects
    extra: bool,
    answers: Answers,
}
impl Duo for Apart {
    fn run(&self, who: usize) {
        let o = unsafe { &mut *self.o[who].get() };
        o.op(self.ops[who]);
        if self.extra {
            if let Obj::Bits(b, _) = o {
                let fp = FlatPopcount::<LinearSearch>::new(b);
                self.answers.put(who, 0, fp.rank::<true>(b.len()) as u64);
            }
        }
    }
    fn interim(&self) -> Res {
        unsafe { &*self.o[1].get() }.check(2)
    }
    fn verdict(&self) -> Res {
        for who in 0..2 {
            let o = unsafe { &*self.o[who].get() };
            o.check(who + 1)?;
            if let (true, Obj::Bits(_, m)) = (self.extra, o) {
                ensure_eq!(m.iter().filter(|x| **x).count() as u64, self.answers.get(who, 0), "ones counted by thread {}", who + 1);
            }
        }
        Ok(())
    }
}
fn c21_threads_cases(t: Tier, f: Feed) {
    for a in 0..4u64 {
        for b in a..4u64 {
            for oa in 0..Obj::OPS {
                for ob in 0..Obj::OPS {
                    let light = oa < 2 && ob < 2;
                    if (light || t == Tier::Thorough) && !f(&[a, b, oa, ob, 1]) {
                        return;
                    }
                    if light && t == Tier::Thorough && !f(&[a, b, oa, ob, 2]) {
                        return;
                    }
                }
            }
        }
    }
}
fn c21_threads(c: &[u64], st: &mut St) -> Res {
    interleave(&mut || apart(c), c[4] as usize, (0, 1), hash_words(22, &[c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize]), &|| format!("objects of kind {} and {}, operations {} and {}", c[0], c[1], c[2], c[3]), st)
}
fn apart(c: &[u64]) -> Apart {
    Apart { o: [UnsafeCell::new(Obj::new(c[0])), UnsafeCell::new(Obj::new(c[1]))], ops: [c[2], c[3]], extra: c[4] == 9, answers: Answers::new() }
}
fn c21_steps_cases(_t: Tier, f: Feed) {
    for a in 0..4u64 {
        for b in 0..4u64 {
            for oa in 0..Obj::OPS {
                for ob in 0..Obj::OPS {
                    if !f(&[a, b, oa, ob, 0]) || a < 2 && !f(&[a, b, oa, ob, 9]) {
                        return;
                    }
                }
            }
        }
    }
}
fn c21_steps(c: &[u64], st: &mut St) -> Res {
    at_every_step(&apart(c), hash_words(23, &c.iter().map(|&x| x as usize).collect::<Vec<_>>()), &|| format!("objects of kind {} and {}, operations {} and {}", c[0], c[1], c[2], c[3]), st)
}
pub fn c21() -> Vec<Space> {
    vec![
        Space { name: "histories", about: "all sequences of operations (first in the third coordinate, then the number in the last) on two objects in one thread, creation and release included", cases: c21_hist_cases, run: c21_hist, serial: false },
        Space { name: "clones", about: "all sequences of four cloning, modifying, copying and dropping steps on a family of clones", cases: c21_clone_cases, run: c21_clone, serial: false },
        Space { name: "structures", about: "every pair of rank/select structures alive together while vectors are built, changed and released", cases: c21_struct_cases, run: c21_struct, serial: false },
        Space { name: "threads", about: "one object per thread, every pair of operations, preemptions at every instruction (number in the last coordinate), started by either thread", cases: c21_threads_cases, run: c21_threads, serial: false },
        Space { name: "steps", about: "one object per thread, one thread's operation (counting structures built over the vectors, if the last coordinate is 9) repeated after every instruction of the other's", cases: c21_steps_cases, run: c21_steps, serial: false },
    ]
}
