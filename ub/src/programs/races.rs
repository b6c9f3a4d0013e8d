//! Programs of two threads, to be run under an interpreter that reports data races. Two accesses of
//! different threads that nothing orders are a race whichever comes first, so one schedule shows it.
//! Every object is made anew for every program: what happens on first use happens in the threads.
use super::*;
use crate::wrong;

struct Sh<T>(T);
unsafe impl<T> Sync for Sh<T> {}
unsafe impl<T> Send for Sh<T> {}

/// The first thread runs a, the second b; -> what they return.
fn both<T>(x: &T, a: &dyn Fn(&T) -> Vec<usize>, b: &dyn Fn(&T) -> Vec<usize>) -> (Vec<usize>, Vec<usize>) {
    let (x, a, b) = (&Sh(x), &Sh(a), &Sh(b));
    std::thread::scope(|s| {
        let t = s.spawn(move || {
            let (b, x) = (b, x);
            (b.0)(x.0)
        });
        let u = s.spawn(move || {
            let (a, x) = (a, x);
            (a.0)(x.0)
        });
        (u.join().unwrap_or_else(|_| wrong("the first thread panics")), t.join().unwrap_or_else(|_| wrong("the second thread panics")))
    })
}
fn demand(what: &str, c: &[u64], got: Vec<usize>, want: Vec<usize>) {
    if got != want {
        wrong(&format!("{what} of program {c:?} returns {got:?} instead of {want:?}"));
    }
}

// ------------------------------------------------------------------ C19

/// One block, or two blocks of 4096 bits, and some ones in most parts.
const LENS: [usize; 2] = [700, 4250];
fn words(n: usize) -> Vec<usize> {
    (0..n.div_ceil(64)).map(|w| [0x8000_0000_0000_0001, 0, 1 << 20, 0xff][w % 4] * (w < n / 64) as usize).collect()
}
fn shared(n: usize) -> BitVec {
    let mut v = BitVec::new(n);
    *v = BitSlice::new(words(n).into_boxed_slice(), 0, n);
    v
}
fn ones_before(n: usize, i: usize) -> usize {
    let ones = |(w, x): (usize, usize)| if 64 * (w + 1) <= i { x.count_ones() } else if 64 * w < i { (x & ((1 << (i - 64 * w)) - 1)).count_ones() } else { 0 };
    words(n).into_iter().enumerate().map(ones).sum::<u32>() as usize
}
fn nth_one(n: usize, k: usize) -> usize {
    let mut left = k;
    for (w, x) in words(n).into_iter().enumerate() {
        if left < x.count_ones() as usize {
            return 64 * w + (0..64).filter(|b| x >> b & 1 == 1).nth(left).unwrap();
        }
        left -= x.count_ones() as usize;
    }
    MAX
}
const QUERIES: u64 = 11;
fn ask<S: SelectStrategy>(q: u64, f: &FlatPopcount<S>, v: &BitVec) -> Vec<usize> {
    let n = v.len();
    vec![match q {
        0 => f.rank::<true>(70),
        1 => f.rank::<false>(70),
        2 => f.rank_dyn(n - 50, true),
        3 => f.rank::<true>(600),
        4 => f.rank::<true>(n),
        5 => f.select(0).unwrap_or(MAX),
        6 => f.select(15).unwrap_or(MAX),
        7 => f.select(n / 25).unwrap_or(MAX),
        8 => f.select(9999).unwrap_or(MAX),
        9 => f.len() + f.is_empty() as usize,
        _ => return v.slice(120..140).iter().map(|b| b as usize).chain([v.get(63) as usize]).collect(),
    }]
}
fn answer(q: u64, n: usize) -> Vec<usize> {
    vec![match q {
        0 => ones_before(n, 70),
        1 => 70 - ones_before(n, 70),
        2 => ones_before(n, n - 50),
        3 => ones_before(n, 600),
        4 => ones_before(n, n),
        5 => nth_one(n, 0),
        6 => nth_one(n, 15),
        7 => nth_one(n, n / 25),
        8 => MAX,
        9 => n,
        _ => return (120..140).chain([63]).map(|i| words(n)[i / 64] >> (i % 64) & 1).collect(),
    }]
}
fn queries_cases(t: bool, f: Feed) {
    for a in 0..QUERIES {
        for b in a..QUERIES {
            f(&[a, b, 0, 0]);
            // ranks are the same for all strategies
            if (5..8).contains(&a) && (5..8).contains(&b) {
                f(&[a, b, 1, 0]);
                f(&[a, b, 2, 0]);
            }
            // one query for each block
            if t || (a == 0 || a == 5) && (b == 2 || b == 7) {
                f(&[a, b, 0, 1]);
            }
        }
    }
}
fn queries(c: &[u64]) {
    fn go<S: SelectStrategy>(c: &[u64]) {
        let n = LENS[c[3] as usize];
        let v = shared(n);
        let f = FlatPopcount::<S>::new(&v);
        let (x, y) = both(&f, &|f| ask(c[0], f, &v), &|f| ask(c[1], f, &v));
        demand("the first thread", c, x, answer(c[0], n));
        demand("the second thread", c, y, answer(c[1], n));
    }
    crate::count(2);
    match c[2] {
        0 => go::<BinarySearch>(c),
        1 => go::<LinearSearch>(c),
        #[cfg(target_feature = "ssse3")]
        _ => go::<succinct_neo::rank_select::flat_popcount::SimdSearch>(c),
        #[cfg(not(target_feature = "ssse3"))]
        _ => {}
    }
}
fn builds_cases(_t: bool, f: Feed) {
    for (a, b, n) in [(0, 7, 0), (4, 4, 0), (5, 2, 0), (7, 6, 0), (7, 4, 1)] {
        f(&[a, b, n]);
    }
}
/// Both threads make a structure of their own over one vector.
fn builds(c: &[u64]) {
    let n = LENS[c[2] as usize];
    let v = shared(n);
    crate::count(4);
    let (x, y) = both(&v, &|v| ask(c[0], &FlatPopcount::<BinarySearch>::new(v), v), &|v| ask(c[1], &FlatPopcount::<LinearSearch>::new(v), v));
    demand("the first thread", c, x, answer(c[0], n));
    demand("the second thread", c, y, answer(c[1], n));
}
const READS: u64 = 12;
/// Reading what both threads have: a vector, a slice of it and packed integers.
fn read<B: BitGet>(q: u64, v: &BitVec, s: &BitSlice<B>, x: &IntVec) -> Vec<usize> {
    let bits = |i: &mut dyn Iterator<Item = bool>| i.map(|b| b as usize).collect();
    match q {
        0 => vec![v.get(63) as usize, v.get_bit(64) as usize, v.len()],
        1 => bits(&mut v.iter()),
        2 => v.clone().raw().to_vec(),
        3 => vec![(v.slice(..) == v.slice(..)) as usize, (v.slice(..9) == s.slice(..9)) as usize],
        4 => format!("{v:?}").bytes().map(|b| b as usize).collect(),
        5 => bits(&mut v.slice(60..).slice(2..9).into_iter()),
        6 => {
            let (l, r) = v.split_at(65);
            vec![l.len(), r.len(), l.get(64) as usize, r.get(0) as usize]
        }
        7 => vec![s.get(1) as usize, s.get(70) as usize, s.len()],
        8 => bits(&mut s.iter()),
        9 => vec![x.get(2), x.get(7), x.is_empty() as usize],
        10 => x.iter().collect(),
        _ => x.raw_data().to_vec(),
    }
}
fn reads_cases(_t: bool, f: Feed) {
    for a in 0..READS {
        for b in a..READS {
            f(&[a, b]);
        }
    }
}
fn reads(c: &[u64]) {
    let make = || {
        let mut x = IntVec::new(23);
        for i in 0..9 {
            x.push(i * 500_000);
        }
        (made(140), x)
    };
    let (v, x) = make();
    let s = BitSlice::new(v.backing(), 3, 133);
    crate::count(2);
    let (a, b) = both(&(), &|_| read(c[0], &v, &s, &x), &|_| read(c[1], &v, &s, &x));
    let (v, x) = make();
    let s = BitSlice::new(v.backing(), 3, 133);
    demand("the first thread", c, a, read(c[0], &v, &s, &x));
    demand("the second thread", c, b, read(c[1], &v, &s, &x));
}

// ------------------------------------------------------------------ C20

const WRITES: u64 = 6;
fn write_half<B: BitGet + BitModify>(q: u64, h: &mut BitSlice<B>, from: usize) -> Vec<usize> {
    match q {
        0 => h.set(from + 5, true),
        1 => h.set(from, false),
        2 => h.flip(from + 63),
        3 => h.slice_mut(from..from + 64).flip(9),
        4 => return h.slice(from..from + 64).iter().map(|b| b as usize).collect(),
        _ => {
            let mut s = h.slice_mut(from..from + 64);
            let (mut l, mut r) = s.split_at_mut(20);
            l.flip(1);
            r.set(1, true);
        }
    }
    vec![h.get(from + 5) as usize, h.get(from + 9) as usize]
}
fn halves_cases(_t: bool, f: Feed) {
    for at in [64, 128, 130] {
        for a in 0..WRITES {
            for b in 0..WRITES {
                f(&[at, a, b]);
            }
        }
    }
}
/// Writes through both halves to words that only one of them touches.
fn halves(c: &[u64]) {
    let go = |threads: bool| {
        let mut v = made(330);
        let (mut l, mut r) = v.split_at_mut(c[0] as usize);
        // in the right half from a word limit on
        let from = (64 - c[0] as usize % 64) % 64;
        let mut right = Sh((&mut r, vec![]));
        let mut left = Sh((&mut l, vec![]));
        if threads {
            let (left, right) = (&mut left, &mut right);
            std::thread::scope(|s| {
                s.spawn(move || {
                    let right = { right };
                    right.0 .1 = write_half(c[2], right.0 .0, from);
                });
                s.spawn(move || {
                    let left = { left };
                    left.0 .1 = write_half(c[1], left.0 .0, 0);
                });
            });
        } else {
            left.0 .1 = write_half(c[1], left.0 .0, 0);
            right.0 .1 = write_half(c[2], right.0 .0, from);
        }
        let (a, b) = (left.0 .1, right.0 .1);
        a.into_iter().chain(b).chain(v.raw().iter().copied()).collect::<Vec<_>>()
    };
    crate::count(2);
    let got = go(true);
    demand("both threads", c, got, go(false));
}

// ------------------------------------------------------------------ C21

const DEEDS: u64 = 9;
/// What one thread does with objects of its own.
fn deed(k: u64, seed: usize) -> Vec<usize> {
    match k {
        0 => {
            let mut v = BitVec::new(130 + seed);
            for i in [0, 63, 64, 129] {
                v.set(i, true);
                v.flip(i / 2);
            }
            (0..v.len()).filter(|&i| v.get(i)).collect()
        }
        1 => {
            let mut v = made(150);
            let w = v.clone();
            v.flip(100);
            vec![(*v == *w) as usize, (v.slice(..90) == w.slice(..90)) as usize, v.raw()[1], w.raw()[1]]
        }
        2 => format!("{:?}", made(9 + seed)).bytes().map(|b| b as usize).collect(),
        3 => {
            let mut v = made(200);
            let (mut l, mut r) = v.split_at_mut(70);
            l.flip(3);
            r.set(30, true);
            v.slice_mut(5..150).flip(7);
            v.iter().enumerate().filter(|x| x.1).map(|x| x.0).collect()
        }
        4 => {
            let mut x = IntVec::new(23);
            for i in 0..40 {
                x.push(i * 1000 + seed);
            }
            x.set(20, 77);
            x.iter().chain([x.get(20), x.raw_data()[3]]).collect()
        }
        5 => {
            let mut x = IntVec::with_capacity(64, 2);
            for i in 0..9 {
                x.push(i + seed);
            }
            x.into_iter().collect()
        }
        6 => {
            let v = made(700 + seed);
            let f = FlatPopcount::<BinarySearch>::new(&v);
            vec![f.rank::<true>(600), f.select(2).unwrap_or(MAX), f.select(9).unwrap_or(MAX)]
        }
        7 => {
            let mut s = BitSlice::new(seed as u64, 3, 60);
            s.set(50, true);
            s.flip(0);
            let mut w = [seed, 5, 6];
            w[..].set_bit(70, true);
            vec![s.backing().count_ones() as usize, s.iter().filter(|b| *b).count(), w[1]]
        }
        _ => {
            let r = |f: &mut dyn FnMut()| call(|| f()).is_none() as usize;
            let (mut v, mut x) = (made(70), IntVec::new(5));
            vec![r(&mut || v.set(70, true)), r(&mut || x.push(32)), r(&mut || x.push(seed & 7)), r(&mut || drop(v.slice(5..99)))]
        }
    }
}
fn objects_cases(_t: bool, f: Feed) {
    for a in 0..DEEDS {
        for b in a..DEEDS {
            f(&[a, b]);
        }
    }
}
fn objects(c: &[u64]) {
    crate::count(2);
    let (x, y) = both(&(), &|_| deed(c[0], 1), &|_| deed(c[1], 2));
    // alone, and only afterwards, because the first to come may do more than the others
    demand("the first thread", c, x, deed(c[0], 1));
    demand("the second thread", c, y, deed(c[1], 2));
}

pub fn spaces(property: &str) -> Vec<Space> {
    match property {
        "C19" => vec![
            Space { name: "races-queries", about: "all pairs of eleven queries in two threads on one structure made anew, under Miri: right answers and no data race", cases: queries_cases, run: queries },
            Space { name: "races-builds", about: "two threads that build structures over one vector, under Miri: right answers and no data race", cases: builds_cases, run: builds },
            Space { name: "races-reads", about: "all pairs of twelve ways to read a vector, a slice and packed integers in two threads, under Miri: the same results as alone and no data race", cases: reads_cases, run: reads },
        ],
        "C20" => vec![Space { name: "races-halves", about: "all pairs of six ways to use the halves of a split in two threads, in words of their own, under Miri: the same result as one after the other and no data race", cases: halves_cases, run: halves }],
        "C21" => vec![Space { name: "races-objects", about: "all pairs of nine programs in two threads on objects of their own, under Miri: the same results as alone and no data race", cases: objects_cases, run: objects }],
        _ => vec![],
    }
}
