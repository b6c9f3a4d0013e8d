//! C01, C02, C12 (bit half), C22: bit vectors as arrays of bits.
use crate::engine::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};

type Feed<'a> = &'a mut dyn FnMut(&[u64]) -> bool;

/// Lengths around word and block boundaries.
pub const EDGES: [usize; 18] = [63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1023, 1024];

// ------------------------------------------------------------------ C01

fn c01_bfs_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(11, 14) {
        if !f(&[n]) {
            return;
        }
    }
}
/// The whole reachable state graph of an n-bit vector: every content, every operation, every accessor.
fn c01_bfs(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let first = BitVec::new(n);
    check_vec(&first, &vec![false; n], READERS)?;
    let mut seen = vec![false; 1 << n];
    seen[0] = true;
    let mut queue = std::collections::VecDeque::from([(0usize, first)]);
    while let Some((s, bv)) = queue.pop_front() {
        st.state(mix(n as u64, s as u64));
        let m = model(n, |i| s >> i & 1 == 1);
        for i in 0..n {
            for op in 0..3 {
                let mut m2 = m.clone();
                apply_model(&mut m2, op, i);
                let s2 = m2.iter().enumerate().fold(0usize, |a, (i, &b)| a | (b as usize) << i);
                for kind in 0..WRITERS {
                    let mut next = bv.clone();
                    apply(&mut next, op, kind, i);
                    st.step(1);
                    check_vec(&next, &m2, if kind == 0 { READERS } else { 2 })?;
                    if !seen[s2] {
                        seen[s2] = true;
                        queue.push_back((s2, next));
                    }
                }
            }
        }
        // None of the steps on clones may have touched this object.
        check_vec(&bv, &m, READERS)?;
        st.outcome(s as u64);
    }
    ensure!(seen.iter().all(|&x| x), "some contents of {n} bits are not reachable");
    Ok(())
}

fn edge_positions(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 31, 32, 62, 63, 64, 65, 126, 127, 128, n.wrapping_sub(2), n.wrapping_sub(1)];
    v.retain(|&x| x < n);
    v.sort_unstable();
    v.dedup();
    v
}
fn c01_edge_cases(t: Tier, f: Feed) {
    for n in EDGES {
        if n > t.pick(600, 1100) {
            continue;
        }
        for bg in [0, 1, 7] {
            if !f(&[n as u64, bg]) {
                return;
            }
        }
    }
}
/// Every content of the positions around word boundaries, over a background, and every step between them.
fn c01_edge(c: &[u64], st: &mut St) -> Res {
    let (n, bg) = (c[0] as usize, c[1]);
    let mut pos = edge_positions(n);
    pos.truncate(12);
    let k = pos.len();
    let base = model(n, |i| pat(bg, i, n));
    let mut cur = base.clone();
    let mut bv = make_bits(&base);
    // Gray-code walk visits all 2^k contents with one flip each; at each, every write at every position.
    for g in 0..1usize << k.min(8) {
        if g > 0 {
            let b = pos[k - 1 - g.trailing_zeros() as usize];
            flip_by(&mut bv, g as u64 % WRITERS, b);
            apply_model(&mut cur, 2, b);
        }
        st.state(hash_bits(bg, &cur));
        check_vec(&bv, &cur, 1)?;
        for &p in &pos {
            for op in 0..3 {
                let kind = (g as u64 + op) % WRITERS;
                let before = cur[p];
                apply(&mut bv, op, kind, p);
                apply_model(&mut cur, op, p);
                st.step(1);
                for &q in &pos {
                    ensure_eq!(cur[q], get_by(&bv, (g % 6) as u64, q), "len {n}: bit {q} after op {op} at {p}");
                }
                if cur[p] != before {
                    flip_by(&mut bv, kind, p);
                    cur[p] = before;
                }
            }
        }
        check_vec(&bv, &cur, 1)?;
    }
    Ok(())
}

fn c01_len_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(1100, 4200) {
        for bg in 0..PATTERNS {
            if !f(&[n, bg]) {
                return;
            }
        }
    }
}
/// Every length; every single operation at every index over each background.
fn c01_len(c: &[u64], st: &mut St) -> Res {
    let (n, bg) = (c[0] as usize, c[1]);
    let m = model(n, |i| pat(bg, i, n));
    let mut bv = BitVec::new(n);
    check_vec(&bv, &vec![false; n], 1)?;
    for i in 0..n {
        set_by(&mut bv, (i % 7) as u64, i, m[i]);
    }
    check_vec(&bv, &m, READERS)?;
    st.state(hash_bits(n as u64, &m));
    let whole: Vec<usize> = bv.raw().to_vec();
    for i in 0..n {
        for op in 0..3 {
            let kind = (i as u64 + op + bg) % WRITERS;
            apply(&mut bv, op, kind, i);
            st.step(1);
            let e = match op {
                0 => false,
                1 => true,
                _ => !m[i],
            };
            ensure_eq!(e, bv.get(i), "len {n}: bit {i} after op {op}");
            // everything else by whole words first, then by the bits around
            let changed = bv.raw().iter().zip(&whole).enumerate().map(|(w, (a, b))| (w, a ^ b)).filter(|x| x.1 != 0).collect::<Vec<_>>();
            let limit = if e == m[i] { 0 } else { 1 };
            ensure!(changed.len() <= limit && changed.iter().all(|x| x.1.count_ones() <= 1), "len {n}: op {op} at {i} changed words {changed:?}");
            for j in i.saturating_sub(65)..(i + 66).min(n) {
                if j != i {
                    ensure_eq!(m[j], bv.get(j), "len {n}: bit {j} after op {op} at {i}");
                }
            }
            if e != m[i] {
                flip_by(&mut bv, kind, i);
            }
        }
    }
    check_vec(&bv, &m, 1)
}

fn c01_seq_cases(t: Tier, f: Feed) {
    for n in [3u64, 66, 130] {
        for kind in 0..WRITERS + 1 {
            for bg in 0..2 {
                // first operation is a coordinate so that the work spreads over workers
                for first in 0..12 {
                    if !f(&[n, kind, bg, first, t.pick(5, 6)]) {
                        return;
                    }
                }
            }
        }
    }
}
/// All operation sequences up to a depth, without merging states, on bits that share and straddle words.
fn c01_seq(c: &[u64], st: &mut St) -> Res {
    let (n, kind, bg, first, depth) = (c[0] as usize, c[1], c[2], c[3], c[4] as usize);
    let pos: [usize; 4] = if n == 3 { [0, 1, 2, 1] } else if n == 66 { [0, 63, 64, 65] } else { [62, 63, 64, 129] };
    let base = model(n, |i| pat(bg, i, n));
    let bv0 = make_bits(&base);
    let mut r = Ok(());
    words(12, depth - 1, &mut |w| {
        let mut bv = bv0.clone();
        let mut m = base.clone();
        for (d, &x) in std::iter::once(&first).chain(w).enumerate() {
            let (p, op) = (pos[x as usize / 3], x % 3);
            let k = if kind == WRITERS { d as u64 % WRITERS } else { kind };
            apply(&mut bv, op, k, p);
            apply_model(&mut m, op, p);
            st.step(1);
            for &q in &pos {
                if bv.get(q) != m[q] {
                    r = fail(format!("len {n}: after operations {first} {w:?} (step {d}), bit {q} reads {}", bv.get(q)));
                    return false;
                }
            }
        }
        st.traces += 1;
        st.outcome(hash_bits(0, &m));
        r = check_vec(&bv, &m, 1);
        r.is_ok()
    });
    r?;
    check_vec(&bv0, &base, 1)
}

fn big_lengths(t: Tier) -> Vec<u64> {
    let mut v = vec![(1 << 16) - 1, (1 << 16) + 1, (1 << 20) + 7, (1 << 24) + 1, (1 << 31) + 3, (1 << 32) - 1, (1 << 32) + 65, (1 << 33) + 1];
    if t == Tier::Thorough {
        v.extend([1 << 16, 1 << 20, 1 << 32, (1 << 34) + 129, (1 << 35) + 1]);
    }
    v
}
fn c01_big_cases(t: Tier, f: Feed) {
    for n in big_lengths(t) {
        if !f(&[n]) {
            return;
        }
    }
}
pub fn big_probes(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 63, 64, 65, 100, n / 2, n / 3, n - 1, n - 2, n - 64, n - 65];
    for k in 3..40 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1, p + 63, p + 64, p + 100]);
    }
    v.retain(|&x| x < n);
    v.sort_unstable();
    v.dedup();
    v
}
/// Very long vectors: index arithmetic beyond 16, 24, 31, 32 and 33 bits.
fn c01_big(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let mut bv = BitVec::new(n);
    ensure_eq!(n, bv.len(), "length");
    let pr = big_probes(n);
    let check = |bv: &BitVec, one: &dyn Fn(usize) -> bool| -> Res {
        for &q in &pr {
            for r in 0..READERS {
                ensure_eq!(one(q), get_by(bv, r, q), "len {n}: bit {q}, reader {r}");
            }
        }
        Ok(())
    };
    check(&bv, &|_| false)?;
    for kind in 0..WRITERS {
        for (x, &p) in pr.iter().enumerate() {
            set_by(&mut bv, kind, p, true);
            st.step(1);
            st.state(mix(n as u64, p as u64));
            check(&bv, &|q| q == p)?;
            if x % 2 == 0 {
                flip_by(&mut bv, kind, p);
            } else {
                set_by(&mut bv, kind, p, false);
            }
        }
        check(&bv, &|_| false)?;
        for (x, &p) in pr.iter().enumerate() {
            flip_by(&mut bv, kind, p);
            check(&bv, &|q| pr.iter().position(|&y| y == q).unwrap() <= x)?;
        }
        for &p in &pr {
            set_by(&mut bv, kind, p, false);
        }
    }
    let ones: u32 = if n <= 1 << 24 { bv.raw().iter().map(|w| w.count_ones()).sum() } else { 0 };
    ensure_eq!(0, ones, "stray ones left in a vector of {n} bits");
    Ok(())
}

/// Lengths for which there is hardly ever enough memory: creating the vector may fail, but not
/// result in one that lacks bits.
fn c01_huge_cases(_t: Tier, f: Feed) {
    let mut v = vec![];
    for k in 35..64 {
        for d in [0u64, 1, 63, 64, 65] {
            v.push((1u64 << k) - d);
            v.push((1u64 << k) + d);
            v.push((3u64 << (k - 1)) + d);
        }
    }
    for d in (0..130).chain([4095, 4096, 1 << 20, 1 << 32]) {
        v.push(u64::MAX - d);
        v.push((u64::MAX >> 1) - d);
    }
    v.sort_unstable();
    v.dedup();
    for n in v {
        if !f(&[n]) {
            return;
        }
    }
}
fn c01_huge(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    st.step(1);
    st.state(n as u64);
    st.traces += 1;
    let end = in_child(|| {
        let mut bv = std::hint::black_box(BitVec::new(std::hint::black_box(n)));
        ensure_eq!(n, bv.len(), "length");
        ensure!(!bv.is_empty(), "a vector of {n} bits is empty");
        let works = !panics(|| {
            for i in [0, n / 2, n - 65, n - 64, n - 1] {
                assert!(!bv.get(i));
                bv.set(i, true);
                assert!(bv.get(i));
            }
        });
        ensure!(works, "a bit vector of {n} bits was created, but its bits cannot be used");
        Ok(())
    });
    match end {
        End::Done(r) => {
            st.outcome(1);
            r
        }
        End::Refused => {
            st.outcome(2);
            Ok(())
        }
        End::Died(sig) => fail(format!("creating a bit vector of {n} bits ended with signal {sig}")),
    }
}

pub fn c01() -> Vec<Space> {
    vec![
        Space { name: "state-graph", about: "complete state graph of n-bit vectors, every operation through every accessor from every content", cases: c01_bfs_cases, run: c01_bfs, serial: false },
        Space { name: "word-edges", about: "all contents of the positions around word boundaries over three backgrounds, every write from each", cases: c01_edge_cases, run: c01_edge, serial: false },
        Space { name: "sequences", about: "all operation sequences up to the depth in the last coordinate, states not merged", cases: c01_seq_cases, run: c01_seq, serial: false },
        Space { name: "lengths", about: "every length up to the bound, every single operation at every index over eight backgrounds", cases: c01_len_cases, run: c01_len, serial: false },
        Space { name: "long", about: "vectors beyond 2^16, 2^24, 2^31, 2^32 and 2^33 bits, one-hot and cumulative writes at all power-of-two boundaries", cases: c01_big_cases, run: c01_big, serial: false },
        Space { name: "huge", about: "lengths up to the largest integer, each in a process of its own with little memory: refused, or all bits there", cases: c01_huge_cases, run: c01_huge, serial: false },
    ]
}

// ------------------------------------------------------------------ C02

/// Storage owned by the harness. It insists that only bits inside the allowed window are touched,
/// checked or not.
#[derive(Clone, Debug)]
pub struct Guarded {
    pub bits: Vec<bool>,
    pub lo: usize,
    pub hi: usize,
    pub bad: std::cell::Cell<usize>,
}
impl Guarded {
    pub fn new(bits: Vec<bool>, lo: usize, hi: usize) -> Self {
        Guarded { bits, lo, hi, bad: std::cell::Cell::new(0) }
    }
    fn ok(&self, i: usize) -> bool {
        if i < self.lo || i >= self.hi {
            self.bad.set(self.bad.get() + 1);
            return false;
        }
        true
    }
}
impl BitGet for Guarded {
    unsafe fn get_bit_unchecked(&self, i: usize) -> bool {
        self.ok(i) && self.bits[i]
    }
    fn get_bit(&self, i: usize) -> bool {
        assert!(i < self.bits.len(), "guarded storage: index out of range");
        self.ok(i) && self.bits[i]
    }
}
impl BitModify for Guarded {
    unsafe fn set_bit_unchecked(&mut self, i: usize, v: bool) {
        if self.ok(i) {
            self.bits[i] = v
        }
    }
    fn set_bit(&mut self, i: usize, v: bool) {
        assert!(i < self.bits.len(), "guarded storage: index out of range");
        if self.ok(i) {
            self.bits[i] = v
        }
    }
    unsafe fn flip_bit_unchecked(&mut self, i: usize) {
        if self.ok(i) {
            self.bits[i] = !self.bits[i]
        }
    }
    fn flip_bit(&mut self, i: usize) {
        assert!(i < self.bits.len(), "guarded storage: index out of range");
        if self.ok(i) {
            self.bits[i] = !self.bits[i]
        }
    }
}

/// Every checked operation at `idx` on a slice must panic.
fn slice_rejects<B: BitGet + BitModify>(s: &mut BitSlice<B>, idx: usize, st: &mut St) -> Res {
    st.step(8);
    ensure!(panics(|| s.get(idx)), "get({idx}) on a slice of length {} did not panic", s.len());
    ensure!(panics(|| s.get_bit(idx)), "get_bit({idx}) on a slice of length {} did not panic", s.len());
    for v in [false, true] {
        ensure!(panics(|| s.set(idx, v)), "set({idx}, {v}) on a slice of length {} did not panic", s.len());
        ensure!(panics(|| s.set_bit(idx, v)), "set_bit({idx}, {v}) on a slice of length {} did not panic", s.len());
    }
    ensure!(panics(|| s.flip(idx)), "flip({idx}) on a slice of length {} did not panic", s.len());
    ensure!(panics(|| s.flip_bit(idx)), "flip_bit({idx}) on a slice of length {} did not panic", s.len());
    Ok(())
}
fn c02_vec_cases(t: Tier, f: Feed) {
    let mut ns: Vec<u64> = (0..=t.pick(140, 700)).collect();
    ns.extend([4095, 4096, 4097, 65535, 65536, (1 << 32) + 5]);
    for n in ns {
        for bg in 0..2 {
            if !f(&[n, bg]) {
                return;
            }
        }
    }
}
fn c02_vec(c: &[u64], st: &mut St) -> Res {
    let (n, bg) = (c[0] as usize, c[1]);
    let mut bv = if bg == 1 && n < 1 << 20 { make(n, |_| true) } else { BitVec::new(n) };
    let small = n < 1 << 20;
    let before: Vec<usize> = if small { bv.raw().to_vec() } else { vec![] };
    st.state(mix(n as u64, bg));
    let mut idx = beyond(n, 0);
    if n < 200 {
        idx.extend(n..n + 200);
    }
    for i in idx {
        st.step(6);
        for v in [false, true] {
            ensure!(panics(|| BitModify::set_bit(&mut bv, i, v)), "set_bit({i}, {v}) on a vector of length {n} did not panic");
        }
        ensure!(panics(|| BitModify::flip_bit(&mut bv, i)), "flip_bit({i}) on a vector of length {n} did not panic");
        slice_rejects(&mut bv, i, st)?;
        slice_rejects(AsMut::<BitSlice<Box<[usize]>>>::as_mut(&mut bv), i, st)?;
        ensure!(!small || bv.raw() == before, "rejected access at {i} changed the words of a vector of length {n}: {:x?} -> {:x?}", before, bv.raw());
        ensure_eq!(n, bv.len(), "length after rejected access at {i}");
        // still usable
        if n > 0 {
            let e = bg == 1 && small;
            ensure_eq!(e, bv.get(n - 1), "last bit after rejected access at {i}");
        }
    }
    Ok(())
}
fn c02_slice_cases(t: Tier, f: Feed) {
    for n in [1u64, 5, 64, 70, 130] {
        for s in 0..=n {
            for e in s..=n {
                if n >= 64 && t == Tier::Quick && !(s % 64 < 2 || s % 64 == 63 || s % 7 == 0) {
                    continue;
                }
                for bg in 0..2 {
                    if !f(&[n, s, e, bg]) {
                        return;
                    }
                }
            }
        }
    }
}
fn c02_slice(c: &[u64], st: &mut St) -> Res {
    let (n, s, e, bg) = (c[0] as usize, c[1] as usize, c[2] as usize, c[3]);
    let len = e - s;
    let m = model(n, |_| bg == 1);
    let mut bv = make_bits(&m);
    let before = bv.raw().to_vec();
    st.state(mix(mix(n as u64, s as u64), mix(e as u64, bg)));
    // keep this list short: the slice checks look at indices up to the end of the vector and wrap-around ones
    let mut idx: Vec<usize> = (len..(len + n - e + 3)).collect();
    idx.extend([len + 64, len + 128, 1 << 32, 1 << 58, usize::MAX - s, (usize::MAX - s).wrapping_add(1), usize::MAX - e, usize::MAX, usize::MAX - 1, usize::MAX - 63]);
    idx.retain(|&i| i >= len);
    if n >= 64 {
        idx = idx.iter().copied().enumerate().filter(|(x, i)| *x < 2 || i % 16 == 0 || *i > n).map(|x| x.1).collect();
    }
    for &i in &idx {
        slice_rejects(&mut bv.slice_mut(s..e), i, st)?;
        slice_rejects(&mut bv.slice_mut(s..e).slice_mut(..), i, st)?;
        if s > 0 {
            slice_rejects(&mut bv.slice_mut(1..).slice_mut(s - 1..e - 1), i, st)?;
        }
        let sh = bv.slice(s..e);
        ensure!(panics(|| sh.get(i)) && panics(|| sh.get_bit(i)), "get({i}) on shared slice {s}..{e} of {n} bits did not panic");
        ensure!(bv.raw() == before, "rejected access at {i} of slice {s}..{e} changed a vector of length {n}");
    }
    // direct slices over harness-owned storage and over other slices
    for &i in &idx {
        let mut g = BitSlice::new(Guarded::new(m.clone(), s, e), s, e);
        slice_rejects(&mut g, i, st)?;
        ensure!(g.backing().bits == m && g.backing().bad.get() == 0, "rejected access at {i} of window {s}..{e} touched the storage");
        let mut inner = bv.slice_mut(s..e);
        let mut outer = BitSlice::new(&mut inner, 0, len);
        slice_rejects(&mut outer, i, st)?;
    }
    if len > 0 {
        for k in 0..len {
            let (mut l, mut r) = bv.split_at_mut(s + k);
            for &i in idx.iter().take(3) {
                slice_rejects(&mut l, i.max(s + k), st)?;
                slice_rejects(&mut r, i.max(n - s - k), st)?;
            }
        }
    }
    ensure!(bv.raw() == before, "rejected accesses to the parts of {s}..{e} changed a vector of length {n}");
    Ok(())
}
macro_rules! int_rejects {
    ($t:ty, $st:expr, $($v:expr),*) => {{
        let w = <$t>::BITS as usize;
        let mut idx = beyond(w, 0);
        idx.extend(w..w + 300);
        for v in [0 as $t, <$t>::MAX, 1, (<$t>::MAX / 3) $(, $v as $t)*] {
            for &i in &idx {
                $st.step(4);
                let mut x = v;
                ensure!(panics(|| x.get_bit(i)), "get_bit({i}) on {} did not panic", stringify!($t));
                ensure!(panics(|| x.set_bit(i, true)), "set_bit({i}, true) on {} did not panic", stringify!($t));
                ensure!(panics(|| x.set_bit(i, false)), "set_bit({i}, false) on {} did not panic", stringify!($t));
                ensure!(panics(|| x.flip_bit(i)), "flip_bit({i}) on {} did not panic", stringify!($t));
                ensure_eq!(v, x, "value of a {} after rejected access at {i}", stringify!($t));
            }
            $st.state(mix(w as u64, v as u64));
        }
    }};
}
fn c02_words_cases(_t: Tier, f: Feed) {
    for k in 0..8 {
        if !f(&[k]) {
            return;
        }
    }
}
fn c02_words(c: &[u64], st: &mut St) -> Res {
    match c[0] {
        0 => int_rejects!(u8, st,),
        1 => int_rejects!(u16, st,),
        2 => int_rejects!(u32, st,),
        3 => int_rejects!(u64, st,),
        4 => int_rejects!(usize, st,),
        k => {
            let words = k as usize - 5;
            for fill in [0usize, usize::MAX] {
                let mut a = vec![fill; words];
                let n = words * 64;
                let mut idx = beyond(n, 0);
                idx.extend(n..n + 300);
                for i in idx {
                    st.step(4);
                    let s: &mut [usize] = &mut a;
                    ensure!(panics(|| s.get_bit(i)), "get_bit({i}) on {words} words did not panic");
                    ensure!(panics(|| s.set_bit(i, true)), "set_bit({i}, true) on {words} words did not panic");
                    ensure!(panics(|| s.set_bit(i, false)), "set_bit({i}, false) on {words} words did not panic");
                    ensure!(panics(|| s.flip_bit(i)), "flip_bit({i}) on {words} words did not panic");
                    ensure!(a.iter().all(|&w| w == fill), "words after rejected access at {i}: {a:x?}");
                }
                st.state(mix(k, fill as u64));
            }
        }
    }
    Ok(())
}
/// Lengths around the powers of two.
pub fn around_powers(from: u32, to: u32) -> Vec<u64> {
    (from..=to).flat_map(|k| [(1u64 << k) - 65, (1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 63, 3 << (k - 1)]).collect()
}
fn c02_long_cases(t: Tier, f: Feed) {
    for n in around_powers(10, t.pick(33, 34)) {
        if !f(&[n]) {
            return;
        }
    }
}
/// Long vectors and windows far inside of them.
fn c02_long(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let mut bv = BitVec::new(n);
    let probes = big_probes(n);
    for &p in probes.iter().step_by(2) {
        bv.set(p, true);
    }
    let unchanged = |bv: &BitVec, what: &dyn Fn() -> String| -> Res {
        for (x, &p) in probes.iter().enumerate() {
            ensure_eq!(x % 2 == 0, bv.get(p), "bit {p} of {n} bits after rejected accesses {}", what());
        }
        Ok(())
    };
    for i in beyond(n, 0) {
        for v in [false, true] {
            ensure!(panics(|| BitModify::set_bit(&mut bv, i, v)), "set_bit({i}, {v}) on a vector of length {n} did not panic");
        }
        ensure!(panics(|| BitModify::flip_bit(&mut bv, i)), "flip_bit({i}) on a vector of length {n} did not panic");
        st.step(3);
        slice_rejects(&mut bv, i, st)?;
        st.state(mix(c[0], i as u64));
    }
    unchanged(&bv, &|| "beyond the end".into())?;
    for (s, e) in [(0, n - 1), (1, n), (63, n / 2), (n / 2, n), (n / 3, n / 2), (n - 65, n - 1), (n - 64, n - 64), (n - 1, n)] {
        for i in beyond(e - s, s).into_iter().chain([n - s, n, n - 1, n - e, e].into_iter().filter(|&i| i >= e - s)) {
            slice_rejects(&mut bv.slice_mut(s..e), i, st)?;
            slice_rejects(&mut BitSlice::new(&mut *bv, s, e), i, st)?;
            st.state(hash_words(2, &[n, s, e, i]));
        }
        unchanged(&bv, &|| format!("to the window {s}..{e}"))?;
    }
    st.traces += 1;
    Ok(())
}
pub fn c02() -> Vec<Space> {
    vec![
        Space { name: "vectors", about: "every length up to the bound; every index from the length on (dense near it, then all powers of two and wrap-around values); every checked accessor", cases: c02_vec_cases, run: c02_vec, serial: false },
        Space { name: "words", about: "every integer type and arrays of 0..2 words; every index beyond the width", cases: c02_words_cases, run: c02_words, serial: false },
        Space { name: "slices", about: "all windows of the listed vectors, nested slices, split halves, direct slices over guarded storage", cases: c02_slice_cases, run: c02_slice, serial: false },
        Space { name: "long", about: "lengths around all powers of two to 2^33 and windows in them; indices up to the largest integer", cases: c02_long_cases, run: c02_long, serial: false },
    ]
}

// ------------------------------------------------------------------ C22

fn expected_debug(m: &[bool]) -> String {
    let mut s = String::from("{");
    for (i, &b) in m.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push(if b { '1' } else { '0' });
    }
    s.push('}');
    s
}
fn c22_small_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(17, 20) {
        for s in 0..1u64 << n {
            if !f(&[n, s]) {
                return;
            }
        }
    }
}
fn c22_small(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let m = model(n, |i| c[1] >> i & 1 == 1);
    st.state(mix(c[0], c[1]));
    c22_one(&m, st)
}
fn c22_one(m: &[bool], st: &mut St) -> Res {
    let bv = make_bits(m);
    st.step(1);
    let text = format!("{bv:?}");
    st.outcome(text.len() as u64);
    ensure_eq!(expected_debug(m), text, "debug text of {} bits", m.len());
    check_vec(&bv, m, 1)
}
fn c22_len_cases(t: Tier, f: Feed) {
    let mut ns: Vec<u64> = (0..=t.pick(1100, 4300)).collect();
    ns.extend([4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100_003, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]);
    for n in ns {
        for p in 0..PATTERNS {
            if !f(&[n, p]) {
                return;
            }
        }
    }
}
fn c22_len(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let m = model(n, |i| pat(c[1], i, n));
    st.state(hash_bits(0, &m));
    c22_one(&m, st)
}
fn c22_hot_cases(t: Tier, f: Feed) {
    for n in [64u64, 65, 130, 257] {
        for p in 0..n {
            for q in p..n {
                if q - p > t.pick(3, 300) && q + 2 < n && p > 1 {
                    continue;
                }
                if !f(&[n, p, q]) {
                    return;
                }
            }
        }
    }
}
fn c22_hot(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    for inv in [false, true] {
        let m = model(n, |i| (i as u64 == c[1] || i as u64 == c[2]) != inv);
        st.state(hash_bits(0, &m));
        c22_one(&m, st)?;
    }
    Ok(())
}
fn digits(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_digit()).collect()
}
fn c22_format_cases(t: Tier, f: Feed) {
    for n in (0..=t.pick(140, 600)).chain([1000, 4097]) {
        for p in 0..PATTERNS {
            if !f(&[n, p]) {
                return;
            }
        }
    }
}
/// With options the text may be laid out differently, but no bit may be missing.
fn c22_format(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let m = model(n, |i| pat(c[1], i, n));
    let bv = make_bits(&m);
    let want = digits(&expected_debug(&m));
    macro_rules! each {
        ($($spec:literal)*) => {
            $(
                let text = format!($spec, bv);
                st.outcome(text.len() as u64);
                ensure_eq!(want, digits(&text), "bits in the text by {} of {n} bits", $spec);
                st.step(1);
            )*
        };
    }
    each!("{:#?}" "{:10?}" "{:<200?}" "{:^7?}" "{:>9?}" "{:*>4000?}" "{:.0?}" "{:.3?}" "{:10.3?}" "{:#.2?}" "{:#30?}" "{:+?}" "{:x?}" "{:X?}");
    let text = format!("{:?}", (&bv, Some(&bv), [&bv]));
    ensure_eq!(want.repeat(3), digits(&text), "bits in the text of a tuple, option and array of {n} bits");
    st.state(hash_bits(1, &m));
    check_vec(&bv, &m, 1)
}
/// Takes `room` bytes; then, or at call number `fails`, it reports an error.
struct Writer {
    text: String,
    room: usize,
    calls: usize,
    fails: usize,
}
impl std::fmt::Write for Writer {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        if self.calls == self.fails + 1 {
            return Err(std::fmt::Error);
        }
        let fits = s.len().min(self.room - self.text.len());
        self.text.push_str(&s[..fits]);
        if fits < s.len() { Err(std::fmt::Error) } else { Ok(()) }
    }
}
fn c22_writer_cases(t: Tier, f: Feed) {
    for n in (0..=t.pick(70, 300)).chain([127, 128, 129, 500]) {
        for p in 0..PATTERNS {
            if !f(&[n, p]) {
                return;
            }
        }
    }
}
/// A writer that runs full after any number of bytes, or refuses any one call: an error is
/// reported, unless everything has arrived nevertheless.
fn c22_writer(c: &[u64], st: &mut St) -> Res {
    use std::fmt::Write;
    let n = c[0] as usize;
    let m = model(n, |i| pat(c[1], i, n));
    let bv = make_bits(&m);
    let want = expected_debug(&m);
    for room in 0..=want.len() {
        let mut w = Writer { text: String::new(), room, calls: 0, fails: usize::MAX - 1 };
        let res = write!(w, "{bv:?}");
        ensure_eq!(room == want.len(), res.is_ok(), "{n} bits printed to a writer with room for {room} bytes: success");
        ensure!(want.starts_with(&w.text), "{n} bits printed to a writer with room for {room} bytes: got {:?}", w.text);
        st.step(1);
    }
    let mut fails = 0;
    loop {
        let mut w = Writer { text: String::new(), room: usize::MAX, calls: 0, fails };
        let res = write!(w, "{bv:?}");
        ensure!(res.is_err() || w.text == want, "{n} bits printed to a writer that refuses call {fails}: no error, but got {:?}", w.text);
        st.step(1);
        if w.calls <= fails {
            break;
        }
        fails += 1;
    }
    st.outcome(fails as u64);
    st.state(hash_bits(2, &m));
    Ok(())
}
pub fn c22() -> Vec<Space> {
    vec![
        Space { name: "contents", about: "every content of every length up to the bound", cases: c22_small_cases, run: c22_small, serial: false },
        Space { name: "one-two-hot", about: "one or two ones (and the complement) at every position pair near each other or the ends", cases: c22_hot_cases, run: c22_hot, serial: false },
        Space { name: "lengths", about: "every length up to the bound over eight patterns", cases: c22_len_cases, run: c22_len, serial: false },
        Space { name: "formats", about: "every length up to the bound, eight patterns, fourteen format options: no bit is missing", cases: c22_format_cases, run: c22_format, serial: false },
        Space { name: "writers", about: "every length up to the bound, eight patterns: a writer that runs full after any number of bytes or refuses any one call", cases: c22_writer_cases, run: c22_writer, serial: false },
    ]
}
