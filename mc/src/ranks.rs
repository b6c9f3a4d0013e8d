//! C13 to C17: rank, select, search strategies, purity, memory.
use crate::engine::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use std::sync::atomic::Ordering::Relaxed;
use succinct_neo::bit_vec::{BitSlice, BitVec};
#[cfg(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
use succinct_neo::rank_select::flat_popcount::SimdSearch;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

type Feed<'a> = &'a mut dyn FnMut(&[u64]) -> bool;

/// The reference: plain words with a count before each.
pub struct Ref {
    pub n: usize,
    pub words: Vec<usize>,
    pre: Vec<usize>,
    pub ones: usize,
}
impl Ref {
    pub fn new(n: usize, mut words: Vec<usize>) -> Ref {
        words.resize(n.div_ceil(64), 0);
        if n % 64 != 0 {
            *words.last_mut().unwrap() &= (1 << (n % 64)) - 1;
        }
        let mut pre = Vec::with_capacity(words.len());
        let mut c = 0;
        for w in &words {
            pre.push(c);
            c += w.count_ones() as usize;
        }
        Ref { n, words, pre, ones: c }
    }
    pub fn of(n: usize, f: impl Fn(usize) -> bool) -> Ref {
        let mut w = vec![0usize; n.div_ceil(64)];
        for i in 0..n {
            w[i / 64] |= (f(i) as usize) << (i % 64);
        }
        Ref::new(n, w)
    }
    pub fn rank(&self, i: usize) -> usize {
        if i == self.n {
            return self.ones;
        }
        self.pre[i / 64] + (self.words[i / 64] & ((1 << (i % 64)) - 1)).count_ones() as usize
    }
    pub fn select(&self, k: usize) -> Option<usize> {
        if k >= self.ones {
            return None;
        }
        let w = self.pre.partition_point(|&c| c <= k) - 1;
        let mut left = k - self.pre[w];
        for b in 0..64 {
            if self.words[w] >> b & 1 == 1 {
                if left == 0 {
                    return Some(w * 64 + b);
                }
                left -= 1;
            }
        }
        unreachable!()
    }
    pub fn vec(&self) -> BitVec {
        let mut bv = BitVec::new(self.n);
        for (w, &x) in self.words.iter().enumerate() {
            let mut x = x;
            while x != 0 {
                bv.set(w * 64 + x.trailing_zeros() as usize, true);
                x &= x - 1;
            }
        }
        bv
    }
    fn describe(&self) -> String {
        if self.n <= 140 {
            return format!("bits {}", (0..self.n).map(|i| if self.words[i / 64] >> (i % 64) & 1 == 1 { '1' } else { '0' }).collect::<String>());
        }
        format!("{} bits with {} ones", self.n, self.ones)
    }
    fn hash(&self) -> u64 {
        hash_words(self.n as u64, &self.words)
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Rank,
    Select,
}
fn check_ranks<S>(fp: &FlatPopcount<S>, r: &Ref, idx: &mut dyn Iterator<Item = usize>, name: &str, st: &mut St) -> Res {
    ensure_eq!(r.n, fp.len(), "{}: length ({name})", r.describe());
    ensure_eq!(r.n == 0, fp.is_empty(), "{}: is_empty ({name})", r.describe());
    for i in idx {
        let e = r.rank(i);
        ensure_eq!(e, fp.rank::<true>(i), "{}: rank of ones at {i} ({name})", r.describe());
        ensure_eq!(i - e, fp.rank::<false>(i), "{}: rank of zeros at {i} ({name})", r.describe());
        ensure_eq!(e, fp.rank_dyn(i, true), "{}: dynamic rank of ones at {i} ({name})", r.describe());
        ensure_eq!(i - e, fp.rank_dyn(i, false), "{}: dynamic rank of zeros at {i} ({name})", r.describe());
        st.step(4);
    }
    Ok(())
}
fn check_selects<S: SelectStrategy>(bv: &BitVec, r: &Ref, ks: &[usize], name: &str, st: &mut St) -> Res {
    let fp = FlatPopcount::<S>::new(bv);
    for &k in ks {
        let e = r.select(k);
        ensure_eq!(e, fp.select(k), "{}: select({k}) with {name}", r.describe());
        st.step(1);
    }
    for k in [r.ones, r.ones + 1, r.ones + 8192, r.ones | 8191, 1 << 32, 1 << 44, 1 << 63, usize::MAX - 1, usize::MAX] {
        if k >= r.ones {
            ensure_eq!(None, fp.select(k), "{}: select({k}) with {name}", r.describe());
            st.step(1);
        }
    }
    Ok(())
}
/// Indices around every block boundary, the start and the end.
fn rank_probes(r: &Ref) -> Vec<usize> {
    let mut v = vec![];
    for b in 0..=r.n / 512 {
        let p = b * 512;
        v.extend([p.saturating_sub(1), p, p + 1, p + 63, p + 64, p + 65, p + 300]);
    }
    v.extend([r.n, r.n.saturating_sub(1), r.n.saturating_sub(2), r.n / 64 * 64]);
    v.retain(|&i| i <= r.n);
    v
}
fn select_probes(r: &Ref) -> Vec<usize> {
    let mut v = vec![];
    for b in 0..=r.n / 512 {
        let c = r.rank((b * 512).min(r.n));
        v.extend([c.saturating_sub(1), c, c + 1]);
    }
    for s in 0..=r.ones / 8192 {
        let c = s * 8192;
        v.extend([c.saturating_sub(1), c, c + 1]);
    }
    v.extend([r.ones.saturating_sub(2), r.ones.saturating_sub(1)]);
    v.sort_unstable();
    v.dedup();
    v
}
/// Compares a structure over the reference's bits with the reference; everywhere or at the probes.
fn check(mode: Mode, r: &Ref, all: bool, st: &mut St) -> Res {
    let bv = r.vec();
    st.state(r.hash());
    st.outcome(r.ones as u64);
    check_on(mode, &bv, r, all, st)?;
    ensure!(bv.raw() == r.words, "{}: the vector changed", r.describe());
    Ok(())
}
fn check_on(mode: Mode, bv: &BitVec, r: &Ref, all: bool, st: &mut St) -> Res {
    match mode {
        Mode::Rank => {
            if all {
                check_ranks(&FlatPopcount::<()>::new(bv), r, &mut (0..=r.n), "no strategy", st)?;
            } else {
                check_ranks(&FlatPopcount::<()>::new(bv), r, &mut rank_probes(r).into_iter(), "no strategy", st)?;
            }
        }
        Mode::Select => {
            let ks = if all { (0..r.ones).collect() } else { select_probes(r) };
            check_selects::<LinearSearch>(bv, r, &ks, "linear search", st)?;
            check_selects::<BinarySearch>(bv, r, &ks, "binary search", st)?;
            #[cfg(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
            check_selects::<SimdSearch>(bv, r, &ks, "SIMD search", st)?;
        }
    }
    Ok(())
}

// --- spaces shared by rank and select

fn small_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(14u64, 20) {
        for hi in 0..1u64 << n.saturating_sub(8) {
            if !f(&[n, hi]) {
                return;
            }
        }
    }
}
fn small(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    for lo in 0..1usize << n.min(8) {
        check(mode, &Ref::new(n, vec![(c[1] as usize) << 8 | lo]), true, st)?;
        st.traces += 1;
    }
    Ok(())
}
fn hot_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![64u64, 65, 130], vec![64, 65, 128, 130, 192, 200]) {
        for i in 0..n {
            if !f(&[n, i]) {
                return;
            }
        }
    }
    // around the block boundaries of long vectors
    for n in [513, 4096, 4097, 8200, 12288] {
        for i in 0..n {
            if (i % 512 < 2 || i % 512 > 509 || i + 2 > n) && !f(&[n, i]) {
                return;
            }
        }
    }
}
/// Exactly one or two ones (or zeros), at every position / around boundaries.
fn hot(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let (n, i) = (c[0] as usize, c[1] as usize);
    let js: Vec<usize> = if n <= 200 { (0..=i).collect() } else { (0..=i).filter(|j| j % 512 == 0 || j % 512 == 511 || j + 1 == n || *j == i).collect() };
    for j in js {
        let r = Ref::of(n, |x| x == i || x == j);
        check(mode, &r, n <= 200, st)?;
        let r = Ref::new(n, r.words.iter().map(|w| !w).collect());
        check(mode, &r, n <= 200, st)?;
        if i - j > 1 {
            check(mode, &Ref::of(n, |x| x >= j && x < i), n <= 200, st)?;
        }
        st.traces += 2;
    }
    Ok(())
}
fn len_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(8300u64, 13000) {
        if !f(&[n]) {
            return;
        }
    }
}
fn len(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    for p in 0..PATTERNS {
        let r = Ref::of(n, |i| pat(p, i, n));
        check(mode, &r, true, st)?;
        st.traces += 1;
    }
    Ok(())
}
/// Fills one 512-bit block.
fn l2_block(w: &mut [usize], kind: u64) {
    match kind {
        0 => {}
        1 => w.fill(usize::MAX),
        2 => w[7] = 1 << 63,
        3 => w[0] = 1,
        4 => {
            w.fill(usize::MAX);
            w[7] = usize::MAX >> 1
        }
        _ => w[..4].fill(usize::MAX),
    }
}
fn block_cases(t: Tier, f: Feed) {
    let k = t.pick(4u64, 6);
    for prefix in 0..3 {
        for tail in 0..3 {
            for code in 0..k.pow(4) {
                if !f(&[k, prefix, tail, code]) {
                    return;
                }
            }
        }
    }
}
/// One 4096-bit block with every combination of fillings of its eight 512-bit blocks.
fn block(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let (k, prefix, tail) = (c[0], c[1] as usize, c[2] as usize);
    for code2 in 0..k.pow(4) {
        let mut code = c[3] * k.pow(4) + code2;
        let mut w = vec![0usize; 64 * (prefix + 1)];
        if prefix == 1 {
            w[..64].fill(usize::MAX);
        } else if prefix == 2 {
            w[..128].fill(0x1111_0000_ffff_8001);
        }
        for b in 0..8 {
            l2_block(&mut w[prefix * 64 + b * 8..][..8], code % k);
            code /= k;
        }
        let mut n = w.len() * 64;
        if tail == 1 {
            n += 1;
            w.push(1);
        } else if tail == 2 {
            n -= 512;
        }
        check(mode, &Ref::new(n, w), false, st)?;
        st.traces += 1;
    }
    Ok(())
}
fn l1_block(w: &mut [usize], kind: u64) {
    match kind {
        0 => {}
        1 => w.fill(usize::MAX),
        2 => w[63] = 1 << 63,
        3 => w[0] = 1,
        4 => {
            w.fill(usize::MAX);
            w[0] = usize::MAX - 1
        }
        _ => w.iter_mut().step_by(2).for_each(|x| *x = usize::MAX),
    }
}
fn l1_cases(t: Tier, f: Feed) {
    for blocks in 0..=t.pick(5u32, 7) {
        for code in 0..6u64.pow(blocks) {
            if !f(&[blocks as u64, code]) {
                return;
            }
        }
    }
}
/// Every sequence of 4096-bit block fillings, with tails of several lengths.
fn l1(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let mut w = vec![0usize; 64 * c[0] as usize];
    let mut code = c[1];
    for b in 0..c[0] as usize {
        l1_block(&mut w[b * 64..][..64], code % 6);
        code /= 6;
    }
    for tail in [0usize, 1, 63, 64, 511, 512, 513, 4095] {
        let mut w = w.clone();
        let n = w.len() * 64 + tail;
        w.resize(n.div_ceil(64), usize::MAX);
        check(mode, &Ref::new(n, w), false, st)?;
        st.traces += 1;
    }
    Ok(())
}
fn sample_cases(t: Tier, f: Feed) {
    // ones in the first run, alignment of its start, empty bits behind it, ones in the second run
    for first in [1u64, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 16385] {
        for start in [0u64, 1, 63, 64, 511, 512, 4095, 4096] {
            for gap in [0u64, 1, 511, 4095, 4096, 8192, 12289, 40960] {
                for second in t.pick(vec![1u64, 2, 8192, 8193], vec![1, 2, 4096, 8191, 8192, 8193, 16384, 20000]) {
                    if !f(&[first, start, gap, second]) {
                        return;
                    }
                }
            }
        }
    }
}
/// Runs of ones around multiples of 8192, with gaps.
fn sample(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let (first, start, gap, second) = (c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize);
    let a = start + first;
    let b = a + gap + second;
    for tail in [0, 5000] {
        check(mode, &Ref::of(b + tail, |i| i >= start && i < a || i >= a + gap && i < b), false, st)?;
    }
    st.traces += 2;
    Ok(())
}
fn unit_cases(t: Tier, f: Feed) {
    for len in 1..=t.pick(6u32, 8) {
        for code in 0..4u64.pow(len) {
            if !f(&[len as u64, code]) {
                return;
            }
        }
    }
}
/// Every sequence of 8192-bit units: empty, full, half full, one single one.
fn unit(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let mut w = vec![0usize; 128 * c[0] as usize];
    let mut code = c[1];
    for u in 0..c[0] as usize {
        let x = &mut w[u * 128..][..128];
        match code % 4 {
            0 => {}
            1 => x.fill(usize::MAX),
            2 => x.iter_mut().for_each(|v| *v = 0x5555_5555_5555_5555),
            _ => x[77] = 1 << 5,
        }
        code /= 4;
    }
    check(mode, &Ref::new(w.len() * 64, w), false, st)
}
fn dense_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![1u64 << 16, (1 << 17) + 1], vec![1 << 16, (1 << 17) + 1, (1 << 20) + 4097, (1 << 22) - 1]) {
        for p in 0..PATTERNS + 6 {
            if !f(&[n, p]) {
                return;
            }
        }
    }
}
/// Longer vectors of several densities, every index and every one.
fn dense(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let r = Ref::of(n, |i| match c[1].checked_sub(PATTERNS) {
        None => pat(c[1], i, n),
        Some(0) => i % 4096 == 4095,
        Some(1) => i % 512 == 0,
        Some(2) => i % 8192 < 3,
        Some(3) => (i / 4096) % 3 != 1,
        Some(4) => i % 9 != 4,
        _ => i % 7919 == 13,
    });
    check(mode, &r, true, st)
}
fn huge_cases(t: Tier, f: Feed) {
    for kind in 0..t.pick(2, 4) {
        // an instrumented build would take minutes, so it leaves these to the release build
        if (t == Tier::Thorough || !cfg!(debug_assertions)) && !f(&[kind]) {
            return;
        }
    }
}
/// More than 2^32 bits, and more than 2^32 ones.
fn huge(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let n = (1usize << 32) + 3 * 4096 + 77;
    let n = if c[0] == 3 { n * 2 } else { n };
    let words = n.div_ceil(64);
    let w = match c[0] {
        0 => {
            let mut w = vec![0usize; words];
            for b in [0usize, 5000, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 4096, (1 << 32) + 8191, n - 1] {
                w[b / 64] |= 1 << (b % 64);
            }
            w
        }
        1 => vec![usize::MAX; words],
        _ => (0..words).map(|i| if i / 64 % 2 == 0 { usize::MAX } else { 0x8000_0000_0000_0001 }).collect(),
    };
    let r = Ref::new(n, w);
    let mut bv = from_words(r.words.clone(), n);
    let mut idx: Vec<usize> = vec![];
    for base in [0usize, 5000, 1 << 16, 1 << 31, 1 << 32, n - 9000, n] {
        for d in [0usize, 1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193] {
            idx.extend([base.saturating_sub(d), base + d]);
        }
    }
    idx.retain(|&i| i <= n);
    let mut ks: Vec<usize> = vec![];
    for base in [0usize, 8192, 1 << 16, r.ones / 2, 1 << 31, 1 << 32, r.ones] {
        for d in 0..12 {
            ks.extend([base.saturating_sub(d), base + d]);
        }
        ks.extend([base + 8191, base + 8192, base + 8193, base + 511, base + 512, base + 4096]);
    }
    st.state(mix(c[0], n as u64));
    match mode {
        Mode::Rank => check_ranks(&FlatPopcount::<()>::new(&bv), &r, &mut idx.into_iter(), "no strategy", st)?,
        // one strategy is enough here, the search inside a block does not depend on the size
        Mode::Select => {
            let fp = FlatPopcount::<LinearSearch>::new(&bv);
            for k in ks {
                ensure_eq!(r.select(k), fp.select(k), "{}: select({k})", r.describe());
                st.step(1);
            }
        }
    }
    bv.set(0, false);
    Ok(())
}
fn power_cases(t: Tier, f: Feed) {
    for k in 13..=t.pick(if cfg!(debug_assertions) { 22 } else { 25 }, 29) {
        for d in 0..5 {
            for kind in 0..6 {
                if !f(&[k, d, kind]) {
                    return;
                }
            }
        }
    }
}
/// Lengths around every power of two, queried around every power of two and its half-way points.
fn power(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let top = 1usize << c[0];
    let n = [top - 1, top, top + 1, top + 4097, top + top / 2][c[1] as usize];
    let words = n.div_ceil(64);
    let mut w: Vec<usize> = match c[2] {
        0 => vec![usize::MAX; words],
        1 => (0..words).map(|i| if i >= words / 2 { usize::MAX } else { 0 }).collect(),
        2 => (0..words).map(|i| if i < words / 2 { usize::MAX } else { 0 }).collect(),
        3 => (0..words).map(|i| if i % 64 == 63 { 1 << 63 } else { 0 }).collect(),
        4 => (0..words).map(|i| if i / 128 % 2 == 0 { usize::MAX } else { 0x5555_5555_5555_5555 }).collect(),
        _ => vec![0; words],
    };
    if c[2] == 5 {
        for k in 0..=c[0] {
            for b in [1usize << k, (1 << k) - 1, 3 << k] {
                if b < n {
                    w[b / 64] |= 1 << (b % 64);
                }
            }
        }
    }
    if n % 64 > 0 {
        w[words - 1] &= (1 << (n % 64)) - 1;
    }
    let r = Ref::new(n, w);
    let bv = from_words(r.words.clone(), n);
    st.state(hash_words(c[2], &[n]));
    let around = |m: usize, ds: &[usize]| -> Vec<usize> {
        let mut v = vec![];
        for k in 12..=c[0] {
            for base in [1usize << k, 3 << (k - 1)] {
                v.extend(ds.iter().flat_map(|d| [base - d, base + d]));
            }
        }
        v.extend(ds.iter().map(|d| m.saturating_sub(*d)));
        v
    };
    let mut idx = around(n, &[0, 1, 63, 64, 65, 511, 512, 513, 2000]);
    idx.retain(|&i| i <= n);
    let ks = around(r.ones, &[0, 1, 2, 63, 64, 511, 512, 2000]);
    macro_rules! with {
        ($t:ty, $name:literal) => {{
            let fp = FlatPopcount::<$t>::new(&bv);
            match mode {
                Mode::Rank => check_ranks(&fp, &r, &mut idx.iter().copied(), $name, st)?,
                Mode::Select => {
                    for &k in &ks {
                        ensure_eq!(r.select(k), fp.select(k), "{}: select({k}) ({})", r.describe(), $name);
                        st.step(1);
                    }
                }
            }
        }};
    }
    with!(LinearSearch, "linear search");
    if mode == Mode::Select && c[0] <= 20 {
        with!(BinarySearch, "binary search");
        #[cfg(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
        with!(SimdSearch, "SIMD search");
    }
    Ok(())
}
fn replaced_cases(_t: Tier, f: Feed) {
    for start in [0u64, 1, 64, 4096, 5000, 12288] {
        for n in [1u64, 64, 100, 5000, 9000, 30000] {
            if !f(&[start, n]) {
                return;
            }
        }
    }
}
/// A vector whose window was replaced, through the mutable access it gives to its slice, by one
/// that does not start at the first bit of the storage. No structure may be built for it, or a
/// right one.
fn replaced(mode: Mode, c: &[u64], st: &mut St) -> Res {
    let (s, n) = (c[0] as usize, c[1] as usize);
    let total = s + n;
    let full = Ref::of(total, |i| if n == 30000 { i < s || i > s + 20000 } else { i % 3 == 0 || i < s });
    let r = Ref::of(n, |i| full.words[(s + i) / 64] >> ((s + i) % 64) & 1 == 1);
    let mut bv = BitVec::new(1);
    *bv = BitSlice::new(full.words.clone().into_boxed_slice(), s, total);
    st.state(mix(c[0], c[1]));
    if s > 0 && panics(|| FlatPopcount::<()>::new(&bv)) {
        st.outcome(1);
        return Ok(());
    }
    check_on(mode, &bv, &r, false, st)
}
macro_rules! both {
    ($($f:ident),*) => { mod rank_of { $(pub fn $f(c: &[u64], st: &mut crate::engine::St) -> crate::engine::Res { super::$f(super::Mode::Rank, c, st) })* }
                         mod select_of { $(pub fn $f(c: &[u64], st: &mut crate::engine::St) -> crate::engine::Res { super::$f(super::Mode::Select, c, st) })* } };
}
both!(small, hot, len, block, l1, sample, unit, dense, huge, power, replaced);
macro_rules! shared_spaces {
    ($m:ident) => {
        vec![
            Space { name: "contents", about: "every bit vector up to the bound; every index / every k, all strategies", cases: small_cases, run: $m::small, serial: false },
            Space { name: "one-two-hot", about: "one or two ones, one or two zeros, one run, at every position or around block boundaries", cases: hot_cases, run: $m::hot, serial: false },
            Space { name: "lengths", about: "every length up to the bound, eight patterns; every index / every k", cases: len_cases, run: $m::len, serial: false },
            Space { name: "small-blocks", about: "every combination of fillings of the eight 512-bit blocks of a 4096-bit block, with prefixes and tails", cases: block_cases, run: $m::block, serial: false },
            Space { name: "large-blocks", about: "every sequence of 4096-bit block fillings up to the bound, eight tails", cases: l1_cases, run: $m::l1, serial: false },
            Space { name: "units", about: "every sequence of 8192-bit units up to the bound", cases: unit_cases, run: $m::unit, serial: false },
            Space { name: "runs", about: "two runs of ones around multiples of 8192 ones with gaps, alignments and tails", cases: sample_cases, run: $m::sample, serial: false },
            Space { name: "densities", about: "longer vectors of fourteen densities; every index / every k", cases: dense_cases, run: $m::dense, serial: false },
            Space { name: "powers", about: "lengths around every power of two, six contents; queries around every power of two", cases: power_cases, run: $m::power, serial: false },
            Space { name: "huge", about: "more than 2^32 bits, more than 2^32 ones", cases: huge_cases, run: $m::huge, serial: false },
            Space { name: "replaced-window", about: "vectors whose window was replaced by another one", cases: replaced_cases, run: $m::replaced, serial: false },
        ]
    };
}
pub fn c13() -> Vec<Space> {
    shared_spaces!(rank_of)
}
pub fn c14() -> Vec<Space> {
    shared_spaces!(select_of)
}

// ------------------------------------------------------------------ C15

fn entry(l2: &[usize; 7], upper: u128) -> u128 {
    l2.iter().fold(upper, |e, &x| e << 12 | x as u128)
}
const UPPER: [u128; 5] = [0, 1, (1 << 43) + 5, (1 << 44) - 1, 0xAAA_5555_5AAA];
fn expect(l2: &[usize; 7], rank: usize) -> (usize, usize) {
    let c = l2.iter().filter(|&&x| x <= rank).count();
    (c, if c == 0 { 0 } else { l2[c - 1] })
}
#[inline]
fn strategies(l2: &[usize; 7], upper: u128, rank: usize, st: &mut St) -> Res {
    let e = expect(l2, rank);
    let x = entry(l2, upper);
    ensure_eq!(e, LinearSearch::find_l2(x, rank), "linear search, counts {l2:?}, upper {upper:#x}, rank {rank}");
    ensure_eq!(e, BinarySearch::find_l2(x, rank), "binary search, counts {l2:?}, upper {upper:#x}, rank {rank}");
    #[cfg(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
    ensure_eq!(e, SimdSearch::find_l2(x, rank), "SIMD search, counts {l2:?}, upper {upper:#x}, rank {rank}");
    st.step(2 + cfg!(target_feature = "sse4.1") as u64);
    Ok(())
}
fn alphabet(big: bool) -> Vec<usize> {
    let mut v = vec![0usize, 1, 2, 255, 256, 511, 512, 1024, 2047, 2048, 3584, 4094, 4095];
    if big {
        v.extend([15, 16, 17, 127, 128, 513, 1023, 3583]);
        v.sort_unstable();
    }
    v
}
fn c15_tuple_cases(t: Tier, f: Feed) {
    let big = t == Tier::Thorough;
    let n = alphabet(big).len() as u64;
    for a in 0..n {
        for b in a..n {
            for c in b..n {
                if !f(&[big as u64, a, b, c]) {
                    return;
                }
            }
        }
    }
}
/// Every non-decreasing 7-tuple over the alphabet, ranks around every count.
fn c15_tuple(c: &[u64], st: &mut St) -> Res {
    let al = alphabet(c[0] == 1);
    let n = al.len();
    let mut l2 = [al[c[1] as usize], al[c[2] as usize], al[c[3] as usize], 0, 0, 0, 0];
    for d in c[3] as usize..n {
        for e in d..n {
            for g in e..n {
                for h in g..n {
                    l2[3] = al[d];
                    l2[4] = al[e];
                    l2[5] = al[g];
                    l2[6] = al[h];
                    st.state(hash_words(0, &l2));
                    for upper in UPPER {
                        for r in [0, 4095, 700, 3000] {
                            strategies(&l2, upper, r, st)?;
                        }
                        for &x in &l2 {
                            for r in [x.saturating_sub(1), x, (x + 1).min(4095)] {
                                strategies(&l2, upper, r, st)?;
                            }
                        }
                    }
                    st.traces += 1;
                }
            }
        }
    }
    Ok(())
}
fn c15_step_cases(_t: Tier, f: Feed) {
    for lane in 0..=7u64 {
        for v in 0..4096u64 {
            if !f(&[lane, v]) {
                return;
            }
        }
    }
}
/// Counts that jump from 0 to any value, and from any value to 4095, in any lane; every rank.
fn c15_step(c: &[u64], st: &mut St) -> Res {
    let (lane, v) = (c[0] as usize, c[1] as usize);
    let mut a = [0usize; 7];
    let mut b = [4095usize; 7];
    for i in 0..7 {
        if i >= lane {
            a[i] = v;
        }
        if i < lane {
            b[i] = v;
        }
    }
    for l2 in [a, b] {
        st.state(hash_words(1, &l2));
        for r in 0..4096 {
            strategies(&l2, UPPER[(r + v) % 5], r, st)?;
        }
    }
    st.traces += 2;
    Ok(())
}
fn c15_pair_cases(t: Tier, f: Feed) {
    for u in 0..4096u64 {
        if !f(&[u, t.pick(7, 1)]) {
            return;
        }
    }
}
/// Two values u < v switching in any lane; ranks around both.
fn c15_pair(c: &[u64], st: &mut St) -> Res {
    let u = c[0] as usize;
    for v in (u + 1..4096).step_by(c[1] as usize) {
        for lane in 1..7 {
            let l2: [usize; 7] = std::array::from_fn(|i| if i < lane { u } else { v });
            for r in [u.saturating_sub(1), u, (u + v) / 2, v - 1, v, 4095] {
                strategies(&l2, UPPER[(u + lane) % 5], r, st)?;
            }
            st.state(hash_words(2, &l2));
        }
    }
    Ok(())
}
fn c15_distinct_cases(_t: Tier, f: Feed) {
    for step in 0..=585u64 {
        if !f(&[step]) {
            return;
        }
    }
}
/// Evenly spaced counts: base + i * step, every rank.
fn c15_distinct(c: &[u64], st: &mut St) -> Res {
    let step = c[0] as usize;
    for base in [0usize, 1, 7, 100, 585] {
        if base + 6 * step > 4095 {
            continue;
        }
        let l2: [usize; 7] = std::array::from_fn(|i| base + i * step);
        st.state(hash_words(3, &l2));
        for r in 0..4096 {
            strategies(&l2, UPPER[r % 5], r, st)?;
        }
    }
    Ok(())
}
pub fn c15() -> Vec<Space> {
    vec![
        Space { name: "tuples", about: "every non-decreasing tuple of seven counts over the boundary alphabet, five upper fields, ranks around every count", cases: c15_tuple_cases, run: c15_tuple, serial: false },
        Space { name: "steps", about: "every count value in every lane with every rank", cases: c15_step_cases, run: c15_step, serial: false },
        Space { name: "pairs", about: "two different counts switching in every lane, the second one stepping by the second coordinate", cases: c15_pair_cases, run: c15_pair, serial: false },
        Space { name: "even", about: "evenly spaced counts, every rank", cases: c15_distinct_cases, run: c15_distinct, serial: false },
    ]
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Copy, Debug)]
enum Q {
    Rank(usize, bool),
    Dyn(usize, bool),
    Select(usize),
    /// a rank query beyond the length
    Bad(usize),
}
fn ask<S: SelectStrategy>(fp: &FlatPopcount<S>, q: Q) -> Option<usize> {
    match q {
        Q::Rank(i, true) => Some(fp.rank::<true>(i)),
        Q::Rank(i, false) => Some(fp.rank::<false>(i)),
        Q::Dyn(i, t) => Some(fp.rank_dyn(i, t)),
        Q::Select(k) => fp.select(k),
        Q::Bad(i) => {
            if panics(|| fp.rank::<true>(i)) && panics(|| fp.rank_dyn(i, false)) {
                None
            } else {
                Some(usize::MAX)
            }
        }
    }
}
fn answer(r: &Ref, q: Q) -> Option<usize> {
    match q {
        Q::Rank(i, t) | Q::Dyn(i, t) => Some(if t { r.rank(i) } else { i - r.rank(i) }),
        Q::Select(k) => r.select(k),
        Q::Bad(_) => None,
    }
}
fn queries(r: &Ref, kind: u64) -> Vec<Q> {
    let n = r.n;
    let mut v = vec![];
    let mut is = vec![0, 1, 64, 512, 4095, 4096, 4097, 8192, n / 2, n];
    is.retain(|&i| i <= n);
    is.sort_unstable();
    is.dedup();
    for (k, i) in is.into_iter().enumerate() {
        v.push(if k % 2 == 0 { Q::Rank(i, true) } else { Q::Dyn(i, true) });
        if k % 3 == 0 {
            v.push(Q::Rank(i, false));
        }
    }
    let mut ks = vec![0, 1, r.ones / 2, 8191, 8192, r.ones.wrapping_sub(1), r.ones];
    ks.sort_unstable();
    ks.dedup();
    for k in ks {
        v.push(Q::Select(k));
    }
    if kind == 0 {
        v.push(Q::Bad(n + 1));
        v.push(Q::Bad(usize::MAX));
    }
    v
}
fn subject(k: u64) -> Ref {
    match k {
        0 => Ref::of(0, |_| false),
        1 => Ref::of(70, |i| i % 3 == 0),
        2 => Ref::of(4096, |_| true),
        3 => Ref::of(5 * 4096 + 100, |i| i % 5 != 1),
        4 => Ref::of(9000, |i| i == 4095 || i == 4096 || i == 8999),
        _ => Ref::of(30000, |i| i / 4096 % 2 == 1),
    }
}
const SUBJECTS: u64 = 6;
fn c16_seq_cases(t: Tier, f: Feed) {
    for a in 0..SUBJECTS {
        for b in 0..SUBJECTS {
            let na = queries(&subject(a), 0).len() + queries(&subject(b), 1).len();
            for q in 0..na as u64 {
                if !f(&[a, b, q, t.pick(2, 3)]) {
                    return;
                }
            }
        }
    }
}
/// All query sequences on two structures (possibly over the same vector): the last answer must be
/// what a fresh structure gives.
fn c16_seq(c: &[u64], st: &mut St) -> Res {
    let (ra, rb) = (subject(c[0]), subject(c[1]));
    let (va, vb) = (ra.vec(), rb.vec());
    let fa = FlatPopcount::<LinearSearch>::new(&va);
    let fb = if c[0] == c[1] { FlatPopcount::<BinarySearch>::new(&va) } else { FlatPopcount::<BinarySearch>::new(&vb) };
    let (qa, qb) = (queries(&ra, 0), queries(&rb, 1));
    let total = (qa.len() + qb.len()) as u64;
    let mut r = Ok(());
    let go = |x: u64| -> Res {
        let x = x as usize;
        let (e, g, q) = if x < qa.len() { (answer(&ra, qa[x]), ask(&fa, qa[x]), qa[x]) } else { (answer(&rb, qb[x - qa.len()]), ask(&fb, qb[x - qa.len()]), qb[x - qa.len()]) };
        ensure_eq!(e, g, "query {q:?} on structure {} of {} and {}", if x < qa.len() { 1 } else { 2 }, ra.describe(), rb.describe());
        Ok(())
    };
    words(total, c[3] as usize, &mut |w| {
        st.step(1 + w.len() as u64);
        st.traces += 1;
        r = go(c[2]).and_then(|_| w.iter().try_for_each(|&x| go(x))).map_err(|f| Fail { sig: f.sig, msg: format!("after queries {} {w:?}: {}", c[2], f.msg) });
        r.is_ok()
    });
    r?;
    ensure!(va.raw() == ra.words && vb.raw() == rb.words, "queries changed the vector");
    st.state(hash_words(c[2], &[c[0] as usize, c[1] as usize]));
    Ok(())
}
fn c16_bad_cases(t: Tier, f: Feed) {
    for n in (0..=t.pick(600, 4300)).chain([511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536]).chain(crate::bits::around_powers(14, t.pick(20, 26))) {
        if !f(&[n]) {
            return;
        }
    }
}
fn c16_bad(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    for p in [0, 1, 3] {
        let r = Ref::of(n, |i| pat(p, i, n));
        let bv = r.vec();
        let fp = FlatPopcount::<LinearSearch>::new(&bv);
        let mut bad: Vec<usize> = (n + 1..n + 70).collect();
        bad.extend([n + 511, n + 512, n + 4095, n + 4096, n + 4097, n + 8192, 1 << 20, 1 << 32, (1 << 32) + n, 1 << 44, 1 << 63, usize::MAX - 63, usize::MAX - 1, usize::MAX]);
        bad.retain(|&i| i > n);
        for i in bad {
            st.step(4);
            ensure!(panics(|| fp.rank::<true>(i)), "rank of ones at {i} of {n} bits did not panic");
            ensure!(panics(|| fp.rank::<false>(i)), "rank of zeros at {i} of {n} bits did not panic");
            ensure!(panics(|| fp.rank_dyn(i, true)), "dynamic rank of ones at {i} of {n} bits did not panic");
            ensure!(panics(|| fp.rank_dyn(i, false)), "dynamic rank of zeros at {i} of {n} bits did not panic");
        }
        for i in rank_probes(&r) {
            ensure_eq!(r.rank(i), fp.rank::<true>(i), "rank at {i} of {n} bits after rejected queries");
        }
        for k in select_probes(&r) {
            ensure_eq!(r.select(k), fp.select(k), "select({k}) of {n} bits after rejected queries");
        }
        ensure!(bv.raw() == r.words, "rejected queries changed the vector");
        st.state(mix(n as u64, p));
    }
    Ok(())
}
fn c16_ends_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(8300, 33000) {
        if !f(&[n]) {
            return;
        }
    }
}
/// The last queries that are allowed: nothing behind the last word may be needed for them.
fn c16_ends(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    for p in [0, 1, 3] {
        let r = Ref::of(n, |i| pat(p, i, n));
        let bv = r.vec();
        let fp = FlatPopcount::<BinarySearch>::new(&bv);
        for i in [n, n.saturating_sub(1)] {
            ensure_eq!(r.rank(i), fp.rank::<true>(i), "rank of ones at {i} of {n} bits");
            ensure_eq!(i - r.rank(i), fp.rank::<false>(i), "rank of zeros at {i} of {n} bits");
        }
        for k in [r.ones.saturating_sub(1), r.ones, r.ones + 1] {
            ensure_eq!(r.select(k), fp.select(k), "select({k}) of {n} bits with {} ones", r.ones);
        }
        st.step(7);
        st.state(mix(n as u64, p));
    }
    Ok(())
}
fn c16_order_cases(_t: Tier, f: Feed) {
    for s in 1..SUBJECTS {
        for order in 0..4 {
            if !f(&[s, order]) {
                return;
            }
        }
    }
}
/// The whole index range ascending, descending, jumping; select and rank alternating.
fn c16_order(c: &[u64], st: &mut St) -> Res {
    let r = subject(c[0]);
    let bv = r.vec();
    let fp = FlatPopcount::<BinarySearch>::new(&bv);
    let n = r.n;
    for s in 0..=n {
        let i = match c[1] {
            0 => s,
            1 => n - s,
            2 => s.wrapping_mul(4097) % (n + 1),
            _ => if s % 2 == 0 { s / 2 } else { n - s / 2 },
        };
        ensure_eq!(r.rank(i), fp.rank::<true>(i), "order {}: rank at {i} of {n} bits", c[1]);
        let k = i % (r.ones + 2);
        ensure_eq!(r.select(k), fp.select(k), "order {}: select({k}) of {n} bits", c[1]);
        ensure_eq!(i - r.rank(i), fp.rank_dyn(i, false), "order {}: zeros at {i} of {n} bits", c[1]);
        st.step(3);
        st.state(mix(mix(c[0], c[1]), i as u64));
    }
    Ok(())
}
fn c16_again_cases(_t: Tier, f: Feed) {
    for s in 1..SUBJECTS {
        for b in 0..9 {
            for q in 0..queries(&subject(s), 1).len() as u64 {
                if !f(&[s, b, q]) {
                    return;
                }
            }
        }
    }
}
/// A query, the structure dropped, one bit changed in place, a structure built again: the second
/// answer is about the new contents. Then the same back to the old contents.
fn c16_again(c: &[u64], st: &mut St) -> Res {
    let r = subject(c[0]);
    let b = [0, 63, 64, 511, 512, 4095, 4096, r.n / 2, r.n - 1][c[1] as usize].min(r.n - 1);
    let mut words = r.words.clone();
    words[b / 64] ^= 1 << (b % 64);
    let r2 = Ref::new(r.n, words);
    let mut bv = r.vec();
    let (qs, qs2) = (queries(&r, 1), queries(&r2, 1));
    let q = qs[c[2] as usize];
    for &p in &qs2 {
        let fp = FlatPopcount::<LinearSearch>::new(&bv);
        ensure_eq!(answer(&r, q), ask(&fp, q), "query {q:?} of {}", r.describe());
        drop(fp);
        bv.flip(b);
        let fp = FlatPopcount::<LinearSearch>::new(&bv);
        ensure_eq!(answer(&r2, p), ask(&fp, p), "after query {q:?} of {} and flipping bit {b}, query {p:?}", r.describe());
        drop(fp);
        bv.flip(b);
        st.step(2);
        st.traces += 1;
    }
    ensure!(bv.raw() == r.words, "queries changed the vector");
    st.state(mix(mix(c[0], c[1]), c[2]));
    Ok(())
}
pub fn c16() -> Vec<Space> {
    vec![
        Space { name: "again", about: "a query, one bit changed in place, the structure built again, any second query", cases: c16_again_cases, run: c16_again, serial: false },
        Space { name: "sequences", about: "all sequences of queries (first one in the third coordinate, then the number in the last) on two structures over the same or different vectors, rejected ones included", cases: c16_seq_cases, run: c16_seq, serial: false },
        Space { name: "orders", about: "the whole index range in four orders with alternating kinds of queries", cases: c16_order_cases, run: c16_order, serial: false },
        Space { name: "out-of-range", about: "every length up to the bound: rank beyond the end panics and leaves the structure usable", cases: c16_bad_cases, run: c16_bad, serial: false },
        Space { name: "ends", about: "every length up to the bound: the last queries in range, and the first select that finds nothing", cases: c16_ends_cases, run: c16_ends, serial: false },
    ]
}

// ------------------------------------------------------------------ C17

fn c17_cases(t: Tier, f: Feed) {
    let mut ns: Vec<u64> = vec![];
    for k in 16..=t.pick(23, 27) {
        ns.extend([1u64 << k, (1 << k) + 1, (1 << k) + 4096, (1 << k) + 4097, (1 << k) * 3 / 2, (1 << (k + 1)) - 1]);
    }
    for d in 0..t.pick(4200, 9000) {
        ns.push((1 << 16) + d);
    }
    // every number of blocks and of samples up to the bound
    for b in 16..t.pick(300, 1500) {
        ns.extend([b * 4096, b * 4096 + 1]);
    }
    ns.sort_unstable();
    ns.dedup();
    for n in ns {
        for density in 0..crate::costs::CONTENTS {
            if !f(&[n, density]) {
                return;
            }
        }
    }
}
fn c17_run(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let bv = from_words(Ref::new(n, crate::costs::contents(c[1], n)).words, n);
    let own = n.div_ceil(64) * 8;
    let before = crate::heap::LIVE.load(Relaxed);
    let fp = FlatPopcount::<LinearSearch>::new(&bv);
    let kept = crate::heap::LIVE.load(Relaxed) - before;
    let total = fp.rank::<true>(n);
    drop(fp);
    let after = crate::heap::LIVE.load(Relaxed) - before;
    st.step(1);
    st.state(mix(c[0], c[1]));
    st.outcome(kept as u64);
    ensure!(total <= n, "{n} bits with {total} ones");
    ensure!((kept as f64) < own as f64 * 0.04, "{n} bits (density {}): {kept} bytes kept for {own} bytes of bits, {:.2}%", c[1], kept as f64 * 100.0 / own as f64);
    ensure_eq!(0, after, "{n} bits (density {}): bytes still allocated after dropping the structure", c[1]);
    Ok(())
}
pub fn c17() -> Vec<Space> {
    vec![Space { name: "memory", about: "lengths from 65536 on, ten kinds of contents: heap bytes kept by the structure, and after dropping it", cases: c17_cases, run: c17_run, serial: true }]
}
