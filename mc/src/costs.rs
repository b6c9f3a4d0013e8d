//! C24 and C25: how many machine instructions an operation executes, and what memory it keeps.
use crate::engine::*;
use crate::ranks::Ref;
use crate::sched::steps;
use crate::util::*;
use crate::{ensure, ensure_eq};
use std::hint::black_box;
use std::sync::atomic::Ordering::Relaxed;
use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
#[cfg(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
use succinct_neo::rank_select::flat_popcount::SimdSearch;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

type Feed<'a> = &'a mut dyn FnMut(&[u64]) -> bool;

// ---------------------------------------------------------------- C24

/// What an operation on one element may execute. The operations need 10 to 200 instructions; going
/// through even the coarsest index of the large vectors takes more than this.
const POINT: u64 = 4000;
/// What select may execute on top for each block of 4096 bits it has to pass.
const BLOCK: u64 = 100;

fn within(limit: u64, what: &dyn Fn() -> String, st: &mut St, f: &mut dyn FnMut()) -> Res {
    let k = steps(limit + 1, f);
    st.step(1);
    st.outcome(k.ilog2() as u64);
    ensure!(k <= limit, "{} took more than {limit} instructions", what());
    Ok(())
}

pub const CONTENTS: u64 = 10;
pub fn contents(kind: u64, n: usize) -> Vec<usize> {
    let words = n.div_ceil(64);
    let at = |from: usize, to: usize, every: usize| {
        let mut w = vec![0usize; words];
        for i in (from..to.min(n)).step_by(every) {
            w[i / 64] |= 1 << (i % 64);
        }
        w
    };
    let join = |a: Vec<usize>, b: Vec<usize>| a.iter().zip(&b).map(|(x, y)| x | y).collect::<Vec<_>>();
    match kind {
        0 => vec![0; words],
        1 => vec![usize::MAX; words],
        2 => vec![0x5555_5555_5555_5555; words],
        3 => at(0, n, 4096),
        4 => at(511, n, 512),
        // the first sample is far from the second, then they are close together
        5 => join(at(0, n / 2, (n / 2).div_ceil(8192).max(1)), at(n / 2, n, 1)),
        // close together, then one in each block
        6 => join(at(0, n / 2, 1), at(n / 2, n, 4096)),
        // the first one is at the end
        7 => at(n - n.min(30000), n, 1),
        // the last one before the second sample is at the end, and so is the second sample
        8 => join(at(0, 8191, 1), at(n - n.min(9000), n, 1)),
        // only the second sample is at the end
        9 => join(at(0, 8192, 1), at(n - n.min(9000), n, 1)),
        _ => unreachable!(),
    }
}
/// Positions near the powers of two, counted from either end, and in the middle.
fn spots(n: usize) -> Vec<usize> {
    let mut v = vec![0, n / 2, n / 3, n.wrapping_sub(1)];
    for k in 0..n.max(1).ilog2() + 1 {
        let p = 1usize << k;
        for d in [p - 1, p, p + 1] {
            v.push(d);
            v.push(n.wrapping_sub(d));
        }
    }
    v.retain(|&i| i < n);
    v.sort_unstable();
    v.dedup();
    v
}
fn lengths(t: Tier) -> Vec<u64> {
    let mut v = vec![1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 20000];
    for k in [15, 16, 18, 20, 22, 24] {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend(t.pick(vec![3 << 23, 1 << 26], vec![3 << 23, 1 << 26, (1 << 26) + 1, 3 << 26, (1 << 28) - 1, 1 << 28, (1 << 28) + 1]));
    v
}
fn plain_cases(t: Tier, f: Feed) {
    for n in lengths(t) {
        for kind in [1, 3] {
            if !f(&[n, kind]) {
                return;
            }
        }
    }
}
fn sized_cases(t: Tier, f: Feed) {
    for n in lengths(t) {
        for kind in 0..CONTENTS {
            // far walks in the longest vectors are left to the thorough tier
            if t == Tier::Quick && n >= 1 << 26 && (3..8).contains(&kind) {
                continue;
            }
            if !f(&[n, kind]) {
                return;
            }
        }
    }
}
fn big(c: &[u64]) -> Ref {
    Ref::new(c[0] as usize, contents(c[1], c[0] as usize))
}
fn bits_run(c: &[u64], st: &mut St) -> Res {
    let r = big(c);
    let n = r.n;
    let mut bv = from_words(r.words.clone(), n);
    for i in spots(n) {
        let bv = &mut bv;
        let at = |op: &'static str| move || format!("{op} at {i} of a bit vector of {n} bits (contents {})", c[1]);
        within(POINT, &at("get"), st, &mut || {
            black_box(black_box(&*bv).get(i));
        })?;
        within(POINT, &at("get_bit"), st, &mut || {
            black_box(black_box(&*bv).get_bit(i));
        })?;
        within(POINT, &at("get_unchecked"), st, &mut || {
            black_box(unsafe { black_box(&*bv).get_unchecked(i) });
        })?;
        within(POINT, &at("get_bit_unchecked"), st, &mut || {
            black_box(unsafe { black_box(&*bv).get_bit_unchecked(i) });
        })?;
        for op in 0..3 {
            for kind in 0..WRITERS {
                within(POINT, &at(["set to 0", "set to 1", "flip"][op as usize]), st, &mut || apply(black_box(bv), op, kind, i))?;
            }
        }
        within(POINT, &at("slice"), st, &mut || {
            let s = black_box(&*bv).slice(i..);
            black_box(s.len() + black_box(&*bv).slice(..i).len() + black_box(&s).get(n - 1 - i) as usize);
        })?;
        within(POINT, &at("slice in a slice"), st, &mut || {
            let s = black_box(&*bv).slice(i / 2..);
            let t = black_box(&s).slice(i - i / 2..);
            black_box(black_box(&t).get(0));
        })?;
        within(POINT, &at("slice_mut"), st, &mut || {
            let mut s = black_box(&mut *bv).slice_mut(i..n);
            let mut t = black_box(&mut s).slice_mut(..=0);
            black_box(&mut t).flip(0);
        })?;
        within(POINT, &at("slice_unchecked"), st, &mut || {
            black_box(unsafe { black_box(&*bv).slice_unchecked(i..n) }.is_empty());
            black_box(unsafe { black_box(&mut *bv).slice_unchecked_mut(i..n) }.is_empty());
        })?;
        within(POINT, &at("split_at"), st, &mut || {
            let (a, b) = black_box(&*bv).split_at(i);
            black_box(black_box(&a).len() + black_box(&b).get(0) as usize);
        })?;
        within(POINT, &at("split_at_mut"), st, &mut || {
            let (a, mut b) = black_box(&mut *bv).split_at_mut(i);
            black_box(&mut b).set_bit(0, true);
            black_box(black_box(&a).len());
        })?;
        within(POINT, &at("iter"), st, &mut || {
            let s = black_box(&*bv).slice(i..);
            let mut it = black_box(&s).iter();
            black_box((it.next(), it.len(), it.size_hint(), it.next()));
        })?;
        within(POINT, &at("len"), st, &mut || {
            black_box(black_box(&*bv).len() + black_box(&*bv).is_empty() as usize + black_box(&*bv).raw().len());
        })?;
        st.state(mix(mix(c[0], c[1]), i as u64));
    }
    // an iterator that has come far
    for i in [n / 4, n / 2, n - 1] {
        let mut it = bv.iter();
        if i > 0 {
            it.nth(i - 1);
        }
        within(POINT, &|| format!("next of an iterator at {i} of {n} bits (contents {})", c[1]), st, &mut || {
            black_box((black_box(&mut it).next(), it.len()));
        })?;
    }
    st.traces += 1;
    Ok(())
}
fn queries<S>(fp: &FlatPopcount<S>, name: &str, c: &[u64], r: &Ref, st: &mut St) -> Res
where
    for<'a> FlatPopcount<'a, S>: SelectSupport<true>,
{
    let n = r.n;
    let mut ks = spots(r.ones);
    for s in (0..r.ones).step_by(8192) {
        // the samples of large vectors are all alike
        if s / 8192 < 8 || r.ones - s < 4 * 8192 || (s / 8192) & (s / 8192 - 1) == 0 {
            ks.extend([s, s + 1, s + 4096, s + 8191].iter().filter(|&&k| k < r.ones));
        }
    }
    ks.sort_unstable();
    ks.dedup();
    for k in ks {
        let block = |k: usize| r.select(k).unwrap() >> 12;
        let far = (block(k) - block(k & !8191)) as u64;
        // long walks are allowed here and slow to count; two for each power of two
        if far > 200 && !k.is_power_of_two() && !(k + 1).is_power_of_two() {
            continue;
        }
        within(POINT + BLOCK * (far + 2), &|| format!("select({k}) [{name}] in {n} bits with {} ones (contents {}), {far} blocks from the last sample,", r.ones, c[1]), st, &mut || {
            black_box(black_box(fp).select(k));
        })?;
        st.state(mix(mix(mix(c[0], c[1]), 1), k as u64));
    }
    for k in [r.ones, r.ones + 1, n + 1, usize::MAX] {
        within(POINT, &|| format!("select({k}) [{name}] in {n} bits with {} ones (contents {})", r.ones, c[1]), st, &mut || {
            black_box(black_box(fp).select(k));
        })?;
    }
    Ok(())
}
fn rank_run(c: &[u64], st: &mut St) -> Res {
    let r = big(c);
    let n = r.n;
    let bv = from_words(r.words.clone(), n);
    let fp = FlatPopcount::<LinearSearch>::new(&bv);
    let ranks = if [1, 3, 8].contains(&c[1]) { spots(n) } else { vec![] };
    for i in ranks.into_iter().chain([n]) {
        let at = |op: &'static str| move || format!("{op}({i}) in {n} bits (contents {})", c[1]);
        within(POINT, &at("rank::<true>"), st, &mut || {
            black_box(black_box(&fp).rank::<true>(i));
        })?;
        within(POINT, &at("rank::<false>"), st, &mut || {
            black_box(black_box(&fp).rank::<false>(i));
        })?;
        within(POINT, &at("rank_dyn"), st, &mut || {
            black_box(black_box(&fp).rank_dyn(i, true) + black_box(&fp).rank_dyn(i, false));
        })?;
        st.state(mix(mix(c[0], c[1]), i as u64));
    }
    within(POINT, &|| format!("len of {n} bits"), st, &mut || {
        black_box(black_box(&fp).len() + black_box(&fp).is_empty() as usize);
    })?;
    queries(&fp, "linear", c, &r, st)?;
    queries(&FlatPopcount::<BinarySearch>::new(&bv), "binary", c, &r, st)?;
    #[cfg(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
    queries(&FlatPopcount::<SimdSearch>::new(&bv), "simd", c, &r, st)?;
    st.traces += 1;
    Ok(())
}
fn ints_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![1u64, 9, 64, 1000, 4097, 1 << 16, (1 << 18) + 1, 1 << 20], vec![1, 9, 64, 1000, 4097, 1 << 16, (1 << 18) + 1, 1 << 20, 1 << 22, (1 << 24) + 1]) {
        for w in [1, 2, 7, 8, 13, 24, 31, 32, 33, 48, 63, 64] {
            for kind in 0..4 {
                if kind > 0 && t == Tier::Quick && !([4097, (1 << 18) + 1].contains(&n) && [1, 7, 32, 63, 64].contains(&w)) {
                    continue;
                }
                if !f(&[n, w, kind]) {
                    return;
                }
            }
        }
    }
}
fn ints_run(c: &[u64], st: &mut St) -> Res {
    let (n, w) = (c[0] as usize, c[1] as usize);
    let top = usize::MAX >> (64 - w);
    let mut v = IntVec::new(w);
    let value = |i: usize| match c[2] {
        0 => i & top,
        1 => 0,
        2 => top,
        _ => if i % 2 == 0 { top } else { 0 },
    };
    for i in 0..n {
        v.push(value(i));
    }
    for i in spots(n) {
        let at = |op: &'static str| move || format!("{op} at {i} of {n} integers of {w} bits (contents {})", c[2]);
        within(POINT, &at("get"), st, &mut || {
            black_box(black_box(&v).get(i));
        })?;
        within(POINT, &at("get_unchecked"), st, &mut || {
            black_box(unsafe { black_box(&v).get_unchecked(i) });
        })?;
        within(POINT, &at("set to the same"), st, &mut || black_box(&mut v).set(i, value(i)))?;
        within(POINT, &at("set to the largest"), st, &mut || black_box(&mut v).set(i, top))?;
        within(POINT, &at("set to zero"), st, &mut || black_box(&mut v).set(i, 0))?;
        within(POINT, &at("set_unchecked"), st, &mut || unsafe { black_box(&mut v).set_unchecked(i, value(i)) })?;
        st.state(mix(mix(mix(c[0], c[1]), c[2]), i as u64));
    }
    for i in [0, n / 4, n / 2, n - 1] {
        let mut it = v.iter();
        if i > 0 {
            it.nth(i - 1);
        }
        within(POINT, &|| format!("next of an iterator at {i} of {n} integers of {w} bits"), st, &mut || {
            black_box((black_box(&mut it).next(), it.len(), it.size_hint()));
        })?;
    }
    within(POINT, &|| format!("is_empty of {n} integers of {w} bits"), st, &mut || {
        black_box(black_box(&v).is_empty() as usize + black_box(&v).raw_data().len());
    })?;
    // Growing now and then takes longer; most of the pushes must not.
    let mut slow = 0;
    for i in 0..64 {
        slow += (steps(POINT + 1, &mut || black_box(&mut v).push(value(i))) > POINT) as usize;
        st.step(1);
    }
    ensure!(slow <= 8, "{slow} of 64 pushes onto {n} integers of {w} bits took more than {POINT} instructions");
    let (mut v, mut it) = (Some(v), None);
    within(POINT, &|| format!("iterating consumingly over {n} integers of {w} bits"), st, &mut || it = black_box(v.take()).map(IntVec::into_iter))?;
    let mut it = it.unwrap();
    for i in [0, n / 2, n - 1] {
        while it.len() > n + 64 - i {
            it.next();
        }
        within(POINT, &|| format!("next of a consuming iterator at {i} of {n} integers of {w} bits"), st, &mut || {
            black_box((black_box(&mut it).next(), it.len(), it.size_hint()));
        })?;
    }
    st.traces += 1;
    Ok(())
}
fn whole_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![0u64, 1, 65, 1000, 4097, 8193], vec![0, 1, 64, 65, 1000, 4096, 4097, 8192, 8193, 20000, 65536, 100000]) {
        for kind in [1, 3, 8] {
            for op in 0..8 {
                // printing is slow
                if op == 4 && n > 2000 && t == Tier::Quick {
                    continue;
                }
                if !f(&[n, kind, op]) {
                    return;
                }
            }
        }
    }
}
fn whole_run(c: &[u64], st: &mut St) -> Res {
    let r = big(c);
    let n = r.n;
    let bv = from_words(r.words.clone(), n);
    let mut other = bv.clone();
    let mut ints = IntVec::new(17);
    (0..n).for_each(|i| ints.push(i));
    let mut text = String::with_capacity(3 * n + 100);
    let (name, per): (&str, u64) = match c[2] {
        0 => ("building the rank structure", 250),
        1 => ("comparing", 250),
        2 => ("iterating", 250),
        3 => ("cloning", 50),
        4 => ("printing", 4000),
        5 => ("creating", 50),
        6 => ("iterating over integers", 500),
        _ => ("pushing", 500),
    };
    within(20000 + per * n as u64, &|| format!("{name} with {n} bits or integers (contents {})", c[1]), st, &mut || match c[2] {
        0 => drop(black_box(FlatPopcount::<LinearSearch>::new(black_box(&bv)))),
        1 => {
            black_box(black_box(&bv).slice(..) == black_box(&mut other).slice(..));
        }
        2 => {
            black_box(black_box(&bv).iter().map(|b| b as usize).fold(0, |a, b| black_box(a + b)));
        }
        3 => drop(black_box(black_box(&bv).clone())),
        4 => {
            use std::fmt::Write;
            let _ = write!(text, "{:?}", black_box(&bv));
        }
        5 => drop(black_box(BitVec::new(black_box(n)))),
        6 => {
            black_box(black_box(&ints).iter().fold(0, |a, b| black_box(a ^ b)));
        }
        _ => {
            let mut v = IntVec::new(17);
            for i in 0..n {
                black_box(&mut v).push(i);
            }
        }
    })?;
    st.state(mix(mix(c[0], c[1]), c[2]));
    st.traces += 1;
    Ok(())
}
fn growing_cases(t: Tier, f: Feed) {
    for w in 1..=64 {
        for cap in [0, 1, 8, 64, 1000] {
            if !f(&[w, cap, t.pick(20000, 200000)]) {
                return;
            }
        }
    }
}
/// Each step of growing may move everything, so the steps must become rarer as the vector gets longer.
fn growing_run(c: &[u64], st: &mut St) -> Res {
    let (w, cap, n) = (c[0] as usize, c[1] as usize, c[2] as usize);
    let before = crate::heap::MOVED.load(Relaxed);
    let mut v = IntVec::with_capacity(w, cap);
    for i in 0..n {
        v.push(i & (usize::MAX >> (64 - w)));
        let moved = crate::heap::MOVED.load(Relaxed) - before;
        ensure!(moved <= 32 * ((i + 1) * w).div_ceil(64) + 1024, "{moved} bytes were moved while {} integers of {w} bits were pushed", i + 1);
    }
    st.step(n as u64);
    st.outcome((crate::heap::MOVED.load(Relaxed) - before) as u64);
    st.state(hash_words(5, &[w, cap, n]));
    st.traces += 1;
    Ok(())
}
pub fn c24() -> Vec<Space> {
    vec![
        Space { name: "bits", about: "bit vectors up to 2^26 bits (thorough 2^28), two kinds of contents: instructions of every access, slice, split and iterator step at positions near the powers of two from both ends", cases: plain_cases, run: bits_run, serial: false },
        Space { name: "rank-select", about: "vectors of the same lengths, ten kinds of contents: instructions of rank at those positions (three kinds of contents), and of select near the powers of two and the samples; of those that may walk far, only at powers of two", cases: sized_cases, run: rank_run, serial: false },
        Space { name: "integers", about: "packed integer vectors up to 2^20 integers (thorough 2^24), twelve widths, four contents: instructions of get, set, push and iterator steps", cases: ints_cases, run: ints_run, serial: false },
        Space { name: "whole", about: "vectors up to 8193 bits or integers (thorough 100000): instructions of building, comparing, iterating, cloning, printing, creating, pushing", cases: whole_cases, run: whole_run, serial: false },
        Space { name: "growing", about: "all widths, five initial capacities, 20000 integers (thorough 200000): bytes moved by growing, after each push", cases: growing_cases, run: growing_run, serial: true },
    ]
}

// ---------------------------------------------------------------- C25

fn live() -> isize {
    crate::heap::LIVE.load(Relaxed)
}
/// What an object may keep beyond what its contents need: a few words of rounding.
const SPARE: usize = 64;

/// A rejected call: it must panic and keep nothing. The text of the panic is kept by the explorer
/// itself, which has room for it.
fn rejected(what: &dyn Fn() -> String, f: &mut dyn FnMut()) -> Res {
    let before = live();
    ensure!(panics(|| f()), "{} was not rejected", what());
    ensure_eq!(0, live() - before, "{}: bytes still allocated after the rejected call", what());
    Ok(())
}
fn keeps_nothing(what: &dyn Fn() -> String, st: &mut St, f: &mut dyn FnMut()) -> Res {
    let before = live();
    f();
    st.step(1);
    ensure_eq!(0, live() - before, "{}: bytes kept", what());
    Ok(())
}
fn room_for_panics() {
    panics(|| panic!("{}", "x".repeat(4000)));
}
fn small_and_large(t: Tier) -> Vec<u64> {
    let mut v: Vec<u64> = (0..t.pick(4300, 9000)).collect();
    for k in 11..=t.pick(20, 26) {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 63, (1 << k) + 64, (1 << k) + 65, (3 << k) / 2]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn mem_bits_cases(t: Tier, f: Feed) {
    for n in small_and_large(t) {
        if !f(&[n]) {
            return;
        }
    }
}
fn mem_bits_run(c: &[u64], st: &mut St) -> Res {
    room_for_panics();
    let n = c[0] as usize;
    let most = n.div_ceil(64) * 8 + SPARE;
    let mut text = String::with_capacity(3 * n.min(1500) + 100);
    let at: Vec<usize> = spots(n).into_iter().take(40).chain(n.checked_sub(1)).collect();
    let start = live();
    let mut bv = BitVec::new(n);
    let own = (live() - start) as usize;
    let kept = own;
    ensure!(kept <= most, "a bit vector of {n} bits keeps {kept} bytes");
    let what = |op: &'static str| move || format!("{op} on a bit vector of {n} bits");
    let mut other = BitVec::new(n);
    for &i in &at {
        for op in 0..3 {
            for kind in 0..WRITERS {
                keeps_nothing(&what("set or flip"), st, &mut || apply(&mut bv, op, kind, i))?;
            }
        }
        for kind in 0..READERS {
            keeps_nothing(&what("get"), st, &mut || {
                black_box(get_by(&bv, kind, i));
            })?;
        }
        keeps_nothing(&what("slice"), st, &mut || {
            let s = bv.slice(i..);
            let t = s.slice(..=0);
            black_box((t.get(0), s.split_at(0).1.len(), s == bv.slice(i..)));
        })?;
        keeps_nothing(&what("slice_mut"), st, &mut || {
            let mut s = bv.slice_mut(..=i);
            s.flip(i);
            let (mut a, mut b) = s.split_at_mut(i);
            if i > 0 {
                a.set(0, true);
            }
            b.flip(0);
        })?;
        keeps_nothing(&what("split"), st, &mut || {
            let (a, b) = bv.split_at(i);
            black_box(a.iter().take(70).count() + b.iter().take(70).count());
        })?;
    }
    keeps_nothing(&what("iter"), st, &mut || {
        black_box(bv.iter().filter(|&b| b).count() + bv.slice(..).into_iter().take(n / 2).count());
    })?;
    keeps_nothing(&what("comparing"), st, &mut || {
        black_box(bv.slice(..) == other.slice(..));
    })?;
    if n <= 1500 {
        keeps_nothing(&what("printing"), st, &mut || {
            use std::fmt::Write;
            text.clear();
            let _ = write!(text, "{bv:?}");
        })?;
    }
    for i in [n, n + 1, usize::MAX] {
        rejected(&what("get"), &mut || {
            black_box(bv.get(i));
        })?;
        rejected(&what("set"), &mut || other.set(i, true))?;
        rejected(&what("set_bit"), &mut || other.set_bit(i, true))?;
        rejected(&what("flip"), &mut || other.flip(i))?;
    }
    for i in [n + 1, usize::MAX] {
        rejected(&what("slice"), &mut || {
            black_box(bv.slice(i..).len());
        })?;
        rejected(&what("slice_mut"), &mut || {
            black_box(other.slice_mut(..i).len());
        })?;
        rejected(&what("split_at"), &mut || {
            black_box(bv.split_at(i).0.len());
        })?;
        rejected(&what("split_at_mut"), &mut || {
            black_box(other.split_at_mut(i).0.len());
        })?;
    }
    let whole = live();
    let copy = bv.clone();
    let kept = (live() - whole) as usize;
    ensure!(kept <= most, "a clone of a bit vector of {n} bits keeps {kept} bytes");
    drop(copy);
    ensure_eq!(0, live() - whole, "bytes still allocated after dropping a clone of a bit vector of {n} bits");
    drop(other);
    for used in [0, 1, n / 2, n, n + 2] {
        let copy = bv.clone();
        let mut it = copy.into_iter();
        for _ in 0..used {
            black_box(it.next());
        }
        drop(it);
        st.step(1);
    }
    drop(bv);
    ensure_eq!(0, live() - start, "bytes still allocated after dropping everything made from a bit vector of {n} bits");
    st.outcome(own as u64);
    st.state(c[0]);
    st.traces += 1;
    Ok(())
}
fn mem_ints_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![0u64, 1, 2, 7, 8, 9, 63, 64, 65, 200, 1000, 4097], vec![0, 1, 2, 7, 8, 9, 63, 64, 65, 200, 1000, 4097, 20000, 65537]) {
        for w in 1..=64 {
            for cap in [0, 1, 8, 63, 64, 65, 1000] {
                if !f(&[n, w, cap]) {
                    return;
                }
            }
        }
    }
}
fn mem_ints_run(c: &[u64], st: &mut St) -> Res {
    room_for_panics();
    let (n, w, cap) = (c[0] as usize, c[1] as usize, c[2] as usize);
    let top = usize::MAX >> (64 - w);
    let first = 8 * (cap * w).div_ceil(64);
    let start = live();
    let mut v = if cap == 8 { IntVec::new(w) } else { IntVec::with_capacity(w, cap) };
    let kept = (live() - start) as usize;
    ensure!(kept <= first + SPARE, "a vector of {w}-bit integers made for {cap} keeps {kept} bytes");
    for i in 0..n {
        v.push(i & top);
        let kept = (live() - start) as usize;
        let most = 16 * ((i + 1) * w).div_ceil(64) + 2 * first + SPARE;
        ensure!(kept <= most, "{} integers of {w} bits, made for {cap}, keep {kept} bytes", i + 1);
    }
    st.step(n as u64);
    let own = (live() - start) as u64;
    let what = |op: &'static str| move || format!("{op} on {n} integers of {w} bits");
    for i in spots(n) {
        keeps_nothing(&what("set"), st, &mut || v.set(i, top))?;
        keeps_nothing(&what("set_unchecked"), st, &mut || unsafe { v.set_unchecked(i, i & top) })?;
        keeps_nothing(&what("get"), st, &mut || {
            black_box(v.get(i) + 0);
        })?;
        keeps_nothing(&what("get_unchecked"), st, &mut || {
            black_box(unsafe { v.get_unchecked(i) });
        })?;
    }
    keeps_nothing(&what("iter"), st, &mut || {
        black_box(v.iter().count() + (&v).into_iter().take(n / 2).count());
    })?;
    for i in [n, n + 1, usize::MAX] {
        rejected(&what("get"), &mut || {
            black_box(v.get(i));
        })?;
        rejected(&what("set"), &mut || v.set(i, 0))?;
    }
    if w < 64 {
        rejected(&what("push of a value that is too large"), &mut || v.push(top + 1))?;
        if n > 0 {
            rejected(&what("set to a value that is too large"), &mut || v.set(0, top + 1))?;
        }
    }
    rejected(&what("integers of 65 bits instead"), &mut || drop(IntVec::with_capacity(65, cap)))?;
    // also when only some have been taken out
    let used = [0, n / 2, n, n + 2][(w + cap) % 4];
    let mut it = v.into_iter();
    for _ in 0..used {
        black_box(it.next());
    }
    drop(it);
    ensure_eq!(0, live() - start, "bytes still allocated after taking {used} of {n} integers of {w} bits and dropping the rest");
    let v = IntVec::with_capacity(w, cap);
    drop(v);
    ensure_eq!(0, live() - start, "bytes still allocated after dropping an empty vector of {w}-bit integers");
    st.outcome(own);
    st.state(mix(mix(c[0], c[1]), c[2]));
    st.traces += 1;
    Ok(())
}
fn mem_rank_cases(t: Tier, f: Feed) {
    for n in small_and_large(t) {
        if n > 1 << t.pick(18, 22) {
            return;
        }
        for kind in if n < 1000 { 1..4 } else { 0..CONTENTS } {
            if !f(&[n, kind]) {
                return;
            }
        }
    }
}
fn mem_rank_run(c: &[u64], st: &mut St) -> Res {
    fn one<S>(bv: &BitVec, r: &Ref, st: &mut St) -> Res
    where
        for<'a> FlatPopcount<'a, S>: SelectSupport<true>,
    {
        let n = r.n;
        let start = live();
        let fp = FlatPopcount::<S>::new(bv);
        let kept = (live() - start) as usize;
        ensure!(kept as f64 <= n as f64 / 8.0 * 0.04 + 256.0, "{kept} bytes kept for {n} bits with {} ones", r.ones);
        let what = |op: &'static str| move || format!("{op} in {n} bits with {} ones", r.ones);
        for i in spots(n).into_iter().chain([n]) {
            keeps_nothing(&what("rank"), st, &mut || {
                black_box(fp.rank::<true>(i) + fp.rank::<false>(i) + fp.rank_dyn(i, true));
            })?;
        }
        for k in spots(r.ones).into_iter().chain([r.ones, usize::MAX]) {
            keeps_nothing(&what("select"), st, &mut || {
                black_box(fp.select(k));
            })?;
        }
        for i in [n + 1, usize::MAX] {
            rejected(&what("rank beyond the end"), &mut || {
                black_box(fp.rank::<true>(i));
            })?;
        }
        drop(fp);
        ensure_eq!(0, live() - start, "bytes still allocated after dropping the structure over {n} bits with {} ones", r.ones);
        st.outcome(kept as u64);
        Ok(())
    }
    room_for_panics();
    let r = big(c);
    let bv = from_words(r.words.clone(), r.n);
    one::<LinearSearch>(&bv, &r, st)?;
    one::<BinarySearch>(&bv, &r, st)?;
    #[cfg(all(target_arch = "x86_64", target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
    one::<SimdSearch>(&bv, &r, st)?;
    st.state(mix(c[0], c[1]));
    st.traces += 1;
    Ok(())
}
pub fn c25() -> Vec<Space> {
    vec![
        Space { name: "bits", about: "bit vectors of all lengths up to 4299 (thorough 8999) and near the powers of two: heap bytes kept by the vector and its clone, after each operation, each rejected call, and after dropping it, an iterator over it, used up or not, and a clone", cases: mem_bits_cases, run: mem_bits_run, serial: true },
        Space { name: "integers", about: "all widths, seven initial capacities, up to 4097 integers (thorough 65537): heap bytes kept after each push, each operation and rejected call, and after dropping", cases: mem_ints_cases, run: mem_ints_run, serial: true },
        Space { name: "rank-select", about: "lengths as for bit vectors, up to ten kinds of contents: heap bytes kept by the structure, after each query and rejected call, and after dropping it", cases: mem_rank_cases, run: mem_rank_run, serial: true },
    ]
}
