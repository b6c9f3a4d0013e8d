use crate::{count, Space};
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

macro_rules! same {
    ($want:expr, $got:expr, $($what:tt)*) => {{
        let (want, got) = ($want, $got);
        count(1);
        if want != got {
            panic!("{}: expected {want:?}, got {got:?}", format_args!($($what)*));
        }
    }};
}
fn refused<R>(what: &str, f: impl FnOnce() -> R) {
    count(1);
    if catch_unwind(AssertUnwindSafe(f)).is_ok() {
        panic!("{what} did not panic");
    }
}
fn pattern(id: u64, i: usize, n: usize) -> bool {
    match id {
        0 => true,
        1 => i % 3 == 0,
        2 => i == 0 || i + 1 == n,
        3 => (i.wrapping_mul(0x9E37_79B9) >> 7) & 3 == 0,
        4 => (i / 64) % 2 == 1,
        5 => i % 4096 == 4095 || i % 512 == 1,
        6 => i >= n / 2,
        _ => i < n / 2,
    }
}
pub const PATTERNS: u64 = 8;

fn vector(m: &[bool], flips: bool) -> BitVec {
    let mut v = BitVec::new(m.len());
    for (i, &b) in m.iter().enumerate() {
        if b && flips {
            v.flip(i);
        } else if b {
            v.set(i, true);
        }
    }
    v
}
fn words(m: &[bool]) -> Vec<usize> {
    m.chunks(64).map(|c| c.iter().enumerate().fold(0, |w, (i, &b)| w | (b as usize) << i)).collect()
}
fn all_of(v: &mut BitVec, m: &mut [bool], text: bool) {
    let n = m.len();
    same!(n, v.len(), "length");
    same!(words(m), v.raw().to_vec(), "raw words of {n} bits");
    for (i, &b) in m.iter().enumerate() {
        same!(b, v.get(i), "bit {i} of {n}");
    }
    same!(m.to_vec(), v.iter().collect::<Vec<_>>(), "bits of {n} in turn");
    if text {
        let t = m.iter().map(|&b| if b { "1" } else { "0" }).collect::<Vec<_>>().join(", ");
        same!(format!("{{{t}}}"), format!("{v:?}"), "text of {n} bits");
    }
    refused("reading at the length", || v.get(n));
    for k in [0, 1, n / 2, n.saturating_sub(1)].into_iter().filter(|&k| k < n) {
        let (l, r) = v.split_at(k);
        same!((k, n - k), (l.len(), r.len()), "halves of {n} at {k}");
        same!(m[k], r.get(0), "first bit of the right half of {n} at {k}");
        let s = v.slice(k..);
        same!(true, s == r, "right half of {n} at {k}");
        same!(m[k..].to_vec(), s.into_iter().collect::<Vec<_>>(), "slice of {n} from {k}");
        let (mut l, mut r) = v.split_at_mut(k);
        if k > 0 {
            l.flip(k - 1);
            m[k - 1] = !m[k - 1];
        }
        r.set(0, !m[k]);
        m[k] = !m[k];
        same!(words(m), v.raw().to_vec(), "raw words of {n} bits after writing through halves at {k}");
    }
}
fn contents_cases(thorough: bool, f: &mut dyn FnMut(&[u64])) {
    for n in 0..if thorough { 10 } else { 7 } {
        for bits in 0..1u64 << n {
            f(&[n, bits]);
        }
    }
}
fn contents(c: &[u64]) {
    let mut m: Vec<bool> = (0..c[0]).map(|i| c[1] >> i & 1 == 1).collect();
    all_of(&mut vector(&m, c[1] & 1 == 0), &mut m, true);
}
fn lengths_cases(thorough: bool, f: &mut dyn FnMut(&[u64])) {
    let (to, many) = if thorough { (300, PATTERNS) } else { (67, 1) };
    for n in (0..to).chain([127, 128, 129, 192, 511, 513, 1000, if thorough { 4099 } else { 2100 }]) {
        for p in 0..many {
            f(&[n, (p + n) % PATTERNS]);
        }
    }
}
fn lengths(c: &[u64]) {
    let n = c[0] as usize;
    let mut m: Vec<bool> = (0..n).map(|i| pattern(c[1], i, n)).collect();
    all_of(&mut vector(&m, c[1] & 1 == 0), &mut m, n < 150);
}
fn integers_cases(thorough: bool, f: &mut dyn FnMut(&[u64])) {
    for kind in 0..5 {
        let width = [8, 16, 32, 64, 64][kind as usize];
        for i in 0..width {
            for j in (i..width).step_by(if thorough { 3 } else { 29 }) {
                f(&[kind, i, j]);
            }
        }
    }
}
/// Values with one or two ones, and their complements; every bit read, set and flipped.
fn integers(c: &[u64]) {
    macro_rules! with {
        ($t:ty) => {
            for x in [(1 as $t) << c[1] | 1 << c[2], !((1 as $t) << c[1] | 1 << c[2])] {
                for i in (0..<$t>::BITS as usize).filter(|&i| i % 7 == 0 || c[1..].contains(&(i as u64)) || i + 1 == <$t>::BITS as usize) {
                    let w = (1 as $t) << i;
                    same!(x & w != 0, x.get_bit(i), "bit {i} of {x:#x}");
                    let (mut a, mut b, mut d) = (x, Box::new(x), x);
                    a.set_bit(i, true);
                    same!(x | w, a, "{x:#x} with bit {i} set");
                    b.set_bit(i, false);
                    same!(x & !w, *b, "{x:#x} with bit {i} cleared");
                    d.flip_bit(i);
                    same!(x ^ w, d, "{x:#x} with bit {i} flipped");
                }
                same!(x.get_bit(3), Rc::new(x).get_bit(3), "bit 3 of {x:#x} behind a pointer");
                let s = BitSlice::new(x, 2, 7);
                same!((0..5).map(|i| x >> (2 + i) & 1 == 1).collect::<Vec<_>>(), s.iter().collect::<Vec<_>>(), "bits 2 to 7 of {x:#x}");
                refused("reading beyond an integer", || x.get_bit(<$t>::BITS as usize));
            }
        };
    }
    match c[0] {
        0 => with!(u8),
        1 => with!(u16),
        2 => with!(u32),
        3 => with!(u64),
        _ => with!(usize),
    }
}
fn packed_cases(thorough: bool, f: &mut dyn FnMut(&[u64])) {
    for w in 1..=64 {
        for p in 0..3 {
            for n in if thorough { vec![0, 1, 2, 7, 40, 67, 130, 200] } else if p == 1 { vec![0, 67] } else { vec![3] } {
                f(&[w, n, p]);
            }
        }
    }
}
/// Packed integers: values, raw words, overwriting.
fn packed(c: &[u64]) {
    let (w, n) = (c[0] as usize, c[1] as usize);
    let top = usize::MAX >> (64 - w);
    let value = |i: usize| match c[2] {
        0 => top,
        1 => i.wrapping_mul(0x9E37_79B9_7F4A_7C15) & top,
        _ => if i % 2 == 0 { 1 } else { top - 1 },
    };
    let mut m: Vec<usize> = (0..n).map(value).collect();
    let mut v = IntVec::with_capacity(w, n / 2);
    for &x in &m {
        v.push(x);
    }
    let layout = |v: &IntVec, m: &[usize]| {
        for (i, &x) in m.iter().enumerate() {
            same!(x, v.get(i), "value {i} of {} of {w} bits", m.len());
            let bits = (0..w).fold(0, |a, b| a | (v.raw_data()[(i * w + b) / 64] >> ((i * w + b) % 64) & 1) << b);
            same!(x, bits, "raw bits of value {i} of {} of {w} bits", m.len());
        }
        same!(m.to_vec(), v.iter().collect::<Vec<_>>(), "values of {w} bits in turn");
    };
    layout(&v, &m);
    for i in (0..n).step_by(3) {
        m[i] = !m[i] & top;
        v.set(i, m[i]);
    }
    layout(&v, &m);
    refused("reading at the length", || v.get(n));
    if w < 64 {
        refused("pushing a value that is too large", || v.push(top + 1));
    }
    same!(m, v.into_iter().collect::<Vec<_>>(), "values of {w} bits consumed in turn");
}
fn entries_cases(thorough: bool, f: &mut dyn FnMut(&[u64])) {
    let n = if thorough { 8 } else { 6 };
    for a in 0..n {
        for b in a..n {
            for c in b..n {
                f(&[n, a, b, c]);
            }
        }
    }
}
/// Non-decreasing block entries over limits of the counts; the search strategies.
fn entries(c: &[u64]) {
    let limits = [0usize, 1, 512, 2048, 3000, 4095, 255, 3584];
    let mut al = limits[..c[0] as usize].to_vec();
    al.sort_unstable();
    let mut l2 = [al[c[1] as usize], al[c[2] as usize], al[c[3] as usize], 0, 0, 0, 0];
    let n = al.len();
    for d in c[3] as usize..n {
        for e in d..n {
            for g in (e..n).step_by(2) {
                for h in g..n {
                    (l2[3], l2[4], l2[5], l2[6]) = (al[d], al[e], al[g], al[h]);
                    for upper in [0u128, (1 << 44) - 1, 0xAAA_5555_5AAA] {
                        let x = l2.iter().fold(upper, |x, &y| x << 12 | y as u128);
                        for rank in [0, 511, 2048, 4095, l2[3]] {
                            let k = l2.iter().filter(|&&y| y <= rank).count();
                            let want = (k, if k == 0 { 0 } else { l2[k - 1] });
                            same!(want, LinearSearch::find_l2(x, rank), "linear search, counts {l2:?}, rank {rank}");
                            same!(want, BinarySearch::find_l2(x, rank), "binary search, counts {l2:?}, rank {rank}");
                        }
                    }
                }
            }
        }
    }
}
/// about which positions below n to ask: all multiples of a step and the limits of blocks and samples
fn points(n: usize, step: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).step_by(step).collect();
    p.extend((0..n).step_by(512).flat_map(|i| [i.saturating_sub(1), i, i + 1]));
    p.extend([n.saturating_sub(1), n]);
    p.retain(|&i| i <= n);
    p.sort_unstable();
    p.dedup();
    p
}
/// rank and select against the positions of the ones
fn rank_select(n: usize, ones: &[usize], step: usize) {
    let mut v = BitVec::new(n);
    for &i in ones {
        v.set(i, true);
    }
    macro_rules! with {
        ($s:ty) => {{
            let p = FlatPopcount::<$s>::new(&v);
            same!(n, p.len(), "length");
            for i in points(n, step) {
                let before = ones.partition_point(|&o| o < i);
                same!(before, p.rank::<true>(i), "ones before {i} of {n}");
                same!(i - before, p.rank_dyn(i, false), "zeros before {i} of {n}");
            }
            for k in points(ones.len(), step) {
                same!(ones.get(k).copied(), p.select(k), "one number {k} of {} in {n} bits", ones.len());
            }
            same!(None, p.select(usize::MAX), "a one that is not there");
            refused("rank beyond the length", || p.rank::<true>(n + 1));
        }};
    }
    with!(LinearSearch);
    if n < 2000 {
        with!(BinarySearch);
    }
}
fn ranks_cases(thorough: bool, f: &mut dyn FnMut(&[u64])) {
    let many = |quick: &[u64]| if thorough { (0..PATTERNS).collect() } else { quick.to_vec() };
    for (lengths, patterns) in [
        ((0..70).collect::<Vec<_>>(), many(&[3])),
        (vec![127, 128, 129, 511, 512, 513, 1000], many(&[0, 1, 4])),
        (vec![4095, 4096, 4097], many(&[0, 5, 6])),
        (vec![8193, 12289], many(&[3, 5])),
        (vec![16385], many(&[0])),
        (vec![24577, 32769], many(&[5])),
    ] {
        for n in lengths {
            for &p in &patterns {
                f(&[n, p]);
            }
        }
    }
}
fn ranks(c: &[u64]) {
    let n = c[0] as usize;
    let ones: Vec<usize> = (0..n).filter(|&i| pattern(c[1], i, n)).collect();
    rank_select(n, &ones, if n < 70 { 1 } else { 61 });
}
fn blocks_cases(thorough: bool, f: &mut dyn FnMut(&[u64])) {
    for len in 1..if thorough { 4u32 } else { 3 } {
        for code in 0..5u64.pow(len) {
            f(&[len as u64, code]);
        }
    }
}
/// Every sequence of 4096-bit block fillings: empty, full, only the first or last bit, every other.
fn blocks(c: &[u64]) {
    let n = c[0] as usize * 4096 + 100;
    let mut ones = Vec::new();
    for b in 0..=c[0] as usize {
        let (from, to) = (b * 4096, n.min((b + 1) * 4096));
        match c[1] / 5u64.pow(b as u32) % 5 {
            0 => {}
            1 => ones.extend(from..to),
            2 => ones.push(from),
            3 => ones.push(to - 1),
            _ => ones.extend((from..to).step_by(2)),
        }
    }
    rank_select(n, &ones, 251);
}
pub fn spaces() -> Vec<Space> {
    vec![
        Space { name: "contents", about: "all bit vectors up to the bound: bits, raw words, text, slices, halves", cases: contents_cases, run: contents },
        Space { name: "lengths", about: "every length up to the bound: bits, raw words, text, slices, halves", cases: lengths_cases, run: lengths },
        Space { name: "integers", about: "all unsigned integers with one or two ones or zeros, every bit", cases: integers_cases, run: integers },
        Space { name: "packed", about: "packed integers of every width: values, raw words, overwriting, refusals", cases: packed_cases, run: packed },
        Space { name: "entries", about: "non-decreasing block entries over limits of the counts, both search strategies", cases: entries_cases, run: entries },
        Space { name: "ranks", about: "rank and select, lengths around block limits, eight contents", cases: ranks_cases, run: ranks },
        Space { name: "blocks", about: "rank and select, every sequence of block fillings up to the bound", cases: blocks_cases, run: blocks },
    ]
}
