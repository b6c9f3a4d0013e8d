pub mod native;
pub mod races;

use crate::{call, Space};
use std::ops::Bound;
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

type Feed<'a> = &'a mut dyn FnMut(&[u64]);
const MAX: usize = usize::MAX;

fn made(n: usize) -> BitVec {
    let mut v = BitVec::new(n);
    for i in [0, 5, n / 2, n.wrapping_sub(1)] {
        if i < n {
            v.set(i, true);
        }
    }
    v
}
/// Indices of interest in something of length n, inside and outside.
fn points(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 63, 64, n / 2, n.wrapping_sub(1), n, n.wrapping_add(64), MAX];
    v.sort();
    v.dedup();
    v
}
/// The k-th range over a and b in all spellings.
fn bounds(k: u64, a: usize, b: usize) -> (Bound<usize>, Bound<usize>) {
    use Bound::*;
    match k {
        0 => (Included(a), Excluded(b)),
        1 => (Included(a), Included(b)),
        2 => (Excluded(a), Excluded(b)),
        3 => (Unbounded, Excluded(b)),
        4 => (Included(a), Unbounded),
        5 => (Unbounded, Included(b)),
        _ => (Excluded(a), Included(b)),
    }
}
// Panics are expensive to interpret, so each index outside gets one of the spellings of an access,
// in turn; inside, it gets all of them.
fn turn(n: usize) -> usize {
    thread_local!(static TURN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
    TURN.with(|t| t.replace(t.get() + 1)) % n
}
fn read<B: BitGet>(s: &BitSlice<B>, i: usize) {
    let k = if i < s.len() { 9 } else { turn(2) };
    if k == 9 || k == 0 {
        call(|| s.get(i));
    }
    if k == 9 || k == 1 {
        call(|| s.get_bit(i));
    }
}
fn write<B: BitModify>(s: &mut BitSlice<B>, i: usize) {
    let k = if i < s.len() { 9 } else { turn(4) };
    if k == 9 || k == 0 {
        call(|| s.set(i, true));
    }
    if k == 9 || k == 1 {
        call(|| s.flip(i));
    }
    if k == 9 || k == 2 {
        call(|| s.set_bit(i, false));
    }
    if k == 9 || k == 3 {
        call(|| s.flip_bit(i));
    }
}
/// The unsafe functions, as far as their contract allows: the bits exist.
fn unchecked_read<B: BitGet>(s: &BitSlice<B>) {
    for i in [0, s.len() / 2, s.len().wrapping_sub(1)] {
        if i < s.len() {
            call(|| unsafe { s.get_unchecked(i) });
            call(|| unsafe { s.get_bit_unchecked(i) });
        }
    }
    call(|| unsafe { s.slice_unchecked(s.len() / 2..) }.iter().take(2).count());
    call(|| unsafe { s.slice_unchecked(s.len()..) }.iter().count());
}
fn unchecked_write<B: BitModify + BitGet>(s: &mut BitSlice<B>) {
    for i in [0, s.len() / 2, s.len().wrapping_sub(1)] {
        if i < s.len() {
            call(|| unsafe { s.set_unchecked(i, true) });
            call(|| unsafe { s.flip_unchecked(i) });
            call(|| unsafe { s.set_bit_unchecked(i, false) });
            call(|| unsafe { s.flip_bit_unchecked(i) });
        }
    }
    call(|| unsafe { s.slice_unchecked_mut(..) }.flip(0));
}
/// Everything that only looks.
fn look<B: BitGet>(s: &BitSlice<B>) {
    for i in points(s.len()) {
        read(s, i);
    }
    call(|| s.iter().count());
    call(|| s.iter().nth(s.len() / 2));
    call(|| {
        let mut it = s.iter();
        it.next();
        it.nth(s.len());
        it.next();
        (it.len(), it.size_hint(), it.next())
    });
    call(|| s.into_iter().last());
    call(|| s == s);
    call(|| (s.len(), s.is_empty()));
    for i in points(s.len()) {
        call(|| {
            let (l, r) = s.split_at(i);
            (l.iter().count(), r.iter().count(), l == r)
        });
    }
}

// ------------------------------------------------------------------ vectors and windows

fn vectors_cases(t: bool, f: Feed) {
    let mut ns = vec![0u64, 1, 2, 63, 64, 65, 128, 130];
    if t {
        ns.extend([3, 62, 66, 127, 129, 191, 192, 193, 256, 320]);
    }
    for n in ns {
        f(&[n]);
    }
}
fn vectors(c: &[u64]) {
    let n = c[0] as usize;
    let mut v = made(n);
    look(&v);
    for i in points(n) {
        write(&mut v, i);
        call(|| BitModify::set_bit(&mut v, i, true));
        call(|| BitModify::flip_bit(&mut v, i));
    }
    unchecked_read(&v);
    unchecked_write(&mut v);
    call(|| format!("{v:?}"));
    call(|| format!("{:?} {:?}", v.slice(..), v.iter()));
    call(|| (&v).into_iter().count());
    let w = v.clone();
    call(|| *w == *v);
    call(|| w.raw().len() + AsRef::<[usize]>::as_ref(&w).len() + v.as_mut().backing().len() + AsRef::<BitSlice<Box<[usize]>>>::as_ref(&w).len());
    drop(v);
    look(&w);
}
fn windows_cases(t: bool, f: Feed) {
    let ns: Vec<u64> = if t { vec![1, 64, 65, 130, 192] } else { vec![130] };
    for n in ns {
        for kind in 0..7 {
            for a in 0..if t { 9 } else { 7 } {
                for b in 0..9 {
                    // open bounds have no value
                    let again = [3, 5].contains(&kind) && a > 0 || kind == 4 && b > 0;
                    // the compiled programs (native.rs) have all points
                    if !again && (t || a != 4 && b != 4) {
                        f(&[n, kind, a, b]);
                    }
                }
            }
        }
    }
}
/// A window by every spelling of a range over every pair of points; accepted ones are used.
fn windows(c: &[u64]) {
    let n = c[0] as usize;
    let mut v = made(n);
    let p = points(n);
    let (Some(&a), Some(&b)) = (p.get(c[2] as usize), p.get(c[3] as usize)) else { return };
    let r = bounds(c[1], a, b);
    if let Some(s) = call(|| v.slice(r)) {
        use_window(&s);
        if let Some(t) = call(|| s.slice(r)) {
            use_window(&t);
        }
    }
    if let Some(mut s) = call(|| v.slice_mut(r)) {
        for i in [0, s.len().wrapping_sub(1), s.len()] {
            write(&mut s, i);
        }
        use_window(&s);
        unchecked_write(&mut s);
        if let Some(mut t) = call(|| s.slice_mut(r)) {
            for i in [0, t.len().wrapping_sub(1), t.len()] {
                write(&mut t, i);
            }
            unchecked_write(&mut t);
        }
    }
}
fn use_window<B: BitGet>(s: &BitSlice<B>) {
    for i in [0, s.len() / 2, s.len().wrapping_sub(1), s.len()] {
        read(s, i);
    }
    call(|| s.iter().take(3).count());
    call(|| s.slice(s.len().saturating_sub(3)..).iter().count());
    call(|| s.split_at(s.len().saturating_sub(2)).1.iter().count());
    unchecked_read(s);
}

// ------------------------------------------------------------------ splits

fn splits_cases(t: bool, f: Feed) {
    let ns: Vec<u64> = if t { vec![1, 2, 63, 64, 65, 100, 128, 129, 192] } else { vec![2, 65, 129] };
    for n in ns {
        for at in [0, 1, n / 2, 63, 64, n - 1, n] {
            if at <= n {
                for inner in 0..3 {
                    f(&[n, at, inner]);
                }
            }
        }
    }
}
/// Both halves of a mutable split used in turn, split again, then the vector.
fn splits(c: &[u64]) {
    let (n, at) = (c[0] as usize, c[1] as usize);
    let mut v = made(n);
    fn both<B: BitModify + BitGet>(l: &mut BitSlice<B>, r: &mut BitSlice<B>) {
        for round in 0..2 {
            for i in [0, l.len().wrapping_sub(1), l.len()] {
                write(l, i);
                read(r, i);
                call(|| (l.iter().take(2).count(), r.iter().take(2).count()));
            }
            for i in [0, r.len().wrapping_sub(1), r.len()] {
                write(r, i);
                read(l, i + round);
            }
        }
        call(|| l == r);
    }
    match c[2] {
        0 => {
            if let Some((mut l, mut r)) = call(|| v.split_at_mut(at)) {
                both(&mut l, &mut r);
                let k = l.len() / 2;
                if let Some((mut a, mut b)) = call(|| l.split_at_mut(k)) {
                    both(&mut a, &mut b);
                    write(&mut r, 0);
                    both(&mut b, &mut a);
                }
                let k = r.len() / 2;
                if let Some((mut a, mut b)) = call(|| r.split_at_mut(k)) {
                    both(&mut a, &mut b);
                    write(&mut l, 0);
                    both(&mut b, &mut a);
                }
                both(&mut l, &mut r);
            }
        }
        1 => {
            if let Some((mut l, mut r)) = call(|| v.split_at_mut(at)) {
                let (ll, rl) = (l.len(), r.len());
                let mut a = l.slice_mut(ll / 2..);
                let mut b = r.slice_mut(..rl / 2);
                both(&mut a, &mut b);
                let (x, y) = (l.slice(..), r.slice(..));
                use_window(&x);
                use_window(&y);
                call(|| x == y);
                let (mut r, l) = (r, l);
                write(&mut r, 0);
                call(|| l.into_iter().count());
                write(&mut r, 0);
                call(|| r.into_iter().count());
            }
        }
        _ => {
            // a slice that borrows storage owned elsewhere
            let mut words = vec![0usize; n.div_ceil(64)];
            let mut s = BitSlice::new(&mut words[..], 0, n);
            if let Some((mut l, mut r)) = call(|| s.split_at_mut(at)) {
                both(&mut l, &mut r);
                both(&mut r, &mut l);
            }
            use_window(&s);
            call(|| words.len());
        }
    }
    use_window(&v);
    write(&mut v, n / 2);
}

// ------------------------------------------------------------------ storage shorter than the window

fn short_cases(t: bool, f: Feed) {
    let words: Vec<u64> = if t { vec![0, 1, 2, 3] } else { vec![0, 2] };
    for w in words {
        for s in 0..6 {
            for e in s..9 {
                if !t && ([2, 7].contains(&e) || s == 2) {
                    continue;
                }
                f(&[w, s, e]);
            }
        }
    }
}
fn corner(words: usize, k: u64) -> usize {
    [0, 1, 63, 64, words * 64, words * 64 + 1, words * 64 + 64, MAX - 1, MAX][k as usize]
}
/// Slices and iterators made directly over storage that does not reach to the window's end.
fn short(c: &[u64]) {
    let w = c[0] as usize;
    let (s, e) = (corner(w, c[1]), corner(w, c[2]));
    let data: Box<[usize]> = (0..w).map(|i| 0x5555 << i).collect();
    if let Some(x) = call(|| BitSlice::new(&*data, s, e)) {
        probe(&x);
    }
    if let Some(x) = call(|| BitSlice::new(&data, s, e)) {
        probe(&x);
        if e - s < 400 {
            call(|| x.clone().into_iter().count());
            call(|| x == x);
        }
    }
    let mut own = data.clone();
    if let Some(mut x) = call(|| BitSlice::new(&mut *own, s, e)) {
        probe(&x);
        probe_mut(&mut x);
    }
    if let Some(mut x) = call(|| BitSlice::new(own, s, e)) {
        probe(&x);
        probe_mut(&mut x);
        let m = x.len() / 2;
        if let Some((mut l, mut r)) = call(|| x.split_at_mut(m)) {
            probe_mut(&mut l);
            probe_mut(&mut r);
        }
    }
    walk(Iter::new(&*data, s, e), e.wrapping_sub(s));
    walk(Iter::new(&*data, e, s), 0);
    walk(Iter::new(data, s, e), e.wrapping_sub(s));
}
fn ends(n: usize) -> [usize; 5] {
    [0, 1, n / 2, n.wrapping_sub(1), n]
}
fn probe<B: BitGet>(x: &BitSlice<B>) {
    for i in ends(x.len()).into_iter().chain([64, 128]) {
        let k = turn(2);
        if k == 0 {
            call(|| x.get(i));
        } else {
            call(|| x.get_bit(i));
        }
    }
    walk(x.iter(), x.len());
    let n = x.len();
    for (a, b) in [(0, n), (n, n)] {
        call(|| {
            let y = x.slice(a..b);
            (y.len() > 0).then(|| y.get(y.len() - 1))
        });
    }
    call(|| x.split_at(n / 2).1.get(0));
}
fn probe_mut<B: BitModify>(x: &mut BitSlice<B>) {
    for i in ends(x.len()).into_iter().chain([64, 128]) {
        match turn(4) {
            0 => call(|| x.set(i, true)),
            1 => call(|| x.flip(i)),
            2 => call(|| x.set_bit(i, false)),
            _ => call(|| x.flip_bit(i)),
        };
    }
}
fn walk<B: BitGet>(mut it: Iter<B>, n: usize) {
    call(|| (it.len(), it.size_hint()));
    call(|| it.next());
    call(|| it.next());
    if n < 400 {
        // the iterator stays usable after it has panicked
        for _ in 0..2 {
            call(|| it.by_ref().count());
        }
    } else {
        call(|| it.by_ref().take(200).count());
    }
    call(|| (it.next(), it.len()));
}
fn values_cases(t: bool, f: Feed) {
    for k in 0..5 {
        for s in if t { vec![0u64, 1, 7, 8, 31, 63] } else { vec![0, 7, 63] } {
            for e in if t { vec![0u64, 1, 8, 9, 16, 17, 32, 33, 64, 65, 1000] } else { vec![0, 8, 9, 64, 65] } {
                if s <= e {
                    f(&[k, s, e]);
                }
            }
        }
    }
}
/// Single integers as storage.
fn values(c: &[u64]) {
    fn go<T: BitGet + BitModify + Copy>(v: T, s: usize, e: usize) {
        let mut w = v;
        for i in [s, e] {
            call(|| w.get_bit(i));
            call(|| w.set_bit(i, true));
            call(|| w.flip_bit(i));
        }
        let x = BitSlice::new(&w, s, e);
        probe(&x);
        let mut x = BitSlice::new(&mut w, s, e);
        probe_mut(&mut x);
        let mut x = BitSlice::new(w, s, e);
        probe_mut(&mut x);
        probe(&x);
        walk(Iter::new(v, s, e), e - s);
    }
    let (s, e) = (c[1] as usize, c[2] as usize);
    match c[0] {
        0 => go(0xa5u8, s, e),
        1 => go(0xa5a5u16, s, e),
        2 => go(0xa5a5a5a5u32, s, e),
        3 => go(0xa5a5a5a5a5u64, s, e),
        _ => go(0xa5a5a5a5a5usize, s, e),
    }
}
/// The mutable halves of a slice that contains its storage itself, used in turn.
fn value_halves_cases(_t: bool, f: Feed) {
    f(&[0]);
}
fn value_halves(_c: &[u64]) {
    let mut x = BitSlice::new(0u64, 0, 64);
    let (mut l, mut r) = x.split_at_mut(10);
    l.set(0, true);
    r.set(0, true);
    l.set(1, true);
}

// ------------------------------------------------------------------ vectors whose window was replaced

fn replaced_cases(t: bool, f: Feed) {
    for w in if t { vec![0u64, 1, 2, 9, 65] } else { vec![0, 9] } {
        for s in 0..6 {
            for e in s..9 {
                if !t && ([2, 7].contains(&e) || s == 2) {
                    continue;
                }
                f(&[w, s, e]);
            }
        }
    }
}
fn replaced(c: &[u64]) {
    let w = c[0] as usize;
    let (s, e) = (corner(w, c[1]), corner(w, c[2]));
    let data: Box<[usize]> = (0..w).map(|i| 0x5555 << (i % 50)).collect();
    let Some(win) = call(|| BitSlice::new(data, s, e)) else { return };
    let mut v = BitVec::new(100);
    *v = win;
    probe(&v);
    probe_mut(&mut v);
    for i in ends(v.len()).into_iter().chain([100]) {
        call(|| BitModify::set_bit(&mut v, i, true));
        call(|| BitModify::flip_bit(&mut v, i));
    }
    if v.len() < 1000 {
        call(|| v.iter().count());
        call(|| (&v).into_iter().count());
        call(|| format!("{v:?}").len());
        let u = v.clone();
        probe(&u);
        structure::<LinearSearch>(&v);
        structure::<BinarySearch>(&v);
    }
}

// ------------------------------------------------------------------ integer vectors

fn ints_cases(t: bool, f: Feed) {
    let widths: Vec<u64> = if t { (1..=64).collect() } else { vec![1, 2, 7, 8, 13, 31, 32, 33, 63, 64] };
    for w in widths {
        let around = 64 / w;
        for fill in [0, 1, around, around + 1, 2 * around + 1] {
            for cap in if t { vec![0, 1, 8] } else { vec![w % 2 * 8] } {
                f(&[w, fill, cap]);
            }
        }
    }
    for w in [0, 65, 100, 1 << 32, u64::MAX] {
        f(&[w, 3, 2]);
    }
}
fn ints(c: &[u64]) {
    let w = c[0] as usize;
    // capacities whose product with the width overflows are covered in the explorer's check
    let Some(mut v) = call(|| IntVec::with_capacity(w, c[2] as usize)) else { return };
    let max = if w >= 64 { MAX } else { (1 << w) - 1 };
    for i in 0..c[1] as usize {
        call(|| v.push(if i % 2 == 0 { max } else { i & max }));
    }
    let n = c[1] as usize;
    for i in [0, n / 2, n.wrapping_sub(2), n.wrapping_sub(1), n, n + 64 / w + 1, MAX] {
        call(|| v.get(i));
        for x in if i < n { vec![0, max, max.wrapping_add(1)] } else { vec![max] } {
            call(|| v.set(i, x));
        }
        if i < n {
            call(|| unsafe { v.get_unchecked(i) });
            call(|| unsafe { v.set_unchecked(i, max) });
        }
    }
    call(|| v.push(max.wrapping_add(1)));
    call(|| v.push(max));
    call(|| v.iter().count());
    call(|| (&v).into_iter().count());
    call(|| {
        let mut it = v.iter();
        it.next();
        it.nth(n);
        (it.len(), it.next(), it.next(), it.size_hint())
    });
    call(|| format!("{v:?} {} {}", v.raw_data().len(), v.is_empty()).len());
    call(|| {
        let mut it = v.into_iter();
        it.next();
        let l = it.len();
        it.next();
        l
    });
    let mut v = IntVec::new(w);
    call(|| v.push(1));
    call(|| v.into_iter().map(|x| x & 1).sum::<usize>());
}

// ------------------------------------------------------------------ rank and select

fn ranks_cases(t: bool, f: Feed) {
    let mut ns = vec![0u64, 1, 64, 65, 511, 512, 513, 4095, 4096, 4097, 8192];
    if t {
        ns.extend([2, 63, 128, 575, 1024, 4032, 4160, 576, 2048, 3584, 4608, 8128, 8191, 8193, 12288, 16384, 16448]);
    }
    for n in ns {
        for p in 0..if n > 600 && !t { 3 } else { 6 } {
            f(&[n, p, 0]);
            if t || n <= 513 || n == 4097 && p == 0 {
                f(&[n, p, 1]);
            }
        }
    }
}
fn pattern(n: usize, p: u64) -> BitVec {
    let mut v = BitVec::new(n);
    match p {
        0 => (0..n).for_each(|i| v.set(i, true)),
        1 => {}
        2 => {
            if n > 0 {
                v.set(n - 1, true)
            }
        }
        3 => (0..n).step_by(5).for_each(|i| v.set(i, true)),
        4 => {
            if n > 0 {
                v.set(0, true)
            }
        }
        _ => (n / 2..n).for_each(|i| v.set(i, true)),
    }
    v
}
fn structure<S: SelectStrategy>(v: &BitVec) {
    let Some(fp) = call(|| FlatPopcount::<S>::new(v)) else { return };
    let n = v.len();
    call(|| (fp.len(), fp.is_empty()));
    for i in [0, 1, 63, 64, 511, 512, 513, 4095, 4096, 4097, n / 2, n.wrapping_sub(64), n.wrapping_sub(1), n] {
        if i <= n {
            call(|| fp.rank::<true>(i));
            call(|| fp.rank::<false>(i));
            call(|| fp.rank_dyn(i, true));
            call(|| fp.rank_dyn(i, false));
        }
    }
    for i in [n + 1, n + 64, MAX] {
        match turn(4) {
            0 => call(|| fp.rank::<true>(i)),
            1 => call(|| fp.rank::<false>(i)),
            2 => call(|| fp.rank_dyn(i, true)),
            _ => call(|| fp.rank_dyn(i, false)),
        };
    }
    let ones = call(|| fp.rank::<true>(n)).unwrap_or(0);
    for k in [0, 1, 2, 511, 512, 4095, 4096, ones / 2, ones.wrapping_sub(2), ones.wrapping_sub(1), ones, ones + 1, 8192, MAX] {
        call(|| fp.select(k));
    }
}
fn ranks(c: &[u64]) {
    let v = pattern(c[0] as usize, c[1]);
    // the strategies only differ in the block search
    if c[2] == 0 {
        structure::<LinearSearch>(&v);
    } else {
        structure::<BinarySearch>(&v);
        #[cfg(all(target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
        structure::<succinct_neo::rank_select::flat_popcount::SimdSearch>(&v);
    }
}
fn strats_cases(_t: bool, f: Feed) {
    for k in 0..8 {
        f(&[k]);
    }
}
/// The block search itself, on any entry and rank: it takes plain numbers, so nothing may go wrong.
fn strats(c: &[u64]) {
    let e: u128 = match c[0] {
        0 => 0,
        1 => u128::MAX,
        2 => (0..7).fold(0, |e, i| e << 12 | 512 * (i + 1)),
        3 => (0..7).fold(0, |e, _| e << 12 | 4095),
        4 => 77 << 84,
        5 => 0x123456789abcdef0123456789abcdef,
        6 => 1,
        _ => 1 << 127,
    };
    for r in [0, 1, 511, 512, 4095, 4096, 65535, 1 << 40, MAX] {
        call(|| LinearSearch::find_l2(e, r));
        call(|| BinarySearch::find_l2(e, r));
        #[cfg(all(target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
        call(|| succinct_neo::rank_select::flat_popcount::SimdSearch::find_l2(e, r));
    }
}

// ------------------------------------------------------------------ safe code of others that misleads

thread_local! {
    static FOUND: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
/// A strategy that finds whatever it is told to.
struct Told;
impl SelectStrategy for Told {
    fn find_l2(_: u128, _: usize) -> (usize, usize) {
        FOUND.with(|f| f.get())
    }
}
fn foreign_strategies_cases(t: bool, f: Feed) {
    for n in if t { vec![1u64, 64, 100, 4096, 4200, 8300] } else { vec![1, 100, 4200] } {
        for block in 0..if t { 9 } else { 7 } {
            for ones in 0..5 {
                f(&[n, block, ones]);
            }
        }
    }
}
/// Anyone can implement the search strategy in safe code; the structure may not trust it.
fn foreign_strategies(c: &[u64]) {
    let n = c[0] as usize;
    let v = made(n);
    let fp = FlatPopcount::<Told>::new(&v);
    let block = [0, 1, 8, 1000, MAX >> 3, MAX - 7, MAX, 7, MAX >> 2][c[1] as usize];
    let ones = [0, 1, 3, MAX >> 1, MAX][c[2] as usize];
    FOUND.with(|f| f.set((block, ones)));
    for k in [0, 1, 3] {
        call(|| fp.select(k));
    }
}
/// A range whose bounds are different when asked again.
struct Fickle {
    start: [usize; 2],
    end: [usize; 2],
    asked: std::cell::Cell<[usize; 2]>,
}
impl std::ops::RangeBounds<usize> for Fickle {
    fn start_bound(&self) -> Bound<&usize> {
        let [s, e] = self.asked.get();
        self.asked.set([s + 1, e]);
        Bound::Included(&self.start[s.min(1)])
    }
    fn end_bound(&self) -> Bound<&usize> {
        let [s, e] = self.asked.get();
        self.asked.set([s, e + 1]);
        Bound::Excluded(&self.end[e.min(1)])
    }
}
fn fickle_ranges_cases(t: bool, f: Feed) {
    let n = if t { 5 } else { 3 };
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                for d in 0..n {
                    if a != b || c != d {
                        f(&[a, b, c, d]);
                    }
                }
            }
        }
    }
}
fn fickle_ranges(c: &[u64]) {
    let n = 130;
    let mut v = made(n);
    let p = [0, n, MAX, n + 70, 65];
    let at = |i: usize| p[c[i] as usize];
    let r = || Fickle { start: [at(0), at(1)], end: [at(2), at(3)], asked: Default::default() };
    let outer = call(|| v.slice(r()));
    if let Some(s) = &outer {
        for i in [0, 64, s.len().wrapping_sub(1)] {
            call(|| s.get(i));
        }
        call(|| s.iter().count());
        call(|| s.slice(r()).get(0));
    }
    if let Some(mut s) = call(|| v.slice_mut(r())) {
        for i in [0, s.len().wrapping_sub(1)] {
            call(|| s.set(i, true));
        }
    }
    call(|| v.flip(0));
}

// ------------------------------------------------------------------ histories

const OPS: u64 = 12;
fn histories_cases(t: bool, f: Feed) {
    for n in if t { vec![1u64, 64, 70, 128] } else { vec![65] } {
        for first in 0..OPS {
            for second in 0..OPS {
                f(&[n, first, second, t as u64]);
            }
        }
    }
}
/// All sequences of four steps on a vector, a copy, an integer vector and what borrows from them.
fn histories(c: &[u64]) {
    let n = c[0] as usize;
    for third in 0..OPS {
        for fourth in if c[3] == 1 { &[0, 3, 5, 7, 11][..] } else { &[5][..] } {
            let mut v = made(n);
            let mut w = v.clone();
            let mut x = IntVec::new(23);
            for op in [c[1], c[2], third, *fourth] {
                match op {
                    0 => _ = call(|| v.set(n - 1, true)),
                    1 => _ = call(|| std::mem::swap(&mut v, &mut w)),
                    2 => w = v.clone(),
                    3 => _ = call(|| FlatPopcount::<LinearSearch>::new(&v).select(0)),
                    4 => std::mem::swap(&mut *v, &mut *w),
                    5 => _ = call(|| v.slice(n.saturating_sub(5)..).iter().zip(&w).filter(|(a, b)| a == b).count()),
                    6 => v = BitVec::new(n),
                    7 => _ = call(|| x.push(9)),
                    8 => _ = call(|| x.set(0, 7) ),
                    9 => x = std::mem::replace(&mut x, IntVec::new(64)),
                    10 => drop(call(|| {
                        let (mut l, mut r) = w.split_at_mut(n / 2);
                        std::mem::swap(&mut l, &mut r);
                        l.flip(0);
                        r.flip(0);
                    })),
                    _ => {
                        let n = w.len();
                        w = call(|| w.clone()).unwrap();
                        _ = call(|| w.slice_mut(..n / 2).flip(0));
                        _ = call(|| x.iter().sum::<usize>());
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ threads

fn threads_cases(_t: bool, f: Feed) {
    for k in 0..5 {
        f(&[k]);
    }
}
struct Sh<T>(T);
unsafe impl<T> Sync for Sh<T> {}
unsafe impl<T> Send for Sh<T> {}
/// Data races would make the schedules of machine instructions an incomplete picture.
fn threads(c: &[u64]) {
    let v = Sh(pattern(700, 3));
    let fp = Sh(FlatPopcount::<LinearSearch>::new(&v.0));
    let mut x = IntVec::new(23);
    for i in 0..9 {
        x.push(i);
    }
    let x = Sh(x);
    match c[0] {
        0 => std::thread::scope(|s| {
            for i in 0..2 {
                let (v, fp, x) = (&v, &fp, &x);
                s.spawn(move || {
                    let (v, fp, x) = (&v.0, &fp.0, &x.0);
                    for j in 0..4 {
                        call(|| (fp.rank::<true>(600 + i + j), fp.select(i + j), fp.rank::<false>(i), fp.len(), fp.select(9999)));
                        call(|| (v.get(i + j), v.slice(3..100).get(i), v.slice(..9).iter().count(), x.get(i + j), x.iter().count()));
                    }
                });
            }
        }),
        1 => std::thread::scope(|s| {
            for _ in 0..2 {
                let v = &v;
                s.spawn(move || {
                    let v = &v.0;
                    call(|| FlatPopcount::<BinarySearch>::new(v).select(5));
                });
            }
        }),
        2 => std::thread::scope(|s| {
            for k in 0..2 {
                s.spawn(move || {
                    let mut b = made(70 + k);
                    write(&mut b, 3);
                    let mut x = IntVec::new(23);
                    for i in 0..9 {
                        x.push(i);
                    }
                    structure::<LinearSearch>(&b);
                    call(|| x.into_iter().count());
                });
            }
        }),
        3 => {
            // a vector handed to another thread and back
            let b = Sh(made(130));
            let mut b = std::thread::spawn(move || {
                let mut b = b;
                write(&mut { &mut b }.0, 5);
                b
            })
            .join()
            .unwrap();
            write(&mut b.0, 5);
        }
        _ => {
            // one vector is cloned in two threads
            std::thread::scope(|s| {
                for i in 0..2 {
                    let v = &v;
                    s.spawn(move || {
                        let v = &v.0;
                        let mut w = v.clone();
                        write(&mut w, i);
                        call(|| *w == **v);
                    });
                }
            });
        }
    }
}
/// Both halves of a vector split between two words, each used by a thread.
fn halves_in_threads(_c: &[u64]) {
    let mut v = made(128);
    let (l, r) = v.split_at_mut(64);
    std::thread::scope(|s| {
        for h in [Sh(l), Sh(r)] {
            s.spawn(move || {
                let mut h = { h };
                h.0.set(0, true);
            });
        }
    });
}

pub fn spaces() -> Vec<Space> {
    vec![
        Space { name: "vectors", about: "every operation of a vector at every point of interest inside and outside", cases: vectors_cases, run: vectors },
        Space { name: "windows", about: "windows by every spelling of a range over pairs of points, nested twice, read and written", cases: windows_cases, run: windows },
        Space { name: "splits", about: "mutable halves used in turn, split and sliced again", cases: splits_cases, run: splits },
        Space { name: "short-storage", about: "slices and iterators constructed over storage shorter than their window", cases: short_cases, run: short },
        Space { name: "integers-as-storage", about: "slices and iterators over single integers, windows beyond their width", cases: values_cases, run: values },
        Space { name: "replaced-window", about: "vectors whose window was replaced through a mutable borrow", cases: replaced_cases, run: replaced },
        Space { name: "integer-vectors", about: "widths, fill levels, capacities; every operation at every point of interest", cases: ints_cases, run: ints },
        Space { name: "rank-select", about: "lengths and contents around word and block limits; queries inside and outside", cases: ranks_cases, run: ranks },
        Space { name: "block-search", about: "entries and ranks of any value given to the search strategies", cases: strats_cases, run: strats },
        Space { name: "foreign-strategies", about: "structures over a search strategy that answers anything", cases: foreign_strategies_cases, run: foreign_strategies },
        Space { name: "fickle-ranges", about: "windows by ranges whose bounds change when asked again", cases: fickle_ranges_cases, run: fickle_ranges },
        Space { name: "histories", about: "all sequences of three steps and a last one on several objects", cases: histories_cases, run: histories },
        Space { name: "threads", about: "concurrent reads, builds, clones and separate objects: no data races", cases: threads_cases, run: threads },
        Space { name: "value-halves", about: "mutable halves of a slice that contains its storage itself", cases: value_halves_cases, run: value_halves },
        Space { name: "halves-in-threads", about: "mutable halves of a vector in two threads", cases: value_halves_cases, run: halves_in_threads },
    ]
}
