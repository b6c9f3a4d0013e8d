//! Programs for the compiled library, whose accesses to memory are watched: no judge of aliasing or
//! lifetimes, but so much faster than interpretation that the limits of every length are reached.
use super::*;

fn last_queries_cases(t: bool, f: Feed) {
    for n in 0..=if t { 33000 } else { 12400 } {
        if t || n < 4700 || [0, 1, 63].contains(&(n % 64)) {
            f(&[n]);
        }
    }
}
/// Rank at every word limit and at the end; select of the first and last ones.
fn last_queries(c: &[u64]) {
    fn go<S: SelectStrategy>(v: &BitVec) {
        let Some(fp) = call(|| FlatPopcount::<S>::new(v)) else { return };
        let n = v.len();
        for i in (0..=n).step_by(64).chain(n.saturating_sub(65)..n + 2) {
            call(|| fp.rank::<true>(i));
            call(|| fp.rank_dyn(i, false));
        }
        let ones = call(|| fp.rank::<true>(n)).unwrap_or(0);
        for k in (0..ones).step_by(511).chain(ones.saturating_sub(3)..ones + 2) {
            call(|| fp.select(k));
        }
    }
    let n = c[0] as usize;
    for p in [0, 3] {
        let v = pattern(n, p);
        match turn(3) {
            0 => go::<LinearSearch>(&v),
            1 => go::<BinarySearch>(&v),
            _ => {
                #[cfg(all(target_feature = "sse2", target_feature = "ssse3", target_feature = "sse4.1"))]
                go::<succinct_neo::rank_select::flat_popcount::SimdSearch>(&v);
            }
        }
    }
}
fn all_positions_cases(t: bool, f: Feed) {
    for n in (0..=if t { 2100 } else { 530 }).chain([1023, 1024, 1025, 4095, 4096, 4097]) {
        f(&[n]);
    }
}
/// Every bit of a vector by every accessor, and every way to cut it in two.
fn all_positions(c: &[u64]) {
    let n = c[0] as usize;
    let mut v = made(n);
    for i in (0..n).chain([n, n + 1, n + 63, n + 64, MAX]) {
        read(&v, i);
        write(&mut v, i);
        call(|| BitModify::set_bit(&mut v, i, true));
        call(|| BitModify::flip_bit(&mut v, i));
        call(|| v.slice(i..).iter().nth(n.wrapping_sub(i).wrapping_sub(1)));
        call(|| v.slice(..i).iter().nth(i.wrapping_sub(1)));
        call(|| v.iter().nth(i));
        call(|| v.split_at(i).1.get(0));
        if let Some((mut l, mut r)) = call(|| v.split_at_mut(i)) {
            for j in [i.wrapping_sub(1), i] {
                call(|| l.flip(j));
            }
            for j in [0, n.wrapping_sub(i).wrapping_sub(1), n.wrapping_sub(i)] {
                call(|| r.flip(j));
            }
        }
    }
    unchecked_read(&v);
    unchecked_write(&mut v);
    call(|| v.iter().count() + (&v).into_iter().count() + format!("{v:?}").len());
    let w = v.clone();
    call(|| *w == *v);
}
fn any_window_cases(t: bool, f: Feed) {
    for w in 0..=if t { 4 } else { 2 } {
        for s in 0..64 * w + 70 {
            if t || w < 2 || s % 64 < 2 || s % 64 > 61 {
                f(&[w, s]);
            }
        }
    }
}
/// Every window, inside or beyond storage of a few words.
fn any_window(c: &[u64]) {
    let (w, s) = (c[0] as usize, c[1] as usize);
    let data: Box<[usize]> = (0..w).map(|i| 0x5555 << i).collect();
    for e in s..64 * w + 70 {
        probe(&BitSlice::new(&*data, s, e));
        let mut own = data.clone();
        let mut x = BitSlice::new(&mut *own, s, e);
        probe_mut(&mut x);
        for i in [e - s, (64 * w).wrapping_sub(s), (64 * w).wrapping_sub(s + 1)] {
            call(|| x.set(i, true));
            call(|| x.flip_bit(i));
            call(|| x.get(i));
        }
        if let Some((mut l, mut r)) = call(|| x.split_at_mut((e - s) / 2)) {
            probe_mut(&mut l);
            probe_mut(&mut r);
        }
        call(|| BitSlice::new(&data, s, e) == BitSlice::new(&*own, s, e));
        let mut it = Iter::new(&*data, s, e);
        call(|| it.nth((64 * w).wrapping_sub(s + 1)));
        call(|| (it.next(), it.next()));
        call(|| BitSlice::new(own, s, e).into_iter().count());
        let mut v = BitVec::new(64 * w);
        *v = BitSlice::new(data.clone(), s, e);
        call(|| BitModify::set_bit(&mut v, e - s, true));
        call(|| BitModify::flip_bit(&mut v, (64 * w).wrapping_sub(s)));
        if let Some(fp) = call(|| FlatPopcount::<BinarySearch>::new(&v)) {
            for i in [e - s, 64 * w, 64 * w + 1] {
                call(|| fp.rank::<true>(i));
                call(|| fp.select(i));
            }
        }
    }
}
fn any_value_window_cases(_t: bool, f: Feed) {
    for k in 0..5 {
        for s in (0..130).filter(|s| s % 8 < 2 || s % 8 == 7) {
            f(&[k, s]);
        }
    }
}
fn any_value_window(c: &[u64]) {
    for e in (c[1]..140).filter(|e| e % 8 < 2 || e - c[1] < 3) {
        values(&[c[0], c[1], e]);
    }
}
fn any_integers_cases(t: bool, f: Feed) {
    for w in 1..=64 {
        for n in 0..=if t { 700 } else { 70 } {
            f(&[w, n]);
        }
    }
}
/// Packed integers of every width and number, from several capacities.
fn any_integers(c: &[u64]) {
    let (w, n) = (c[0] as usize, c[1] as usize);
    let max = MAX >> (64 - w);
    // the last two capacities overflow when multiplied with the width
    for cap in [0, n, 2 * n, (1 << 63) / w * 2 + 2, MAX / w + 1] {
        if (cap.wrapping_mul(w) >> 6) > 1 << 20 {
            continue;
        }
        let Some(mut v) = call(|| IntVec::with_capacity(w, cap)) else { continue };
        for i in 0..n {
            call(|| v.push(if i % 2 == 0 { max } else { i & max }));
        }
        for i in [0, n / 2, n.wrapping_sub(2), n.wrapping_sub(1), n, n + 1, n + 64, MAX] {
            call(|| v.get(i));
            call(|| v.set(i, max));
            call(|| v.set(i, 0));
            call(|| v.iter().nth(i));
            if i < n {
                call(|| unsafe { v.get_unchecked(i) });
                call(|| unsafe { v.set_unchecked(i, max) });
            }
        }
        call(|| v.iter().count() + (&v).into_iter().count());
        call(|| {
            let mut it = v.into_iter();
            (it.nth(n / 2), it.len(), it.nth(n), it.next())
        });
    }
}
pub fn spaces() -> Vec<Space> {
    vec![
        Space { name: "last-queries", about: "every length up to the bound: rank at every word limit and at the end, select of the first and last ones", cases: last_queries_cases, run: last_queries },
        Space { name: "all-positions", about: "every length up to the bound: every position by every accessor, every split", cases: all_positions_cases, run: all_positions },
        Space { name: "any-window", about: "every window inside or beyond storage of a few words", cases: any_window_cases, run: any_window },
        Space { name: "any-value-window", about: "every window inside or beyond single integers", cases: any_value_window_cases, run: any_value_window },
        Space { name: "any-integers", about: "every width and number of packed integers up to the bound, five capacities", cases: any_integers_cases, run: any_integers },
    ]
}
