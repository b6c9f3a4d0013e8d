//! C09 to C12: packed integer vectors and storage layout.
use crate::engine::*;
use crate::slices::iterator_obeys;
use crate::util::*;
use crate::{ensure, ensure_eq};
use succinct_neo::int_vec::{IntAccess, IntVec};

type Feed<'a> = &'a mut dyn FnMut(&[u64]) -> bool;

pub fn max_of(w: usize) -> usize {
    usize::MAX >> (64 - w)
}
pub const VALS: u64 = 8;
/// Value i of pattern p in width w.
pub fn val(p: u64, i: usize, w: usize) -> usize {
    let m = max_of(w);
    m & match p {
        0 => 0,
        1 => usize::MAX,
        2 => i,
        3 => 1usize << (i % w),
        4 => if i % 2 == 0 { usize::MAX } else { 0 },
        5 => 0xAAAA_AAAA_AAAA_AAAA,
        6 => !(1usize << (i % w)),
        _ => (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) as usize >> 3,
    }
}
fn probes(w: usize) -> Vec<usize> {
    let m = max_of(w);
    let mut v = vec![0, m, 1, m ^ 1, 1 << (w - 1), m >> 1, m & 0x5555_5555_5555_5555];
    v.sort_unstable();
    v.dedup();
    v
}
pub fn build(w: usize, vals: &[usize]) -> IntVec {
    let mut v = IntVec::new(w);
    for &x in vals {
        v.push(x);
    }
    v
}
fn verify(v: &IntVec, m: &[usize], ctx: &dyn Fn() -> String) -> Res {
    ensure_eq!(m.is_empty(), v.is_empty(), "{}: is_empty", ctx());
    for (i, &e) in m.iter().enumerate() {
        ensure_eq!(e, v.get(i), "{}: get({i}) of {}", ctx(), m.len());
        ensure_eq!(e, unsafe { v.get_unchecked(i) }, "{}: get_unchecked({i}) of {}", ctx(), m.len());
    }
    ensure_eq!(m.len(), v.iter().count(), "{}: number of elements", ctx());
    Ok(())
}

// ------------------------------------------------------------------ C09

fn c09_width_cases(t: Tier, f: Feed) {
    for w in 1..=64 {
        for p in 0..VALS {
            if !f(&[w, p, t.pick(140, 400)]) {
                return;
            }
        }
    }
}
/// Every length up to the bound, and every single overwrite.
fn c09_width(c: &[u64], st: &mut St) -> Res {
    let (w, p, top) = (c[0] as usize, c[1], c[2] as usize);
    let mut v = IntVec::new(w);
    let mut m = vec![];
    let ctx = || format!("width {w}, pattern {p}");
    verify(&v, &m, &ctx)?;
    for i in 0..top {
        v.push(val(p, i, w));
        m.push(val(p, i, w));
        st.step(1);
        st.state(hash_words(w as u64, &m));
        verify(&v, &m, &ctx)?;
    }
    for i in 0..top {
        for (k, x) in probes(w).into_iter().enumerate() {
            if k % 2 == 0 {
                v.set(i, x)
            } else {
                unsafe { v.set_unchecked(i, x) }
            }
            st.step(1);
            let old = std::mem::replace(&mut m[i], x);
            // neighbours share words with i; all elements are compared for one of the values
            if k == 0 {
                verify(&v, &m, &|| format!("width {w}, pattern {p}, after set({i}, {x:#x})"))?;
            } else {
                for j in i.saturating_sub(65)..(i + 66).min(top) {
                    ensure_eq!(m[j], v.get(j), "width {w}, pattern {p}: get({j}) after set({i}, {x:#x})");
                }
            }
            st.state(hash_words(w as u64, &[p as usize, i, x]));
            m[i] = old;
            v.set(i, old);
        }
    }
    verify(&v, &m, &ctx)
}
fn c09_seq_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        // every phase of an element relative to the words
        let phases = 64 / gcd(w, 64);
        for pre in 0..phases.max(3) {
            for bg in [0, 1, 7] {
                if !f(&[w, pre, bg, t.pick(3, 4)]) {
                    return;
                }
            }
        }
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// All sequences of pushes and sets from every phase.
fn c09_seq(c: &[u64], st: &mut St) -> Res {
    let (w, pre, bg, depth) = (c[0] as usize, c[1] as usize, c[2], c[3] as usize);
    let mx = max_of(w);
    let vals = [0, mx, mx & 0x6666_6666_6666_6666 | 1];
    let base: Vec<usize> = (0..pre).map(|i| val(bg, i, w)).collect();
    let mut r = Ok(());
    words(12, depth, &mut |ws| {
        let mut m = base.clone();
        let mut v = build(w, &base);
        let res = (|| -> Res {
            for &x in ws {
                let value = vals[(x % 3) as usize];
                let back = (x / 3) as usize;
                if back == 0 || back > m.len() {
                    v.push(value);
                    m.push(value);
                } else {
                    let i = m.len() - back;
                    if x % 2 == 0 {
                        v.set(i, value)
                    } else {
                        unsafe { v.set_unchecked(i, value) }
                    }
                    m[i] = value;
                }
                st.step(1);
            }
            verify(&v, &m, &|| format!("width {w}, {pre} elements of pattern {bg}, operations {ws:?}"))?;
            // what comes afterwards must not be disturbed
            v.push(mx);
            m.push(mx);
            v.push(0);
            m.push(0);
            verify(&v, &m, &|| format!("width {w}, {pre} elements of pattern {bg}, operations {ws:?} and two pushes"))
        })();
        st.traces += 1;
        st.state(hash_words(w as u64, &m));
        r = res;
        r.is_ok()
    });
    r
}
fn c09_graph_cases(_t: Tier, f: Feed) {
    for w in 1..=64u64 {
        if !f(&[w]) {
            return;
        }
    }
}
/// Reachable contents of short vectors over three values: every push and set from every state.
fn c09_graph(c: &[u64], st: &mut St) -> Res {
    let w = c[0] as usize;
    let mx = max_of(w);
    let mut vals = vec![0, mx, mx / 2 + 1];
    vals.sort_unstable();
    vals.dedup();
    let maxlen = 5;
    let mut seen: std::collections::HashSet<Vec<usize>> = Default::default();
    let mut todo: std::collections::VecDeque<Vec<usize>> = Default::default();
    todo.push_back(vec![]);
    seen.insert(vec![]);
    while let Some(s) = todo.pop_front() {
        st.state(hash_words(w as u64 + 1000, &s));
        let mut nexts = vec![];
        for (k, &x) in vals.iter().enumerate() {
            if s.len() < maxlen {
                let mut v = build(w, &s);
                v.push(x);
                let mut m = s.clone();
                m.push(x);
                verify(&v, &m, &|| format!("width {w}: push({x:#x}) on {s:x?}"))?;
                st.step(1);
                nexts.push(m);
            }
            for i in 0..s.len() {
                let mut v = build(w, &s);
                if k == 0 {
                    unsafe { v.set_unchecked(i, x) }
                } else {
                    v.set(i, x);
                }
                let mut m = s.clone();
                m[i] = x;
                verify(&v, &m, &|| format!("width {w}: set({i}, {x:#x}) on {s:x?}"))?;
                st.step(1);
                nexts.push(m);
            }
        }
        for n in nexts {
            if seen.insert(n.clone()) {
                todo.push_back(n);
            }
        }
    }
    Ok(())
}
fn c09_cap_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for cap in (0..=t.pick(70, 300)).chain([128, 200, 512, 1000, 4096, 100_000]) {
            if !f(&[w, cap]) {
                return;
            }
        }
    }
}
fn c09_cap(c: &[u64], st: &mut St) -> Res {
    let (w, cap) = (c[0] as usize, c[1] as usize);
    let mut v = IntVec::with_capacity(w, cap);
    let mut m = vec![];
    let n = cap.min(300) + 130;
    for i in 0..n {
        let x = val(7, i, w);
        v.push(x);
        m.push(x);
        st.step(1);
        if i % 64 == 0 || i + 3 > cap && i < cap + 3 {
            verify(&v, &m, &|| format!("width {w}, initial capacity {cap}"))?;
        }
    }
    verify(&v, &m, &|| format!("width {w}, initial capacity {cap}"))?;
    st.state(mix(w as u64, cap as u64));
    Ok(())
}
fn c09_long_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for p in [1u64, 7] {
            if !f(&[w, p, t.pick(20_000, 1_000_000)]) {
                return;
            }
        }
    }
}
fn c09_long(c: &[u64], st: &mut St) -> Res {
    let (w, p, n) = (c[0] as usize, c[1], c[2] as usize);
    let mut v = IntVec::new(w);
    for i in 0..n {
        v.push(val(p, i, w));
    }
    for i in (0..n).step_by(3) {
        v.set(i, max_of(w) ^ val(p, i, w));
    }
    for i in 0..n {
        let e = if i % 3 == 0 { max_of(w) ^ val(p, i, w) } else { val(p, i, w) };
        ensure_eq!(e, v.get(i), "width {w}, pattern {p}, {n} elements: get({i})");
    }
    for (i, g) in v.iter().enumerate() {
        let e = if i % 3 == 0 { max_of(w) ^ val(p, i, w) } else { val(p, i, w) };
        ensure_eq!(e, g, "width {w}, pattern {p}, {n} elements: element {i} of the iteration");
    }
    st.step(3 * n as u64);
    st.state(mix(w as u64, p));
    Ok(())
}
fn c09_huge_cases(t: Tier, f: Feed) {
    for (w, n) in [(64u64, (1u64 << 26) + 3), (63, (1 << 26) + (1 << 21)), (33, (1 << 27) + (1 << 22))] {
        if !f(&[w, n]) {
            return;
        }
    }
    // more than 2^32 integers as well
    if (t == Tier::Thorough || !cfg!(debug_assertions)) && !f(&[1, (1 << 32) + 100]) {
        return;
    }
    if t == Tier::Thorough {
        for (w, n) in [(7u64, (1u64 << 32) / 7 + 100), (2, (1 << 31) + 77), (13, (1 << 33) / 13 + 50), (31, (1 << 33) / 31 + 50)] {
            if !f(&[w, n]) {
                return;
            }
        }
    }
}
/// More than 2^32 bits in total.
fn c09_huge(c: &[u64], st: &mut St) -> Res {
    let (w, n) = (c[0] as usize, c[1] as usize);
    let mut v = IntVec::with_capacity(w, n + 64);
    for i in 0..n {
        v.push(val(7, i, w));
    }
    st.step(n as u64);
    let mut at: Vec<usize> = vec![];
    for b in [0, 1 << 16, 1 << 31, 1 << 32, 1 << 33] {
        let i = b / w;
        for d in 0..140 {
            at.push((i + d).saturating_sub(70));
        }
    }
    at.extend(n - 70..n);
    at.retain(|&i| i < n);
    at.sort_unstable();
    at.dedup();
    for &i in &at {
        ensure_eq!(val(7, i, w), v.get(i), "width {w}, {n} elements: get({i})");
        st.state(mix(w as u64, i as u64));
    }
    for &i in &at {
        v.set(i, max_of(w) ^ val(7, i, w));
        st.step(1);
        for j in [i.wrapping_sub(1), i + 1] {
            if j < n && !at.contains(&j) {
                ensure_eq!(val(7, j, w), v.get(j), "width {w}, {n} elements: get({j}) after set({i})");
            }
        }
    }
    for &i in &at {
        ensure_eq!(max_of(w) ^ val(7, i, w), v.get(i), "width {w}, {n} elements: get({i}) after overwriting");
    }
    for i in (0..n).step_by(4099) {
        if !at.contains(&i) {
            ensure_eq!(val(7, i, w), v.get(i), "width {w}, {n} elements: get({i}) at the end");
        }
    }
    Ok(())
}
/// Capacities up to the largest integer: creating the vector may fail, but not result in one that
/// does not work.
fn c09_room_cases(_t: Tier, f: Feed) {
    let mut v = vec![];
    for k in 34..64 {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)]);
    }
    v.extend((0..4).map(|d| u64::MAX - d));
    for w in [1u64, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64] {
        // the number of bits wraps to a small number
        let wraps = ((1u128 << 64) / w as u128) as u64;
        for &cap in v.iter().chain(&[wraps, wraps.wrapping_add(1), wraps.wrapping_add(8)]) {
            if !f(&[w, cap]) {
                return;
            }
        }
    }
}
fn c09_room(c: &[u64], st: &mut St) -> Res {
    let (w, cap) = (c[0] as usize, c[1] as usize);
    st.step(1);
    st.state(mix(c[0], c[1]));
    st.traces += 1;
    let end = in_child(|| {
        let mut v = std::hint::black_box(IntVec::with_capacity(w, std::hint::black_box(cap)));
        ensure!(v.is_empty(), "a new vector with initial capacity {cap} is not empty");
        let mut m = vec![];
        let mut r = Ok(());
        let works = !panics(|| {
            for i in 0..150 {
                let x = val(7, i, w);
                v.push(x);
                m.push(x);
            }
            r = verify(&v, &m, &|| format!("width {w}, initial capacity {cap}"));
        });
        ensure!(works, "a vector of width {w} with initial capacity {cap} was created, but cannot be used ({})", last_panic());
        r
    });
    match end {
        End::Done(r) => {
            st.outcome(1);
            r
        }
        End::Refused => {
            st.outcome(2);
            Ok(())
        }
        End::Died(sig) => fail(format!("creating a vector of width {w} with initial capacity {cap} ended with signal {sig}")),
    }
}

pub fn c09() -> Vec<Space> {
    vec![
        Space { name: "graph", about: "every width: all states of up to five elements over three values, every push and set from each", cases: c09_graph_cases, run: c09_graph, serial: false },
        Space { name: "sequences", about: "every width and phase: all sequences of pushes and sets up to the depth in the last coordinate", cases: c09_seq_cases, run: c09_seq, serial: false },
        Space { name: "widths", about: "every width and length, eight value patterns, every single overwrite with seven values, checked and unchecked", cases: c09_width_cases, run: c09_width, serial: false },
        Space { name: "capacities", about: "every width and initial capacity", cases: c09_cap_cases, run: c09_cap, serial: false },
        Space { name: "room", about: "initial capacities up to the largest integer, each in a process of its own with little memory: refused, or working", cases: c09_room_cases, run: c09_room, serial: false },
        Space { name: "long", about: "every width, long vectors", cases: c09_long_cases, run: c09_long, serial: false },
        Space { name: "huge", about: "vectors whose bits exceed 2^32", cases: c09_huge_cases, run: c09_huge, serial: false },
    ]
}

// ------------------------------------------------------------------ C10

fn oversized(w: usize) -> Vec<usize> {
    if w == 64 {
        return vec![];
    }
    let m = max_of(w);
    let mut v = vec![m + 1, m + 2, usize::MAX, usize::MAX - 1, usize::MAX ^ m, 1 << 63, (m + 1) | 1, (m + 1) | m, 1usize << 32];
    for b in w..64 {
        v.push(1 << b);
        v.push(1 << b | 1);
    }
    v.retain(|&x| x > m);
    v.sort_unstable();
    v.dedup();
    v
}
fn bad_indices(w: usize, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (n..n + 66).collect();
    v.extend([1 << 32, (1 << 32) + 1, 1 << 58, 1 << 62, 1 << 63, usize::MAX - 1, usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1]);
    // indices whose bit position wraps around to the start
    for k in 1..=w.min(16) {
        let i = ((k as u128) << 64).div_ceil(w as u128);
        if i <= usize::MAX as u128 {
            v.extend([i as usize, (i + 1).min(usize::MAX as u128) as usize, i as usize - 1]);
        }
    }
    v.retain(|&i| i >= n);
    v.sort_unstable();
    v.dedup();
    v
}
fn c10_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for n in (0..=t.pick(24, 140)).chain([63, 64, 65, 127, 128, 129]) {
            if !f(&[w, n]) {
                return;
            }
        }
    }
}
fn c10_run(c: &[u64], st: &mut St) -> Res {
    let (w, n) = (c[0] as usize, c[1] as usize);
    for p in [0u64, 1, 7] {
        let mut m: Vec<usize> = (0..n).map(|i| val(p, i, w)).collect();
        let mut v = build(w, &m);
        let ctx = || format!("width {w}, {n} elements of pattern {p}, after rejected operations");
        for x in oversized(w) {
            ensure!(panics(|| v.push(x)), "width {w}, {n} elements: push({x:#x}) did not panic");
            st.step(1);
            st.outcome(1);
            ensure_eq!(n, v.iter().count(), "length {}", ctx());
            for i in [0, n / 2, n.wrapping_sub(1)] {
                if i < n {
                    ensure!(panics(|| v.set(i, x)), "width {w}, {n} elements: set({i}, {x:#x}) did not panic");
                    ensure_eq!(m[i], v.get(i), "get({i}) {}", ctx());
                    st.step(1);
                }
            }
        }
        verify(&v, &m, &ctx)?;
        for i in bad_indices(w, n) {
            st.step(4);
            ensure!(panics(|| v.get(i)), "width {w}, {n} elements: get({i}) did not panic");
            ensure!(panics(|| v.set(i, 0)), "width {w}, {n} elements: set({i}, 0) did not panic");
            ensure!(panics(|| v.set(i, max_of(w))), "width {w}, {n} elements: set({i}, max) did not panic");
            if w < 64 {
                ensure!(panics(|| v.set(i, usize::MAX)), "width {w}, {n} elements: set({i}, oversized) did not panic");
            }
        }
        verify(&v, &m, &ctx)?;
        // and it goes on as if nothing had happened
        for i in 0..70 {
            let x = val(7, i, w);
            v.push(x);
            m.push(x);
        }
        verify(&v, &m, &ctx)?;
        st.state(hash_words(p, &[w, n]));
    }
    Ok(())
}
fn c10_seq_cases(t: Tier, f: Feed) {
    for w in t.pick(vec![1u64, 2, 3, 7, 31, 32, 33, 63, 64], (1..=64).collect()) {
        for pre in [0, 1, 2, 63 / w, 64 / w, 127 / w] {
            if !f(&[w, pre, t.pick(4, 5)]) {
                return;
            }
        }
    }
}
/// All histories mixing accepted and rejected operations.
fn c10_seq(c: &[u64], st: &mut St) -> Res {
    let (w, pre, depth) = (c[0] as usize, c[1] as usize, c[2] as usize);
    let mx = max_of(w);
    let big = if w == 64 { None } else { Some(mx + 1) };
    let base: Vec<usize> = (0..pre).map(|i| val(7, i, w)).collect();
    let mut r = Ok(());
    words(9, depth, &mut |ws| {
        let mut m = base.clone();
        let mut v = build(w, &base);
        let res = (|| -> Res {
            for &x in ws {
                st.step(1);
                let n = m.len();
                let bad = match x {
                    0 => {
                        v.push(mx);
                        m.push(mx);
                        None
                    }
                    1 => {
                        v.push(0);
                        m.push(0);
                        None
                    }
                    2 if n > 0 => {
                        v.set(n - 1, mx / 2);
                        m[n - 1] = mx / 2;
                        None
                    }
                    3 => big.map(|b| panics(|| v.push(b))),
                    4 => big.map(|_| panics(|| v.push(usize::MAX))),
                    5 => Some(panics(|| v.set(n, 0))),
                    6 if n > 0 => big.map(|b| panics(|| v.set(n - 1, b))),
                    7 => Some(panics(|| v.get(n))),
                    8 => Some(panics(|| v.set(usize::MAX, mx))),
                    _ => None,
                };
                ensure!(bad != Some(false), "width {w}, {pre} elements, history {ws:?}: operation {x} did not panic");
                st.outcome(bad.is_some() as u64);
            }
            verify(&v, &m, &|| format!("width {w}, {pre} elements, history {ws:?}"))?;
            v.push(mx);
            m.push(mx);
            v.push(mx / 3);
            m.push(mx / 3);
            verify(&v, &m, &|| format!("width {w}, {pre} elements, history {ws:?} and two pushes"))
        })();
        st.traces += 1;
        st.state(hash_words(w as u64, &m));
        r = res;
        r.is_ok()
    });
    r
}
fn c10_new_cases(t: Tier, f: Feed) {
    for w in std::iter::once(0).chain(65..=t.pick(300, 2000)).chain([1 << 16, 1 << 31, 1 << 32, (1 << 32) + 8, 1 << 57, 1 << 58, 1 << 60, 1 << 63, u64::MAX - 63, u64::MAX - 1, u64::MAX]) {
        if !f(&[w]) {
            return;
        }
    }
}
fn c10_new(c: &[u64], st: &mut St) -> Res {
    let w = c[0] as usize;
    ensure!(panics(|| IntVec::new(w)), "creating a vector of width {w} did not panic");
    for cap in [0, 1, 7, 8, 64, 100] {
        ensure!(panics(|| IntVec::with_capacity(w, cap)), "creating a vector of width {w} and capacity {cap} did not panic");
    }
    st.step(7);
    st.state(c[0]);
    Ok(())
}
fn c10_long_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for n in t.pick(vec![1000u64, 4097, 65537], vec![1000, 4097, 65537, (1 << 20) + 1]) {
            if !f(&[w, n]) {
                return;
            }
        }
    }
    // more than 2^32 bits
    for w in [64, 63, 48, 33] {
        if !f(&[w, (1 << 32) / w + 70]) {
            return;
        }
    }
}
fn c10_long(c: &[u64], st: &mut St) -> Res {
    let (w, n) = (c[0] as usize, c[1] as usize);
    let mut v = IntVec::new(w);
    for i in 0..n {
        v.push(val(7, i, w));
    }
    let probes: Vec<usize> = (0..n).step_by((n / 500).max(1)).chain(n - 70..n).collect();
    let unchanged = |v: &IntVec, what: &str| -> Res {
        for &i in &probes {
            ensure_eq!(val(7, i, w), v.get(i), "width {w}, {n} elements: get({i}) after {what}");
        }
        ensure_eq!(n, v.iter().len(), "width {w}, {n} elements: length after {what}");
        Ok(())
    };
    for x in oversized(w) {
        ensure!(panics(|| v.push(x)), "width {w}, {n} elements: push({x:#x}) did not panic");
        for i in [0, n / 2, n - 2, n - 1] {
            ensure!(panics(|| v.set(i, x)), "width {w}, {n} elements: set({i}, {x:#x}) did not panic");
        }
        st.step(5);
    }
    unchanged(&v, "rejected values")?;
    let mut bad = bad_indices(w, n);
    for k in 8..64 {
        bad.extend([(1usize << k) - 1, 1 << k, n.wrapping_add(1 << k), ((1u128 << k) / w as u128) as usize + 1]);
    }
    bad.retain(|&i| i >= n);
    for i in bad {
        ensure!(panics(|| v.get(i)), "width {w}, {n} elements: get({i}) did not panic");
        ensure!(panics(|| v.set(i, 0)) && panics(|| v.set(i, max_of(w))), "width {w}, {n} elements: set({i}) did not panic");
        st.step(3);
        st.state(hash_words(16, &[w, n, i]));
    }
    unchanged(&v, "rejected indices")?;
    v.push(max_of(w));
    ensure_eq!(max_of(w), v.get(n), "width {w}, {n} elements: a value pushed after rejected operations");
    st.traces += 1;
    Ok(())
}
pub fn c10() -> Vec<Space> {
    vec![
        Space { name: "rejections", about: "every width and length: oversized values, indices from the length up to the largest integer including wrapping ones, contents afterwards", cases: c10_cases, run: c10_run, serial: false },
        Space { name: "histories", about: "all histories of accepted and rejected operations up to the depth in the last coordinate", cases: c10_seq_cases, run: c10_seq, serial: false },
        Space { name: "long", about: "every width, long vectors (also more than 2^32 bits): oversized values, indices around all powers of two and wrapping ones", cases: c10_long_cases, run: c10_long, serial: false },
        Space { name: "constructors", about: "width 0 and widths above 64", cases: c10_new_cases, run: c10_new, serial: false },
    ]
}

// ------------------------------------------------------------------ C11

fn int_iterators(w: usize, m: &[usize], deep: bool, st: &mut St) -> Res {
    let v = build(w, m);
    let c = |s: &str| format!("{s} of width {w}, {} elements", m.len());
    iterator_obeys(&mut |f| f(v.iter()), m, &c("iter()"), deep, st)?;
    iterator_obeys(&mut |f| f((&v).into_iter()), m, &c("(&v).into_iter()"), deep, st)?;
    iterator_obeys(&mut |f| f(build(w, m).into_iter()), m, &c("into_iter()"), deep, st)?;
    let mut k = 0;
    for x in &v {
        ensure_eq!(m.get(k), Some(&x), "for loop of width {w}: element {k}");
        k += 1;
    }
    ensure_eq!(m.len(), k, "for loop of width {w}");
    Ok(())
}
fn c11_small_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for n in 0..=t.pick(7, 9) {
            for p in 0..VALS {
                if !f(&[w, n, p]) {
                    return;
                }
            }
        }
    }
}
fn c11_small(c: &[u64], st: &mut St) -> Res {
    let w = c[0] as usize;
    let m: Vec<usize> = (0..c[1] as usize).map(|i| val(c[2], i, w)).collect();
    st.state(hash_words(c[0], &m));
    st.outcome(hash_words(0, &m));
    int_iterators(w, &m, true, st)
}
fn c11_contents_cases(t: Tier, f: Feed) {
    for (w, n) in t.pick(vec![(1u64, 8u64), (2, 5), (3, 4), (4, 3), (8, 2)], vec![(1, 10), (2, 6), (3, 5), (4, 4), (8, 2)]) {
        for k in 0..=n {
            for s in 0..1u64 << (w * k) {
                if !f(&[w, k, s]) {
                    return;
                }
            }
        }
    }
}
fn c11_contents(c: &[u64], st: &mut St) -> Res {
    let w = c[0] as usize;
    let m: Vec<usize> = (0..c[1]).map(|i| (c[2] >> (i * c[0])) as usize & max_of(w)).collect();
    st.state(hash_words(c[0] + 100, &m));
    int_iterators(w, &m, true, st)
}
fn c11_len_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for n in (0..=t.pick(700, 2000)).chain([1000, 4096, 10_000]) {
            if !f(&[w, n]) {
                return;
            }
        }
    }
}
fn c11_len(c: &[u64], st: &mut St) -> Res {
    let w = c[0] as usize;
    for p in [1, 7] {
        let m: Vec<usize> = (0..c[1] as usize).map(|i| val(p, i, w)).collect();
        st.state(hash_words(c[0], &m));
        int_iterators(w, &m, false, st)?;
    }
    Ok(())
}
/// Vectors that were overwritten, grew from another capacity, or saw rejected pushes before they are iterated.
fn c11_hist_cases(_t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for cap in [0, 1, 5, 64] {
            for n in [0u64, 1, 3, 64 / w, 64 / w + 1, 40] {
                if !f(&[w, cap, n]) {
                    return;
                }
            }
        }
    }
}
fn c11_hist(c: &[u64], st: &mut St) -> Res {
    let (w, cap, n) = (c[0] as usize, c[1] as usize, c[2] as usize);
    let mk = |upto: usize| {
        let mut v = IntVec::with_capacity(w, cap);
        for i in 0..n {
            v.push(val(1, i, w));
            if w < 64 {
                panics(|| v.push(usize::MAX));
            }
        }
        for i in 0..upto {
            v.set(i, val(7, i, w));
        }
        v
    };
    for upto in [0, n / 2, n] {
        let m: Vec<usize> = (0..n).map(|i| val(if i < upto { 7 } else { 1 }, i, w)).collect();
        let v = mk(upto);
        let ctx = format!("width {w}, capacity {cap}, {n} elements, {upto} overwritten");
        iterator_obeys(&mut |f| f(v.iter()), &m, &ctx, n <= 5, st)?;
        iterator_obeys(&mut |f| f(mk(upto).into_iter()), &m, &ctx, n <= 5, st)?;
        st.state(hash_words(c[0], &[cap, n, upto]));
    }
    Ok(())
}
fn c11_long_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for n in t.pick(vec![65537u64], vec![65537, (1 << 20) + 1]) {
            if !f(&[w, n]) {
                return;
            }
        }
    }
    for w in [1, 33, 64] {
        for n in t.pick(vec![(1u64 << 24) + 3], vec![(1 << 24) + 3, (1 << 27) + 3]) {
            if !f(&[w, n]) {
                return;
            }
        }
    }
}
/// Long vectors: stepped to the end, and jumped into from the front.
fn c11_long(c: &[u64], st: &mut St) -> Res {
    let (w, n) = (c[0] as usize, c[1] as usize);
    let mut v = IntVec::new(w);
    let value = |i: usize| i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - w);
    for i in 0..n {
        v.push(value(i));
    }
    fn walk(it: &mut (impl Iterator<Item = usize> + ExactSizeIterator), n: usize, value: &dyn Fn(usize) -> usize, what: &str, st: &mut St) -> Res {
        for i in 0..n {
            ensure_eq!((n - i, Some(n - i)), it.size_hint(), "{what}: size hint after {i} of {n}");
            ensure_eq!(n - i, it.len(), "{what}: length after {i} of {n}");
            ensure_eq!(Some(value(i)), it.next(), "{what}: step {i} of {n}");
        }
        for _ in 0..3 {
            ensure_eq!(None, it.next(), "{what}: step after the end of {n}");
            ensure_eq!((0, 0), (it.len(), it.size_hint().0), "{what}: length at the end of {n}");
        }
        st.step(n as u64);
        Ok(())
    }
    walk(&mut v.iter(), n, &value, "iter", st)?;
    walk(&mut (&v).into_iter(), n, &value, "into_iter of a reference", st)?;
    for k in 3..n.ilog2() {
        for j in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            let mut it = v.iter();
            ensure_eq!(Some(value(j)), it.nth(j), "width {w}: nth({j}) of {n}");
            ensure_eq!(n - j - 1, it.len(), "width {w}: length after nth({j}) of {n}");
            ensure_eq!(Some(value(j + 1)), it.next(), "width {w}: next after nth({j}) of {n}");
            ensure_eq!(None, it.nth(n - j - 2), "width {w}: nth to the end of {n}");
            st.step(3);
            st.state(hash_words(17, &[w, n, j]));
        }
    }
    walk(&mut v.into_iter(), n, &value, "into_iter", st)?;
    st.traces += 1;
    Ok(())
}
pub fn c11() -> Vec<Space> {
    vec![
        Space { name: "contents", about: "every content of short narrow vectors; every program of steps and every adaptor from every position", cases: c11_contents_cases, run: c11_contents, serial: false },
        Space { name: "widths", about: "every width, short vectors, eight value patterns; every program of steps and every adaptor from every position", cases: c11_small_cases, run: c11_small, serial: false },
        Space { name: "histories", about: "vectors that were overwritten, grown or refused a value before", cases: c11_hist_cases, run: c11_hist, serial: false },
        Space { name: "lengths", about: "every width and length up to the bound stepped to the end with exact sizes", cases: c11_len_cases, run: c11_len, serial: false },
        Space { name: "long", about: "every width, long vectors stepped to the end and jumped into at all powers of two", cases: c11_long_cases, run: c11_long, serial: false },
    ]
}

// ------------------------------------------------------------------ C12

fn layout_bits(m: &[bool]) -> Vec<usize> {
    let mut w = vec![0usize; m.len().div_ceil(64)];
    for (i, &b) in m.iter().enumerate() {
        w[i / 64] |= (b as usize) << (i % 64);
    }
    w
}
fn c12_bits_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(4200, 20000) {
        for p in 0..PATTERNS {
            if !f(&[n, p]) {
                return;
            }
        }
    }
}
fn c12_bits(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let m = model(n, |i| pat(c[1], i, n));
    let bv = make_bits(&m);
    ensure_eq!(layout_bits(&m), bv.raw().to_vec(), "raw words of {}", show(&m));
    st.state(hash_bits(0, &m));
    // flipped altogether through one writer, set through the others; spare bits stay zero
    let mut b2 = bv.clone();
    ensure_eq!(layout_bits(&m), b2.raw().to_vec(), "raw words of a clone of {}", show(&m));
    for i in 0..n {
        flip_by(&mut b2, i as u64 % 7, i);
    }
    let inv = model(n, |i| !m[i]);
    ensure_eq!(layout_bits(&inv), b2.raw().to_vec(), "raw words after flipping all of {}", show(&m));
    for i in 0..n {
        set_by(&mut b2, (i as u64 + c[1]) % 7, i, m[i]);
    }
    ensure_eq!(layout_bits(&m), b2.raw().to_vec(), "raw words after restoring {}", show(&m));
    if n > 1 {
        let k = n / 2;
        let (mut l, mut r) = b2.split_at_mut(k);
        l.flip(k - 1);
        r.flip(n - k - 1);
        let mut w = m.clone();
        w[k - 1] = !w[k - 1];
        w[n - 1] = !w[n - 1];
        ensure_eq!(layout_bits(&w), b2.raw().to_vec(), "raw words after flipping through halves of {}", show(&m));
    }
    st.step(2 * n as u64 + 2);
    Ok(())
}
fn c12_small_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(14u64, 18) {
        for s in 0..1u64 << n {
            if !f(&[n, s]) {
                return;
            }
        }
    }
}
fn c12_small(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let m = model(n, |i| c[1] >> i & 1 == 1);
    let want = if n == 0 { vec![] } else { vec![c[1] as usize] };
    let bv = make_bits(&m);
    ensure_eq!(want, bv.raw().to_vec(), "raw words of {}", show(&m));
    st.state(mix(c[0], c[1]));
    for i in 0..n {
        for op in 0..3 {
            let mut b = bv.clone();
            apply(&mut b, op, i as u64 % 7, i);
            let mut x = m.clone();
            apply_model(&mut x, op, i);
            ensure_eq!(layout_bits(&x), b.raw().to_vec(), "raw words after op {op} at {i} of {}", show(&m));
            st.step(1);
        }
    }
    Ok(())
}
fn int_layout(v: &IntVec, w: usize, m: &[usize], ctx: &dyn Fn() -> String) -> Res {
    let raw = v.raw_data();
    let need = (m.len() * w).div_ceil(64);
    ensure!(raw.len() >= need && raw.len() <= need + 1, "{}: {} words for {} values that need {need}", ctx(), raw.len(), m.len());
    for (i, &x) in m.iter().enumerate() {
        let p = i * w;
        let lo = raw[p / 64] >> (p % 64);
        let got = if p % 64 + w > 64 { lo | raw[p / 64 + 1] << (64 - p % 64) } else { lo } & max_of(w);
        ensure_eq!(x, got, "{}: raw bits of value {i} of {}", ctx(), m.len());
    }
    Ok(())
}
fn c12_ints_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for p in 0..VALS {
            if !f(&[w, p, t.pick(600, 2000)]) {
                return;
            }
        }
    }
}
fn c12_ints(c: &[u64], st: &mut St) -> Res {
    let (w, p, top) = (c[0] as usize, c[1], c[2] as usize);
    for cap in [0, 8, 100] {
        let mut v = if cap == 8 { IntVec::new(w) } else { IntVec::with_capacity(w, cap) };
        let mut m = vec![];
        int_layout(&v, w, &m, &|| format!("width {w}, capacity {cap}, empty"))?;
        for i in 0..top {
            let x = val(p, i, w);
            v.push(x);
            m.push(x);
            st.step(1);
            int_layout(&v, w, &m, &|| format!("width {w}, capacity {cap}, pattern {p}"))?;
            st.state(hash_words(p, &[w, i, cap]));
        }
        // overwrite in every order of neighbours, refuse some
        for i in 0..top {
            let x = max_of(w) ^ m[i];
            v.set(i, x);
            m[i] = x;
            if w < 64 && i % 8 == 0 {
                panics(|| v.push(usize::MAX));
                panics(|| v.set(i, usize::MAX));
            }
            st.step(1);
            if i % 4 == 0 {
                int_layout(&v, w, &m, &|| format!("width {w}, capacity {cap}, pattern {p}, after set({i})"))?;
            }
        }
        int_layout(&v, w, &m, &|| format!("width {w}, capacity {cap}, pattern {p}, overwritten"))?;
    }
    Ok(())
}
fn c12_cap_cases(_t: Tier, f: Feed) {
    for w in 1..=64u64 {
        if !f(&[w]) {
            return;
        }
    }
}
fn c12_cap(c: &[u64], st: &mut St) -> Res {
    let w = c[0] as usize;
    for cap in (0..200).chain([1000, 1 << 20]) {
        let mut v = IntVec::with_capacity(w, cap);
        let mut m = vec![];
        for i in 0..20 {
            int_layout(&v, w, &m, &|| format!("width {w}, capacity {cap}, {i} values"))?;
            v.push(val(7, i, w));
            m.push(val(7, i, w));
            st.step(1);
        }
        st.state(mix(c[0], cap as u64));
    }
    Ok(())
}
fn c12_long_cases(t: Tier, f: Feed) {
    for k in 12..=t.pick(33u64, 34) {
        for n in [(1 << k) - 65, (1 << k) - 64, (1 << k) - 63, (1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 63, (1 << k) + 64, (1 << k) + 65, 3 << (k - 1)] {
            if !f(&[n]) {
                return;
            }
        }
    }
}
/// The words of long vectors: their number, and where single bits are.
fn c12_long(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let mut bv = succinct_neo::bit_vec::BitVec::new(n);
    let words = n.div_ceil(64);
    ensure_eq!(words, bv.raw().len(), "words of a vector of {n} bits");
    let probes = crate::bits::big_probes(n);
    for (x, &i) in probes.iter().enumerate() {
        ensure_eq!(0, bv.raw()[i / 64], "word {} of a new vector of {n} bits", i / 64);
        apply(&mut bv, 1 + x as u64 % 2, x as u64 % WRITERS, i);
        ensure_eq!(1usize << (i % 64), bv.raw()[i / 64], "word {} of {n} bits after writing bit {i}", i / 64);
        for near in [i / 64 + 1, (i / 64).wrapping_sub(1), 0, words - 1] {
            ensure!(near >= words || near == i / 64 || bv.raw()[near] == 0, "word {near} of {n} bits after writing bit {i}");
        }
        apply(&mut bv, 0, x as u64 % WRITERS, i);
        st.step(2);
        st.state(mix(c[0], i as u64));
    }
    for &i in &probes {
        bv.set(i, true);
    }
    let copy = if n <= 1 << 28 { Some(bv.clone()) } else { None };
    for v in [Some(&bv), copy.as_ref()].into_iter().flatten() {
        ensure_eq!(words, v.raw().len(), "words of a vector of {n} bits");
        let ones: usize = if n <= 1 << 28 { v.raw().iter().map(|w| w.count_ones() as usize).sum() } else { probes.len() };
        ensure_eq!(probes.len(), ones, "ones in the words of a vector of {n} bits with {} ones", probes.len());
        for &i in &probes {
            ensure!(v.raw()[i / 64] >> (i % 64) & 1 == 1, "bit {i} of {n} is not in word {}", i / 64);
        }
    }
    st.traces += 1;
    Ok(())
}
fn c12_many_cases(t: Tier, f: Feed) {
    for w in 1..=64u64 {
        for n in t.pick(vec![4096u64, 65537, 300_001], vec![4096, 65537, 300_001, 1 << 20, (1 << 24) + 1]) {
            if !f(&[w, n]) {
                return;
            }
        }
    }
    // more than 2^32 bits
    for (w, n) in [(64, (1 << 26) + 3), (63, (1 << 32) / 63 + 70), (33, (1 << 32) / 33 + 70)] {
        if !f(&[w, n]) {
            return;
        }
    }
}
fn c12_many(c: &[u64], st: &mut St) -> Res {
    let (w, n) = (c[0] as usize, c[1] as usize);
    let mut v = IntVec::new(w);
    let value = |i: usize| i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - w);
    for i in 0..n {
        v.push(value(i));
        // the number of words, at every length
        let need = ((i + 1) * w).div_ceil(64);
        ensure!(v.raw_data().len() >= need && v.raw_data().len() <= need + 1, "width {w}: {} words for {} values that need {need}", v.raw_data().len(), i + 1);
    }
    st.step(n as u64);
    let raw = v.raw_data();
    for i in 0..n {
        let p = i * w;
        let lo = raw[p / 64] >> (p % 64);
        let got = if p % 64 + w > 64 { lo | raw[p / 64 + 1] << (64 - p % 64) } else { lo } & max_of(w);
        ensure_eq!(value(i), got, "width {w}: raw bits of value {i} of {n}");
    }
    st.state(mix(c[0], c[1]));
    st.traces += 1;
    Ok(())
}
pub fn c12() -> Vec<Space> {
    vec![
        Space { name: "bit-contents", about: "every content of short bit vectors and every single write", cases: c12_small_cases, run: c12_small, serial: false },
        Space { name: "bit-lengths", about: "every length up to the bound, eight patterns, written through every writer", cases: c12_bits_cases, run: c12_bits, serial: false },
        Space { name: "int-widths", about: "every width, eight value patterns, every length, pushes, overwrites and refusals", cases: c12_ints_cases, run: c12_ints, serial: false },
        Space { name: "int-capacities", about: "every width and initial capacity", cases: c12_cap_cases, run: c12_cap, serial: false },
        Space { name: "bit-long", about: "lengths around all powers of two to 2^33; the number of words and the place of bits at all power-of-two boundaries", cases: c12_long_cases, run: c12_long, serial: false },
        Space { name: "int-long", about: "every width, many values, the number of words at every length; more than 2^32 bits", cases: c12_many_cases, run: c12_many, serial: false },
    ]
}
